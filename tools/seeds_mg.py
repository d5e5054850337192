M = 'src/math/'; G = 'src/geometry/'
H = '''#![allow(unused)]
use kami::math::vector::Vector3;
use kami::math::bivector::Bivector3;
use kami::math::trivector::Trivector3;
use kami::math::rotor::Rotor3;
use kami::math::space::*;
use num_traits::Zero;
fn close(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn same(a: Vector3<f64>, b: Vector3<f64>) -> bool { close(a.a1, b.a1) && close(a.a2, b.a2) && close(a.a3, b.a3) }
'''
HG = '''#![allow(unused)]
use nalgebra_glm::Vec2;
use kami::geometry::utils::*;
use kami::geometry::polygon::*;
fn p(x: f32, y: f32) -> Vec2 { Vec2::new(x, y) }
'''
SEEDS = [
 dict(id='m01-bivector-chirality', prop='M01', edits={M+'bivector.rs': [
    ('            self.b3 * rhs.b2 - self.b2 * rhs.b3,\n            self.b1 * rhs.b3 - self.b3 * rhs.b1,\n            self.b2 * rhs.b1 - self.b1 * rhs.b2,\n        )\n    }', '            self.b2 * rhs.b3 - self.b3 * rhs.b2,\n            self.b3 * rhs.b1 - self.b1 * rhs.b3,\n            self.b1 * rhs.b2 - self.b2 * rhs.b1,\n        )\n    }'),
    ('            self.b3 * rhs.b2 - self.b2 * rhs.b3,\n            self.b1 * rhs.b3 - self.b3 * rhs.b1,\n            self.b2 * rhs.b1 - self.b1 * rhs.b2,\n        );', '            self.b2 * rhs.b3 - self.b3 * rhs.b2,\n            self.b3 * rhs.b1 - self.b1 * rhs.b3,\n            self.b1 * rhs.b2 - self.b2 * rhs.b1,\n        );')]},
  needs='two bivectors that do not commute, multiplied and compared with the vector products they come from; product and wedge are changed together, so product = dot + wedge still holds',
  breaks='the product of two bivectors has the wrong orientation: (xy)(yz) is -xz instead of xz, and products are no longer associative',
  demo=H+'''fn main() {
    // associativity: (x y)(y z) = x (y y) z = x z
    let (x, y, z) = (Vector3::<f64>::unit_x(), Vector3::unit_y(), Vector3::unit_z());
    let l = Rotor3::new((x * y).scalar, (x * y).bivector);
    let b = x.wedge(y) * y.wedge(z);
    let want = (x * z).bivector;
    assert!(close(b.bivector.b1, want.b1) && close(b.bivector.b2, want.b2) && close(b.bivector.b3, want.b3));
}'''),
 dict(id='m03-normalize-tiny', prop='M03', file=M+'bivector.rs', edits=[
    ('        self / self.norm()\n', '        let norm = self.norm();\n        if norm < T::from(1.0e-6).unwrap() {\n            return self;\n        }\n        self / norm\n')],
  needs='a non-zero bivector whose norm is below 1e-6', breaks='normalising a very small non-zero bivector returns it unchanged, so its norm is not 1',
  demo=H+'''fn main() {
    let b = Bivector3::new(3.0e-8f64, 0.0, 4.0e-8);
    assert!(close(b.normalize().norm(), 1.0));
    assert!(close(Bivector3::new(3.0f64, 0.0, 4.0).normalize().norm(), 1.0));
}'''),
 dict(id='m04-from-vectors-near-opposite', prop='M04', file=M+'rotor.rs', edits=[
    ('        let scalar = T::one() + v.dot(u);\n', '        let scalar = T::one() + v.dot(u);\n        if scalar < T::from(1.0e-3).unwrap() {\n            return Self::new(T::one(), Bivector3::new(T::zero(), T::zero(), T::zero()));\n        }\n')],
  needs='two unit vectors that are nearly, but not exactly, opposite (cosine below -0.999)', breaks='the rotor between nearly opposite unit vectors is the identity and does not take the first to the second',
  demo=H+'''fn main() {
    let u = Vector3::new(1.0f64, 0.0, 0.0);
    for t in [0.3f64, 1.0, 2.0, 3.0, 3.12, 3.14] .iter() {
        let v = Vector3::new(t.cos(), t.sin(), 0.0);
        assert!(same(Rotor3::from_vectors(u, v).rotate(u), v), "angle {}", t);
    }
}'''),
 dict(id='m05-angle-obtuse', prop='M05', file=M+'vector.rs', edits=[
    ('        let v_norm = rhs.normalize();\n', '        let v_norm = if self.dot(rhs) < T::zero() { -rhs.normalize() } else { rhs.normalize() };\n'),
    ("impl<T> Vector3<T>\nwhere\n    T: Float,\n{", "impl<T> Vector3<T>\nwhere\n    T: Float,\n{")],
  needs='two vectors at an obtuse angle', breaks='the angle of vectors at an obtuse angle is the acute one, so its cosine times the lengths is not the dot product',
  demo=H+'''fn main() {
    let u = Vector3::new(1.0f64, 0.0, 0.0);
    for v in [Vector3::new(1.0f64, 1.0, 0.5), Vector3::new(-1.0, 2.0, 0.0), Vector3::new(-1.0, 0.0, 0.0)].iter() {
        assert!(close(u.angle(*v).cos() * u.norm() * v.norm(), u.dot(*v)));
    }
}'''),
 dict(id='m06-bivector-zero', prop='M06', file=M+'bivector.rs', edits=[
    ('self.b1.is_zero() && self.b2.is_zero() && self.b3.is_zero()', 'self.b1.is_zero() && self.b3.is_zero()')],
  needs='a bivector with only an xz component', breaks='a non-zero bivector is recognised as zero',
  demo=H+'''fn main() {
    assert!(!Bivector3::new(0.0f64, -2.0, 0.0).is_zero());
    assert!(!Bivector3::new(0.0f64, 0.0, 1.0).is_zero());
    assert!(Bivector3::new(0.0f64, 0.0, 0.0).is_zero());
}'''),
 dict(id='m07-rotor-ulps', prop='M07', file=M+'rotor.rs', edits=[
    ('&& Bivector3::<T>::ulps_eq(&self.bivector, &other.bivector, epsilon, max_ulps)', '&& Bivector3::<T>::ulps_eq(&self.bivector, &other.bivector, epsilon, T::default_max_ulps())')],
  needs='an ulps comparison of rotors under a max_ulps other than the default', breaks='rotor ulps comparison ignores the caller\'s tolerance for the bivector part',
  demo=H+'''use approx::UlpsEq;
fn main() {
    let one = 1.0f64; let next = f64::from_bits(one.to_bits() + 20);
    let a = Rotor3::new(0.0, Bivector3::new(one, 0.0, 0.0));
    let b = Rotor3::new(0.0, Bivector3::new(next, 0.0, 0.0));
    assert!(a.ulps_eq(&b, 0.0, 50));
    assert!(!a.ulps_eq(&b, 0.0, 10));
}'''),
 dict(id='g02-intersect-touch', prop='G02', file=G+'polygon.rs', edits=[
    ('between(a, b, c) || between(a, b, d) || between(c, d, a) || between(c, d, b)', 'between(a, b, c) || between(a, b, d) || between(c, d, a)')],
  needs='a segment ab whose second endpoint lies in the interior of cd', breaks='a segment that ends on another one is reported not to meet it',
  demo=HG+'''fn main() {
    assert!(intersect(&p(0.0, 1.0), &p(0.0, 0.0), &p(-1.0, 0.0), &p(1.0, 0.0)));
    assert!(intersect(&p(0.0, 0.0), &p(0.0, 1.0), &p(-1.0, 0.0), &p(1.0, 0.0)));
    assert!(!intersect(&p(0.0, 0.5), &p(0.0, 1.0), &p(-1.0, 0.0), &p(1.0, 0.0)));
}'''),
 dict(id='g03-endpoint', prop='G03', file=G+'utils.rs', edits=[
    ('if s >= 0.0 && s <= 1.0 && t >= 0.0', 'if s >= 0.0 && s < 1.0 && t >= 0.0')],
  needs='segments that meet exactly in the second endpoint of the second one', breaks='no intersection point is returned for segments meeting in that endpoint',
  demo=HG+'''fn main() {
    assert_eq!(calculate_line_segment_intersection(&p(-1.0, 0.0), &p(1.0, 0.0), &p(0.0, 1.0), &p(0.0, 0.0)), Some(p(0.0, 0.0)));
    assert_eq!(calculate_line_segment_intersection(&p(-1.0, 0.0), &p(1.0, 0.0), &p(0.0, 0.0), &p(0.0, 1.0)), Some(p(0.0, 0.0)));
    assert_eq!(calculate_line_segment_intersection(&p(-1.0, 0.0), &p(1.0, 0.0), &p(0.0, 2.0), &p(0.0, 1.0)), None);
}'''),
 dict(id='g05-degenerate-order', prop='G05', file=G+'utils.rs', edits=[
    ('(side_a + side_b) <= side_c || (side_a + side_c) <= side_b || (side_b + side_c) <= side_a', '(side_a + side_b) <= side_c || (side_a + side_c) <= side_b || (side_b + side_c) < side_a')],
  needs='three collinear points with the first one between the other two', breaks='a flat triangle whose first vertex is between the others is not reported degenerate and gets an incenter',
  demo=HG+'''fn main() {
    let (a, b, c) = (p(0.0, 0.0), p(-1.0, 0.0), p(1.0, 0.0));
    assert!(is_degenerate_triangle(&a, &b, &c) && is_degenerate_triangle(&b, &a, &c) && is_degenerate_triangle(&b, &c, &a));
    assert!(calculate_triangle_incenter(&a, &b, &c).is_none());
}'''),
 dict(id='g06-line-3d', prop='G06', file=G+'line.rs', edits=[
    ('        bivector.ulps_eq(&Bivector3::zero(), std::f32::EPSILON, 4)', '        bivector.b1.ulps_eq(&0.0, std::f32::EPSILON, 4) && bivector.b2.ulps_eq(&0.0, std::f32::EPSILON, 4)')],
  needs='a line whose direction has no x component, and a point off it in the yz plane', breaks='a line perpendicular to the x axis is said to contain every point at its own x',
  demo='''use kami::math::vector::Vector3;
use kami::geometry::line::Line;
fn main() {
    let l = Line::new(&Vector3::new(0.0f32, 0.0, 0.0), &Vector3::new(0.0, 1.0, 0.0));
    assert!(l.contains(&Vector3::new(0.0, 2.0, 0.0)));
    assert!(!l.contains(&Vector3::new(0.0, 2.0, 1.0)));
}'''),
 dict(id='g04-midpoint-foot', prop='G04', file=G+'utils.rs', edits=[
    ('let denom = (b.y - a.y).powf(2.0) + (b.x - a.x).powf(2.0);', 'let denom = ((b.y - a.y).powf(2.0) + (b.x - a.x).powf(2.0)).max(1.0);')],
  needs='a segment shorter than 1', breaks='the perpendicular point of a short segment is not on its line',
  demo=HG+'''fn main() {
    for s in [0.25f32, 1.0, 4.0].iter() {
        let q = calculate_perpendicular_point(&p(0.0, 0.0), &p(*s, 0.0), &p(0.1, 3.0));
        assert!((q - p(0.1, 0.0)).norm() < 1e-4, "{:?}", q);
    }
}'''),
]
