//! Contracts of the geometry module (G01-G06), over the reals; concretely they run on the crate's f32 code.
use crate::cmath::Contract;
use crate::logic::*;
use crate::sym::{NEG, POS, ZERO};

pub type P<X> = [X; 2];

/// the functions under contract
pub trait Geo: S {
    fn area2(a: P<Self>, b: P<Self>, c: P<Self>) -> Self;
    fn left(a: P<Self>, b: P<Self>, c: P<Self>) -> bool;
    fn left_on(a: P<Self>, b: P<Self>, c: P<Self>) -> bool;
    fn collinear(a: P<Self>, b: P<Self>, c: P<Self>) -> bool;
    fn between(a: P<Self>, b: P<Self>, c: P<Self>) -> bool;
    fn intersect(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> bool;
    fn intersect_prop(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> bool;
    fn segment_intersection(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> Option<P<Self>>;
    fn line_intersection(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> Option<P<Self>>;
    fn midpoint(a: P<Self>, b: P<Self>) -> P<Self>;
    fn perpendicular_point(a: P<Self>, b: P<Self>, p: P<Self>) -> P<Self>;
    fn perpendicular_bisector(a: P<Self>, b: P<Self>, o: Self) -> (P<Self>, P<Self>);
    fn degenerate(a: P<Self>, b: P<Self>, c: P<Self>) -> bool;
    fn incenter(a: P<Self>, b: P<Self>, c: P<Self>) -> Option<(P<Self>, Self)>;
    fn on_segment(a: P<Self>, b: P<Self>, p: P<Self>, ends: bool) -> bool;
    fn close_to(a: P<Self>, b: P<Self>) -> bool;
    fn parallel(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> bool;
    fn line_contains(p: [Self; 3], d: [Self; 3], x: [Self; 3]) -> bool;
}

macro_rules! geo_impl {
    ($x:ty, $v2:ty, $($m:ident)::+, $to:expr, $from:expr, $v3:expr) => {
        impl Geo for $x {
            fn area2(a: P<Self>, b: P<Self>, c: P<Self>) -> Self { $from($($m)::+::polygon::area2(&$to(a), &$to(b), &$to(c))) }
            fn left(a: P<Self>, b: P<Self>, c: P<Self>) -> bool { $($m)::+::polygon::left(&$to(a), &$to(b), &$to(c)) }
            fn left_on(a: P<Self>, b: P<Self>, c: P<Self>) -> bool { $($m)::+::polygon::left_on(&$to(a), &$to(b), &$to(c)) }
            fn collinear(a: P<Self>, b: P<Self>, c: P<Self>) -> bool { $($m)::+::polygon::collinear(&$to(a), &$to(b), &$to(c)) }
            fn between(a: P<Self>, b: P<Self>, c: P<Self>) -> bool { $($m)::+::polygon::between(&$to(a), &$to(b), &$to(c)) }
            fn intersect(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> bool { $($m)::+::polygon::intersect(&$to(a), &$to(b), &$to(c), &$to(d)) }
            fn intersect_prop(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> bool { $($m)::+::polygon::intersect_prop(&$to(a), &$to(b), &$to(c), &$to(d)) }
            fn segment_intersection(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> Option<P<Self>> { $($m)::+::utils::calculate_line_segment_intersection(&$to(a), &$to(b), &$to(c), &$to(d)).map(|p| [$from(p.x), $from(p.y)]) }
            fn line_intersection(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> Option<P<Self>> { $($m)::+::utils::calculate_line_intersection(&$to(a), &$to(b), &$to(c), &$to(d)).map(|p| [$from(p.x), $from(p.y)]) }
            fn midpoint(a: P<Self>, b: P<Self>) -> P<Self> { let p = $($m)::+::utils::calculate_midpoint(&$to(a), &$to(b)); [$from(p.x), $from(p.y)] }
            fn perpendicular_point(a: P<Self>, b: P<Self>, q: P<Self>) -> P<Self> { let p = $($m)::+::utils::calculate_perpendicular_point(&$to(a), &$to(b), &$to(q)); [$from(p.x), $from(p.y)] }
            fn perpendicular_bisector(a: P<Self>, b: P<Self>, o: Self) -> (P<Self>, P<Self>) {
                let (p, q) = $($m)::+::utils::calculate_perpendicular_bisector(&$to(a), &$to(b), $to([o, o]).x);
                ([$from(p.x), $from(p.y)], [$from(q.x), $from(q.y)])
            }
            fn degenerate(a: P<Self>, b: P<Self>, c: P<Self>) -> bool { $($m)::+::utils::is_degenerate_triangle(&$to(a), &$to(b), &$to(c)) }
            fn incenter(a: P<Self>, b: P<Self>, c: P<Self>) -> Option<(P<Self>, Self)> { $($m)::+::utils::calculate_triangle_incenter(&$to(a), &$to(b), &$to(c)).map(|(p, r)| ([$from(p.x), $from(p.y)], $from(r))) }
            fn on_segment(a: P<Self>, b: P<Self>, p: P<Self>, e: bool) -> bool { $($m)::+::utils::is_on_line_segment(&$to(a), &$to(b), &$to(p), e) }
            fn close_to(a: P<Self>, b: P<Self>) -> bool { $($m)::+::utils::close_to(&$to(a), &$to(b)) }
            fn parallel(a: P<Self>, b: P<Self>, c: P<Self>, d: P<Self>) -> bool { $($m)::+::utils::parallel(&$to(a), &$to(b), &$to(c), &$to(d)) }
            fn line_contains(p: [Self; 3], d: [Self; 3], x: [Self; 3]) -> bool { $($m)::+::line::Line::new(&$v3(p), &$v3(d)).contains(&$v3(x)) }
        }
    };
}
fn from32(x: f32) -> Cv { Cv::of(x as f64) }
fn to32(p: P<Cv>) -> nalgebra_glm::Vec2 { nalgebra_glm::Vec2::new(p[0].v as f32, p[1].v as f32) }
fn v32(p: [Cv; 3]) -> kami::math::vector::Vector3<f32> { kami::math::vector::Vector3::new(p[0].v as f32, p[1].v as f32, p[2].v as f32) }
geo_impl!(Cv, nalgebra_glm::Vec2, kami::geometry, to32, from32, v32);

#[cfg(feature = "symgeo")]
mod symimpl {
    use super::*;
    use crate::shim::Vec2;
    use crate::sym::Sym;
    fn id(x: Sym) -> Sym { x }
    fn to(p: P<Sym>) -> Vec2 { Vec2::new(p[0], p[1]) }
    fn v3(p: [Sym; 3]) -> kami::math::vector::Vector3<Sym> { kami::math::vector::Vector3::new(p[0], p[1], p[2]) }
    geo_impl!(Sym, Vec2, crate::gen, to, id, v3);
}

fn pt<X: S>(n: &str) -> P<X> { [X::var(&format!("{}x", n)), X::var(&format!("{}y", n))] }
fn sub<X: S>(a: P<X>, b: P<X>) -> P<X> { [a[0] - b[0], a[1] - b[1]] }
fn add<X: S>(a: P<X>, b: P<X>) -> P<X> { [a[0] + b[0], a[1] + b[1]] }
fn sc<X: S>(k: X, a: P<X>) -> P<X> { [k * a[0], k * a[1]] }
fn cross<X: S>(a: P<X>, b: P<X>) -> X { a[0] * b[1] - a[1] * b[0] }
fn dot<X: S>(a: P<X>, b: P<X>) -> X { a[0] * b[0] + a[1] * b[1] }
fn n2<X: S>(a: P<X>) -> X { dot(a, a) }
fn eqp<X: S>(a: P<X>, b: P<X>) -> Fm<X> { and(vec![eq(a[0], b[0]), eq(a[1], b[1])]) }
fn nep<X: S>(a: P<X>, b: P<X>) -> Fm<X> { gt(n2(sub(a, b)), X::int(0)) }
fn z<X: S>() -> X { X::int(0) }
fn one<X: S>() -> X { X::int(1) }
fn eps<X: S>() -> X { X::rat(1, 1 << 23) }
/// twice the signed area
fn orient<X: S>(a: P<X>, b: P<X>, c: P<X>) -> X { cross(sub(b, a), sub(c, a)) }
/// c on the closed segment ab (a != b)
fn on<X: S>(a: P<X>, b: P<X>, c: P<X>) -> Fm<X> {
    and(vec![eq(orient(a, b, c), z()), ge(dot(sub(c, a), sub(b, a)), z()), ge(dot(sub(c, b), sub(a, b)), z())])
}
fn opposite<X: S>(x: X, y: X) -> Fm<X> { lt(x * y, z()) }
fn proper<X: S>(a: P<X>, b: P<X>, c: P<X>, d: P<X>) -> Fm<X> {
    and(vec![opposite(orient(a, b, c), orient(a, b, d)), opposite(orient(c, d, a), orient(c, d, b))])
}
fn meet<X: S>(a: P<X>, b: P<X>, c: P<X>, d: P<X>) -> Fm<X> {
    or(vec![proper(a, b, c, d), on(a, b, c), on(a, b, d), on(c, d, a), on(c, d, b)])
}
/// the code's answer `r` in terms of the signs of the four orientations; stating the spec over sign
/// atoms keeps the obligations linear
fn meet_signs<X: S>(a: P<X>, b: P<X>, c: P<X>, d: P<X>) -> Fm<X> {
    or(vec![proper_signs(a, b, c, d), on(a, b, c), on(a, b, d), on(c, d, a), on(c, d, b)])
}
fn opp_signs<X: S>(x: X, y: X) -> Fm<X> { or(vec![and(vec![gt(x, z()), lt(y, z())]), and(vec![lt(x, z()), gt(y, z())])]) }
fn proper_signs<X: S>(a: P<X>, b: P<X>, c: P<X>, d: P<X>) -> Fm<X> {
    and(vec![opp_signs(orient(a, b, c), orient(a, b, d)), opp_signs(orient(c, d, a), orient(c, d, b))])
}

// ---------------------------------------------------------------- G01
fn g01_area<X: Geo>() {
    let (a, b, c, t) = (pt::<X>("a"), pt("b"), pt("c"), pt("t"));
    let s = X::area2(a, b, c);
    X::prove("area2 is the signed double area", eq(s, orient(a, b, c)));
    X::prove("area2 is unchanged by cyclic rotation", and(vec![eq(X::area2(b, c, a), s), eq(X::area2(c, a, b), s)]));
    X::prove("area2 changes sign when two points are swapped", and(vec![eq(X::area2(b, a, c), -s), eq(X::area2(a, c, b), -s), eq(X::area2(c, b, a), -s)]));
    X::prove("area2 is unchanged by translation", eq(X::area2(add(a, t), add(b, t), add(c, t)), s));
}
fn g01_unit<X: Geo>() {
    let o = [z::<X>(), z()];
    X::prove("counter-clockwise is positive", gt(X::area2(o, [one(), z()], [z(), one()]), z()));
}
fn g01_left<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    let o = orient(a, b, c);
    X::prove("left: strictly left of ab", iff(X::left(a, b, c), gt(o, z())));
    X::prove("left of ba: strictly right of ab", iff(X::left(b, a, c), lt(o, z())));
}
fn g01_left_on<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    let o = orient(a, b, c);
    X::prove("left_on: left or collinear", iff(X::left_on(a, b, c), ge(o, z())));
}
fn g01_collinear<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    let o = orient(a, b, c);
    X::prove("collinear: zero area", iff(X::collinear(a, b, c), eq(o, z())));
}
fn g01_trichotomy<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    let (l, r, k) = (X::left(a, b, c), X::left(b, a, c), X::collinear(a, b, c));
    X::prove("exactly one of left, right, collinear", truth(l as u8 + r as u8 + k as u8 == 1));
    X::prove("left_on is left or collinear", truth(X::left_on(a, b, c) == (l || k)));
}

// ---------------------------------------------------------------- G02
fn g02_between<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    X::assume(nep(a, b));
    X::prove("between: exactly the points of the closed segment", iff(X::between(a, b, c), on(a, b, c)));
}
fn g02_between_swap<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    X::assume(nep(a, b));
    X::prove("between: the order of the endpoints does not matter", iff(X::between(b, a, c), on(a, b, c)));
}
fn g02_on_spec<X: Geo>() {
    // `on` is "c = a + t(b-a) for some t in [0,1]": both directions
    let (a, b) = (pt::<X>("a"), pt("b"));
    X::assume(nep(a, b));
    let t = X::var_in("t", 0.0, 1.0);
    let c0 = pt::<X>("c");
    let k = dot(sub(c0, a), sub(b, a)) / n2(sub(b, a));
    let w = add(a, sc(k, sub(b, a)));
    X::prove("lemma: a point that satisfies the sign conditions is a + t(b-a), t in [0,1]", imp(on(a, b, c0), and(vec![eqp(w, c0), ge(k, z()), le(k, one())])));
    X::assume(and(vec![ge(t, z()), le(t, one())]));
    let c = add(a, sc(t, sub(b, a)));
    X::prove("lemma: a + t(b-a) satisfies the sign conditions", on(a, b, c));
    X::prove("between holds for every point of the segment", truth(X::between(a, b, c)));
}
fn g02_prop<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    X::prove("intersect_prop: proper crossings", iff(X::intersect_prop(a, b, c, d), proper_signs(a, b, c, d)));
}
macro_rules! swapped {
    ($n:ident, $f:ident, $spec:ident, $pre:expr, $($i:literal)+) => {
        fn $n<X: Geo>() {
            let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
            if $pre {
                X::assume(nep(a, b));
                X::assume(nep(c, d));
            }
            X::prove(concat!(stringify!($f), ": unaffected by swapping"), {
                let q = [a, b, c, d];
                let w = [$(q[$i]),+];
                iff(X::$f(w[0], w[1], w[2], w[3]), $spec(a, b, c, d))
            });
        }
    };
}
swapped!(g02_prop_swap1, intersect_prop, proper_signs, false, 1 0 2 3);
swapped!(g02_prop_swap2, intersect_prop, proper_signs, false, 0 1 3 2);
swapped!(g02_prop_swap3, intersect_prop, proper_signs, false, 2 3 0 1);
swapped!(g02_swap1, intersect, meet_signs, true, 1 0 2 3);
swapped!(g02_swap2, intersect, meet_signs, true, 0 1 3 2);
swapped!(g02_swap3, intersect, meet_signs, true, 2 3 0 1);
fn g02_intersect<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    X::assume(nep(a, b));
    X::assume(nep(c, d));
    X::prove("intersect: proper crossing or an endpoint on the other segment", iff(X::intersect(a, b, c, d), meet_signs(a, b, c, d)));
}
fn g02_spec_sound<X: Geo>() {
    // a proper crossing has a common point interior to both (witness), given by the orientations
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    X::assume(opp_signs(o1, o2));
    X::assume(opp_signs(o3, o4));
    X::lemma("not parallel", and(vec![ne(o3 - o4, z()), ne(o1 - o2, z())]));
    let s = o3 / (o3 - o4);
    let t = o1 / (o1 - o2);
    X::prove("lemma: the witness parameters are strictly inside", and(vec![gt(s, z()), lt(s, one()), gt(t, z()), lt(t, one())]));
    X::prove("lemma: the witness is a common point", eqp(add(a, sc(s, sub(b, a))), add(c, sc(t, sub(d, c)))));
}
/// segments with a common point satisfy the specification: lemmas over the reals only, by cases on
/// which orientations vanish (the cases are exhaustive: see the last obligation)
fn common_point<X: Geo>() -> (P<X>, P<X>, P<X>, P<X>, [X; 4], X, X) {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let (s, t) = (X::var("s"), X::var("t"));
    X::assume(and(vec![ge(s, z()), le(s, one()), ge(t, z()), le(t, one())]));
    X::assume(nep(a, b));
    X::assume(nep(c, d));
    let o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)];
    X::assume(eqp(add(a, sc(s, sub(b, a))), add(c, sc(t, sub(d, c)))));
    X::lemma("(1-t) o1 + t o2 = 0", eq((one::<X>() - t) * o[0] + t * o[1], z()));
    X::lemma("(1-s) o3 + s o4 = 0", eq((one::<X>() - s) * o[2] + s * o[3], z()));
    (a, b, c, d, o, s, t)
}
fn g02_complete_none<X: Geo>() {
    if !X::SYM {
        return;
    }
    let (_, _, _, _, o, _, _) = common_point::<X>();
    X::assume(and(o.iter().map(|x| ne(*x, z())).collect()));
    X::prove("lemma: no orientation vanishes: proper crossing", and(vec![opp_signs(o[0], o[1]), opp_signs(o[2], o[3])]));
}
/// exactly one of the orientations of c, d relative to ab (or of a, b relative to cd) vanishes
fn g02_complete_one<X: Geo>() {
    if !X::SYM {
        return;
    }
    let k = X::choose("case", 4);
    let (a, b, c, d, o, s, t) = common_point::<X>();
    X::assume(eq(o[k], z()));
    X::assume(ne(o[k ^ 1], z()));
    let (end, par) = [(c, t), (d, one::<X>() - t), (a, s), (b, one::<X>() - s)][k];
    X::lemma("the common point is that end point", eq(par, z()));
    let (p, q, w) = if k < 2 { (a, b, s) } else { (c, d, t) };
    X::lemma("it is on the other segment", eqp(end, add(p, sc(w, sub(q, p)))));
    let l = n2(sub(q, p));
    X::lemma("its distance along it", eq(dot(sub(end, p), sub(q, p)), w * l));
    X::lemma("its distance back", eq(dot(sub(end, q), sub(p, q)), (one::<X>() - w) * l));
    X::lemma("both are not negative", and(vec![ge(w * l, z()), ge((one::<X>() - w) * l, z())]));
    X::prove("lemma: one orientation vanishes: an end point on the other segment", on(p, q, end));
}
/// both orientations of c, d relative to ab vanish
fn g02_complete_both<X: Geo>() {
    if !X::SYM {
        return;
    }
    let k = X::choose("case", 2);
    let (a, b, c, d, o, s, t) = common_point::<X>();
    let (a, b, c, d, o, s, t) = if k == 0 { (a, b, c, d, [o[0], o[1]], s, t) } else { (c, d, a, b, [o[2], o[3]], t, s) };
    X::assume(eq(o[0], z()));
    X::assume(eq(o[1], z()));
    let (u, v) = (sub(b, a), sub(d, c));
    let (l, m) = (n2(u), n2(v));
    // positions of c and d along ab, times |ab|^2
    let (pc, pd) = (dot(sub(c, a), u), dot(sub(d, a), u));
    X::lemma("position of the common point", eq((one::<X>() - t) * pc + t * pd, s * l));
    X::lemma("orientations of a and b relative to cd", and(vec![eq(orient(c, d, a) * l, z()), eq(orient(c, d, b) * l, z())]));
    X::lemma("they vanish", and(vec![eq(orient(c, d, a), z()), eq(orient(c, d, b), z())]));
    X::lemma("positions back", and(vec![eq(dot(sub(c, b), sub(a, b)), l - pc), eq(dot(sub(d, b), sub(a, b)), l - pd)]));
    // positions of a relative to cd
    let (qa, ra) = (dot(sub(a, c), v), dot(sub(a, d), sub(c, d)));
    X::lemma("position of a relative to cd", and(vec![eq(qa * l, -pc * (pd - pc)), eq(ra * l, pd * (pd - pc))]));
    let far = |p: X| or(vec![lt(p, z()), gt(p, l)]);
    X::lemma("if c and d are off ab, they are on different sides", imp(and(vec![far(pc), far(pd)]), or(vec![and(vec![lt(pc, z()), gt(pd, z())]), and(vec![gt(pc, z()), lt(pd, z())])])));
    let _ = m;
    X::lemma("then a is between c and d", imp(and(vec![far(pc), far(pd)]), and(vec![ge(qa * l, z()), ge(ra * l, z())])));
    X::lemma("then a is between c and d, divided", imp(and(vec![far(pc), far(pd)]), and(vec![ge(qa, z()), ge(ra, z())])));
    X::prove("lemma: both orientations vanish: an end point on the other segment", or(vec![on(a, b, c), on(a, b, d), on(c, d, a)]));
}

// ---------------------------------------------------------------- G03
fn g03_segments_some<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let (u, v) = (sub(b, a), sub(d, c));
    X::assume(ne(cross(u, v), z()));
    if let Some(p) = X::segment_intersection(a, b, c, d) {
        X::prove("the point lies on the first segment", near_on(a, b, p));
        X::prove("the point lies on the second segment", near_on(c, d, p));
    }
}
/// `on`, for a computed point
fn near_on<X: S>(a: P<X>, b: P<X>, p: P<X>) -> Fm<X> {
    and(vec![eq(orient(a, b, p), z()), ge(dot(sub(p, a), sub(b, a)), z()), ge(dot(sub(p, b), sub(a, b)), z())])
}
fn g03_segments_iff<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let (u, v) = (sub(b, a), sub(d, c));
    let det = cross(u, v);
    X::assume(ne(det, z()));
    // a + t u = c + s v has exactly one solution
    let t = cross(sub(c, a), v) / det;
    let s = cross(sub(c, a), u) / det;
    X::prove("lemma: the solution", eqp(add(a, sc(t, u)), add(c, sc(s, v))));
    let meets = and(vec![ge(t, z()), le(t, one()), ge(s, z()), le(s, one())]);
    // rounding of the parameters decides when they are within it of 0 or 1
    X::conc_assume(|| [t, s].iter().all(|x| [0.0, 1.0].iter().all(|y| (x.approx() - y).abs() > 1e-4 || x.approx() == *y)));
    X::conc_assume(|| (0..2).all(|_| t.approx().abs() > 1e-4 && s.approx().abs() > 1e-4 && (t.approx() - 1.0).abs() > 1e-4 && (s.approx() - 1.0).abs() > 1e-4) || det.approx().abs().log2().fract() == 0.0);
    X::prove("a point is returned exactly when the segments meet", iff(X::segment_intersection(a, b, c, d).is_some(), meets));
}
fn g03_solution_unique<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let (u, v) = (sub(b, a), sub(d, c));
    let det = cross(u, v);
    if !X::SYM {
        return;
    }
    X::assume(ne(det, z()));
    let (s, t) = (X::var("s"), X::var("t"));
    X::assume(eqp(add(a, sc(t, u)), add(c, sc(s, v))));
    X::prove("lemma: any common point has these parameters", and(vec![eq(t * det, cross(sub(c, a), v)), eq(s * det, cross(sub(c, a), u))]));
}
fn g03_segments_parallel<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    let d = if X::SYM { pt("d") } else { add(c, sc(X::var("k"), sub(b, a))) };
    if X::SYM {
        X::assume(eq(cross(sub(b, a), sub(d, c)), z()));
    }
    X::assume(nep(a, b));
    X::assume(nep(c, d));
    X::prove("parallel segments have no crossing point", truth(X::segment_intersection(a, b, c, d).is_none()));
}
fn g03_lines<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let det = cross(sub(b, a), sub(d, c));
    X::tol(2e-4);
    X::conc_assume(|| det.approx() == 0.0 || det.approx().abs() > 1e-3);
    match X::line_intersection(a, b, c, d) {
        Some(p) => {
            X::prove("a point is returned only for lines that are not nearly parallel", or(vec![gt(det, eps()), lt(det, -eps::<X>())]));
            X::conc_assume(|| det.approx().abs() > 0.9);
            X::prove("the point lies on the first line", eq(orient(a, b, p), z()));
            X::prove("the point lies on the second line", eq(orient(c, d, p), z()));
        }
        None => X::prove("nothing is returned only for nearly parallel lines", and(vec![le(det, eps()), ge(det, -eps::<X>())])),
    }
}

// ---------------------------------------------------------------- G04
fn g04_midpoint<X: Geo>() {
    let (a, b) = (pt::<X>("a"), pt("b"));
    let m = X::midpoint(a, b);
    X::prove("midpoint: equidistant from both endpoints", eq(n2(sub(m, a)), n2(sub(m, b))));
    X::prove("midpoint: a + (b-a)/2", eqp(m, add(a, sc(X::rat(1, 2), sub(b, a)))));
}
fn g04_foot<X: Geo>() {
    let (a, b, p) = (pt::<X>("a"), pt("b"), pt("p"));
    X::assume(nep(a, b));
    let q = X::perpendicular_point(a, b, p);
    X::prove("perpendicular point lies on the line ab", eq(orient(a, b, q), z()));
    X::prove("the vector from p to it is perpendicular to ab", eq(dot(sub(q, p), sub(b, a)), z()));
}
fn g04_bisector<X: Geo>() {
    let (a, b, o) = (pt::<X>("a"), pt("b"), X::var("offset"));
    X::assume(nep(a, b));
    let (m, q) = X::perpendicular_bisector(a, b, o);
    X::prove("bisector: first point is the midpoint", eqp(m, add(a, sc(X::rat(1, 2), sub(b, a)))));
    X::prove("bisector: the line through both points is perpendicular to ab", eq(dot(sub(q, m), sub(b, a)), z()));
    X::prove("bisector: the second point is |offset| away from the first", eq(n2(sub(q, m)), o * o));
}

// ---------------------------------------------------------------- G05
struct Tri<X> {
    a: P<X>,
    b: P<X>,
    c: P<X>,
    sa: X,
    sb: X,
    sc: X,
    k: X,
}
fn triangle<X: Geo>() -> Tri<X> {
    let (a, b) = (pt::<X>("a"), pt("b"));
    let mut c = pt("c");
    if !X::SYM {
        // concretely, sometimes collinear on a line where distances are exact
        match X::choose("shape", 4) {
            0 => c = add(a, sc(X::var("k"), sub(b, a))),
            1 => c = a,
            _ => {}
        }
    }
    let (sa, sb, s_c) = (n2(sub(c, b)).sqrt(), n2(sub(c, a)).sqrt(), n2(sub(b, a)).sqrt());
    let k = orient(a, b, c);
    let (x, y, w) = (sa + sb - s_c, sa + s_c - sb, sb + s_c - sa);
    X::lemma("Heron: 16 area^2 as a product", eq((sa + sb + s_c) * x * y * w, X::int(4) * k * k));
    X::lemma("sides are non-negative", and(vec![ge(sa, z()), ge(sb, z()), ge(s_c, z())]));
    Tri { a, b, c, sa, sb, sc: s_c, k }
}
fn exact_sides<X: Geo>(t: &Tri<X>) -> bool {
    let collinear = t.k.approx() == 0.0;
    !collinear && t.k.approx().abs() > 0.02 * (1.0 + n2(sub(t.a, t.b)).approx() + n2(sub(t.a, t.c)).approx())
        || collinear && [t.sa, t.sb, t.sc].iter().all(|s| s.exact())
}
fn g05_degenerate<X: Geo>() {
    let t = triangle::<X>();
    X::conc_assume(|| exact_sides(&t));
    let r = X::degenerate(t.a, t.b, t.c);
    X::prove("degenerate exactly when collinear", iff(r, eq(t.k, z())));
    X::prove("a degenerate triangle has no incenter, every other one has", iff(X::incenter(t.a, t.b, t.c).is_some(), ne(t.k, z())));
}
fn g05_incenter<X: Geo>() {
    let t = triangle::<X>();
    X::tol(1e-3);
    X::conc_assume(|| exact_sides(&t));
    X::assume(ne(t.k, z()));
    let (sa, sb, s_c) = (t.sa, t.sb, t.sc);
    let p = sa + sb + s_c;
    X::lemma("triangle inequalities are strict", and(vec![gt(sa, z()), gt(sb, z()), gt(s_c, z()), gt(sa + sb - s_c, z()), gt(sa + s_c - sb, z()), gt(sb + s_c - sa, z()), gt(p, z())]));
    let h = X::rat(1, 2);
    let q = p * h;
    X::lemma("Heron's product is positive", gt(q * (q - sa) * (q - sb) * (q - s_c), z()));
    if let Some((i, r)) = X::incenter(t.a, t.b, t.c) {
        let (ka, kb, kc) = (orient(t.b, t.c, i), orient(t.c, t.a, i), orient(t.a, t.b, i));
        X::prove("the inradius is positive", gt(r, z()));
        X::lemma("barycentric coordinates (a)", eq(ka * p, sa * t.k));
        X::lemma("barycentric coordinates (b)", eq(kb * p, sb * t.k));
        X::lemma("barycentric coordinates (c)", eq(kc * p, s_c * t.k));
        for (n, x, s) in [("a", ka, sa), ("b", kb, sb), ("c", kc, s_c)] {
            X::prove_positive_by(&format!("the incenter is inside ({})", n), x * t.k, p, s * t.k * t.k);
        }
        X::prove("distance to side bc is the inradius", eq(ka * ka, r * r * sa * sa));
        X::prove("distance to side ca is the inradius", eq(kb * kb, r * r * sb * sb));
        X::prove("distance to side ab is the inradius", eq(kc * kc, r * r * s_c * s_c));
    }
}

// ---------------------------------------------------------------- G06
/// concretely, b is reached from a by a vector of integer length
fn exact_segment<X: Geo>() -> (P<X>, P<X>, X) {
    let a = pt::<X>("a");
    if X::SYM {
        let b = pt("b");
        let l = n2(sub(b, a)).sqrt();
        (a, b, l)
    } else {
        let d = [[3, 4, 5], [4, 3, 5], [-3, 4, 5], [5, -12, 13], [1, 0, 1], [0, 1, 1], [-1, 0, 1], [0, -1, 1], [-8, -15, 17]][X::choose("dir", 9)];
        let m = [1, 2, 4, 8][X::choose("scale", 4)];
        let b = add(a, [X::int(d[0] * m), X::int(d[1] * m)]);
        (a, b, X::int(d[2] * m))
    }
}
fn g06_on_interior<X: Geo>() {
    let (a, b, l) = exact_segment::<X>();
    let t = if X::SYM { X::var("t") } else { X::rat(X::choose("t8", 9) as i64, 8) };
    X::assume(and(vec![ge(t, z()), le(t, one())]));
    let p = add(a, sc(t, sub(b, a)));
    let (ap, pb) = (n2(sub(p, a)).sqrt(), n2(sub(b, p)).sqrt());
    let (x, y) = (t * l, (one::<X>() - t) * l);
    X::lemma("|ap|^2 = (t|ab|)^2", eq(ap * ap, x * x));
    X::lemma("|pb|^2 = ((1-t)|ab|)^2", eq(pb * pb, y * y));
    X::lemma("t|ab| and (1-t)|ab| are not negative", and(vec![ge(x, z()), ge(y, z()), ge(ap, z()), ge(pb, z())]));
    X::lemma("|ap| = t|ab|", eq(ap, x));
    X::lemma("|pb| = (1-t)|ab|", eq(pb, y));
    X::assume(and(vec![gt(ap, eps()), gt(pb, eps())]));
    X::prove("an interior point is on the segment (endpoints included)", truth(X::on_segment(a, b, p, true)));
    X::prove("an interior point is on the segment (endpoints excluded)", truth(X::on_segment(a, b, p, false)));
}
fn g06_on_endpoints<X: Geo>() {
    let (a, b, _) = exact_segment::<X>();
    X::prove("the first endpoint is on it when included", truth(X::on_segment(a, b, a, true)));
    X::prove("the second endpoint is on it when included", truth(X::on_segment(a, b, b, true)));
    X::prove("the first endpoint is not on it when excluded", truth(!X::on_segment(a, b, a, false)));
    X::prove("the second endpoint is not on it when excluded", truth(!X::on_segment(a, b, b, false)));
}
fn g06_off<X: Geo>() {
    let (a, b, p) = (pt::<X>("a"), pt("b"), pt("p"));
    let (ab, ap, pb) = (n2(sub(b, a)).sqrt(), n2(sub(p, a)).sqrt(), n2(sub(b, p)).sqrt());
    X::assume(gt(ap + pb - ab, eps()));
    X::conc_assume(|| (ap + pb - ab).approx() > 1e-4);
    X::prove("a point off the segment is not on it (endpoints included)", truth(!X::on_segment(a, b, p, true)));
    X::prove("a point off the segment is not on it (endpoints excluded)", truth(!X::on_segment(a, b, p, false)));
}
fn g06_close<X: Geo>() {
    let mut a = pt::<X>("a");
    let b = if X::SYM {
        pt("b")
    } else {
        let h = (1.0 + X::choose("h", 40) as f64) / 10.0 * f32::EPSILON as f64;
        let dx = X::int(X::choose("dx", 3) as i64 - 1) * X::var_in("step", h, h);
        match X::choose("how", 4) { 0 => pt("b"), 3 => { a = [z(), z()]; [eps(), z()] } 1 => [a[0] + dx, a[1]], _ => [a[0], a[1] + dx] }
    };
    X::conc_assume(|| [a, b].iter().flatten().all(|x| x.v_is_f32()));
    let d = n2(sub(a, b)).sqrt();
    X::conc_assume(|| d.approx() == f32::EPSILON as f64 && d.exact() || (d.approx() - f32::EPSILON as f64).abs() > 1e-9);
    X::prove("close exactly when the distance is within the tolerance", iff(X::close_to(a, b), le(d, eps())));
}
fn g06_parallel<X: Geo>() {
    let (a, b, c) = (pt::<X>("a"), pt("b"), pt("c"));
    let d = if X::SYM { pt("d") } else {
        let u = sub(b, a);
        match X::choose("par", 3) {
            0 => add(c, sc(X::var("k"), u)),
            // almost parallel
            1 => { let h = [X::rat(1, 250), X::rat(-1, 100), X::rat(3, 100)][X::choose("turn", 3)]; add(c, sc(X::var("k"), add(u, sc(h, [-u[1], u[0]])))) }
            _ => pt("d"),
        }
    };
    let (u, v) = (sub(b, a), sub(d, c));
    let (qu, qv) = (n2(u), n2(v));
    X::assume(gt(qu, z()));
    X::assume(gt(qv, z()));
    let (nu, nv) = (qu.sqrt(), qv.sqrt());
    X::lemma("lengths are positive", and(vec![gt(nu, z()), gt(nv, z()), gt(nu * nv, z())]));
    let k = dot(u, v);
    let w = (nu * nv) * eps();
    X::conc_assume(|| cross(u, v).approx() == 0.0 && [u[0], u[1], v[0], v[1]].iter().filter(|x| x.approx() == 0.0).count() >= 2 || cross(u, v).approx().abs() > 3e-3 * (nu * nv).approx());
    // | |cos| - 1 | within the tolerance, multiplied by |u||v|
    let inside = |x: X| and(vec![lt(x - nu * nv, w), gt(x - nu * nv, -w)]);
    let outside = |x: X| or(vec![gt(x - nu * nv, w), lt(x - nu * nv, -w)]);
    let r = X::parallel(a, b, c, d);
    if X::SYM {
        X::assume(ge(k, z()));
        X::prove("parallel: cosine within the tolerance of 1", if r { not(outside(k)) } else { not(inside(k)) });
    } else {
        let k = if k.approx() < 0.0 { -k } else { k };
        X::prove("parallel: cosine within the tolerance of 1", if r { not(outside(k)) } else { not(inside(k)) });
    }
}
fn g06_antiparallel<X: Geo>() {
    let (a, b, c, d) = (pt::<X>("a"), pt("b"), pt("c"), pt("d"));
    let (u, v) = (sub(b, a), sub(d, c));
    let (qu, qv) = (n2(u), n2(v));
    if !X::SYM {
        return;
    }
    X::assume(gt(qu, z()));
    X::assume(gt(qv, z()));
    let (nu, nv) = (qu.sqrt(), qv.sqrt());
    X::lemma("lengths are positive", and(vec![gt(nu, z()), gt(nv, z()), gt(nu * nv, z())]));
    let k = dot(u, v);
    let w = (nu * nv) * eps();
    let r = X::parallel(a, b, c, d);
    X::assume(le(k, z()));
    let x = -k;
    let inside = and(vec![lt(x - nu * nv, w), gt(x - nu * nv, -w)]);
    let outside = or(vec![gt(x - nu * nv, w), lt(x - nu * nv, -w)]);
    X::prove("antiparallel: cosine within the tolerance of -1", if r { not(outside) } else { not(inside) });
}
fn g06_parallel_zero<X: Geo>() {
    let (a, c, d) = (pt::<X>("a"), pt("c"), pt("d"));
    X::prove("a zero direction is not parallel to anything (first)", truth(!X::parallel(a, a, c, d)));
    X::prove("a zero direction is not parallel to anything (second)", truth(!X::parallel(c, d, a, a)));
}
fn p3<X: S>(n: &str) -> [X; 3] { [X::var(&format!("{}1", n)), X::var(&format!("{}2", n)), X::var(&format!("{}3", n))] }
fn g06_line_on<X: Geo>() {
    let (p, d, t) = (p3::<X>("p"), p3::<X>("d"), X::var("t"));
    let x = [p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2]];
    X::conc_assume(|| x.iter().all(|c| c.v_is_f32()));
    X::approx_semantic(true);
    X::prove("a line contains point + t * direction", truth(X::line_contains(p, d, x)));
}
fn g06_line_off<X: Geo>() {
    let (p, d, x) = (p3::<X>("p"), p3::<X>("d"), p3::<X>("x"));
    let y = [x[0] - p[0], x[1] - p[1], x[2] - p[2]];
    let w = [y[0] * d[1] - y[1] * d[0], y[0] * d[2] - y[2] * d[0], y[1] * d[2] - y[2] * d[1]];
    X::assume(or(w.iter().flat_map(|c| vec![gt(*c, eps()), lt(*c, -eps::<X>())]).collect()));
    X::approx_semantic(true);
    X::prove("a line contains no point off it by more than the tolerance", truth(!X::line_contains(p, d, x)));
}

pub fn contracts<X: Geo>() -> Vec<Contract> {
    let _ = (NEG, ZERO, POS);
    macro_rules! c {
        ($p:expr, $f:ident, $func:expr) => {
            Contract { prop: $p, name: stringify!($f), func: $func, run: $f::<X>, f32vals: true, tol: 2e-5 }
        };
    }
    vec![
        c!("G01", g01_area, "polygon::area2"),
        c!("G01", g01_unit, "polygon::area2"),
        c!("G01", g01_left, "polygon::left"),
        c!("G01", g01_left_on, "polygon::left_on"),
        c!("G01", g01_collinear, "polygon::collinear"),
        c!("G01", g01_trichotomy, "polygon::{left, left_on, collinear}"),
        c!("G02", g02_between, "polygon::between"),
        c!("G02", g02_between_swap, "polygon::between"),
        c!("G02", g02_on_spec, "polygon::between; lemma"),
        c!("G02", g02_prop, "polygon::intersect_prop"),
        c!("G02", g02_prop_swap1, "polygon::intersect_prop"),
        c!("G02", g02_prop_swap2, "polygon::intersect_prop"),
        c!("G02", g02_prop_swap3, "polygon::intersect_prop"),
        c!("G02", g02_intersect, "polygon::intersect"),
        c!("G02", g02_swap1, "polygon::intersect"),
        c!("G02", g02_swap2, "polygon::intersect"),
        c!("G02", g02_swap3, "polygon::intersect"),
        c!("G02", g02_spec_sound, "lemma"),
        c!("G02", g02_complete_none, "lemma"),
        c!("G02", g02_complete_one, "lemma"),
        c!("G02", g02_complete_both, "lemma"),
        c!("G03", g03_segments_some, "utils::calculate_line_segment_intersection"),
        c!("G03", g03_segments_iff, "utils::calculate_line_segment_intersection"),
        c!("G03", g03_solution_unique, "lemma"),
        c!("G03", g03_segments_parallel, "utils::calculate_line_segment_intersection"),
        c!("G03", g03_lines, "utils::calculate_line_intersection"),
        c!("G04", g04_midpoint, "utils::calculate_midpoint"),
        c!("G04", g04_foot, "utils::calculate_perpendicular_point"),
        c!("G04", g04_bisector, "utils::calculate_perpendicular_bisector"),
        c!("G05", g05_degenerate, "utils::{is_degenerate_triangle, calculate_triangle_incenter}"),
        c!("G05", g05_incenter, "utils::calculate_triangle_incenter"),
        c!("G06", g06_on_interior, "utils::is_on_line_segment"),
        c!("G06", g06_on_endpoints, "utils::is_on_line_segment"),
        c!("G06", g06_off, "utils::is_on_line_segment"),
        c!("G06", g06_close, "utils::close_to"),
        c!("G06", g06_parallel, "utils::parallel"),
        c!("G06", g06_antiparallel, "utils::parallel"),
        c!("G06", g06_parallel_zero, "utils::parallel"),
        c!("G06", g06_line_on, "line::Line::contains"),
        c!("G06", g06_line_off, "line::Line::contains"),
    ]
}
