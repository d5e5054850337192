//! Contracts of the math module (M01-M07), stated against an independent model of Cl(3,0).
use crate::logic::*;
use crate::sym::{NEG, POS, ZERO};
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use kami::math::bivector::Bivector3;
use kami::math::rotor::Rotor3;
use kami::math::space::{Contraction, Exterior, Norm};
use kami::math::trivector::Trivector3;
use kami::math::vector::Vector3;
use num_traits::Zero;

type V<X> = Vector3<<X as S>::F>;
type B<X> = Bivector3<<X as S>::F>;
type R<X> = Rotor3<<X as S>::F>;
type Tr<X> = Trivector3<<X as S>::F>;

// ---------------------------------------------------------------- spec: multivectors of Cl(3,0)
// index = bitmask of basis vectors: 1 e1, 2 e2, 4 e3, 3 e12, 5 e13, 6 e23, 7 e123
pub type Mv<X> = [X; 8];
pub fn mv0<X: S>() -> Mv<X> {
    [X::int(0); 8]
}
fn swaps(a: usize, b: usize) -> i64 {
    // sign of e_a e_b: number of transpositions that sort the factors
    let mut n = 0;
    let mut a = a >> 1;
    while a != 0 {
        n += (a & b).count_ones();
        a >>= 1;
    }
    if n % 2 == 0 {
        1
    } else {
        -1
    }
}
pub fn gp<X: S>(x: &Mv<X>, y: &Mv<X>) -> Mv<X> {
    let mut r = mv0::<X>();
    for i in 0..8 {
        for j in 0..8 {
            r[i ^ j] = r[i ^ j] + X::int(swaps(i, j)) * x[i] * y[j];
        }
    }
    r
}
fn grade<X: S>(x: &Mv<X>, k: u32) -> Mv<X> {
    let mut r = mv0::<X>();
    for i in 0..8usize {
        if i.count_ones() == k {
            r[i] = x[i];
        }
    }
    r
}
fn add<X: S>(x: &Mv<X>, y: &Mv<X>) -> Mv<X> {
    let mut r = *x;
    for i in 0..8 {
        r[i] = r[i] + y[i];
    }
    r
}
fn same<X: S>(x: &Mv<X>, y: &Mv<X>) -> Fm<X> {
    and((0..8).map(|i| eq(x[i], y[i])).collect())
}
fn scal<X: S>(s: X) -> Mv<X> {
    let mut r = mv0();
    r[0] = s;
    r
}

// ---------------------------------------------------------------- embedding of the real types
pub fn t1<F: Copy>(t: Trivector3<F>) -> F {
    assert_eq!(std::mem::size_of::<Trivector3<F>>(), std::mem::size_of::<F>());
    unsafe { std::mem::transmute_copy(&t) }
}
pub fn mvv<X: S>(v: V<X>) -> Mv<X> {
    let mut r = mv0();
    r[1] = X::of(v.a1);
    r[2] = X::of(v.a2);
    r[4] = X::of(v.a3);
    r
}
pub fn mvb<X: S>(b: B<X>) -> Mv<X> {
    let mut r = mv0();
    r[3] = X::of(b.b1);
    r[5] = X::of(b.b2);
    r[6] = X::of(b.b3);
    r
}
pub fn mvr<X: S>(q: R<X>) -> Mv<X> {
    let mut r = mvb::<X>(q.bivector);
    r[0] = X::of(q.scalar);
    r
}
pub fn mvt<X: S>(t: Tr<X>) -> Mv<X> {
    let mut r = mv0();
    r[7] = X::of(t1(t));
    r
}
fn sv<X: S>(n: &str) -> Mv<X> {
    let mut r = mv0();
    for (i, k) in [1, 2, 4].iter().enumerate() {
        r[*k] = X::var(&format!("{}{}", n, i + 1));
    }
    r
}
fn sb<X: S>(n: &str) -> Mv<X> {
    let mut r = mv0();
    for (i, k) in [3, 5, 6].iter().enumerate() {
        r[*k] = X::var(&format!("{}{}", n, i + 1));
    }
    r
}
fn sr<X: S>(n: &str) -> Mv<X> {
    let mut r = sb(n);
    r[0] = X::var(&format!("{}0", n));
    r
}
fn st<X: S>(n: &str) -> Mv<X> {
    let mut r = mv0();
    r[7] = X::var(&format!("{}1", n));
    r
}
fn tv<X: S>(m: &Mv<X>) -> V<X> {
    Vector3::new(m[1].f(), m[2].f(), m[4].f())
}
fn tb<X: S>(m: &Mv<X>) -> B<X> {
    Bivector3::new(m[3].f(), m[5].f(), m[6].f())
}
fn tr<X: S>(m: &Mv<X>) -> R<X> {
    Rotor3::new(m[0].f(), tb::<X>(m))
}
fn tt<X: S>(m: &Mv<X>) -> Tr<X> {
    Trivector3::new(m[7].f())
}
fn n2<X: S>(m: &Mv<X>) -> X {
    m.iter().fold(X::int(0), |a, x| a + *x * *x)
}
fn dot3<X: S>(a: &Mv<X>, b: &Mv<X>) -> X {
    a[1] * b[1] + a[2] * b[2] + a[4] * b[4]
}
fn prove_mv<X: S>(name: &str, got: &Mv<X>, want: &Mv<X>) {
    let nm = ["1", "e1", "e2", "e12", "e3", "e13", "e23", "e123"];
    for i in 0..8 {
        X::prove(&format!("{} [{}]", name, nm[i]), eq(got[i], want[i]));
    }
}

// ---------------------------------------------------------------- M01
fn m01_vv<X: S>() {
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    prove_mv("vector*vector is the geometric product", &mvr::<X>(tv::<X>(&u) * tv::<X>(&v)), &gp(&u, &v));
}
fn m01_vb<X: S>() {
    let (u, b) = (sv::<X>("u"), sb::<X>("b"));
    let (v, t) = tv::<X>(&u) * tb::<X>(&b);
    prove_mv("vector*bivector is the geometric product", &add(&mvv::<X>(v), &mvt::<X>(t)), &gp(&u, &b));
}
fn m01_bb<X: S>() {
    let (a, b) = (sb::<X>("a"), sb::<X>("b"));
    prove_mv("bivector*bivector is the geometric product", &mvr::<X>(tb::<X>(&a) * tb::<X>(&b)), &gp(&a, &b));
}
fn m01_rr<X: S>() {
    let (a, b) = (sr::<X>("r"), sr::<X>("s"));
    prove_mv("rotor*rotor is the geometric product", &mvr::<X>(tr::<X>(&a) * tr::<X>(&b)), &gp(&a, &b));
}
fn m01_rv<X: S>() {
    let (r, u) = (sr::<X>("r"), sv::<X>("u"));
    let (v, t) = tr::<X>(&r) * tv::<X>(&u);
    prove_mv("rotor*vector is the geometric product", &add(&mvv::<X>(v), &mvt::<X>(t)), &gp(&r, &u));
}
fn m01_tt<X: S>() {
    let (a, b) = (st::<X>("s"), st::<X>("t"));
    prove_mv("trivector*trivector is the geometric product", &scal(X::of(tt::<X>(&a) * tt::<X>(&b))), &gp(&a, &b));
}
fn m01_assoc<X: S>() {
    // lemma over the contracts: the model product is associative on all multivectors
    let mk = |n: &str| {
        let mut r = mv0::<X>();
        for i in 0..8 {
            r[i] = X::var(&format!("{}{}", n, i));
        }
        r
    };
    let (a, b, c) = (mk("a"), mk("b"), mk("c"));
    prove_mv("lemma: associativity", &gp(&gp(&a, &b), &c), &gp(&a, &gp(&b, &c)));
    // and on real calls: (uv)w and (rs)u
    let (u, v, w) = (sv::<X>("u"), sv::<X>("v"), sv::<X>("w"));
    let (l, lt_) = (tv::<X>(&u) * tv::<X>(&v)) * tv::<X>(&w);
    prove_mv("(uv)w on the real code = u(vw)", &add(&mvv::<X>(l), &mvt::<X>(lt_)), &gp(&u, &gp(&v, &w)));
    for (i, j, s) in [(1usize, 1usize, 1i64), (2, 2, 1), (4, 4, 1)] {
        let mut e = mv0::<X>();
        e[i] = X::int(1);
        let mut f = mv0::<X>();
        f[j] = X::int(1);
        prove_mv("basis vectors square to one", &mvr::<X>(tv::<X>(&e) * tv::<X>(&f)), &scal(X::int(s)));
    }
}

// ---------------------------------------------------------------- M02
fn m02_vector<X: S>() {
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    let p = gp(&u, &v);
    X::prove("vector dot is the scalar part", eq(X::of(tv::<X>(&u).dot(tv::<X>(&v))), p[0]));
    prove_mv("vector wedge is the bivector part", &mvb::<X>(tv::<X>(&u).wedge(tv::<X>(&v))), &grade(&p, 2));
    let k = X::var("k");
    let mut ku = mv0::<X>();
    for i in [1, 2, 4] {
        ku[i] = k * u[i];
    }
    prove_mv("wedge of parallel vectors vanishes", &mvb::<X>(tv::<X>(&u).wedge(tv::<X>(&ku))), &mv0());
}
fn m02_bivector<X: S>() {
    let (a, b) = (sb::<X>("a"), sb::<X>("b"));
    let p = gp(&a, &b);
    let d = X::of(tb::<X>(&a).dot(tb::<X>(&b)));
    let w = mvb::<X>(tb::<X>(&a).wedge(tb::<X>(&b)));
    X::prove("bivector dot is the scalar part", eq(d, p[0]));
    prove_mv("bivector product = dot + wedge (model)", &add(&scal(d), &w), &p);
    prove_mv("bivector product = dot + wedge (code)", &mvr::<X>(tb::<X>(&a) * tb::<X>(&b)), &add(&scal(d), &w));
}
fn m02_volume<X: S>() {
    let (b, w) = (sb::<X>("b"), sv::<X>("w"));
    prove_mv("bivector wedge vector is the trivector part", &mvt::<X>(tb::<X>(&b).wedge(tv::<X>(&w))), &grade(&gp(&b, &w), 3));
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    let t = X::of(t1(tv::<X>(&u).wedge(tv::<X>(&v)).wedge(tv::<X>(&w))));
    let det = u[1] * (v[2] * w[4] - v[4] * w[2]) - u[2] * (v[1] * w[4] - v[4] * w[1]) + u[4] * (v[1] * w[2] - v[2] * w[1]);
    X::prove("u^v^w = det(u,v,w)", eq(t, det));
}
fn m02_trivector<X: S>() {
    let (a, b) = (st::<X>("s"), st::<X>("t"));
    let p = gp(&a, &b);
    X::prove("trivector dot is the scalar part", eq(X::of(tt::<X>(&a).dot(tt::<X>(&b))), p[0]));
    X::prove("trivector wedge trivector is zero", eq(X::of(tt::<X>(&a).wedge(tt::<X>(&b))), X::int(0)));
}
fn m02_rotor<X: S>() {
    let (a, b) = (sr::<X>("r"), sr::<X>("s"));
    let p = gp(&a, &b);
    X::prove("rotor dot is the scalar part", eq(X::of(tr::<X>(&a).dot(tr::<X>(&b))), p[0]));
}

// ---------------------------------------------------------------- M03
fn norms<X: S>(what: &str, m: &Mv<X>, nsq: X, n: X, unit: &dyn Fn() -> Mv<X>) {
    let q = n2(m);
    X::prove(&format!("{}: squared norm = sum of squares", what), eq(nsq, q));
    X::prove(&format!("{}: norm is the non-negative root", what), and(vec![ge(n, X::int(0)), eq(n * n, q)]));
    X::assume(gt(q, X::int(0)));
    let u = unit();
    X::prove(&format!("{}: normalize gives norm 1", what), eq(n2(&u), X::int(1)));
    let r = q.sqrt();
    for i in 0..8 {
        X::prove(&format!("{}: normalize is a positive multiple [{}]", what, i), eq(u[i] * r, m[i]));
    }
}
fn m03_vector<X: S>() {
    let m = sv::<X>("u");
    let x = tv::<X>(&m);
    norms("vector", &m, X::of(x.norm_squared()), X::of(x.norm()), &|| mvv::<X>(x.normalize()));
    let i = mvv::<X>(x.inverse());
    prove_mv("vector: X * inverse(X) = 1", &gp(&m, &i), &scal(X::int(1)));
    prove_mv("vector: inverse(X) * X = 1", &gp(&i, &m), &scal(X::int(1)));
    prove_mv("vector: X * inverse(X) = 1 (code)", &mvr::<X>(x * x.inverse()), &scal(X::int(1)));
}
fn m03_bivector<X: S>() {
    let m = sb::<X>("b");
    let x = tb::<X>(&m);
    norms("bivector", &m, X::of(x.norm_squared()), X::of(x.norm()), &|| mvb::<X>(x.normalize()));
    let i = mvb::<X>(x.inverse());
    prove_mv("bivector: X * inverse(X) = 1", &gp(&m, &i), &scal(X::int(1)));
    prove_mv("bivector: inverse(X) * X = 1", &gp(&i, &m), &scal(X::int(1)));
}
fn m03_trivector<X: S>() {
    let m = st::<X>("t");
    let x = tt::<X>(&m);
    norms("trivector", &m, X::of(x.norm_squared()), X::of(x.norm()), &|| mvt::<X>(x.normalize()));
    let i = mvt::<X>(x.inverse());
    prove_mv("trivector: X * inverse(X) = 1", &gp(&m, &i), &scal(X::int(1)));
    prove_mv("trivector: inverse(X) * X = 1", &gp(&i, &m), &scal(X::int(1)));
}
fn m03_rotor<X: S>() {
    let m = sr::<X>("r");
    let x = tr::<X>(&m);
    let i = mvr::<X>(x.inverse());
    let mut rev = m;
    for k in [3, 5, 6] {
        rev[k] = -rev[k];
    }
    prove_mv("rotor: inverse is the reverse", &i, &rev);
    prove_mv("rotor: R * inverse(R) = |R|^2", &gp(&m, &i), &scal(n2(&m)));
    prove_mv("rotor: inverse(R) * R = |R|^2", &gp(&i, &m), &scal(n2(&m)));
    prove_mv("rotor: R * inverse(R) = |R|^2 (code)", &mvr::<X>(x * x.inverse()), &scal(n2(&m)));
    norms("rotor", &m, X::of(x.norm_squared()), X::of(x.norm()), &|| mvr::<X>(x.normalize()));
}

// ---------------------------------------------------------------- M04
fn rot<X: S>(r: &Mv<X>, u: &Mv<X>) -> Mv<X> {
    mvv::<X>(tr::<X>(r).rotate(tv::<X>(u)))
}
fn rev<X: S>(r: &Mv<X>) -> Mv<X> {
    let mut x = *r;
    for k in [3, 5, 6] {
        x[k] = -x[k];
    }
    x
}
fn m04_rotate<X: S>() {
    let (r, u) = (sr::<X>("r"), sv::<X>("u"));
    // for every rotor (unit or not): rotate is the sandwich product R u R~
    prove_mv("rotate(R,u) = R u reverse(R)", &rot(&r, &u), &gp(&gp(&r, &u), &rev(&r)));
}
fn m04_isometry<X: S>() {
    let q = X::unit("r", 4);
    let mut r = mv0::<X>();
    r[0] = q[0];
    r[3] = q[1];
    r[5] = q[2];
    r[6] = q[3];
    let (u, v, w) = (sv::<X>("u"), sv::<X>("v"), sv::<X>("w"));
    let (ru, rv, rw) = (rot(&r, &u), rot(&r, &v), rot(&r, &w));
    X::prove("unit rotor preserves dot products", eq(dot3(&ru, &rv), dot3(&u, &v)));
    X::prove("unit rotor preserves lengths", eq(n2(&ru), n2(&u)));
    let det = |a: &Mv<X>, b: &Mv<X>, c: &Mv<X>| {
        a[1] * (b[2] * c[4] - b[4] * c[2]) - a[2] * (b[1] * c[4] - b[4] * c[1]) + a[4] * (b[1] * c[2] - b[2] * c[1])
    };
    X::prove("unit rotor preserves handedness", eq(det(&ru, &rv, &rw), det(&u, &v, &w)));
    let back = mvv::<X>(tr::<X>(&r).inverse().rotate(tv::<X>(&ru)));
    prove_mv("the inverse undoes the rotation", &back, &u);
}
fn m04_compose<X: S>() {
    let (r, s, u) = (sr::<X>("r"), sr::<X>("s"), sv::<X>("u"));
    let lhs = mvv::<X>((tr::<X>(&r) * tr::<X>(&s)).rotate(tv::<X>(&u)));
    prove_mv("rotate(R*S,u) = rotate(R,rotate(S,u))", &lhs, &rot(&r, &rot(&s, &u)));
    let id = mvv::<X>(Rotor3::<X::F>::identity().rotate(tv::<X>(&u)));
    prove_mv("the identity changes nothing", &id, &u);
}
fn m04_from_vectors<X: S>() {
    let (a, b) = (X::unit("u", 3), X::unit("v", 3));
    let mk = |q: &Vec<X>| {
        let mut r = mv0::<X>();
        r[1] = q[0];
        r[2] = q[1];
        r[4] = q[2];
        r
    };
    let (u, v) = (mk(&a), mk(&b));
    // not opposite: |u + v|^2 = 2 + 2 u.v > 0
    X::assume(gt(X::int(1) + dot3(&u, &v), X::int(0)));
    X::conc_assume(|| dot3(&u, &v).approx() > -1.0 + 5e-5);
    X::lemma("|u^v|^2 + (1+u.v)^2 = 2(1+u.v)", {
        let w = grade(&gp(&u, &v), 2);
        let d = X::int(1) + dot3(&u, &v);
        eq(n2(&w) + d * d, X::int(2) * d)
    });
    X::lemma("|u^v|^2 + (1+u.v)^2 > 0", {
        let w = grade(&gp(&u, &v), 2);
        let d = X::int(1) + dot3(&u, &v);
        gt(n2(&w) + d * d, X::int(0))
    });
    let r = mvr::<X>(Rotor3::from_vectors(tv::<X>(&u), tv::<X>(&v)));
    X::prove("from_vectors gives a unit rotor", eq(n2(&r), X::int(1)));
    let got = mvv::<X>(tr::<X>(&r).rotate(tv::<X>(&u)));
    prove_mv("from_vectors(u,v) takes u to v", &got, &v);
    // vectors perpendicular to both are the multiples of the cross product (or, for u = v, all
    // vectors perpendicular to u): state it for an arbitrary perpendicular vector
    let p = sv::<X>("p");
    if X::SYM {
        X::assume(eq(dot3(&p, &u), X::int(0)));
        X::assume(eq(dot3(&p, &v), X::int(0)));
    }
    let p = if X::SYM {
        p
    } else {
        // concretely: a multiple of the cross product
        let mut c = mv0::<X>();
        c[1] = u[2] * v[4] - u[4] * v[2];
        c[2] = u[4] * v[1] - u[1] * v[4];
        c[4] = u[1] * v[2] - u[2] * v[1];
        c
    };
    let fixed = mvv::<X>(tr::<X>(&r).rotate(tv::<X>(&p)));
    for i in [1usize, 2, 4] {
        X::prove("from_vectors fixes vectors perpendicular to both", eq(fixed[i], p[i]));
    }
}
fn plane_contract<X: S>(what: &str, r: &Mv<X>, b: &Mv<X>, th: X) {
    X::prove(&format!("{}: unit rotor", what), eq(n2(r), X::int(1)));
    // for u in the plane, u*B is u turned by 90 degrees in the plane's orientation (e1*e12 = e2):
    // the image is cos(th) u + sin(th) uB
    let half = th / X::int(2);
    let (c, s) = (half.cos(), half.sin());
    let (cc, ss) = (c * c - s * s, X::int(2) * s * c);
    X::axiom("cos(t) = cos(t/2)^2 - sin(t/2)^2", eq(th.cos(), cc));
    X::axiom("sin(t) = 2 sin(t/2) cos(t/2)", eq(th.sin(), ss));
    // an arbitrary vector of the plane: the grade-1 part of x B
    let x = sv::<X>("x");
    let u = grade(&gp(&x, b), 1);
    let turned = grade(&gp(&u, b), 1);
    let got = mvv::<X>(tr::<X>(r).rotate(tv::<X>(&u)));
    for i in [1usize, 2, 4] {
        X::prove(&format!("{}: turns plane vectors by the angle [{}]", what, i), eq(got[i], th.cos() * u[i] + th.sin() * turned[i]));
    }
    // the normal of the plane is (up to sign) (b3, -b2, b1)
    let mut n = mv0::<X>();
    n[1] = b[6];
    n[2] = -b[5];
    n[4] = b[3];
    let fixed = mvv::<X>(tr::<X>(r).rotate(tv::<X>(&n)));
    for i in [1usize, 2, 4] {
        X::prove(&format!("{}: fixes the normal [{}]", what, i), eq(fixed[i], n[i]));
    }
}
fn m04_from_angle_plane<X: S>() {
    let q = X::unit("b", 3);
    let th = X::var("theta");
    let mut b = mv0::<X>();
    b[3] = q[0];
    b[5] = q[1];
    b[6] = q[2];
    let r = mvr::<X>(Rotor3::from_angle_plane(th.f(), tb::<X>(&b)));
    plane_contract("from_angle_plane", &r, &b, th);
}
fn m04_xy<X: S>() {
    let th = X::var("theta");
    let mut b = mv0::<X>();
    b[3] = X::int(1);
    plane_contract("from_xy_rotation", &mvr::<X>(Rotor3::from_xy_rotation(th.f())), &b, th);
}
fn m04_xz<X: S>() {
    let th = X::var("theta");
    let mut b = mv0::<X>();
    b[5] = X::int(1);
    plane_contract("from_xz_rotation", &mvr::<X>(Rotor3::from_xz_rotation(th.f())), &b, th);
}
fn m04_yz<X: S>() {
    let th = X::var("theta");
    let mut b = mv0::<X>();
    b[6] = X::int(1);
    plane_contract("from_yz_rotation", &mvr::<X>(Rotor3::from_yz_rotation(th.f())), &b, th);
}

// ---------------------------------------------------------------- M05
fn m05_project<X: S>() {
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    X::assume(gt(n2(&v), X::int(0)));
    let p = mvv::<X>(tv::<X>(&u).project(tv::<X>(&v)));
    // a multiple of v (p x v = 0) ...
    let w = grade(&gp(&p, &v), 2);
    for i in [3usize, 5, 6] {
        X::prove("projection is a multiple of v", eq(w[i], X::int(0)));
    }
    // ... and the rest is perpendicular to v
    X::prove("u - projection is perpendicular to v", eq(dot3(&p, &v), dot3(&u, &v)));
    let k = dot3(&u, &v) / n2(&v);
    for i in [1usize, 2, 4] {
        X::prove("projection = (u.v/v.v) v", eq(p[i], k * v[i]));
    }
}
fn m05_reflect<X: S>() {
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    X::assume(gt(n2(&v), X::int(0)));
    let r = mvv::<X>(tv::<X>(&u).reflect(tv::<X>(&v)));
    let k = dot3(&u, &v) / n2(&v);
    for i in [1usize, 2, 4] {
        X::prove("reflection keeps the part along v and negates the rest", eq(r[i], X::int(2) * k * v[i] - u[i]));
    }
    X::prove("reflection preserves length", eq(n2(&r), n2(&u)));
    let rr = mvv::<X>(tv::<X>(&r).reflect(tv::<X>(&v)));
    prove_mv("reflecting twice is the identity", &rr, &u);
}
fn m05_angle<X: S>() {
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    X::assume(gt(n2(&u), X::int(0)));
    X::assume(gt(n2(&v), X::int(0)));
    let (nu, nv) = (n2(&u).sqrt(), n2(&v).sqrt());
    let d = dot3(&u, &v);
    // Lagrange's identity, hence Cauchy-Schwarz: |u.v| <= |u||v|
    let w = grade(&gp(&u, &v), 2);
    X::lemma("Lagrange: (u.v)^2 + |u^v|^2 = |u|^2|v|^2", eq(d * d + n2(&w), n2(&u) * n2(&v)));
    X::lemma("norms are positive", and(vec![gt(nu, X::int(0)), gt(nv, X::int(0))]));
    X::lemma("Cauchy-Schwarz, squared", le(d * d, (nu * nv) * (nu * nv)));
    X::lemma("Cauchy-Schwarz", and(vec![le(d, nu * nv), ge(d, -(nu * nv))]));
    X::lemma("cosine is in [-1,1]", {
        let c = d / (nu * nv);
        and(vec![le(c, X::int(1)), ge(c, X::int(-1))])
    });
    X::tol(1e-7);
    let a = X::of(tv::<X>(&u).angle(tv::<X>(&v)));
    X::prove("angle is a number", a.is_number());
    X::prove("angle is in [0, pi]", and(vec![ge(a, X::int(0)), le(a, X::pi())]));
    X::prove("cos(angle) |u||v| = u.v", eq(a.cos() * nu * nv, d));
    let b = X::of(tv::<X>(&v).angle(tv::<X>(&u)));
    X::prove("angle is symmetric: cosines", eq(b.cos() * nu * nv, d));
}
fn m05_angle_rounded<X: S>() {
    // The same call with every arithmetic operation perturbed by an arbitrary relative error of at
    // most 2^-24 (the standard model of f32 arithmetic without under- and overflow): never NaN.
    let (u, v) = (sv::<X>("u"), sv::<X>("v"));
    X::assume(gt(n2(&u), X::int(0)));
    X::assume(gt(n2(&v), X::int(0)));
    if !X::SYM {
        // concretely: nearly parallel vectors in all directions
        let k = X::var("k");
        X::assume(ne(k, X::int(0)));
        let s = X::rat(1, 10) + X::var_in("s", 0.0, 3.0);
        let v: Vec<f64> = [1, 2, 4].iter().map(|i| (u[*i] * k * s).approx()).collect();
        let a = Vector3::new(u[1].approx(), u[2].approx(), u[4].approx() + s.approx());
        X::assume(gt(n2(&u), X::int(0)));
        let ang = a.angle(Vector3::new(v[0], v[1], v[2] + s.approx() * k.approx() * s.approx()));
        X::prove("angle is never NaN (f64)", truth(!ang.is_nan()));
        let b = Vector3::new(a.a1 as f32, a.a2 as f32, a.a3 as f32);
        if b != Vector3::new(0.0, 0.0, 0.0) {
            let m = k.approx() as f32 * s.approx() as f32;
            if m != 0.0 {
                X::prove("angle of parallel vectors is never NaN (f32)", truth(!b.angle(b * m).is_nan()));
            }
            X::prove("angle of equal vectors is never NaN (f32)", truth(!b.angle(b).is_nan()));
        }
        return;
    }
    X::rounding(true);
    let a = X::of(tv::<X>(&u).angle(tv::<X>(&v)));
    X::rounding(false);
    X::prove("angle is never NaN, whatever the rounding errors", a.is_number());
}

// ---------------------------------------------------------------- M06
macro_rules! space {
    ($fname:ident, $what:expr, $mk:ident, $to:ident, $emb:ident, $idx:expr, $mulval:expr) => {
        fn $fname<X: S>() {
            let idx: &[usize] = $idx;
            let (a, b, k) = ($mk::<X>("a"), $mk::<X>("b"), X::var("k"));
            let x = $to::<X>(&a);
            let y = $to::<X>(&b);
            let cw = |name: &str, got: Mv<X>, f: &dyn Fn(usize) -> X| {
                for i in idx {
                    X::prove(&format!("{}: {} [{}]", $what, name, i), eq(got[*i], f(*i)));
                }
            };
            cw("addition", $emb::<X>(x + y), &|i| a[i] + b[i]);
            cw("subtraction", $emb::<X>(x - y), &|i| a[i] - b[i]);
            cw("negation", $emb::<X>(-x), &|i| -a[i]);
            let mut z = x;
            z += y;
            cw("in-place addition", $emb::<X>(z), &|i| a[i] + b[i]);
            let mut z = x;
            z -= y;
            cw("in-place subtraction", $emb::<X>(z), &|i| a[i] - b[i]);
            let mut z = x;
            z *= k.f();
            cw("in-place scaling", $emb::<X>(z), &|i| a[i] * k);
            $mulval(&cw, x, k, &a);
            X::assume(ne(k, X::int(0)));
            for i in idx {
                let d = $emb::<X>(x / k.f());
                X::prove(&format!("{}: division [{}]", $what, i), eq(d[*i] * k, a[*i]));
            }
            let mut z = x;
            z /= k.f();
            for i in idx {
                let d = $emb::<X>(z);
                X::prove(&format!("{}: in-place division [{}]", $what, i), eq(d[*i] * k, a[*i]));
            }
        }
    };
}
space!(m06_vector, "vector", sv, tv, mvv, &[1, 2, 4], |cw: &dyn Fn(&str, Mv<X>, &dyn Fn(usize) -> X), x: V<X>, k: X, a: &Mv<X>| cw("scaling", mvv::<X>(x * k.f()), &|i| a[i] * k));
space!(m06_bivector, "bivector", sb, tb, mvb, &[3, 5, 6], |cw: &dyn Fn(&str, Mv<X>, &dyn Fn(usize) -> X), x: B<X>, k: X, a: &Mv<X>| cw("scaling", mvb::<X>(x * k.f()), &|i| a[i] * k));
space!(m06_trivector, "trivector", st, tt, mvt, &[7], |_: &dyn Fn(&str, Mv<X>, &dyn Fn(usize) -> X), _: Tr<X>, _: X, _: &Mv<X>| ());
space!(m06_rotor, "rotor", sr, tr, mvr, &[0, 3, 5, 6], |cw: &dyn Fn(&str, Mv<X>, &dyn Fn(usize) -> X), x: R<X>, k: X, a: &Mv<X>| cw("scaling", mvr::<X>(x * k.f()), &|i| a[i] * k));

fn m06_zero_units<X: S>() {
    let z = X::int(0);
    prove_mv("zero vector", &mvv::<X>(V::<X>::zero()), &mv0());
    prove_mv("zero bivector", &mvb::<X>(B::<X>::zero()), &mv0());
    prove_mv("zero trivector", &mvt::<X>(Tr::<X>::zero()), &mv0());
    let e = |k: usize| {
        let mut r = mv0::<X>();
        r[k] = X::int(1);
        r
    };
    prove_mv("unit_x", &mvv::<X>(V::<X>::unit_x()), &e(1));
    prove_mv("unit_y", &mvv::<X>(V::<X>::unit_y()), &e(2));
    prove_mv("unit_z", &mvv::<X>(V::<X>::unit_z()), &e(4));
    prove_mv("unit_xy", &mvb::<X>(B::<X>::unit_xy()), &e(3));
    prove_mv("unit_xz", &mvb::<X>(B::<X>::unit_xz()), &e(5));
    prove_mv("unit_yz", &mvb::<X>(B::<X>::unit_yz()), &e(6));
    prove_mv("unit_xyz", &mvt::<X>(Tr::<X>::unit_xyz()), &e(7));
    prove_mv("identity rotor", &mvr::<X>(R::<X>::identity()), &e(0));
    let (v, b, t, r) = (sv::<X>("v"), sb::<X>("b"), st::<X>("t"), sr::<X>("r"));
    prove_mv("new vector", &mvv::<X>(tv::<X>(&v)), &v);
    prove_mv("new bivector", &mvb::<X>(tb::<X>(&b)), &b);
    prove_mv("new trivector", &mvt::<X>(tt::<X>(&t)), &t);
    prove_mv("new rotor", &mvr::<X>(tr::<X>(&r)), &r);
    prove_mv("zero is neutral (vector)", &mvv::<X>(tv::<X>(&v) + Vector3::zero()), &v);
    prove_mv("zero is neutral (bivector)", &mvb::<X>(tb::<X>(&b) + Bivector3::zero()), &b);
    prove_mv("zero is neutral (trivector)", &mvt::<X>(tt::<X>(&t) + Trivector3::zero()), &t);
    X::prove("vector is_zero", iff(tv::<X>(&v).is_zero(), and(vec![eq(v[1], z), eq(v[2], z), eq(v[4], z)])));
    X::prove("bivector is_zero", iff(tb::<X>(&b).is_zero(), and(vec![eq(b[3], z), eq(b[5], z), eq(b[6], z)])));
    X::prove("trivector is_zero", iff(tt::<X>(&t).is_zero(), eq(t[7], z)));
}

// ---------------------------------------------------------------- M07
const ULPS: [u32; 6] = [0, 1, 4, 5, 1 << 31, u32::MAX];
macro_rules! approxeq {
    ($fname:ident, $what:expr, $mk:ident, $to:ident, $ty:ident, $idx:expr) => {
        fn $fname<X: S>() {
            let idx: &[usize] = $idx;
            let a = $mk::<X>("a");
            let mut b = mv0::<X>();
            for i in idx {
                b[*i] = X::near(&format!("b{}", i), a[*i]);
            }
            let (x, y) = ($to::<X>(&a), $to::<X>(&b));
            let (e, m) = (X::var_in("eps", 0.0, 1.0), X::var_in("maxrel", 0.0, 1.0));
            let u = ULPS[X::choose("ulps", ULPS.len())];
            let which = X::choose("which", 4);
            if which == 0 {
                X::prove(concat!($what, ": abs_diff_eq is the conjunction over the components"),
                    iff(x.abs_diff_eq(&y, e.f()), and(idx.iter().map(|i| X::abs_diff(a[*i], b[*i], e)).collect())));
            } else if which == 1 {
                X::prove(concat!($what, ": relative_eq is the conjunction over the components"),
                    iff(x.relative_eq(&y, e.f(), m.f()), and(idx.iter().map(|i| X::relative(a[*i], b[*i], e, m)).collect())));
            } else if which == 2 {
                X::prove(concat!($what, ": ulps_eq is the conjunction over the components"),
                    iff(x.ulps_eq(&y, e.f(), u), and(idx.iter().map(|i| X::ulps(a[*i], b[*i], e, u)).collect())));
            } else {
                let d = |x: X::F| X::of(x);
                X::prove(concat!($what, ": default epsilon"), eq(d($ty::<X>::default_epsilon()), d(X::F::default_epsilon())));
                X::prove(concat!($what, ": default max_relative"), eq(d($ty::<X>::default_max_relative()), d(X::F::default_max_relative())));
                X::prove(concat!($what, ": default max_ulps"), truth($ty::<X>::default_max_ulps() == X::F::default_max_ulps()));
            }
        }
    };
}
approxeq!(m07_vector, "vector", sv, tv, V, &[1, 2, 4]);
approxeq!(m07_bivector, "bivector", sb, tb, B, &[3, 5, 6]);
approxeq!(m07_trivector, "trivector", st, tt, Tr, &[7]);
approxeq!(m07_rotor, "rotor", sr, tr, R, &[0, 3, 5, 6]);

pub struct Contract {
    pub prop: &'static str,
    pub name: &'static str,
    pub func: &'static str,
    pub run: fn(),
    /// concrete side: round inputs to f32, and the relative tolerance of computed results
    pub f32vals: bool,
    pub tol: f64,
}

pub fn contracts<X: S>() -> Vec<Contract> {
    let _ = (NEG, ZERO, POS);
    macro_rules! c {
        ($p:expr, $f:ident, $func:expr) => {
            Contract { prop: $p, name: stringify!($f), func: $func, run: $f::<X>, f32vals: false, tol: 1e-9 }
        };
    }
    vec![
        c!("M01", m01_vv, "Vector3 * Vector3"),
        c!("M01", m01_vb, "Vector3 * Bivector3"),
        c!("M01", m01_bb, "Bivector3 * Bivector3"),
        c!("M01", m01_rr, "Rotor3 * Rotor3"),
        c!("M01", m01_rv, "Rotor3 * Vector3"),
        c!("M01", m01_tt, "Trivector3 * Trivector3"),
        c!("M01", m01_assoc, "(Vector3 * Vector3) * Vector3"),
        c!("M02", m02_vector, "Vector3::dot, Vector3::wedge"),
        c!("M02", m02_bivector, "Bivector3::dot, Bivector3::wedge"),
        c!("M02", m02_volume, "Bivector3::wedge(Vector3)"),
        c!("M02", m02_trivector, "Trivector3::dot, Trivector3::wedge"),
        c!("M02", m02_rotor, "Rotor3::dot"),
        c!("M03", m03_vector, "Norm for Vector3"),
        c!("M03", m03_bivector, "Norm for Bivector3"),
        c!("M03", m03_trivector, "Norm for Trivector3"),
        c!("M03", m03_rotor, "Norm for Rotor3"),
        c!("M04", m04_rotate, "Rotor3::rotate"),
        c!("M04", m04_isometry, "Rotor3::rotate, Rotor3::inverse"),
        c!("M04", m04_compose, "Rotor3::rotate, Rotor3 * Rotor3, Rotor3::identity"),
        c!("M04", m04_from_vectors, "Rotor3::from_vectors"),
        c!("M04", m04_from_angle_plane, "Rotor3::from_angle_plane"),
        c!("M04", m04_xy, "Rotor3::from_xy_rotation"),
        c!("M04", m04_xz, "Rotor3::from_xz_rotation"),
        c!("M04", m04_yz, "Rotor3::from_yz_rotation"),
        c!("M05", m05_project, "Vector3::project"),
        c!("M05", m05_reflect, "Vector3::reflect"),
        c!("M05", m05_angle, "Vector3::angle"),
        c!("M05", m05_angle_rounded, "Vector3::angle"),
        c!("M06", m06_vector, "operators of Vector3"),
        c!("M06", m06_bivector, "operators of Bivector3"),
        c!("M06", m06_trivector, "operators of Trivector3"),
        c!("M06", m06_rotor, "operators of Rotor3"),
        c!("M06", m06_zero_units, "constructors, Zero impls"),
        c!("M07", m07_vector, "approx for Vector3"),
        c!("M07", m07_bivector, "approx for Bivector3"),
        c!("M07", m07_trivector, "approx for Trivector3"),
        c!("M07", m07_rotor, "approx for Rotor3"),
    ]
}
