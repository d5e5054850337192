//! Contract language: formulas over a scalar `S`, with a symbolic interpretation (obligations for
//! the provers) and a concrete one (evaluation on the real code with sound error bounds).
use crate::sym::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::*;
use std::panic::panic_any;

#[derive(Clone, Debug)]
pub enum Fm<S> {
    T,
    F,
    Sg(S, u8),
    Pr(String, Vec<S>, Option<bool>),
    And(Vec<Fm<S>>),
    Or(Vec<Fm<S>>),
    Not(Box<Fm<S>>),
}
use Fm::*;

pub trait S:
    Copy
    + std::fmt::Debug
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Neg<Output = Self>
    + 'static
{
    /// the scalar type the math code is instantiated with
    type F: num_traits::Float
        + num_traits::Signed
        + approx::AbsDiffEq<Epsilon = Self::F>
        + approx::RelativeEq
        + approx::UlpsEq
        + AddAssign
        + SubAssign
        + MulAssign
        + DivAssign
        + std::fmt::Debug
        + std::iter::Sum
        + 'static;
    const SYM: bool;
    fn var(name: &str) -> Self;
    /// a variable that is meant to be non-negative (only guides the concrete sampler)
    fn var_in(name: &str, lo: f64, hi: f64) -> Self;
    fn rat(n: i64, d: i64) -> Self;
    fn int(n: i64) -> Self {
        Self::rat(n, 1)
    }
    fn pi() -> Self;
    fn f(self) -> Self::F;
    fn of(x: Self::F) -> Self;
    fn sqrt(self) -> Self;
    fn sin(self) -> Self;
    fn cos(self) -> Self;
    fn assume(f: Fm<Self>);
    /// assume only on the concrete side (keeps inputs where floating point agrees with the reals)
    fn conc_assume(f: impl FnOnce() -> bool);
    fn prove(name: &str, f: Fm<Self>);
    /// x > 0, from x * p = e with p > 0 and e > 0 (those three are the obligations)
    fn prove_positive_by(name: &str, x: Self, p: Self, e: Self);
    /// prove, then use
    fn lemma(name: &str, f: Fm<Self>);
    /// add a true fact (trigonometric identities of spec functions); listed as an axiom
    fn axiom(name: &str, f: Fm<Self>);
    fn exact(self) -> bool;
    fn approx(self) -> f64;
    fn v_is_f32(self) -> bool {
        self.approx() as f32 as f64 == self.approx()
    }
    fn rounding(on: bool);
    fn approx_semantic(on: bool);
    fn tol(t: f64);
    /// a unit vector of dimension n
    fn unit(name: &str, n: usize) -> Vec<Self>;
    fn choose(name: &str, n: usize) -> usize;
    fn abs_diff(a: Self, b: Self, e: Self) -> Fm<Self>;
    fn relative(a: Self, b: Self, e: Self, m: Self) -> Fm<Self>;
    fn ulps(a: Self, b: Self, e: Self, m: u32) -> Fm<Self>;
    /// a second value, sometimes close to the first
    fn near(name: &str, a: Self) -> Self;
    /// the value of a var is never NaN/infinite; this asks whether a result is a number
    fn is_number(self) -> Fm<Self>;
}

pub fn eq<X: S>(a: X, b: X) -> Fm<X> { Sg(a - b, ZERO) }
pub fn ne<X: S>(a: X, b: X) -> Fm<X> { Sg(a - b, NEG | POS) }
pub fn lt<X: S>(a: X, b: X) -> Fm<X> { Sg(a - b, NEG) }
pub fn le<X: S>(a: X, b: X) -> Fm<X> { Sg(a - b, NEG | ZERO) }
pub fn gt<X: S>(a: X, b: X) -> Fm<X> { Sg(a - b, POS) }
pub fn ge<X: S>(a: X, b: X) -> Fm<X> { Sg(a - b, POS | ZERO) }
pub fn and<X: S>(v: Vec<Fm<X>>) -> Fm<X> { And(v) }
pub fn or<X: S>(v: Vec<Fm<X>>) -> Fm<X> { Or(v) }
pub fn not<X: S>(f: Fm<X>) -> Fm<X> { Not(Box::new(f)) }
pub fn imp<X: S>(a: Fm<X>, b: Fm<X>) -> Fm<X> { Or(vec![not(a), b]) }
/// result of the code == spec
pub fn iff<X: S>(b: bool, f: Fm<X>) -> Fm<X> { if b { f } else { not(f) } }
pub fn truth<X: S>(b: bool) -> Fm<X> { if b { T } else { F } }

// ------------------------------------------------------------------ symbolic side

pub struct Ob {
    pub name: String,
    pub hyps: Vec<Fm<Sym>>,
    pub nconds: usize,
    pub goal: Fm<Sym>,
    pub path: String,
}

#[derive(Default)]
pub struct SymState {
    pub hyps: Vec<Fm<Sym>>,
    pub obs: Vec<Ob>,
    pub axioms: Vec<String>,
    pub vars: Vec<String>,
}
thread_local! { pub static SS: RefCell<SymState> = RefCell::new(SymState::default()); }

fn a<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    A.with(|x| f(&mut x.borrow_mut()))
}

fn conds() -> Vec<Fm<Sym>> {
    a(|ar| {
        let mut v: Vec<Fm<Sym>> = ar
            .conds
            .iter()
            .map(|c| match c {
                Cond::Sign(i, m) => Sg(Sym(Val::R(*i)), *m),
                Cond::Pred(n, args, b) => {
                    let p = Pr(n.clone(), args.iter().map(|i| Sym(Val::R(*i))).collect(), None);
                    if *b {
                        p
                    } else {
                        not(p)
                    }
                }
            })
            .collect();
        // rounding factors lie within 2^-24 of one
        let ds = ar.deltas.clone();
        for d in ds {
            let u = ar.konst(crate::poly::Rat::new((1 << 24) + 1, 1 << 24));
            let lo = ar.konst(crate::poly::Rat::new((1 << 24) - 1, 1 << 24));
            let x = ar.diff(d, u);
            let y = ar.diff(d, lo);
            v.push(Sg(Sym(Val::R(x)), NEG | ZERO));
            v.push(Sg(Sym(Val::R(y)), POS | ZERO));
        }
        v
    })
}

pub fn record(name: &str, goal: Fm<Sym>) {
    let mut hyps = SS.with(|s| s.borrow().hyps.clone());
    let c = conds();
    let n = c.len();
    hyps.extend(c);
    let path = a(|ar| ar.taken.iter().map(|b| if *b { '1' } else { '0' }).collect());
    SS.with(|s| s.borrow_mut().obs.push(Ob { name: name.to_string(), hyps, nconds: n, goal, path }));
}

fn spec<R>(f: impl FnOnce() -> R) -> R {
    let old = a(|x| std::mem::replace(&mut x.round, false));
    let r = f();
    a(|x| x.round = old);
    r
}

fn learn(f: &Fm<Sym>) {
    match f {
        Sg(Sym(Val::R(i)), m) => a(|x| x.restrict(*i, *m)),
        Sg(_, _) => {}
        F => panic_any(Infeasible),
        And(v) => v.iter().for_each(learn),
        _ => {}
    }
}

impl S for Sym {
    type F = Sym;
    const SYM: bool = true;
    fn var(name: &str) -> Sym {
        SS.with(|s| {
            let v = &mut s.borrow_mut().vars;
            if !v.iter().any(|x| x == name) {
                v.push(name.to_string())
            }
        });
        Sym::var(name)
    }
    fn var_in(name: &str, _: f64, _: f64) -> Sym { <Sym as S>::var(name) }
    fn rat(n: i64, d: i64) -> Sym { Sym::rat(n as i128, d as i128) }
    fn pi() -> Sym { Sym::pi() }
    fn f(self) -> Sym { self }
    fn of(x: Sym) -> Sym { x }
    fn sqrt(self) -> Sym { spec(|| Sym::sqrt(self)) }
    fn sin(self) -> Sym { Sym::sin(self) }
    fn cos(self) -> Sym { Sym::cos(self) }
    fn assume(f: Fm<Sym>) {
        learn(&f);
        SS.with(|s| s.borrow_mut().hyps.push(f));
    }
    fn conc_assume(_: impl FnOnce() -> bool) {}
    fn prove(name: &str, f: Fm<Sym>) { record(name, f) }
    fn prove_positive_by(name: &str, x: Sym, p: Sym, e: Sym) {
        record(&format!("{} (as a quotient)", name), eq(x * p, e));
        record(&format!("{} (divisor)", name), gt(p, Sym::int(0)));
        record(&format!("{} (dividend)", name), gt(e, Sym::int(0)));
    }
    fn lemma(name: &str, f: Fm<Sym>) {
        record(name, f.clone());
        // (an unprovable lemma fails as an obligation of its own; the path goes on as if it held)
        learn(&f);
        SS.with(|s| s.borrow_mut().hyps.push(f));
    }
    fn axiom(name: &str, f: Fm<Sym>) {
        SS.with(|s| {
            let mut s = s.borrow_mut();
            s.hyps.push(f);
            if !s.axioms.iter().any(|x| x == name) {
                s.axioms.push(name.to_string());
            }
        })
    }
    fn exact(self) -> bool { true }
    fn approx(self) -> f64 { 0.0 }
    fn rounding(on: bool) { a(|x| x.round = on) }
    fn approx_semantic(on: bool) { a(|x| x.approx_semantic = on) }
    fn tol(_: f64) {}
    fn unit(name: &str, n: usize) -> Vec<Sym> {
        let v: Vec<Sym> = (0..n).map(|i| <Sym as S>::var(&format!("{}{}", name, i + 1))).collect();
        let q = v.iter().fold(Sym::int(0), |x, y| x + *y * *y);
        Self::assume(eq(q, Sym::int(1)));
        v
    }
    fn choose(_name: &str, n: usize) -> usize {
        // one path per value
        for i in 0..n - 1 {
            if a(|x| x.decide_pred(&format!("choose!{}!{}", _name, i), vec![])) {
                return i;
            }
        }
        n - 1
    }
    fn abs_diff(x: Sym, y: Sym, e: Sym) -> Fm<Sym> { Pr("abs_diff_eq".into(), vec![x, y, e], None) }
    fn relative(x: Sym, y: Sym, e: Sym, m: Sym) -> Fm<Sym> { Pr("relative_eq".into(), vec![x, y, e, m], None) }
    fn ulps(x: Sym, y: Sym, e: Sym, m: u32) -> Fm<Sym> { Pr("ulps_eq".into(), vec![x, y, e, Sym::int(m as i64)], None) }
    fn near(name: &str, _: Sym) -> Sym { <Sym as S>::var(name) }
    fn is_number(self) -> Fm<Sym> { truth(self.is_finite()) }
}

pub struct Run {
    pub obs: Vec<Ob>,
    pub paths: usize,
    pub infeasible: usize,
    pub unsupported: Vec<String>,
    pub axioms: Vec<String>,
    pub vars: Vec<String>,
}

pub fn explore(c: &dyn Fn(), max_paths: usize) -> Run {
    let mut prefix: Vec<bool> = vec![];
    let mut run = Run { obs: vec![], paths: 0, infeasible: 0, unsupported: vec![], axioms: vec![], vars: vec![] };
    loop {
        a(|x| x.reset_path(prefix.clone()));
        SS.with(|s| s.borrow_mut().hyps.clear());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c()));
        run.paths += 1;
        if let Err(e) = r {
            if let Some(u) = e.downcast_ref::<Unsupported>() {
                if !run.unsupported.contains(&u.0) {
                    run.unsupported.push(u.0.clone());
                }
                break;
            } else if e.downcast_ref::<Infeasible>().is_some() {
                run.infeasible += 1;
            } else {
                record(&format!("no-panic ({})", panic_text(&*e)), F);
            }
        }
        let mut t = a(|x| x.taken.clone());
        while let Some(false) = t.last() {
            t.pop();
        }
        if t.is_empty() {
            break;
        }
        *t.last_mut().unwrap() = false;
        prefix = t;
        if run.paths >= max_paths {
            run.unsupported.push(format!("more than {} paths", max_paths));
            break;
        }
    }
    SS.with(|s| {
        let mut s = s.borrow_mut();
        run.obs = std::mem::take(&mut s.obs);
        run.axioms = std::mem::take(&mut s.axioms);
        run.vars = std::mem::take(&mut s.vars);
    });
    run
}

// ------------------------------------------------------------------ concrete side

#[derive(Clone, Copy, Debug)]
pub struct Cv {
    pub v: f64,
    pub e: f64,
}

pub struct Discard;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub struct ConcState {
    pub rng: Rng,
    pub profile: u64,
    pub vals: HashMap<String, f64>,
    pub order: Vec<String>,
    pub given: Option<HashMap<String, f64>>,
    pub fails: Vec<String>,
    pub undecided: usize,
    pub decided: usize,
    pub tol: f64,
    pub f32vals: bool,
}
thread_local! {
    pub static CS: RefCell<ConcState> = RefCell::new(ConcState {
        rng: Rng(1), profile: 0, vals: HashMap::new(), order: vec![], given: None, fails: vec![], undecided: 0, decided: 0, tol: 1e-9, f32vals: false,
    });
}
fn cs<R>(f: impl FnOnce(&mut ConcState) -> R) -> R {
    CS.with(|c| f(&mut c.borrow_mut()))
}

const U: f64 = 4.0 * f64::EPSILON;

impl Add for Cv {
    type Output = Cv;
    fn add(self, o: Cv) -> Cv {
        let v = self.v + o.v;
        let bb = v - self.v;
        let err = (self.v - (v - bb)) + (o.v - bb);
        let r = if err == 0.0 || !v.is_finite() { 0.0 } else { v.abs() * U };
        Cv { v, e: self.e + o.e + r }
    }
}
impl Neg for Cv {
    type Output = Cv;
    fn neg(self) -> Cv { Cv { v: -self.v, e: self.e } }
}
impl Sub for Cv {
    type Output = Cv;
    fn sub(self, o: Cv) -> Cv { self + -o }
}
impl Mul for Cv {
    type Output = Cv;
    fn mul(self, o: Cv) -> Cv {
        let v = self.v * o.v;
        let r = if self.v.mul_add(o.v, -v) == 0.0 || !v.is_finite() { 0.0 } else { v.abs() * U };
        let e = self.e * o.v.abs() + o.e * self.v.abs() + self.e * o.e;
        Cv { v, e: if e.is_nan() { f64::INFINITY } else { e } + r }
    }
}
impl Div for Cv {
    type Output = Cv;
    fn div(self, o: Cv) -> Cv {
        let v = self.v / o.v;
        if o.e >= o.v.abs() && o.e > 0.0 {
            return Cv { v, e: f64::INFINITY };
        }
        let r = if v.mul_add(o.v, -self.v) == 0.0 || !v.is_finite() { 0.0 } else { v.abs() * U };
        let e = if self.e == 0.0 && o.e == 0.0 { 0.0 } else { (self.e + v.abs() * o.e) / (o.v.abs() - o.e) };
        Cv { v, e: e + r }
    }
}

/// three-valued evaluation
pub fn ev(f: &Fm<Cv>) -> Option<bool> {
    match f {
        T => Some(true),
        F => Some(false),
        Sg(d, m) => {
            if d.v.is_nan() {
                return Some(false);
            }
            let tol = d.e;
            let poss = if tol == 0.0 || d.v.abs() > tol {
                if d.v > 0.0 { POS } else if d.v < 0.0 { NEG } else { ZERO }
            } else {
                NEG | ZERO | POS
            };
            if poss & m == 0 {
                Some(false)
            } else if poss & !m == 0 {
                Some(true)
            } else {
                None
            }
        }
        Pr(_, _, b) => *b,
        And(v) => {
            let mut r = Some(true);
            for x in v {
                match ev(x) {
                    Some(false) => return Some(false),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Or(v) => {
            let mut r = Some(false);
            for x in v {
                match ev(x) {
                    Some(true) => return Some(true),
                    None => r = None,
                    _ => {}
                }
            }
            r
        }
        Not(x) => ev(x).map(|b| !b),
    }
}

fn sample(c: &mut ConcState) -> f64 {
    let p = c.profile;
    let r = &mut c.rng;
    match p {
        0 => r.below(3) as f64 - 1.0,
        1 => r.below(7) as f64 - 3.0,
        2 => r.below(33) as f64 - 16.0,
        3 => (r.below(65) as f64 - 32.0) / 8.0,
        4 => {
            // mostly zeros and ones
            match r.below(6) { 0 | 1 => 0.0, 2 => 1.0, 3 => -1.0, 4 => 2.0, _ => r.below(9) as f64 - 4.0 }
        }
        _ => (r.below(2049) as f64 - 1024.0) / 4.0,
    }
}

fn getvar(name: &str, gen: impl FnOnce(&mut ConcState) -> f64) -> f64 {
    cs(|c| {
        if let Some(v) = c.vals.get(name) {
            return *v;
        }
        let v = match &c.given {
            Some(g) if g.contains_key(name) => g[name],
            _ => gen(c),
        };
        let v = if c.f32vals { v as f32 as f64 } else { v };
        c.vals.insert(name.to_string(), v);
        c.order.push(name.to_string());
        v
    })
}

pub const UNIT3: [[f64; 4]; 12] = [
    [1., 0., 0., 1.], [0., 3., 4., 5.], [1., 2., 2., 3.], [2., 3., 6., 7.], [1., 4., 8., 9.], [4., 4., 7., 9.],
    [2., 6., 9., 11.], [6., 6., 7., 11.], [3., 4., 12., 13.], [2., 5., 14., 15.], [5., 12., 0., 13.], [2., 10., 11., 15.],
];

impl S for Cv {
    type F = f64;
    const SYM: bool = false;
    fn var(name: &str) -> Cv { Cv { v: getvar(name, sample), e: 0.0 } }
    fn var_in(name: &str, lo: f64, hi: f64) -> Cv {
        Cv { v: getvar(name, |c| { let u = if c.rng.below(4) == 0 { 0.0 } else { c.rng.below(65) as f64 / 64.0 }; lo + (hi - lo) * u }), e: 0.0 }
    }
    fn rat(n: i64, d: i64) -> Cv { Cv { v: n as f64, e: 0.0 } / Cv { v: d as f64, e: 0.0 } }
    fn pi() -> Cv { Cv { v: std::f64::consts::PI, e: 1e-15 } }
    fn f(self) -> f64 { self.v }
    fn of(x: f64) -> Cv {
        let t = cs(|c| c.tol);
        Cv { v: x, e: if x == 0.0 && false { 0.0 } else if x.is_finite() { t * (1.0 + x.abs()) } else { 0.0 } }
    }
    fn sqrt(self) -> Cv {
        let v = self.v.max(if self.e > 0.0 { 0.0 } else { f64::NEG_INFINITY }).sqrt();
        let e = if self.e == 0.0 { 0.0 } else if self.v > 4.0 * self.e { self.e / v } else { self.e.sqrt() * 3.0 };
        let r = if v * v == self.v && v.mul_add(v, -self.v) == 0.0 { 0.0 } else { v.abs() * U };
        Cv { v, e: e + r }
    }
    fn sin(self) -> Cv { Cv { v: self.v.sin(), e: if self.v == 0.0 { 0.0 } else { 1e-14 + self.e } } }
    fn cos(self) -> Cv { Cv { v: self.v.cos(), e: if self.v == 0.0 { 0.0 } else { 1e-14 + self.e } } }
    fn assume(f: Fm<Cv>) {
        match ev(&f) {
            Some(true) => {}
            Some(false) => panic_any(Discard),
            None => {
                // approximately satisfied equations (unit length and the like) are accepted
                if !matches!(f, Sg(_, ZERO)) {
                    panic_any(Discard)
                }
            }
        }
    }
    fn conc_assume(f: impl FnOnce() -> bool) {
        if !f() {
            panic_any(Discard)
        }
    }
    fn prove(name: &str, f: Fm<Cv>) {
        match ev(&f) {
            Some(true) => cs(|c| c.decided += 1),
            Some(false) => cs(|c| {
                c.decided += 1;
                c.fails.push(name.to_string())
            }),
            None => cs(|c| c.undecided += 1),
        }
    }
    fn lemma(name: &str, f: Fm<Cv>) { Self::prove(name, f) }
    fn prove_positive_by(name: &str, x: Cv, _: Cv, _: Cv) { Self::prove(name, gt(x, Cv::int(0))) }
    fn axiom(name: &str, f: Fm<Cv>) { Self::prove(&format!("axiom {}", name), f) }
    fn exact(self) -> bool { self.e == 0.0 }
    fn approx(self) -> f64 { self.v }
    fn rounding(_: bool) {}
    fn approx_semantic(_: bool) {}
    fn tol(t: f64) { cs(|c| c.tol = t) }
    fn unit(name: &str, n: usize) -> Vec<Cv> {
        let pick = cs(|c| {
            let t = UNIT3[c.rng.below(12) as usize];
            let mut v = if n == 4 {
                [[1., 0., 0., 0.], [1., 1., 1., 1.], [1., 1., 3., 5.], [1., 3., 3., 9.], [2., 4., 5., 6.], [1., 2., 2., 4.], [3., 4., 0., 0.]][c.rng.below(7) as usize].to_vec()
            } else if n == 3 { vec![t[0], t[1], t[2]] } else { let q = [[1., 0.], [3., 4.], [5., 12.], [8., 15.]][c.rng.below(4) as usize]; vec![q[0], q[1]] };
            let len = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            for i in (1..v.len()).rev() {
                let j = c.rng.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
            for x in v.iter_mut() {
                if c.rng.below(2) == 0 {
                    *x = -*x;
                }
                *x /= len;
            }
            // now and then next to, or opposite to, a unit vector drawn before
            if n == 3 && c.rng.below(3) == 0 {
                let older: Vec<String> = c.order.iter().filter(|o| o.ends_with('1') && c.vals.contains_key(&format!("{}3", &o[..o.len() - 1])) && !c.vals.contains_key(&format!("{}4", &o[..o.len() - 1]))).map(|o| o[..o.len() - 1].to_string()).collect();
                if !older.is_empty() {
                    let o = &older[c.rng.below(older.len() as u64) as usize];
                    let w: Vec<f64> = (1..4).map(|i| c.vals[&format!("{}{}", o, i)]).collect();
                    if (w.iter().map(|x| x * x).sum::<f64>() - 1.0).abs() < 1e-12 {
                        let d = 0.5f64.powi(1 + c.rng.below(6) as i32);
                        let s = if c.rng.below(2) == 0 { 1.0 } else { -1.0 };
                        let mut q: Vec<f64> = (0..3).map(|i| s * w[i] + d * v[i]).collect();
                        let len = q.iter().map(|x| x * x).sum::<f64>().sqrt();
                        if len > 0.01 {
                            q.iter_mut().for_each(|x| *x /= len);
                            return q;
                        }
                    }
                }
            }
            v
        });
        let r: Vec<Cv> = (0..n).map(|i| { let v = getvar(&format!("{}{}", name, i + 1), |_| pick[i]); Cv { v, e: if v == v.trunc() { 0.0 } else { v.abs() * U } } }).collect();
        let q = r.iter().fold(Cv { v: 0.0, e: 0.0 }, |x, y| x + *y * *y);
        // a counterexample of the prover is rounded: renormalise is not attempted, just require closeness
        if (q.v - 1.0).abs() > 1e-12 {
            panic_any(Discard)
        }
        r
    }
    fn choose(name: &str, n: usize) -> usize {
        let v = getvar(name, |c| c.rng.below(n as u64) as f64);
        (v as usize).min(n - 1)
    }
    fn abs_diff(x: Cv, y: Cv, e: Cv) -> Fm<Cv> { Pr(String::new(), vec![], Some(approx::AbsDiffEq::abs_diff_eq(&x.v, &y.v, e.v))) }
    fn relative(x: Cv, y: Cv, e: Cv, m: Cv) -> Fm<Cv> { Pr(String::new(), vec![], Some(approx::RelativeEq::relative_eq(&x.v, &y.v, e.v, m.v))) }
    fn ulps(x: Cv, y: Cv, e: Cv, m: u32) -> Fm<Cv> { Pr(String::new(), vec![], Some(approx::UlpsEq::ulps_eq(&x.v, &y.v, e.v, m))) }
    fn near(name: &str, a: Cv) -> Cv {
        Cv {
            v: getvar(name, |c| {
                let k = c.rng.below(8);
                match k {
                    0 | 1 | 2 => a.v,
                    3 => a.v + 0.5,
                    4 => a.v + 0.125,
                    5 => { let w = [6, 6, 64, 1 << 13, 1 << 31, 1 << 33][c.rng.below(6) as usize]; f64::from_bits(a.v.to_bits().wrapping_add(c.rng.below(w))) }
                    6 => a.v * 1.25,
                    _ => sample(c),
                }
            }),
            e: 0.0,
        }
    }
    fn is_number(self) -> Fm<Cv> { truth(self.v.is_finite()) }
}

pub enum Outcome {
    Discarded,
    Ok,
    Fail(Vec<String>),
}

/// Run a contract once on the real code with concrete values.
pub fn run_concrete(c: &dyn Fn(), seed: u64, given: Option<HashMap<String, f64>>, f32vals: bool, tol: f64) -> (Outcome, Vec<(String, f64)>) {
    cs(|s| {
        s.rng = Rng(seed);
        s.profile = s.rng.below(6);
        s.vals.clear();
        s.order.clear();
        s.given = given;
        s.fails.clear();
        s.tol = tol;
        s.f32vals = f32vals;
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c()));
    let vals: Vec<(String, f64)> = cs(|s| s.order.iter().map(|n| (n.clone(), s.vals[n])).collect());
    let mut fails = cs(|s| s.fails.clone());
    if let Err(e) = r {
        if e.downcast_ref::<Discard>().is_some() {
            return (Outcome::Discarded, vals);
        }
        fails.push(format!("no-panic ({})", panic_text(&*e)));
    }
    (if fails.is_empty() { Outcome::Ok } else { Outcome::Fail(fails) }, vals)
}
