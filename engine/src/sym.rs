//! The symbolic scalar: a Copy handle into a thread-local arena of real-valued terms.
//! Real code that is generic in its scalar runs on it unchanged; every comparison, division and
//! square root whose outcome the current path does not determine forks the path.
use crate::poly::*;
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;
use std::panic::panic_any;

pub struct Unsupported(pub String);
pub struct Infeasible;

pub fn unsupported(m: &str) -> ! {
    panic_any(Unsupported(m.to_string()))
}

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    C(Rat),
    V(String),
    Add(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Sqrt(u32),
    Fn(String, Vec<u32>),
}

#[derive(Clone, Copy, Debug)]
pub enum Val {
    R(u32),
    NaN,
    Inf(bool), // true: negative
}

#[derive(Clone, Copy)]
pub struct Sym(pub Val);

/// One entry of the path condition.
#[derive(Clone, Debug)]
pub enum Cond {
    Sign(u32, u8),
    Pred(String, Vec<u32>, bool),
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, u32>,
    polys: Vec<Option<Poly>>,
    keys: HashMap<Vec<(Mono, Rat)>, u32>,
    canon: HashMap<Vec<(Mono, Rat)>, u32>,
    zsigns: HashMap<u32, bool>,
    restricted: Vec<u32>,
    // per path
    pub signs: HashMap<u32, u8>,
    pub preds: HashMap<(String, Vec<u32>), bool>,
    pub conds: Vec<Cond>,
    pub prefix: Vec<bool>,
    pub taken: Vec<bool>,
    pub round: bool,
    pub approx_semantic: bool,
    pub nfresh: u32,
    pub deltas: Vec<u32>,
    pub fns: Vec<u32>,
}

const PL: usize = 400;

fn patom_mono(a: u32) -> Mono {
    patom(a).into_iter().next().unwrap().0
}
fn mulmask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for (x, sx) in [(NEG, -1i32), (ZERO, 0), (POS, 1)] {
        for (y, sy) in [(NEG, -1i32), (ZERO, 0), (POS, 1)] {
            if a & x != 0 && b & y != 0 {
                r |= match sx * sy { -1 => NEG, 0 => ZERO, _ => POS };
            }
        }
    }
    r
}
fn addmask(a: u8, b: u8) -> u8 {
    if a == 0 || b == 0 {
        return 0;
    }
    if a == ZERO {
        return b;
    }
    if b == ZERO {
        return a;
    }
    let both = a | b;
    if both & NEG != 0 && both & POS != 0 {
        return 7;
    }
    let zero = a & b & ZERO;
    (both & !ZERO) | zero
}

thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena::default());
}

impl Arena {
    fn mk(&mut self, n: Node) -> u32 {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        let p = self.poly_of(&n, i);
        if let Some(p) = &p {
            let k: Vec<(Mono, Rat)> = p.iter().map(|(m, c)| (m.clone(), *c)).collect();
            self.canon.entry(k).or_insert(i);
        }
        self.nodes.push(n.clone());
        self.map.insert(n, i);
        self.polys.push(p);
        i
    }
    /// the first node that is the same polynomial
    fn canonical(&self, i: u32) -> u32 {
        if let Some(p) = &self.polys[i as usize] {
            let k: Vec<(Mono, Rat)> = p.iter().map(|(m, c)| (m.clone(), *c)).collect();
            return self.canon.get(&k).copied().unwrap_or(i);
        }
        i
    }
    /// IEEE zeros are signed and the terms are not: one choice per denominator
    fn zero_sign(&mut self, den: u32) -> bool {
        let (k, _) = self.key(den);
        if let Some(b) = self.zsigns.get(&k) {
            return *b;
        }
        let c = self.choose();
        self.zsigns.insert(k, c);
        c
    }
    fn poly_of(&self, n: &Node, i: u32) -> Option<Poly> {
        let atom = Some(patom(i));
        match n {
            Node::C(c) => Some(pconst(*c)),
            Node::Add(a, b) => match (&self.polys[*a as usize], &self.polys[*b as usize]) {
                (Some(x), Some(y)) => padd(x, y, PL).or(atom),
                _ => atom,
            },
            Node::Mul(a, b) => match (&self.polys[*a as usize], &self.polys[*b as usize]) {
                (Some(x), Some(y)) => pmul(x, y, PL).or(atom),
                _ => atom,
            },
            _ => atom,
        }
    }
    pub fn konst(&mut self, r: Rat) -> u32 {
        self.mk(Node::C(r))
    }
    pub fn as_const(&self, a: u32) -> Option<Rat> {
        if let Node::C(c) = &self.nodes[a as usize] {
            return Some(*c);
        }
        if let Some(p) = &self.polys[a as usize] {
            if p.is_empty() {
                return Some(Rat::ZERO);
            }
            if p.len() == 1 {
                let (m, c) = p.iter().next().unwrap();
                if m.is_empty() {
                    return Some(*c);
                }
            }
        }
        None
    }
    pub fn var(&mut self, n: &str) -> u32 {
        self.mk(Node::V(n.to_string()))
    }
    fn perturb(&mut self, r: u32) -> u32 {
        if !self.round || self.as_const(r).is_some() {
            return r;
        }
        // the factor 1 + delta, |delta| <= 2^-24, is a positive atom
        let d = self.mk(Node::V(format!("rho!{}", self.nfresh)));
        self.nfresh += 1;
        self.deltas.push(d);
        self.mk(Node::Mul(r, d))
    }
    fn add(&mut self, a: u32, b: u32) -> u32 {
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            match x.add(y) {
                Some(z) => return self.konst(z),
                None => unsupported("constant overflow"),
            }
        }
        if ca == Some(Rat::ZERO) {
            return b;
        }
        if cb == Some(Rat::ZERO) {
            return a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let r = self.mk(Node::Add(a, b));
        self.perturb(r)
    }
    fn mul(&mut self, a: u32, b: u32) -> u32 {
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            match x.mul(y) {
                Some(z) => return self.konst(z),
                None => unsupported("constant overflow"),
            }
        }
        if ca == Some(Rat::ZERO) || cb == Some(Rat::ZERO) {
            return self.konst(Rat::ZERO);
        }
        if ca == Some(Rat::ONE) {
            return b;
        }
        if cb == Some(Rat::ONE) {
            return a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let r = self.mk(Node::Mul(a, b));
        // negation is exact
        if ca == Some(Rat::int(-1)) || cb == Some(Rat::int(-1)) {
            return r;
        }
        self.perturb(r)
    }
    fn neg(&mut self, a: u32) -> u32 {
        let m = self.konst(Rat::int(-1));
        self.mul(m, a)
    }
    /// Exact difference (used for comparisons, never rounded).
    pub fn diff(&mut self, a: u32, b: u32) -> u32 {
        let r = self.round;
        self.round = false;
        let nb = self.neg(b);
        let d = self.add(a, nb);
        self.round = r;
        d
    }
    /// Canonical key of a term up to a positive or negative factor; None if constant.
    fn key(&mut self, a: u32) -> (u32, bool) {
        if let Some(p) = &self.polys[a as usize] {
            if let Some((_, lead)) = p.iter().next_back() {
                let flip = lead.n < 0;
                if let Some(inv) = lead.inv() {
                    let mut v = Vec::with_capacity(p.len());
                    let mut ok = true;
                    for (m, c) in p {
                        match c.mul(inv) {
                            Some(x) => v.push((m.clone(), x)),
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        let n = self.keys.len() as u32;
                        let k = *self.keys.entry(v).or_insert(n);
                        return (k, flip);
                    }
                }
            }
        }
        (1_000_000 + a, false)
    }
    /// Sign of an atom, as far as the path and the structure tell.
    fn atom_sign(&self, a: u32, depth: u32) -> u8 {
        let st = match &self.nodes[a as usize] {
            Node::Sqrt(x) => {
                let sx = if depth > 0 { self.sign_of(*x, depth - 1) } else { 7 };
                ((sx & (ZERO | POS)) | if sx & NEG != 0 { ZERO } else { 0 }).max(ZERO)
            }
            Node::V(n) if n.starts_with("rho!") => POS,
            Node::Fn(n, _) if n == "pi" => POS,
            Node::Div(x, y) if depth > 0 => mulmask(self.sign_of(*x, depth - 1), self.sign_of(*y, depth - 1)),
            _ => 7,
        };
        let k = vec![(patom_mono(a), Rat::ONE)];
        let s = match self.keys.get(&k) {
            Some(k) => self.signs.get(k).copied().unwrap_or(7),
            None => 7,
        };
        if st & s == 0 { st } else { st & s }
    }
    fn mono_sign(&self, m: &Mono, depth: u32) -> u8 {
        let mut r = POS;
        for (a, e) in m.iter() {
            let s = self.atom_sign(*a, depth);
            let s = if e % 2 == 0 { (if s & (NEG | POS) != 0 { POS } else { 0 }) | (s & ZERO) } else { s };
            r = mulmask(r, s);
        }
        r
    }
    /// Sign information from the structure of a term and the signs of its atoms.
    fn sign_of(&self, a: u32, depth: u32) -> u8 {
        if let Some(c) = self.as_const(a) {
            return if c.n < 0 { NEG } else if c.n == 0 { ZERO } else { POS };
        }
        let mut known = 7;
        if let Some(p) = &self.polys[a as usize] {
            // what the path says about the whole polynomial
            if let Some((_, lead)) = p.iter().next_back() {
                if let Some(inv) = lead.inv() {
                    let v: Option<Vec<(Mono, Rat)>> = p.iter().map(|(m, c)| c.mul(inv).map(|x| (m.clone(), x))).collect();
                    if let Some(k) = v.and_then(|v| self.keys.get(&v)) {
                        let s = self.signs.get(k).copied().unwrap_or(7);
                        known = if lead.n < 0 { Self::flip(s) } else { s };
                    }
                }
            }
            // an even power or product of roots with coefficient of one sign
            let mut r = ZERO;
            for (m, c) in p {
                let s = self.mono_sign(m, depth);
                let s = if c.n < 0 { Self::flip(s) } else { s };
                r = addmask(r, s);
            }
            known &= r;
        }
        known
    }
    fn static_sign(&self, a: u32) -> u8 {
        let s = self.sign_of(a, 3);
        if s == 0 { 7 } else { s }
    }
    fn flip(m: u8) -> u8 {
        (m & ZERO) | ((m & NEG) << 2) | ((m & POS) >> 2)
    }
    pub fn allowed(&mut self, a: u32) -> u8 {
        let st = self.static_sign(a);
        if st == NEG || st == ZERO || st == POS {
            return st;
        }
        let (k, f) = self.key(a);
        let s = self.signs.get(&k).copied().unwrap_or(7);
        st & if f { Self::flip(s) } else { s }
    }
    pub fn restrict(&mut self, a: u32, mask: u8) {
        let now = self.allowed(a) & mask;
        if now == 0 {
            panic_any(Infeasible);
        }
        if self.as_const(a).is_some() {
            return;
        }
        let (k, f) = self.key(a);
        self.signs.insert(k, if f { Self::flip(now) } else { now });
        self.restricted.push(a);
        if now == ZERO {
            self.all_zero(a);
        }
        // a root vanishes exactly when its argument does
        if let Node::Sqrt(x) = self.nodes[a as usize] {
            if now == ZERO || now == POS {
                self.restrict(x, now);
            }
        }
    }
    /// A sum of terms of one sign vanishes only if every term does.
    fn all_zero(&mut self, a: u32) {
        let p = match &self.polys[a as usize] {
            Some(p) => p.clone(),
            None => return,
        };
        let sg = |x: &Self, m: &Mono, c: &Rat| {
            let s = x.mono_sign(m, 3);
            if c.n < 0 { Self::flip(s) } else { s }
        };
        let one = p.iter().all(|(m, c)| sg(self, m, c) & NEG == 0) || p.iter().all(|(m, c)| sg(self, m, c) & POS == 0);
        if !one {
            return;
        }
        let mut changed = false;
        for (m, c) in &p {
            if sg(self, m, c) & ZERO == 0 {
                panic_any(Infeasible);
            }
            let open: Vec<u32> = m.iter().map(|x| x.0).filter(|x| self.atom_sign(*x, 3) & ZERO != 0).collect();
            if open.len() == 1 && self.atom_sign(open[0], 3) != ZERO && open[0] != a {
                self.restrict(open[0], ZERO);
                changed = true;
            }
        }
        if changed {
            for r in self.restricted.clone() {
                if self.sign_of(r, 3) == 0 {
                    panic_any(Infeasible);
                }
            }
        }
    }
    fn choose(&mut self) -> bool {
        let i = self.taken.len();
        if i > 4000 {
            unsupported("path too long");
        }
        let c = if i < self.prefix.len() { self.prefix[i] } else { true };
        self.taken.push(c);
        c
    }
    /// Decide whether the sign of `a` is in `mask`, forking if necessary.
    pub fn decide(&mut self, a: u32, mask: u8) -> bool {
        let al = self.allowed(a);
        if al & mask == 0 {
            return false;
        }
        if al & !mask & 7 == 0 {
            return true;
        }
        let c = self.choose();
        let m = if c { mask } else { !mask & 7 };
        self.conds.push(Cond::Sign(a, m & 7));
        self.restrict(a, m);
        c
    }
    pub fn decide_pred(&mut self, name: &str, args: Vec<u32>) -> bool {
        let k = (name.to_string(), args.clone());
        if let Some(b) = self.preds.get(&k) {
            return *b;
        }
        let c = self.choose();
        self.preds.insert(k, c);
        self.conds.push(Cond::Pred(name.to_string(), args, c));
        c
    }
    fn func(&mut self, n: &str, a: Vec<u32>) -> u32 {
        let a: Vec<u32> = a.into_iter().map(|x| self.canonical(x)).collect();
        let i = self.mk(Node::Fn(n.to_string(), a));
        if !self.fns.contains(&i) {
            self.fns.push(i);
        }
        i
    }
    pub fn reset_path(&mut self, prefix: Vec<bool>) {
        self.signs.clear();
        self.preds.clear();
        self.zsigns.clear();
        self.restricted.clear();
        self.conds.clear();
        self.taken.clear();
        self.prefix = prefix;
        self.round = false;
        self.approx_semantic = false;
        self.nfresh = 0;
        self.deltas.clear();
        self.fns.clear();
    }
}

fn w<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    A.with(|a| f(&mut a.borrow_mut()))
}

use Val::*;

impl Sym {
    pub const NAN: Sym = Sym(NaN);
    pub fn var(n: &str) -> Sym {
        Sym(R(w(|a| a.var(n))))
    }
    pub fn rat(n: i128, d: i128) -> Sym {
        Sym(R(w(|a| a.konst(Rat::new(n, d)))))
    }
    pub fn int(n: i64) -> Sym {
        Sym::rat(n as i128, 1)
    }
    pub fn from_usize(n: usize) -> Sym {
        Sym::rat(n as i128, 1)
    }
    pub fn lit(x: f64) -> Sym {
        if x.is_nan() {
            return Sym(NaN);
        }
        if x.is_infinite() {
            return Sym(Inf(x < 0.0));
        }
        if x == std::f64::consts::PI || x == std::f32::consts::PI as f64 {
            return Sym::pi();
        }
        match Rat::from_f64(x) {
            Some(r) => Sym(R(w(|a| a.konst(r)))),
            None => unsupported(&format!("literal {}", x)),
        }
    }
    /// A literal of f32 code.
    pub fn lit32(x: f32) -> Sym {
        Sym::lit(x as f64)
    }
    pub fn pi() -> Sym {
        Sym(R(w(|a| a.func("pi", vec![]))))
    }
    pub fn flt_max() -> Sym {
        Sym::var("flt!max")
    }
    pub fn eps32() -> Sym {
        Sym::rat(1, 1 << 23)
    }
    pub fn id(self) -> Option<u32> {
        match self.0 {
            R(i) => Some(i),
            _ => None,
        }
    }
    fn cid(self) -> u32 {
        match self.0 {
            R(i) => i,
            _ => unsupported("special value in an uninterpreted function"),
        }
    }
    pub fn konst(self) -> Option<Rat> {
        self.id().and_then(|i| w(|a| a.as_const(i)))
    }
    pub fn is_nan(self) -> bool {
        matches!(self.0, NaN)
    }
    pub fn is_infinite(self) -> bool {
        matches!(self.0, Inf(_))
    }
    pub fn is_finite(self) -> bool {
        matches!(self.0, R(_))
    }
    fn sgn_mask(self, mask: u8) -> bool {
        match self.0 {
            R(i) => w(|a| a.decide(i, mask)),
            NaN => false,
            Inf(n) => mask & (if n { NEG } else { POS }) != 0,
        }
    }
    fn cmp_mask(self, o: Sym, mask: u8) -> bool {
        match (self.0, o.0) {
            (NaN, _) | (_, NaN) => false,
            (R(x), R(y)) => w(|a| {
                let d = a.diff(x, y);
                a.decide(d, mask)
            }),
            (Inf(a), Inf(b)) => mask & (if a == b { ZERO } else if a { NEG } else { POS }) != 0,
            (Inf(a), R(_)) => mask & (if a { NEG } else { POS }) != 0,
            (R(_), Inf(b)) => mask & (if b { POS } else { NEG }) != 0,
        }
    }
    fn neg_(self) -> Sym {
        match self.0 {
            R(x) => Sym(R(w(|a| a.neg(x)))),
            NaN => self,
            Inf(n) => Sym(Inf(!n)),
        }
    }
    fn add_(self, o: Sym) -> Sym {
        match (self.0, o.0) {
            (NaN, _) | (_, NaN) => Sym(NaN),
            (R(x), R(y)) => Sym(R(w(|a| a.add(x, y)))),
            (Inf(a), Inf(b)) => if a == b { self } else { Sym(NaN) },
            (Inf(_), _) => self,
            (_, Inf(_)) => o,
        }
    }
    fn mul_(self, o: Sym) -> Sym {
        match (self.0, o.0) {
            (NaN, _) | (_, NaN) => Sym(NaN),
            (R(x), R(y)) => Sym(R(w(|a| a.mul(x, y)))),
            (Inf(a), Inf(b)) => Sym(Inf(a != b)),
            (Inf(a), R(_)) => o.times_inf(a),
            (R(_), Inf(b)) => self.times_inf(b),
        }
    }
    fn times_inf(self, n: bool) -> Sym {
        if self.sgn_mask(ZERO) {
            Sym(NaN)
        } else if self.sgn_mask(POS) {
            Sym(Inf(n))
        } else {
            Sym(Inf(!n))
        }
    }
    fn div_(self, o: Sym) -> Sym {
        match (self.0, o.0) {
            (NaN, _) | (_, NaN) => Sym(NaN),
            (Inf(_), Inf(_)) => Sym(NaN),
            (R(_), Inf(_)) => Sym::int(0),
            (Inf(a), R(_)) => {
                let n = if o.sgn_mask(ZERO) { w(|a| a.choose()) } else { o.sgn_mask(NEG) };
                Sym(Inf(a != n))
            }
            (R(x), R(y)) => {
                if o.sgn_mask(ZERO) {
                    if self.sgn_mask(ZERO) {
                        return Sym(NaN);
                    }
                    // the sign of a floating-point zero is not tracked: consider both
                    let zneg = w(|a| a.zero_sign(y));
                    return Sym(Inf(self.sgn_mask(NEG) != zneg));
                }
                w(|a| {
                    if let Some(c) = a.as_const(y) {
                        if let Some(i) = c.inv() {
                            let k = a.konst(i);
                            return Sym(R(a.mul(x, k)));
                        }
                    }
                    if a.as_const(x) == Some(Rat::ZERO) {
                        return Sym(R(x));
                    }
                    let (x, y) = (a.canonical(x), a.canonical(y));
                    let d = a.mk(Node::Div(x, y));
                    Sym(R(a.perturb(d)))
                })
            }
        }
    }
    pub fn sqrt(self) -> Sym {
        match self.0 {
            NaN | Inf(true) => Sym(NaN),
            Inf(false) => self,
            R(x) => {
                if self.sgn_mask(NEG) {
                    return Sym(NaN);
                }
                w(|a| {
                    if let Some(s) = a.as_const(x).and_then(|c| c.sqrt()) {
                        return Sym(R(a.konst(s)));
                    }
                    let x = a.canonical(x);
                    let s = a.mk(Node::Sqrt(x));
                    Sym(R(a.perturb(s)))
                })
            }
        }
    }
    pub fn abs(self) -> Sym {
        if self.is_nan() {
            return self;
        }
        if self.sgn_mask(NEG) {
            self.neg_()
        } else {
            self
        }
    }
    pub fn signum(self) -> Sym {
        // (a floating-point zero has a sign; both are considered)
        if self.is_nan() {
            return self;
        }
        if self.sgn_mask(NEG) {
            Sym::int(-1)
        } else if self.sgn_mask(POS) || w(|a| a.choose()) {
            Sym::int(1)
        } else {
            Sym::int(-1)
        }
    }
    pub fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self < o {
            o
        } else {
            self
        }
    }
    pub fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if o < self {
            o
        } else {
            self
        }
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn recip(self) -> Sym {
        Sym::int(1).div_(self)
    }
    pub fn powi(self, n: i32) -> Sym {
        if n < 0 {
            return self.powi(-n).recip();
        }
        let mut r = Sym::int(1);
        for _ in 0..n {
            r = r.mul_(self);
        }
        r
    }
    pub fn powf(self, e: Sym) -> Sym {
        match e.konst() {
            Some(c) if c.d == 1 && c.n.abs() < 16 => self.powi(c.n as i32),
            Some(c) if c == Rat::new(1, 2) => self.sqrt(),
            _ => unsupported("powf"),
        }
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self.mul_(a).add_(b)
    }
    pub fn hypot(self, o: Sym) -> Sym {
        self.mul_(self).add_(o.mul_(o)).sqrt()
    }
    pub fn sin(self) -> Sym {
        match self.0 {
            R(x) => w(|a| {
                if a.as_const(x) == Some(Rat::ZERO) {
                    return Sym(R(x));
                }
                Sym(R(a.func("sin", vec![x])))
            }),
            _ => Sym(NaN),
        }
    }
    pub fn cos(self) -> Sym {
        match self.0 {
            R(x) => w(|a| {
                if a.as_const(x) == Some(Rat::ZERO) {
                    return Sym(R(a.konst(Rat::ONE)));
                }
                Sym(R(a.func("cos", vec![x])))
            }),
            _ => Sym(NaN),
        }
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn acos(self) -> Sym {
        match self.0 {
            R(x) => {
                if self > Sym::int(1) || self < Sym::int(-1) {
                    return Sym(NaN);
                }
                Sym(R(w(|a| a.func("acos", vec![x]))))
            }
            _ => Sym(NaN),
        }
    }
    pub fn atan2(self, o: Sym) -> Sym {
        match (self.0, o.0) {
            (R(y), R(x)) => Sym(R(w(|a| a.func("atan2", vec![y, x])))),
            (NaN, _) | (_, NaN) => Sym(NaN),
            _ => unsupported("atan2 of infinity"),
        }
    }
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

impl Add for Sym { type Output = Sym; fn add(self, o: Sym) -> Sym { self.add_(o) } }
impl Sub for Sym { type Output = Sym; fn sub(self, o: Sym) -> Sym { self.add_(o.neg_()) } }
impl Mul for Sym { type Output = Sym; fn mul(self, o: Sym) -> Sym { self.mul_(o) } }
impl Div for Sym { type Output = Sym; fn div(self, o: Sym) -> Sym { self.div_(o) } }
impl Rem for Sym { type Output = Sym; fn rem(self, _o: Sym) -> Sym { unsupported("rem") } }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { self.neg_() } }
macro_rules! refops {
    ($($t:ident $f:ident),*) => {$(
        impl<'a> $t<&'a Sym> for Sym { type Output = Sym; fn $f(self, o: &'a Sym) -> Sym { $t::$f(self, *o) } }
        impl<'a> $t<Sym> for &'a Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { $t::$f(*self, o) } }
        impl<'a, 'b> $t<&'b Sym> for &'a Sym { type Output = Sym; fn $f(self, o: &'b Sym) -> Sym { $t::$f(*self, *o) } }
    )*};
}
refops!(Add add, Sub sub, Mul mul, Div div);
impl<'a> Neg for &'a Sym { type Output = Sym; fn neg(self) -> Sym { self.neg_() } }
impl AddAssign for Sym { fn add_assign(&mut self, o: Sym) { *self = *self + o } }
impl SubAssign for Sym { fn sub_assign(&mut self, o: Sym) { *self = *self - o } }
impl MulAssign for Sym { fn mul_assign(&mut self, o: Sym) { *self = *self * o } }
impl DivAssign for Sym { fn div_assign(&mut self, o: Sym) { *self = *self / o } }
impl RemAssign for Sym { fn rem_assign(&mut self, _o: Sym) { unsupported("rem") } }
impl std::iter::Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym::int(0), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a Sym> for Sym { fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym { i.fold(Sym::int(0), |a, b| a + *b) } }

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool { self.cmp_mask(*o, ZERO) }
    fn ne(&self, o: &Sym) -> bool { !self.cmp_mask(*o, ZERO) }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        if self.is_nan() || o.is_nan() {
            return None;
        }
        Some(if self.cmp_mask(*o, ZERO) { Equal } else if self.cmp_mask(*o, NEG) { Less } else { Greater })
    }
    fn lt(&self, o: &Sym) -> bool { self.cmp_mask(*o, NEG) }
    fn le(&self, o: &Sym) -> bool { self.cmp_mask(*o, NEG | ZERO) }
    fn gt(&self, o: &Sym) -> bool { self.cmp_mask(*o, POS) }
    fn ge(&self, o: &Sym) -> bool { self.cmp_mask(*o, POS | ZERO) }
}

use num_traits as nt;
impl nt::Zero for Sym {
    fn zero() -> Sym { Sym::int(0) }
    fn is_zero(&self) -> bool { *self == Sym::int(0) }
}
impl nt::One for Sym { fn one() -> Sym { Sym::int(1) } }
impl nt::Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> { Err(()) }
}
impl nt::ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> { unsupported("to_i64") }
    fn to_u64(&self) -> Option<u64> { unsupported("to_u64") }
    fn to_f64(&self) -> Option<f64> {
        match self.konst() {
            Some(c) => Some(c.n as f64 / c.d as f64),
            None => unsupported("to_f64"),
        }
    }
}
impl nt::NumCast for Sym {
    fn from<T: nt::ToPrimitive>(n: T) -> Option<Sym> { n.to_f64().map(Sym::lit) }
}
impl nt::FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> { Some(Sym::int(n)) }
    fn from_u64(n: u64) -> Option<Sym> { Some(Sym::rat(n as i128, 1)) }
    fn from_f64(n: f64) -> Option<Sym> { Some(Sym::lit(n)) }
    fn from_f32(n: f32) -> Option<Sym> { Some(Sym::lit(n as f64)) }
}
impl nt::Signed for Sym {
    fn abs(&self) -> Sym { Sym::abs(*self) }
    fn abs_sub(&self, o: &Sym) -> Sym { if *self <= *o { Sym::int(0) } else { *self - *o } }
    fn signum(&self) -> Sym { Sym::signum(*self) }
    fn is_positive(&self) -> bool { *self > Sym::int(0) }
    fn is_negative(&self) -> bool { *self < Sym::int(0) }
}
impl nt::Bounded for Sym {
    fn min_value() -> Sym { Sym::var("flt!max").neg_() }
    fn max_value() -> Sym { Sym::var("flt!max") }
}
macro_rules! un { ($($f:ident),*) => { $( fn $f(self) -> Sym { unsupported(stringify!($f)) } )* } }
impl nt::Float for Sym {
    fn nan() -> Sym { Sym(NaN) }
    fn infinity() -> Sym { Sym(Inf(false)) }
    fn neg_infinity() -> Sym { Sym(Inf(true)) }
    fn neg_zero() -> Sym { Sym::int(0) }
    fn min_value() -> Sym { unsupported("min_value") }
    fn min_positive_value() -> Sym { unsupported("min_positive_value") }
    fn max_value() -> Sym { unsupported("max_value") }
    fn epsilon() -> Sym { Sym::var("eps!") }
    fn is_nan(self) -> bool { Sym::is_nan(self) }
    fn is_infinite(self) -> bool { Sym::is_infinite(self) }
    fn is_finite(self) -> bool { Sym::is_finite(self) }
    fn is_normal(self) -> bool { Sym::is_finite(self) && self != Sym::int(0) }
    fn classify(self) -> std::num::FpCategory { unsupported("classify") }
    un!(floor, ceil, round, trunc, fract, exp, exp2, ln, log2, log10, cbrt, tan, asin, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn abs(self) -> Sym { Sym::abs(self) }
    fn signum(self) -> Sym { Sym::signum(self) }
    fn is_sign_positive(self) -> bool { self >= Sym::int(0) }
    fn is_sign_negative(self) -> bool { self < Sym::int(0) }
    fn mul_add(self, a: Sym, b: Sym) -> Sym { Sym::mul_add(self, a, b) }
    fn recip(self) -> Sym { Sym::recip(self) }
    fn powi(self, n: i32) -> Sym { Sym::powi(self, n) }
    fn powf(self, n: Sym) -> Sym { Sym::powf(self, n) }
    fn sqrt(self) -> Sym { Sym::sqrt(self) }
    fn log(self, _b: Sym) -> Sym { unsupported("log") }
    fn max(self, o: Sym) -> Sym { Sym::max(self, o) }
    fn min(self, o: Sym) -> Sym { Sym::min(self, o) }
    fn abs_sub(self, o: Sym) -> Sym { nt::Signed::abs_sub(&self, &o) }
    fn hypot(self, o: Sym) -> Sym { Sym::hypot(self, o) }
    fn sin(self) -> Sym { Sym::sin(self) }
    fn cos(self) -> Sym { Sym::cos(self) }
    fn acos(self) -> Sym { Sym::acos(self) }
    fn atan2(self, o: Sym) -> Sym { Sym::atan2(self, o) }
    fn sin_cos(self) -> (Sym, Sym) { Sym::sin_cos(self) }
    fn integer_decode(self) -> (u64, i16, i8) { unsupported("integer_decode") }
}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym::eps32()
    }
    fn abs_diff_eq(&self, o: &Sym, e: Sym) -> bool {
        if w(|a| a.approx_semantic) {
            return (*self - *o).abs() <= e;
        }
        let args = vec![self.cid(), o.cid(), e.cid()];
        w(|a| a.decide_pred("abs_diff_eq", args))
    }
}
impl approx::RelativeEq for Sym {
    fn default_max_relative() -> Sym { Sym::var("default!max_relative") }
    fn relative_eq(&self, o: &Sym, e: Sym, m: Sym) -> bool {
        if w(|a| a.approx_semantic) {
            if *self == *o {
                return true;
            }
            let d = (*self - *o).abs();
            return d <= e || d <= Sym::abs(*self).max(Sym::abs(*o)) * m;
        }
        let args = vec![self.cid(), o.cid(), e.cid(), m.cid()];
        w(|a| a.decide_pred("relative_eq", args))
    }
}
pub const DEFAULT_ULPS: u32 = 48271;
impl approx::UlpsEq for Sym {
    fn default_max_ulps() -> u32 { DEFAULT_ULPS }
    fn ulps_eq(&self, o: &Sym, e: Sym, m: u32) -> bool {
        if w(|a| a.approx_semantic) {
            if (*self - *o).abs() <= e {
                return true;
            }
            // Beyond the tolerance: numbers of different signs, or one of which is zero, are never
            // within a few ulps; for the others the outcome is left open.
            let zero = Sym::int(0);
            if *self == zero || *o == zero || (*self < zero) != (*o < zero) {
                return false;
            }
        }
        let args = vec![self.cid(), o.cid(), e.cid(), Sym::int(m as i64).cid()];
        w(|a| a.decide_pred("ulps_eq", args))
    }
}

// ---- simba / nalgebra ----
use simba::scalar::*;
use simba::simd::SimdValue;
impl SimdValue for Sym {
    type Element = Sym;
    type SimdBool = bool;
    fn lanes() -> usize { 1 }
    fn splat(v: Sym) -> Sym { v }
    fn extract(&self, _: usize) -> Sym { *self }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym { *self }
    fn replace(&mut self, _: usize, v: Sym) { *self = v }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Sym) { *self = v }
    fn select(self, c: bool, o: Sym) -> Sym { if c { self } else { o } }
}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym { *self }
    fn from_superset_unchecked(e: &Sym) -> Sym { *e }
    fn is_in_subset(_: &Sym) -> bool { true }
}
impl SubsetOf<Sym> for f64 {
    fn to_superset(&self) -> Sym { Sym::lit(*self) }
    fn from_superset_unchecked(_: &Sym) -> f64 { unsupported("to f64") }
    fn is_in_subset(_: &Sym) -> bool { false }
}
macro_rules! cun { ($($f:ident),*) => { $( fn $f(self) -> Sym { unsupported(stringify!($f)) } )* } }
impl ComplexField for Sym {
    type RealField = Sym;
    fn from_real(r: Sym) -> Sym { r }
    fn real(self) -> Sym { self }
    fn imaginary(self) -> Sym { Sym::int(0) }
    fn modulus(self) -> Sym { self.abs() }
    fn modulus_squared(self) -> Sym { self * self }
    fn argument(self) -> Sym { unsupported("argument") }
    fn norm1(self) -> Sym { self.abs() }
    fn scale(self, f: Sym) -> Sym { self * f }
    fn unscale(self, f: Sym) -> Sym { self / f }
    cun!(floor, ceil, round, trunc, fract, tan, asin, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln, ln_1p, exp, exp2, exp_m1, cbrt);
    fn mul_add(self, a: Sym, b: Sym) -> Sym { Sym::mul_add(self, a, b) }
    fn abs(self) -> Sym { Sym::abs(self) }
    fn hypot(self, o: Sym) -> Sym { Sym::hypot(self, o) }
    fn recip(self) -> Sym { Sym::recip(self) }
    fn conjugate(self) -> Sym { self }
    fn sin(self) -> Sym { Sym::sin(self) }
    fn cos(self) -> Sym { Sym::cos(self) }
    fn sin_cos(self) -> (Sym, Sym) { Sym::sin_cos(self) }
    fn acos(self) -> Sym { Sym::acos(self) }
    fn log(self, _b: Sym) -> Sym { unsupported("log") }
    fn sqrt(self) -> Sym { Sym::sqrt(self) }
    fn powi(self, n: i32) -> Sym { Sym::powi(self, n) }
    fn powf(self, n: Sym) -> Sym { Sym::powf(self, n) }
    fn powc(self, n: Sym) -> Sym { Sym::powf(self, n) }
    fn is_finite(&self) -> bool { Sym::is_finite(*self) }
    fn try_sqrt(self) -> Option<Sym> { if self >= Sym::int(0) { Some(Sym::sqrt(self)) } else { None } }
}
impl RealField for Sym {
    fn is_sign_positive(self) -> bool { self >= Sym::int(0) }
    fn is_sign_negative(self) -> bool { self < Sym::int(0) }
    fn max(self, o: Sym) -> Sym { Sym::max(self, o) }
    fn min(self, o: Sym) -> Sym { Sym::min(self, o) }
    fn clamp(self, a: Sym, b: Sym) -> Sym { Sym::clamp(self, a, b) }
    fn atan2(self, o: Sym) -> Sym { Sym::atan2(self, o) }
    fn pi() -> Sym { Sym::pi() }
    fn two_pi() -> Sym { Sym::pi() * Sym::int(2) }
    fn frac_pi_2() -> Sym { Sym::pi() / Sym::int(2) }
    fn frac_pi_3() -> Sym { Sym::pi() / Sym::int(3) }
    fn frac_pi_4() -> Sym { Sym::pi() / Sym::int(4) }
    fn frac_pi_6() -> Sym { Sym::pi() / Sym::int(6) }
    fn frac_pi_8() -> Sym { Sym::pi() / Sym::int(8) }
    fn frac_1_pi() -> Sym { Sym::pi().recip() }
    fn frac_2_pi() -> Sym { Sym::int(2) / Sym::pi() }
    fn frac_2_sqrt_pi() -> Sym { unsupported("const") }
    fn e() -> Sym { unsupported("const") }
    fn log2_e() -> Sym { unsupported("const") }
    fn log10_e() -> Sym { unsupported("const") }
    fn ln_2() -> Sym { unsupported("const") }
    fn ln_10() -> Sym { unsupported("const") }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}
