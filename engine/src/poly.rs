//! Exact rationals (i128) and multivariate polynomials over term "atoms".
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let a = self.n.checked_mul(o.d)?;
        let b = o.n.checked_mul(self.d)?;
        Some(Rat::new(a.checked_add(b)?, self.d.checked_mul(o.d)?))
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        Some(Rat::new(self.n.checked_mul(o.n)?, self.d.checked_mul(o.d)?))
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn inv(self) -> Option<Rat> {
        if self.n == 0 {
            None
        } else {
            Some(Rat::new(self.d, self.n))
        }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    /// Exact value of a finite float.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::ZERO);
        }
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = (bits & ((1u64 << 52) - 1)) as i128;
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1i128 << 52), e - 1075) };
        while m % 2 == 0 {
            m /= 2;
            e += 1;
        }
        if x < 0.0 {
            m = -m;
        }
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Some(Rat::int(m.checked_mul(1i128 << e)?))
        } else {
            if -e > 120 {
                return None;
            }
            Some(Rat::new(m, 1i128 << (-e)))
        }
    }
    pub fn sqrt(self) -> Option<Rat> {
        fn isq(n: i128) -> Option<i128> {
            if n < 0 {
                return None;
            }
            let mut r = (n as f64).sqrt() as i128;
            while r * r > n {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= n {
                r += 1;
            }
            if r * r == n {
                Some(r)
            } else {
                None
            }
        }
        if self.n > (1i128 << 100) || self.d > (1i128 << 100) {
            return None;
        }
        Some(Rat { n: isq(self.n)?, d: isq(self.d)? })
    }
}

pub type Mono = Vec<(u32, u32)>;
pub type Poly = BTreeMap<Mono, Rat>;

pub fn pconst(c: Rat) -> Poly {
    let mut p = Poly::new();
    if !c.is_zero() {
        p.insert(vec![], c);
    }
    p
}
pub fn patom(a: u32) -> Poly {
    let mut p = Poly::new();
    p.insert(vec![(a, 1)], Rat::ONE);
    p
}
pub fn padd(a: &Poly, b: &Poly, limit: usize) -> Option<Poly> {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.get(m).copied().unwrap_or(Rat::ZERO).add(*c)?;
        if e.is_zero() {
            r.remove(m);
        } else {
            r.insert(m.clone(), e);
        }
    }
    if r.len() > limit {
        None
    } else {
        Some(r)
    }
}
pub fn pscale(a: &Poly, c: Rat) -> Option<Poly> {
    let mut r = Poly::new();
    if c.is_zero() {
        return Some(r);
    }
    for (m, x) in a {
        r.insert(m.clone(), x.mul(c)?);
    }
    Some(r)
}
fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r: Mono = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}
pub fn pmul(a: &Poly, b: &Poly, limit: usize) -> Option<Poly> {
    if a.len() * b.len() > limit * 8 {
        return None;
    }
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mn = mmul(m, n);
            let e = r.get(&mn).copied().unwrap_or(Rat::ZERO).add(c.mul(*d)?)?;
            if e.is_zero() {
                r.remove(&mn);
            } else {
                r.insert(mn, e);
            }
        }
    }
    if r.len() > limit {
        None
    } else {
        Some(r)
    }
}
