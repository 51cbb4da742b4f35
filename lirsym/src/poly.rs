//! Sparse multivariate polynomials with dyadic coefficients: 2^e * sum(c_i * m_i).
use crate::z::{next_down, Z};
use std::cmp::Ordering;
use std::fmt::Write;

pub type Mono = Vec<(u16, u16)>; // sorted (var, power)

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub e: i32,
    pub t: Vec<(Mono, Z)>, // sorted by monomial, no zero coefficients, some coefficient odd
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
}

pub fn add_dn(a: f64, b: f64) -> f64 {
    let s = a + b;
    let bb = s - a;
    let err = (a - (s - bb)) + (b - bb);
    if err == 0.0 && s.is_finite() {
        s
    } else if s == f64::INFINITY {
        f64::MAX
    } else {
        next_down(s)
    }
}
pub fn add_up(a: f64, b: f64) -> f64 {
    -add_dn(-a, -b)
}
pub fn mul_dn(a: f64, b: f64) -> f64 {
    if a == 0.0 || b == 0.0 {
        return 0.0;
    }
    let p = a * b;
    if p.is_finite() && a.mul_add(b, -p) == 0.0 && p != 0.0 {
        p
    } else if p == f64::INFINITY {
        f64::MAX
    } else {
        next_down(p)
    }
}
pub fn mul_up(a: f64, b: f64) -> f64 {
    -mul_dn(-a, b)
}
pub fn div_dn(a: f64, b: f64) -> f64 {
    if a == 0.0 {
        return 0.0;
    }
    let q = a / b;
    if q.is_finite() && q.mul_add(b, -a) == 0.0 && q != 0.0 {
        q
    } else if q == f64::INFINITY {
        f64::MAX
    } else {
        next_down(q)
    }
}
pub fn div_up(a: f64, b: f64) -> f64 {
    -div_dn(-a, b)
}

impl Iv {
    pub fn new(lo: f64, hi: f64) -> Iv {
        Iv { lo, hi }
    }
    pub fn pt(v: f64) -> Iv {
        Iv { lo: v, hi: v }
    }
    pub const ALL: Iv = Iv {
        lo: f64::NEG_INFINITY,
        hi: f64::INFINITY,
    };
    pub fn add(self, o: Iv) -> Iv {
        Iv::new(add_dn(self.lo, o.lo), add_up(self.hi, o.hi))
    }
    pub fn neg(self) -> Iv {
        Iv::new(-self.hi, -self.lo)
    }
    pub fn mul(self, o: Iv) -> Iv {
        let lo = mul_dn(self.lo, o.lo)
            .min(mul_dn(self.lo, o.hi))
            .min(mul_dn(self.hi, o.lo))
            .min(mul_dn(self.hi, o.hi));
        let hi = mul_up(self.lo, o.lo)
            .max(mul_up(self.lo, o.hi))
            .max(mul_up(self.hi, o.lo))
            .max(mul_up(self.hi, o.hi));
        Iv::new(lo, hi)
    }
    /// Division by an interval that does not contain zero.
    pub fn div(self, o: Iv) -> Iv {
        if o.lo <= 0.0 && o.hi >= 0.0 {
            return Iv::ALL;
        }
        let lo = div_dn(self.lo, o.lo)
            .min(div_dn(self.lo, o.hi))
            .min(div_dn(self.hi, o.lo))
            .min(div_dn(self.hi, o.hi));
        let hi = div_up(self.lo, o.lo)
            .max(div_up(self.lo, o.hi))
            .max(div_up(self.hi, o.lo))
            .max(div_up(self.hi, o.hi));
        Iv::new(lo, hi)
    }
    pub fn powi(self, n: u16) -> Iv {
        let mut r = Iv::pt(1.0);
        for _ in 0..n {
            r = r.mul(self);
        }
        if n % 2 == 0 && r.lo < 0.0 {
            r.lo = 0.0;
        }
        r
    }
    pub fn meet(self, o: Iv) -> Iv {
        Iv::new(self.lo.max(o.lo), self.hi.min(o.hi))
    }
    pub fn mag(self) -> f64 {
        self.lo.abs().max(self.hi.abs())
    }
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { e: 0, t: vec![] }
    }
    pub fn int(v: i64) -> Poly {
        Poly::dyadic(Z::from(v), 0)
    }
    pub fn dyadic(c: Z, e: i32) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        Poly {
            e,
            t: vec![(vec![], c)],
        }
        .norm()
    }
    pub fn var(v: u16) -> Poly {
        Poly {
            e: 0,
            t: vec![(vec![(v, 1)], Z::from(1))],
        }
    }
    pub fn from_f64(v: f64) -> Poly {
        assert!(v.is_finite());
        if v == 0.0 {
            return Poly::zero();
        }
        let b = v.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1u64 << 52) - 1);
        let (m, e) = if ex == 0 {
            (m, -1074)
        } else {
            (m | (1u64 << 52), ex - 1075)
        };
        let z = Z::from(m as i64);
        Poly::dyadic(if v < 0.0 { z.neg() } else { z }, e)
    }
    /// Orders the terms and merges equal monomials.
    pub fn sorted(mut self) -> Poly {
        self.t.sort_by(|a, b| a.0.cmp(&b.0));
        let mut r: Vec<(Mono, Z)> = Vec::with_capacity(self.t.len());
        for (m, c) in self.t {
            match r.last_mut() {
                Some(l) if l.0 == m => l.1 = l.1.add(&c),
                _ => r.push((m, c)),
            }
        }
        Poly { e: self.e, t: r }.norm()
    }
    fn norm(mut self) -> Poly {
        self.t.retain(|x| !x.1.is_zero());
        if self.t.is_empty() {
            self.e = 0;
            return self;
        }
        let k = self.t.iter().map(|x| x.1.trailing_zeros()).min().unwrap();
        if k > 0 {
            for x in &mut self.t {
                x.1 = x.1.shr_exact(k);
            }
            self.e += k as i32;
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty() || (self.t.len() == 1 && self.t[0].0.is_empty())
    }
    /// Constant value as f64 bounds (only for constants).
    pub fn const_bounds(&self) -> (f64, f64) {
        if self.t.is_empty() {
            return (0.0, 0.0);
        }
        let (a, b) = self.t[0].1.to_f64_bounds();
        (crate::z::ldexp(a, self.e), crate::z::ldexp(b, self.e))
    }
    pub fn const_sgn(&self) -> i32 {
        if self.t.is_empty() {
            0
        } else {
            self.t[0].1.sgn()
        }
    }
    pub fn is_one(&self) -> bool {
        self.is_const() && self.e == 0 && !self.t.is_empty() && self.t[0].1.is_one()
    }
    /// +-2^k
    pub fn is_pow2(&self) -> bool {
        self.is_const() && !self.t.is_empty() && self.t[0].1.fits_i64() && self.t[0].1.to_i64().abs() == 1
    }
    pub fn neg(&self) -> Poly {
        Poly {
            e: self.e,
            t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect(),
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        let e = self.e.min(o.e);
        let sa = (self.e - e) as u32;
        let sb = (o.e - e) as u32;
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let c = if j >= o.t.len() {
                Ordering::Less
            } else if i >= self.t.len() {
                Ordering::Greater
            } else {
                self.t[i].0.cmp(&o.t[j].0)
            };
            match c {
                Ordering::Less => {
                    r.push((self.t[i].0.clone(), self.t[i].1.shl(sa)));
                    i += 1;
                }
                Ordering::Greater => {
                    r.push((o.t[j].0.clone(), o.t[j].1.shl(sb)));
                    j += 1;
                }
                Ordering::Equal => {
                    r.push((
                        self.t[i].0.clone(),
                        self.t[i].1.shl(sa).add(&o.t[j].1.shl(sb)),
                    ));
                    i += 1;
                    j += 1;
                }
            }
        }
        Poly { e, t: r }.norm()
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        let mut acc: std::collections::BTreeMap<Mono, Z> = Default::default();
        for (m, c) in &self.t {
            for (n, d) in &o.t {
                let k = mono_mul(m, n);
                let p = c.mul(d);
                match acc.get_mut(&k) {
                    Some(x) => *x = x.add(&p),
                    None => {
                        acc.insert(k, p);
                    }
                }
            }
        }
        Poly {
            e: self.e + o.e,
            t: acc.into_iter().collect(),
        }
        .norm()
    }
    pub fn scale2(&self, k: i32) -> Poly {
        if self.is_zero() {
            return self.clone();
        }
        Poly {
            e: self.e + k,
            t: self.t.clone(),
        }
    }
    pub fn content(&self) -> Z {
        let mut g = Z::from(0);
        for (_, c) in &self.t {
            g = g.gcd(c);
            if g.is_one() {
                break;
            }
        }
        g
    }
    pub fn div_content(&self, g: &Z) -> Poly {
        if g.is_one() {
            return self.clone();
        }
        Poly {
            e: self.e,
            t: self
                .t
                .iter()
                .map(|(m, c)| (m.clone(), c.divexact(g)))
                .collect(),
        }
    }
    /// Primitive integer polynomial with the same sign.
    pub fn primitive(&self) -> Poly {
        if self.is_zero() {
            return self.clone();
        }
        let mut p = self.div_content(&self.content());
        p.e = 0;
        p
    }
    pub fn deg(&self) -> u32 {
        self.t
            .iter()
            .map(|(m, _)| m.iter().map(|x| x.1 as u32).sum())
            .max()
            .unwrap_or(0)
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<u16>) {
        for (m, _) in &self.t {
            for (v, _) in m {
                out.insert(*v);
            }
        }
    }
    /// Exact quotient if `d` divides `self` (multivariate, lexicographic leading terms).
    pub fn div_exact_poly(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        if d.is_const() {
            // dyadic constants only
            let c = &d.t[0].1;
            for (_, x) in &self.t {
                let g = x.gcd(c);
                if g != *c && g.neg() != *c {
                    return None;
                }
            }
            return Some(
                Poly {
                    e: self.e - d.e,
                    t: self
                        .t
                        .iter()
                        .map(|(m, x)| (m.clone(), x.divexact(c)))
                        .collect(),
                }
                .norm(),
            );
        }
        let lead = |p: &Poly| -> (Mono, Z) {
            // lexicographic: compare exponent vectors
            let mut best = 0;
            for i in 1..p.t.len() {
                if lex_gt(&p.t[i].0, &p.t[best].0) {
                    best = i;
                }
            }
            p.t[best].clone()
        };
        let (dm, dc) = lead(d);
        let mut rem = self.clone();
        let mut q = Poly::zero();
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 200 {
                return None;
            }
            let (rm, rc) = lead(&rem);
            let m = mono_div(&rm, &dm)?;
            let g = rc.gcd(&dc);
            if g != dc && g.neg() != dc {
                return None;
            }
            let c = rc.divexact(&dc);
            let term = Poly {
                e: rem.e - d.e,
                t: vec![(m, c)],
            }
            .norm();
            rem = rem.sub(&term.mul(d));
            q = q.add(&term);
        }
        Some(q)
    }
    /// The polynomial this one is the square of.
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() || self.t.len() > 80 {
            return None;
        }
        let lead = |p: &Poly| -> (Mono, Z, i32) {
            let mut best = 0;
            for i in 1..p.t.len() {
                if lex_gt(&p.t[i].0, &p.t[best].0) {
                    best = i;
                }
            }
            (p.t[best].0.clone(), p.t[best].1.clone(), p.e)
        };
        let (m, c, mut e) = lead(self);
        if c.sgn() <= 0 || m.iter().any(|x| x.1 % 2 == 1) {
            return None;
        }
        let mut c = c;
        if e.rem_euclid(2) == 1 {
            c = c.add(&c);
            e -= 1;
        }
        let rc = c.sqrt_exact()?;
        let rm: Mono = m.iter().map(|(v, n)| (*v, n / 2)).collect();
        let l = Poly { e: e / 2, t: vec![(rm, rc)] }.norm();
        let l2 = l.add(&l);
        let mut root = l.clone();
        let mut rem = self.sub(&l.mul(&l));
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 14 {
                return None;
            }
            let (m, c, e) = lead(&rem);
            let t = Poly { e, t: vec![(m, c)] }.norm().div_exact_poly(&l2)?;
            // the terms of the root come out in strictly falling order
            if !lex_gt(&root.t.iter().map(|x| x.0.clone()).reduce(|a, b| if lex_gt(&b, &a) { a } else { b }).unwrap(), &t.t[0].0) {
                return None;
            }
            // (root + t)^2 = root^2 + t (2 root + t)
            rem = rem.sub(&t.mul(&root.add(&root).add(&t)));
            root = root.add(&t);
        }
        Some(root)
    }
    pub fn eval_f64(&self, w: &[f64]) -> f64 {
        let mut s = 0.0;
        for (m, c) in &self.t {
            let mut p = c.to_f64_bounds().0;
            for (v, k) in m {
                p *= w[*v as usize].powi(*k as i32);
            }
            s += p;
        }
        crate::z::ldexp(s, self.e)
    }
    /// value and the sum of absolute term values (for cancellation judgement)
    pub fn eval_f64_mag(&self, w: &[f64]) -> (f64, f64) {
        let mut s = 0.0;
        let mut a = 0.0;
        for (m, c) in &self.t {
            let mut p = c.to_f64_bounds().0;
            for (v, k) in m {
                p *= w[*v as usize].powi(*k as i32);
            }
            s += p;
            a += p.abs();
        }
        (s, a)
    }
    pub fn bounds(&self, vb: &dyn Fn(u16) -> Iv) -> Iv {
        let mut r = Iv::pt(0.0);
        for (m, c) in &self.t {
            let (a, b) = c.to_f64_bounds();
            let mut p = Iv::new(a, b);
            for (v, k) in m {
                p = p.mul(vb(*v).powi(*k));
            }
            r = r.add(p);
        }
        if self.e != 0 {
            let s = crate::z::ldexp(1.0, self.e);
            r = r.mul(Iv::pt(s));
        }
        r
    }
    /// SMT-LIB term of the integer polynomial (ignores `e`).
    pub fn smt(&self, name: &dyn Fn(u16) -> String, real: bool) -> String {
        if self.t.is_empty() {
            return if real { "0.0".into() } else { "0".into() };
        }
        let mut s = String::new();
        if self.t.len() > 1 {
            s.push_str("(+");
        }
        for (m, c) in &self.t {
            if self.t.len() > 1 {
                s.push(' ');
            }
            let cs = if c.sgn() < 0 {
                format!("(- {}{})", c.neg(), if real { ".0" } else { "" })
            } else {
                format!("{}{}", c, if real { ".0" } else { "" })
            };
            if m.is_empty() {
                s.push_str(&cs);
            } else {
                let nf: u32 = m.iter().map(|x| x.1 as u32).sum();
                let one = c.is_one();
                if one && nf == 1 {
                    s.push_str(&name(m[0].0));
                } else {
                    s.push_str("(*");
                    if !one {
                        let _ = write!(s, " {}", cs);
                    }
                    for (v, k) in m {
                        for _ in 0..*k {
                            let _ = write!(s, " {}", name(*v));
                        }
                    }
                    s.push(')');
                }
            }
        }
        if self.t.len() > 1 {
            s.push(')');
        }
        s
    }
}

fn lex_gt(a: &Mono, b: &Mono) -> bool {
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return false,
            (Some(_), None) => return true,
            (None, Some(_)) => return false,
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return x.0 < y.0;
                }
                if x.1 != y.1 {
                    return x.1 > y.1;
                }
                i += 1;
                j += 1;
            }
        }
    }
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = vec![];
    let mut j = 0;
    for x in a {
        if j < b.len() && b[j].0 == x.0 {
            if b[j].1 > x.1 {
                return None;
            }
            if x.1 > b[j].1 {
                r.push((x.0, x.1 - b[j].1));
            }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < x.0 {
                return None;
            }
            r.push(*x);
        }
    }
    if j < b.len() {
        return None;
    }
    Some(r)
}
