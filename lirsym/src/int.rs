//! Symbolic integers (mathematical value + width) and booleans.
use crate::fl::mkbool;
use crate::formula::F;
use crate::ir::mask;
use crate::poly::{Iv, Poly};
use crate::state::*;
use crate::val::*;
use crate::z::Z;
use std::sync::Arc;

pub fn pk(k: i128) -> Poly {
    Poly::dyadic(Z::from_i128(k), 0)
}
fn smin(w: u32) -> i128 {
    -(1i128 << (w - 1))
}
fn smax(w: u32) -> i128 {
    (1i128 << (w - 1)) - 1
}
fn umax(w: u32) -> i128 {
    (1i128 << w) - 1
}

impl<'a> Ex<'a> {
    pub fn n_of(&self, v: &V, w: u32) -> Option<SInt> {
        match v {
            V::N(n) => Some((**n).clone()),
            V::I(x, _) if w <= 64 => {
                let k = sx(*x, w);
                Some(SInt { p: pk(k), w, lo: k, hi: k })
            }
            _ => None,
        }
    }
    pub fn mkn(&mut self, p: Poly, w: u32) -> R<V> {
        if w > 64 {
            return unsup("wide symbolic integer");
        }
        let b = self.st.pb(&p);
        if !(b.lo > -1e36 && b.hi < 1e36) {
            return unsup("unbounded integer");
        }
        let (lo, hi) = (b.lo.ceil() as i128, b.hi.floor() as i128);
        if p.is_const() {
            return Ok(V::I(mask(lo as u128, w), w));
        }
        if lo == hi {
            return Ok(V::I(mask(lo as u128, w), w));
        }
        let fits = (lo >= smin(w) && hi <= smax(w)) || (lo >= 0 && hi <= umax(w));
        if !fits {
            return self.wrap(&p, lo, hi, w, true);
        }
        Ok(V::N(Arc::new(SInt { p, w, lo, hi })))
    }
    /// p mod 2^w, represented in the signed (or unsigned) window
    fn wrap(&mut self, p: &Poly, lo: i128, hi: i128, w: u32, signed: bool) -> R<V> {
        let m = 1i128 << w;
        let off = if signed { 1i128 << (w - 1) } else { 0 };
        let (qlo, qhi) = ((lo + off).div_euclid(m), (hi + off).div_euclid(m));
        if qlo == qhi {
            return self.mkn(p.sub(&pk(qlo * m)), w);
        }
        // fork on the quotient: few values in practice
        for q in qlo..=qhi {
            if q == qhi {
                break;
            }
            // p + off < (q+1) m
            let f = F::lt0(&p.add(&pk(off - (q + 1) * m)));
            if self.decide(&f)? {
                return self.mkn(p.sub(&pk(q * m)), w);
            }
            if qhi - qlo > 64 {
                return unsup("integer wraps too often");
            }
        }
        self.mkn(p.sub(&pk(qhi * m)), w)
    }
    pub fn signed(&mut self, n: &SInt) -> R<SInt> {
        let (lo, hi) = self.nb(n);
        if lo >= smin(n.w) && hi <= smax(n.w) {
            return Ok(SInt { p: n.p.clone(), w: n.w, lo, hi });
        }
        // value in the unsigned window
        let big = F::gt0(&n.p.sub(&pk(smax(n.w))));
        if self.decide(&big)? {
            let m = 1i128 << n.w;
            return Ok(SInt { p: n.p.sub(&pk(m)), w: n.w, lo: smin(n.w), hi: (hi - m).min(-1) });
        }
        Ok(SInt { p: n.p.clone(), w: n.w, lo, hi: hi.min(smax(n.w)) })
    }
    pub fn unsigned(&mut self, n: &SInt) -> R<SInt> {
        let (lo, hi) = self.nb(n);
        if lo >= 0 {
            return Ok(SInt { p: n.p.clone(), w: n.w, lo, hi });
        }
        if self.decide(&F::lt0(&n.p))? {
            let m = 1i128 << n.w;
            return Ok(SInt { p: n.p.add(&pk(m)), w: n.w, lo: lo + m, hi: umax(n.w) });
        }
        Ok(SInt { p: n.p.clone(), w: n.w, lo: 0, hi })
    }
    /// p = k a + b with a an integer-valued polynomial (b keeps what is not a known multiple)
    pub fn split_mul(&self, p: &Poly, k: i128) -> (Poly, Poly) {
        let kz = crate::z::Z::from_i128(k);
        let mut a = Poly::zero();
        for (m, c) in &p.t {
            if m.is_empty() || !m.iter().all(|x| self.st.vars[x.0 as usize].int) {
                continue;
            }
            let (mut c, mut e) = (c.clone(), p.e);
            if e > 0 {
                if e > 62 {
                    continue;
                }
                c = c.shl(e as u32);
                e = 0;
            }
            if e < 0 {
                // a dyadic coefficient: integral only when its power of two cancels
                let t = c.trailing_zeros() as i32;
                if t + e < 0 {
                    continue;
                }
                c = c.shr_exact((-e) as u32);
            }
            let g = c.gcd(&kz);
            if g != kz {
                continue;
            }
            a = a.add(&Poly { e: 0, t: vec![(m.clone(), c.divexact(&kz))] }.sorted());
        }
        let b = if a.is_zero() { p.clone() } else { p.sub(&a.mul(&Poly::dyadic(kz, 0))) };
        (a, b)
    }
    /// floor division by a positive constant: (quotient, remainder)
    fn divmod(&mut self, n: &SInt, k: i128) -> R<(Poly, Poly)> {
        let (lo, hi) = self.nb(n);
        if lo.div_euclid(k) != hi.div_euclid(k) {
            let (a, b) = self.split_mul(&n.p, k);
            if !a.is_zero() {
                let w = self.st.pb(&b);
                if w.lo > -1e30 && w.hi < 1e30 {
                    let m = SInt { p: b, w: n.w, lo: w.lo.ceil() as i128, hi: w.hi.floor() as i128 };
                    let (q, r) = self.divmod(&m, k)?;
                    return Ok((a.add(&q), r));
                }
            }
        }
        let (ql, qh) = (lo.div_euclid(k), hi.div_euclid(k));
        if ql == qh {
            return Ok((pk(ql), n.p.sub(&pk(ql * k))));
        }
        let key = hkey("divmod", &n.p, &k);
        let q = match self.cached(key) {
            Some(V::I(v, _)) => v as u16,
            _ => {
                let wv = n.p.eval_f64(&self.st.w).round() as i128;
                let q = self.st.new_var(true, Iv::new(ql as f64, qh as f64), wv.div_euclid(k) as f64);
                let qp = Poly::var(q);
                let r = n.p.sub(&qp.mul(&pk(k)));
                self.st.add(&F::ge0(&r));
                self.st.add(&F::lt0(&r.sub(&pk(k))));
                self.cache(key, &V::I(q as u128, 16));
                q
            }
        };
        let qp = Poly::var(q);
        Ok((qp.clone(), n.p.sub(&qp.mul(&pk(k)))))
    }
    /// remainder with its known range (interval arithmetic on p - kq is too wide)
    fn rem_val(&mut self, r: Poly, k: i128, w: u32) -> R<V> {
        if r.is_const() {
            return self.mkn(r, w);
        }
        // give the remainder its own bounded variable
        let key = hkey("remvar", &r, &k);
        let v = match self.cached(key) {
            Some(V::I(v, _)) => v as u16,
            _ => {
                let wv = r.eval_f64(&self.st.w).round();
                let v = self.st.new_var(true, Iv::new(0.0, (k - 1) as f64), wv);
                self.st.add(&F::eq0(&Poly::var(v).sub(&r)));
                self.cache(key, &V::I(v as u128, 16));
                v
            }
        };
        self.mkn(Poly::var(v), w)
    }
    pub fn int_bin(&mut self, op: &str, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x, _), V::I(y, _)) = (a, b) {
            return conc_bin(op, w, *x, *y);
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        // booleans
        if w == 1 || matches!((a, b), (V::B(_), V::B(_))) {
            if let (Some(x), Some(y)) = (as_b(a), as_b(b)) {
                if w == 1 || matches!(op, "and" | "or" | "xor") {
                    let r = match op {
                        "and" | "mul" => (F::and2(&x.0, &y.0), F::or2(&x.1, &y.1)),
                        "or" => (F::or2(&x.0, &y.0), F::and2(&x.1, &y.1)),
                        "xor" | "add" | "sub" => (
                            F::or2(&F::and2(&x.0, &y.1), &F::and2(&x.1, &y.0)),
                            F::or2(&F::and2(&x.0, &y.0), &F::and2(&x.1, &y.1)),
                        ),
                        o => return unsup(format!("bool {}", o)),
                    };
                    return Ok(widen(mkbool(SBool { t: r.0, f: r.1, w }), w));
                }
            }
        }
        // byte-wise operations on packed values
        if matches!(a, V::Cat(_)) || matches!(b, V::Cat(_)) || matches!(a, V::S(_)) || matches!(b, V::S(_)) {
            return self.cat_bin(op, w, a, b);
        }
        if let V::B(_) = a {
            let x = self.branch(a)?;
            return self.int_bin(op, w, &V::I(x as u128, w), b);
        }
        if let V::B(_) = b {
            let x = self.branch(b)?;
            return self.int_bin(op, w, a, &V::I(x as u128, w));
        }
        let (x, y) = match (self.n_of(a, w), self.n_of(b, w)) {
            (Some(x), Some(y)) => (x, y),
            _ => return unsup(format!("int {} i{} {:?} {:?}", op, w, a, b)),
        };
        let yc = if let V::I(k, _) = b { Some(*k) } else { None };
        match op {
            "add" => self.mkn(x.p.add(&y.p), w),
            "sub" => self.mkn(x.p.sub(&y.p), w),
            "mul" => {
                let p = x.p.mul(&y.p);
                self.mkn(p, w)
            }
            "shl" if yc.is_some() => {
                let k = yc.unwrap();
                if k >= w as u128 {
                    return Ok(V::U);
                }
                self.mkn(x.p.scale2(k as i32), w)
            }
            "lshr" if yc.is_some() => {
                let k = yc.unwrap();
                let u = self.unsigned(&x)?;
                let (q, _) = self.divmod(&u, 1i128 << k)?;
                self.mkn(q, w)
            }
            "ashr" if yc.is_some() => {
                let k = yc.unwrap();
                let u = self.signed(&x)?;
                let (q, _) = self.divmod(&u, 1i128 << k)?;
                self.mkn(q, w)
            }
            "udiv" | "urem" if yc.map_or(false, |k| k > 0) => {
                let k = yc.unwrap() as i128;
                let u = self.unsigned(&x)?;
                let (q, r) = self.divmod(&u, k)?;
                if op == "udiv" {
                    self.mkn(q, w)
                } else {
                    self.rem_val(r, k, w)
                }
            }
            "sdiv" | "srem" if yc.is_some() => {
                let k = sx(yc.unwrap(), w);
                if k == 0 {
                    return unsup("division by zero");
                }
                let s = self.signed(&x)?;
                let neg = self.decide(&F::lt0(&s.p))?;
                let m = if neg {
                    SInt { p: s.p.neg(), w, lo: 0.max(-s.hi), hi: -s.lo }
                } else {
                    SInt { p: s.p.clone(), w, lo: 0.max(s.lo), hi: s.hi }
                };
                let (q, r) = self.divmod(&m, k.abs())?;
                if op == "sdiv" {
                    let q = if neg != (k < 0) { q.neg() } else { q };
                    self.mkn(q, w)
                } else {
                    let v = self.rem_val(r, k.abs(), w)?;
                    if neg {
                        self.int_bin("sub", w, &V::I(0, w), &v)
                    } else {
                        Ok(v)
                    }
                }
            }
            "and" => {
                let (v, k) = match (a, b) {
                    (_, V::I(k, _)) => (&x, *k),
                    (V::I(k, _), _) => (&y, *k),
                    _ => return self.conc_first(op, w, a, b),
                };
                if k == 0 {
                    return Ok(V::I(0, w));
                }
                if k == mask(u128::MAX, w) {
                    return Ok(V::N(Arc::new(v.clone())));
                }
                if (k + 1).is_power_of_two() {
                    let (lo, hi) = self.nb(v);
                    if lo >= 0 && hi <= k as i128 {
                        return Ok(V::N(Arc::new(v.clone())));
                    }
                    let (_, r) = self.divmod(v, k as i128 + 1)?;
                    return self.rem_val(r, k as i128 + 1, w);
                }
                let nk = mask(!k, w);
                if (nk + 1).is_power_of_two() {
                    let (q, _) = self.divmod(v, nk as i128 + 1)?;
                    return self.mkn(q.mul(&pk(nk as i128 + 1)), w);
                }
                self.conc_first(op, w, a, b)
            }
            "xor" => {
                let (v, k) = match (a, b) {
                    (_, V::I(k, _)) => (&x, *k),
                    (V::I(k, _), _) => (&y, *k),
                    _ => return self.conc_first(op, w, a, b),
                };
                if k == 0 {
                    return Ok(V::N(Arc::new(v.clone())));
                }
                if k == mask(u128::MAX, w) {
                    return self.mkn(pk(-1).sub(&v.p), w);
                }
                if k == 1u128 << (w - 1) {
                    return self.mkn(v.p.add(&pk(smin(w))), w);
                }
                self.conc_first(op, w, a, b)
            }
            "or" => {
                let (v, k) = match (a, b) {
                    (_, V::I(k, _)) => (&x, *k),
                    (V::I(k, _), _) => (&y, *k),
                    _ => return self.conc_first(op, w, a, b),
                };
                if k == 0 {
                    return Ok(V::N(Arc::new(v.clone())));
                }
                self.conc_first(op, w, a, b)
            }
            _ => self.conc_first(op, w, a, b),
        }
    }
    pub fn conc(&mut self, v: &V, w: u32) -> R<V> {
        Ok(match v {
            V::N(n) => {
                let k = self.concretize(&n.clone())?;
                V::I(mask(k as u128, w), w)
            }
            V::B(_) => V::I(self.branch(v)? as u128, w),
            v => v.clone(),
        })
    }
    fn conc_first(&mut self, op: &str, w: u32, a: &V, b: &V) -> R<V> {
        let x = self.conc(a, w)?;
        if matches!(op, "mul" | "and" | "or" | "xor") {
            if let V::I(..) = x {
                if let V::N(_) = b {
                    let y = self.conc(b, w)?;
                    return self.int_bin(op, w, &x, &y);
                }
            }
        }
        let y = self.conc(b, w)?;
        self.int_bin(op, w, &x, &y)
    }
    pub fn icmp(&mut self, pred: &str, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x, _), V::I(y, _)) = (a, b) {
            let (sx_, sy_) = (sx(*x, w), sx(*y, w));
            let (x, y) = (mask(*x, w), mask(*y, w));
            return Ok(V::bool(match pred {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => sx_ < sy_,
                "sle" => sx_ <= sy_,
                "sgt" => sx_ > sy_,
                "sge" => sx_ >= sy_,
                p => return unsup(format!("icmp {}", p)),
            }));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        if let (Some(x), Some(y)) = (as_b(a), as_b(b)) {
            if matches!(pred, "eq" | "ne") {
                let same = F::or2(&F::and2(&x.0, &y.0), &F::and2(&x.1, &y.1));
                let diff = F::or2(&F::and2(&x.0, &y.1), &F::and2(&x.1, &y.0));
                return Ok(mkbool(if pred == "eq" {
                    SBool { t: same, f: diff, w: 1 }
                } else {
                    SBool { t: diff, f: same, w: 1 }
                }));
            }
        }
        if let V::B(_) = a {
            let x = self.branch(a)?;
            return self.icmp(pred, w, &V::I(x as u128, w), b);
        }
        if let V::B(_) = b {
            let x = self.branch(b)?;
            return self.icmp(pred, w, a, &V::I(x as u128, w));
        }
        if matches!(a, V::Cat(_) | V::S(_)) || matches!(b, V::Cat(_) | V::S(_)) {
            return self.cat_cmp(pred, w, a, b);
        }
        let (x, y) = match (self.n_of(a, w), self.n_of(b, w)) {
            (Some(x), Some(y)) => (x, y),
            _ => return unsup(format!("icmp {} {:?} {:?}", pred, a, b)),
        };
        let (x, y) = match pred.as_bytes()[0] {
            b's' => (self.signed(&x)?, self.signed(&y)?),
            b'u' => (self.unsigned(&x)?, self.unsigned(&y)?),
            _ => {
                // equality: bring both into one window
                let (xl, xh) = self.nb(&x);
                let (yl, yh) = self.nb(&y);
                if xl.min(yl) >= smin(w) && xh.max(yh) <= smax(w) {
                    (x, y)
                } else {
                    (self.unsigned(&x)?, self.unsigned(&y)?)
                }
            }
        };
        let d = x.p.sub(&y.p);
        let t = match pred {
            "eq" => F::eq0(&d),
            "ne" => F::ne0(&d),
            "slt" | "ult" => F::lt0(&d),
            "sle" | "ule" => F::le0(&d),
            "sgt" | "ugt" => F::gt0(&d),
            "sge" | "uge" => F::ge0(&d),
            p => return unsup(format!("icmp {}", p)),
        };
        let t = match t.eval_iv(&self.st.vb()) {
            Some(b) => F::b(b),
            None => t,
        };
        let f = t.not();
        Ok(mkbool(SBool { t, f, w: 1 }))
    }
    pub fn trunc(&mut self, v: &V, from: u32, to: u32) -> R<V> {
        Ok(match v {
            V::I(x, _) => V::I(mask(*x, to), to),
            V::U => V::U,
            V::B(b) => widen(V::B(Arc::new(SBool { t: b.t.clone(), f: b.f.clone(), w: to })), to),
            V::N(n) => {
                let n = (**n).clone();
                let (lo, hi) = self.nb(&n);
                if (lo >= smin(to) && hi <= smax(to)) || (lo >= 0 && hi <= umax(to)) {
                    return self.mkn(n.p.clone(), to);
                }
                if to == 1 {
                    let (_, r) = self.divmod(&n, 2)?;
                    let t = F::eq0(&r.sub(&pk(1)));
                    let f = F::eq0(&r);
                    return Ok(mkbool(SBool { t, f, w: 1 }));
                }
                // wrap into the signed window with a fresh quotient
                let off = 1i128 << (to - 1);
                let m = SInt { p: n.p.add(&pk(off)), w: 64, lo: lo + off, hi: hi + off };
                let (_, r) = self.divmod(&m, 1i128 << to)?;
                let rv = self.rem_val(r, 1i128 << to, 64)?;
                match rv {
                    V::I(x, _) => V::I(mask((x as i128 - off) as u128, to), to),
                    V::N(rn) => self.mkn(rn.p.sub(&pk(off)), to)?,
                    _ => return unsup("trunc"),
                }
            }
            V::Cat(_) | V::S(_) => {
                let p = self.pieces_of(v, from / 8)?;
                let t = self.take_bytes(&p, 0, to / 8)?;
                join(t)
            }
            v => return unsup(format!("trunc {:?}", v)),
        })
    }
    pub fn zext(&mut self, v: &V, from: u32, to: u32) -> R<V> {
        Ok(match v {
            V::I(x, _) => V::I(mask(*x, from), to),
            V::U => V::U,
            V::B(b) => V::B(Arc::new(SBool { t: b.t.clone(), f: b.f.clone(), w: to })),
            V::N(n) => {
                let u = self.unsigned(&(**n).clone())?;
                self.mkn(u.p, to)?
            }
            V::Cat(_) | V::S(_) => {
                let mut p = self.pieces_of(v, from / 8)?;
                p.push((V::I(0, to - from), (to - from) / 8));
                join(p)
            }
            v => return unsup(format!("zext {:?}", v)),
        })
    }
    pub fn sext(&mut self, v: &V, from: u32, to: u32) -> R<V> {
        Ok(match v {
            V::I(x, _) => V::I(mask(sx(*x, from) as u128, to), to),
            V::U => V::U,
            V::B(_) => {
                let b = self.branch(v)?;
                V::I(if b { mask(u128::MAX, to) } else { 0 }, to)
            }
            V::N(n) => {
                let u = self.signed(&(**n).clone())?;
                self.mkn(u.p, to)?
            }
            v => return unsup(format!("sext {:?}", v)),
        })
    }

    // ---- packed bytes -------------------------------------------------
    pub fn pieces_of(&mut self, v: &V, bytes: u32) -> R<Vec<(V, u32)>> {
        Ok(match v {
            V::Cat(p) => (**p).clone(),
            V::F32(x) => vec![(V::I(x.to_bits() as u128, 32), 4)],
            V::F64(x) => vec![(V::I(x.to_bits() as u128, 64), 8)],
            V::Agg(a) => {
                let n = a.len() as u32;
                let mut r = vec![];
                for x in a.iter() {
                    r.extend(self.pieces_of(x, bytes / n)?);
                }
                r
            }
            v => vec![(v.clone(), bytes)],
        })
    }
    pub fn take_bytes(&mut self, p: &[(V, u32)], from: u32, n: u32) -> R<Vec<(V, u32)>> {
        let mut r = vec![];
        let mut pos = 0;
        for (v, sz) in p {
            let (s, e) = (pos, pos + sz);
            pos = e;
            let (a, b) = (from.max(s), (from + n).min(e));
            if a >= b {
                continue;
            }
            if a == s && b == e {
                r.push((v.clone(), *sz));
                continue;
            }
            if let V::N(n) = v {
                let u = self.unsigned(&(**n).clone())?;
                let q = if a > s { self.divmod(&u, 1i128 << (8 * (a - s)))?.0 } else { u.p };
                let l = b - a;
                let z = match self.mkn(q, sz * 8)? {
                    V::N(x) if b < e => {
                        let m = self.divmod(&(*x).clone(), 1i128 << (8 * l))?.1;
                        self.rem_val(m, 1i128 << (8 * l), l * 8)?
                    }
                    V::N(x) => self.mkn(x.p.clone(), l * 8)?,
                    V::I(x, _) => V::I(mask(x, l * 8), l * 8),
                    x => return unsup(format!("part of {:?}", x)),
                };
                r.push((z, l));
                continue;
            }
            let x = match v {
                V::B(_) => self.conc(v, sz * 8)?,
                v => v.clone(),
            };
            match x {
                V::I(x, _) => r.push((V::I(mask(x >> ((a - s) * 8), (b - a) * 8), (b - a) * 8), b - a)),
                V::U => r.push((V::U, b - a)),
                v => return unsup(format!("part of {:?}", v)),
            }
        }
        Ok(r)
    }
    fn cat_bin(&mut self, op: &str, w: u32, a: &V, b: &V) -> R<V> {
        let n = w / 8;
        // sign-bit manipulation of floats
        if let (Some(s), V::I(k, _)) = (single_s(a), b) {
            let top = 1u128 << (w - 1);
            let sv = V::S(s);
            if op == "and" && *k == top - 1 {
                return self.fabs(&sv);
            }
            if op == "xor" && *k == top {
                return self.fneg(&sv);
            }
            if op == "and" && *k == top {
                let neg = self.sign_bit(&sv)?;
                return Ok(V::I(if neg { top } else { 0 }, w));
            }
            if op == "or" && *k == top {
                let m = self.fabs(&sv)?;
                return self.fneg(&m);
            }
            if op == "lshr" && *k == (w - 1) as u128 {
                let neg = self.sign_bit(&sv)?;
                return Ok(V::I(neg as u128, w));
            }
        }
        match op {
            "shl" | "lshr" => {
                let k = match self.conc(b, w)? {
                    V::I(k, _) => k as u32,
                    _ => return unsup("shift"),
                };
                if k % 8 != 0 {
                    return unsup("shift of packed bytes");
                }
                let k = k / 8;
                let p = self.pieces_of(a, n)?;
                let mut r = vec![];
                if op == "shl" {
                    r.push((V::I(0, k * 8), k));
                    r.extend(self.take_bytes(&p, 0, n - k)?);
                } else {
                    r.extend(self.take_bytes(&p, k, n - k)?);
                    r.push((V::I(0, k * 8), k));
                }
                Ok(join(r))
            }
            "or" | "add" | "xor" | "and" => {
                let p = self.pieces_of(a, n)?;
                let q = self.pieces_of(b, n)?;
                let mut cuts: Vec<u32> = vec![0];
                for x in [&p, &q] {
                    let mut o = 0;
                    for (_, s) in x.iter() {
                        o += s;
                        cuts.push(o);
                    }
                }
                cuts.sort();
                cuts.dedup();
                let mut r = vec![];
                for i in 0..cuts.len() - 1 {
                    let (o, l) = (cuts[i], cuts[i + 1] - cuts[i]);
                    let x = self.take_bytes(&p, o, l)?.remove(0).0;
                    let y = self.take_bytes(&q, o, l)?.remove(0).0;
                    let zero = |v: &V| matches!(v, V::I(0, _));
                    let ones = |v: &V| matches!(v, V::I(k, _) if *k == mask(u128::MAX, l * 8));
                    let z = if op == "and" {
                        if zero(&x) || zero(&y) {
                            V::I(0, l * 8)
                        } else if ones(&y) {
                            x
                        } else if ones(&x) {
                            y
                        } else {
                            self.int_bin_nocat(op, l * 8, &x, &y)?
                        }
                    } else if zero(&y) {
                        x
                    } else if zero(&x) {
                        y
                    } else {
                        self.int_bin_nocat(op, l * 8, &x, &y)?
                    };
                    r.push((z, l));
                }
                Ok(join(r))
            }
            _ => unsup(format!("{} on packed bytes {:?} {:?}", op, a, b)),
        }
    }
    fn int_bin_nocat(&mut self, op: &str, w: u32, a: &V, b: &V) -> R<V> {
        if matches!(a, V::S(_) | V::Cat(_)) || matches!(b, V::S(_) | V::Cat(_)) {
            return unsup(format!("{} on float bits", op));
        }
        self.int_bin(op, w, a, b)
    }
    fn cat_cmp(&mut self, pred: &str, w: u32, a: &V, b: &V) -> R<V> {
        if let (Some(s), V::I(k, _)) = (single_s(a), b) {
            let kk = sx(*k, w);
            if (pred == "slt" && kk == 0) || (pred == "sgt" && kk == -1) {
                let neg = self.sign_bit(&V::S(s))?;
                return Ok(V::bool(neg == (pred == "slt")));
            }
        }
        if matches!(pred, "eq" | "ne") {
            // all pieces equal
            let n = w / 8;
            let p = self.pieces_of(a, n)?;
            let q = self.pieces_of(b, n)?;
            let mut cuts: Vec<u32> = vec![0];
            for x in [&p, &q] {
                let mut o = 0;
                for (_, s) in x.iter() {
                    o += s;
                    cuts.push(o);
                }
            }
            cuts.sort();
            cuts.dedup();
            let mut t = F::T;
            let mut f = F::Fl;
            for i in 0..cuts.len() - 1 {
                let (o, l) = (cuts[i], cuts[i + 1] - cuts[i]);
                let x = join(self.take_bytes(&p, o, l)?);
                let y = join(self.take_bytes(&q, o, l)?);
                let r = match (&x, &y) {
                    (V::S(_) | V::Cat(_), _) | (_, V::S(_) | V::Cat(_)) => return unsup("equality of float bits"),
                    (x, y) => self.icmp("eq", l * 8, x, y)?,
                };
                let (rt, rf) = match as_b(&r) {
                    Some(x) => x,
                    None => return unsup("cmp"),
                };
                t = F::and2(&t, &rt);
                f = F::or2(&f, &rf);
            }
            return Ok(mkbool(if pred == "eq" { SBool { t, f, w: 1 } } else { SBool { t: f, f: t, w: 1 } }));
        }
        unsup(format!("icmp {} on packed bytes", pred))
    }
}

fn single_s(v: &V) -> Option<Arc<SFl>> {
    match v {
        V::S(s) => Some(s.clone()),
        V::Cat(p) if p.len() == 1 => match &p[0].0 {
            V::S(s) => Some(s.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// Normalise a list of pieces to a value.
pub fn join(p: Vec<(V, u32)>) -> V {
    let mut r: Vec<(V, u32)> = vec![];
    for (v, n) in p {
        if n == 0 {
            continue;
        }
        let v = match v {
            V::F32(x) => V::I(x.to_bits() as u128, 32),
            V::F64(x) => V::I(x.to_bits() as u128, 64),
            V::U => V::I(0, n * 8),
            V::Cat(q) => {
                r.extend(q.iter().cloned());
                continue;
            }
            v => v,
        };
        if let (Some((V::I(x, _), m)), V::I(y, _)) = (r.last().cloned(), &v) {
            if m + n <= 16 {
                let z = x | (*y << (m * 8));
                *r.last_mut().unwrap() = (V::I(z, (m + n) * 8), m + n);
                continue;
            }
        }
        r.push((v, n));
    }
    // a small value followed by zeros is that value
    if r.len() == 2 && r[0].1 <= 8 && r[0].1 + r[1].1 <= 8 {
        if let (V::I(0, _), V::N(n)) = (&r[1].0, &r[0].0) {
            if n.lo >= 0 {
                let w = (r[0].1 + r[1].1) * 8;
                return V::N(Arc::new(SInt { p: n.p.clone(), w, lo: n.lo, hi: n.hi }));
            }
        }
        if let (V::I(0, _), V::B(b)) = (&r[1].0, &r[0].0) {
            let w = (r[0].1 + r[1].1) * 8;
            return V::B(Arc::new(SBool { t: b.t.clone(), f: b.f.clone(), w }));
        }
    }
    if r.len() == 1 {
        match &r[0].0 {
            V::I(..) | V::N(_) => return r.pop().unwrap().0,
            V::B(b) => {
                let w = r[0].1 * 8;
                return V::B(Arc::new(SBool { t: b.t.clone(), f: b.f.clone(), w }));
            }
            _ => {}
        }
    }
    V::Cat(Arc::new(r))
}

pub fn as_b(v: &V) -> Option<(F, F)> {
    match v {
        V::B(b) => Some((b.t.clone(), b.f.clone())),
        V::I(0, _) => Some((F::Fl, F::T)),
        V::I(1, _) => Some((F::T, F::Fl)),
        _ => None,
    }
}
pub fn widen(v: V, w: u32) -> V {
    match v {
        V::I(x, _) => V::I(x, w),
        v => v,
    }
}

pub fn conc_bin(op: &str, w: u32, x: u128, y: u128) -> R<V> {
    let (x, y) = (mask(x, w), mask(y, w));
    let (sx_, sy_) = (sx(x, w), sx(y, w));
    let r = match op {
        "add" => x.wrapping_add(y),
        "sub" => x.wrapping_sub(y),
        "mul" => x.wrapping_mul(y),
        "udiv" | "urem" | "sdiv" | "srem" if y == 0 => return unsup("division by zero"),
        "udiv" => x / y,
        "urem" => x % y,
        "sdiv" => sx_.wrapping_div(sy_) as u128,
        "srem" => sx_.wrapping_rem(sy_) as u128,
        "and" => x & y,
        "or" => x | y,
        "xor" => x ^ y,
        "shl" | "lshr" | "ashr" if y >= w as u128 => return Ok(V::U),
        "shl" => x << y,
        "lshr" => x >> y,
        "ashr" => (sx_ >> y) as u128,
        o => return unsup(format!("int op {}", o)),
    };
    Ok(V::I(mask(r, w), w))
}
