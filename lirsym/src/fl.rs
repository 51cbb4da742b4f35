//! Symbolic floating point: exact rational value plus error bounds.
use crate::formula::F;
use crate::poly::{Iv, Poly};
use crate::state::*;
use crate::val::*;
use std::sync::Arc;

const SLACK: f64 = 1.0 + 1e-7;

pub fn unit(wide: bool) -> f64 {
    if wide {
        2f64.powi(-53)
    } else {
        2f64.powi(-24)
    }
}
fn pow2_up(e: f64) -> f64 {
    if e <= 0.0 {
        return 0.0;
    }
    if !e.is_finite() {
        return e;
    }
    let mut p = 2f64.powi(e.log2().ceil() as i32);
    while p < e {
        p *= 2.0;
    }
    p
}

impl<'a> Ex<'a> {
    pub fn reduce(&self, p: &Poly) -> Poly {
        let mut p = p.clone();
        loop {
            let mut hit = None;
            'o: for (m, _) in &p.t {
                for (v, k) in m {
                    if *k >= 2 && self.st.sq.contains_key(v) {
                        hit = Some(*v);
                        break 'o;
                    }
                }
            }
            let v = match hit {
                None => return p,
                Some(v) => v,
            };
            let s2 = self.st.sq[&v].clone();
            // terms by the power of v^2 they contain
            let mut parts: Vec<Poly> = vec![];
            for (m, c) in &p.t {
                let mut pow = 0;
                let mut mm = Vec::with_capacity(m.len());
                for (x, k) in m {
                    if *x == v {
                        pow = (k / 2) as usize;
                        if k % 2 == 1 {
                            mm.push((*x, 1));
                        }
                    } else {
                        mm.push((*x, *k));
                    }
                }
                while parts.len() <= pow {
                    parts.push(Poly { e: p.e, t: vec![] });
                }
                parts[pow].t.push((mm, c.clone()));
            }
            let mut r = Poly::zero();
            for q in parts.into_iter().rev() {
                r = r.mul(&s2).add(&q.sorted());
            }
            p = r;
        }
    }
    pub fn sf(&mut self, num: Poly, den: Poly, ea: f64, er: f64, zs: Zs, nn: bool, wide: bool) -> V {
        let (mut num, mut den) = (self.reduce(&num), self.reduce(&den));
        if !den.is_one() {
            if let Some(q) = num.div_exact_poly(&den) {
                num = q;
                den = Poly::int(1);
            } else if den.is_const() {
                // strip common content and the power of two
                let g = num.content().gcd(&den.content());
                if !g.is_zero() {
                    num = num.div_content(&g);
                    den = den.div_content(&g);
                }
                let e = den.e;
                if e != 0 {
                    num = num.scale2(-e);
                    den = den.scale2(-e);
                }
            }
        }
        if ea == 0.0 && er == 0.0 && num.is_const() && den.is_one() {
            if num.is_zero() {
                match zs {
                    Zs::Plus => return if wide { V::F64(0.0) } else { V::F32(0.0) },
                    Zs::Minus => return if wide { V::F64(-0.0) } else { V::F32(-0.0) },
                    Zs::Any => {}
                }
            } else {
                let (a, b) = num.const_bounds();
                if a == b {
                    if wide {
                        return V::F64(a);
                    }
                    if (a as f32) as f64 == a {
                        return V::F32(a as f32);
                    }
                }
            }
        }
        let id = self.st.next_id;
        self.st.next_id += 1;
        V::S(Arc::new(SFl {
            num,
            den,
            ea,
            er,
            zs,
            nn,
            wide,
            id,
        }))
    }
    pub fn to_s(&self, v: &V) -> Option<Arc<SFl>> {
        match v {
            V::S(s) => Some(s.clone()),
            V::F32(x) if x.is_finite() => Some(Arc::new(konst(*x as f64, x.is_sign_negative(), false))),
            V::F64(x) if x.is_finite() => Some(Arc::new(konst(*x, x.is_sign_negative(), true))),
            _ => None,
        }
    }
    fn raw_bounds(&self, s: &SFl) -> Iv {
        let n = self.st.pb(&s.num);
        if s.den.is_one() {
            return n;
        }
        let d = self.st.pb(&s.den);
        if d.lo > 0.0 {
            n.div(d)
        } else {
            Iv::ALL
        }
    }
    /// |exact| > t is impossible
    fn beyond(&mut self, s: &SFl, t: f64) -> bool {
        let td = s.den.mul(&Poly::from_f64(t));
        let f = F::or2(&F::gt0(&s.num.sub(&td)), &F::lt0(&s.num.add(&td)));
        matches!(self.sat(&f), Fea::No)
    }
    /// Bounds of the exact value.
    pub fn fb(&mut self, s: &SFl) -> Iv {
        let b = self.raw_bounds(s);
        let fin = b.lo.is_finite() && b.hi.is_finite();
        if fin && (s.den.is_const() || b.mag() == 0.0) {
            return b;
        }
        let k = hkey("fb", &s.num, &s.den);
        if let Some(x) = self.st.sbounds.get(&k) {
            return b.meet(*x);
        }
        let mut r = b;
        // quotients lose most by interval arithmetic: ask the solver
        let mut m = b.mag();
        if !fin {
            for t in [1.015625, 8.0, 64.0, 1024.0, 65536.0, 1048576.0, 1e9, 1e12] {
                if self.beyond(s, t) {
                    m = t;
                    r = b.meet(Iv::new(-t, t));
                    break;
                }
            }
        }
        if m.is_finite() {
            let mut t = pow2_up(m) * 0.25;
            for _ in 0..12 {
                if !self.beyond(s, t) {
                    break;
                }
                r = b.meet(Iv::new(-t, t));
                t *= 0.25;
            }
        }
        Arc::make_mut(&mut self.st.sbounds).insert(k, r);
        r
    }
    /// A positive lower bound of |exact| (0 when none found).
    fn lower_abs(&mut self, s: &SFl) -> f64 {
        let b = self.raw_bounds(s);
        if b.lo > 0.0 {
            return b.lo;
        }
        if b.hi < 0.0 {
            return -b.hi;
        }
        let k = hkey("la", &s.num, &s.den);
        if let Some(x) = self.st.sbounds.get(&k) {
            return x.lo;
        }
        let mut r = 0.0;
        let m = if b.mag().is_finite() { pow2_up(b.mag()) } else { 1.0 };
        for t in [m / 8.0, m / 32.0, m / 128.0, m / 1024.0, m / 16384.0, m / 262144.0, 1.0 / 32768.0, 1.0 / 524288.0] {
            let td = s.den.mul(&Poly::from_f64(t));
            let f = F::and2(&F::lt0(&s.num.sub(&td)), &F::gt0(&s.num.add(&td)));
            if let Fea::No = self.sat(&f) {
                r = t;
                break;
            }
        }
        Arc::make_mut(&mut self.st.sbounds).insert(k, Iv::pt(r));
        r
    }
    /// total absolute error bound
    pub fn err(&mut self, s: &SFl) -> f64 {
        if s.er == 0.0 {
            return s.ea;
        }
        s.ea + s.er * self.fb(s).mag()
    }
    /// Is the exact value always representable (so that the operation is exact)?
    fn exact(&self, num: &Poly, den: &Poly, wide: bool) -> bool {
        if !den.is_one() {
            return false;
        }
        let mut vs = Default::default();
        num.vars(&mut vs);
        if !vs.iter().all(|v| self.st.vars[*v as usize].int) {
            return false;
        }
        let p = if wide { 53 } else { 24 };
        if num.e < -120 {
            return false;
        }
        let b = self.st.pb(num).mag();
        b <= crate::z::ldexp(1.0, p + num.e)
    }
    fn finish(&mut self, num: Poly, den: Poly, ea: f64, er: f64, zs: Zs, nn: bool, wide: bool) -> V {
        let num = self.reduce(&num);
        let den = self.reduce(&den);
        let (num, den) = match if den.is_one() { None } else { num.div_exact_poly(&den) } {
            Some(q) => (q, Poly::int(1)),
            None => (num, den),
        };
        if ea == 0.0 && er == 0.0 && self.exact(&num, &den, wide) {
            return self.sf(num, den, 0.0, 0.0, zs, nn, wide);
        }
        let u = unit(wide);
        let er2 = (er + u + er * u) * SLACK;
        let mut ea2 = if ea > 0.0 { ea * (1.0 + u) * SLACK } else { 0.0 };
        let mut num = num;
        if ea2 > 0.0 && den.is_one() {
            if let Some((p, d)) = self.shorten(&num) {
                num = p;
                ea2 = (ea2 + d) * SLACK;
            }
        }
        self.sf(num, den, ea2, er2, zs, nn, wide)
    }
    /// A polynomial with shorter coefficients within a few single-precision
    /// roundings of the given one, and a bound on the difference.
    fn shorten(&self, p: &Poly) -> Option<(Poly, f64)> {
        let long = |c: &crate::z::Z| c.bits() as u32 - c.trailing_zeros() > 26;
        if !p.t.iter().any(|x| long(&x.1)) {
            return None;
        }
        let m = self.st.pb(p).mag();
        if !(m.is_finite() && m > 1e-20) {
            return None;
        }
        let budget = m * 2f64.powi(-23) / p.t.len() as f64;
        let mut r = Poly::zero();
        let mut tot = 0.0;
        for (mono, c) in &p.t {
            let one = Poly { e: 0, t: vec![(mono.clone(), crate::z::Z::from(1))] };
            let mag = self.st.pb(&one).mag();
            let keep = Poly { e: p.e, t: vec![(mono.clone(), c.clone())] };
            if !mag.is_finite() {
                return None;
            }
            if !long(c) {
                r = r.add(&keep);
                continue;
            }
            let cv = crate::z::ldexp(c.to_f64_bounds().0, p.e);
            // coarsest grain whose rounding stays within the budget
            let mut g = 2f64.powi(cv.abs().log2().ceil() as i32 + 1);
            let mut hit = None;
            for _ in 0..40 {
                let k = (cv / g).round() * g;
                let d = (k - cv).abs() + cv.abs() * 2f64.powi(-52);
                if d * mag <= budget {
                    hit = Some((k, d * mag));
                    break;
                }
                g /= 2.0;
            }
            match hit {
                Some((k, d)) => {
                    tot += d * SLACK;
                    r = r.add(&one.mul(&Poly::from_f64(k)));
                }
                None => r = r.add(&keep),
            }
        }
        Some((r, tot))
    }
    fn opkey(&self, op: &str, a: &V, b: &V) -> Option<u64> {
        let k = |v: &V| match v {
            V::S(s) => Some((1u8, s.id as u64)),
            V::F32(x) => Some((2, x.to_bits() as u64)),
            V::F64(x) => Some((3, x.to_bits())),
            _ => None,
        };
        if !matches!(a, V::S(_)) && !matches!(b, V::S(_)) {
            return None;
        }
        let (x, y) = (k(a)?, k(b)?);
        // addition and multiplication commute
        let (x, y) = if op != "fdiv" && y < x { (y, x) } else { (x, y) };
        Some(hkey(op, &x, &y))
    }
    pub fn fneg(&mut self, a: &V) -> R<V> {
        let k = match a {
            V::S(s) => hkey("fneg", &s.id, &s.wide),
            _ => return self.fneg0(a),
        };
        if let Some(v) = self.cached(k) {
            return Ok(v);
        }
        let v = self.fneg0(a)?;
        self.cache(k, &v);
        Ok(v)
    }
    fn fneg0(&mut self, a: &V) -> R<V> {
        Ok(match a {
            V::F32(x) => V::F32(-x),
            V::F64(x) => V::F64(-x),
            V::U => V::U,
            V::S(s) => {
                let zs = match s.zs {
                    Zs::Plus => Zs::Minus,
                    Zs::Minus => Zs::Plus,
                    Zs::Any => Zs::Any,
                };
                self.sf(s.num.neg(), s.den.clone(), s.ea, s.er, zs, false, s.wide)
            }
            v => return unsup(format!("fneg {:?}", v)),
        })
    }
    fn sign_sure(&mut self, s: &SFl) -> i32 {
        // sign of the exact value when certain: 1: >=0, -1: <=0, 0 unknown
        if s.nn && s.ea == 0.0 {
            return 1;
        }
        let b = self.raw_bounds(s);
        if b.lo >= 0.0 {
            return 1;
        }
        if b.hi <= 0.0 {
            return -1;
        }
        0
    }
    pub fn fadd(&mut self, a: &V, b: &V) -> R<V> {
        let k = match self.opkey("fadd", a, b) {
            Some(k) => k,
            None => return self.fadd0(a, b),
        };
        if let Some(v) = self.cached(k) {
            return Ok(v);
        }
        let v = self.fadd0(a, b)?;
        self.cache(k, &v);
        Ok(v)
    }
    fn fadd0(&mut self, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return Ok(V::F32(x + y)),
            (V::F64(x), V::F64(y)) => return Ok(V::F64(x + y)),
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let (x, y) = match (self.to_s(a), self.to_s(b)) {
            (Some(x), Some(y)) => (x, y),
            (None, Some(_)) => return Ok(a.clone()), // inf/nan + finite
            (Some(_), None) => return Ok(b.clone()),
            _ => return unsup("fadd"),
        };
        // x + 0
        for (p, q, v) in [(&x, &y, a), (&y, &x, b)] {
            if q.num.is_zero() && q.ea == 0.0 {
                if q.zs == Zs::Minus || p.zs == Zs::Plus {
                    return Ok(v.clone());
                }
                let zs = if q.zs == Zs::Plus { Zs::Plus } else { Zs::Any };
                return Ok(self.sf(p.num.clone(), p.den.clone(), p.ea, p.er, zs, p.nn, p.wide));
            }
        }
        let zs = if x.zs == Zs::Plus || y.zs == Zs::Plus { Zs::Plus } else { Zs::Any };
        if x.num.t.len() * y.den.t.len() + x.den.t.len() * y.num.t.len() > 20000 {
            return unsup("expression too large");
        }
        let (num, den) = if x.den == y.den {
            (x.num.add(&y.num), x.den.clone())
        } else if x.den.is_one() {
            (x.num.mul(&y.den).add(&y.num), y.den.clone())
        } else if y.den.is_one() {
            (y.num.mul(&x.den).add(&x.num), x.den.clone())
        } else if let Some(q) = x.den.div_exact_poly(&y.den) {
            (x.num.add(&y.num.mul(&q)), x.den.clone())
        } else if let Some(q) = y.den.div_exact_poly(&x.den) {
            (y.num.add(&x.num.mul(&q)), y.den.clone())
        } else {
            (x.num.mul(&y.den).add(&y.num.mul(&x.den)), x.den.mul(&y.den))
        };
        let mut ea = x.ea + y.ea;
        let mut er = 0.0;
        if x.er > 0.0 || y.er > 0.0 {
            let (sx_, sy_) = (self.sign_sure(&x), self.sign_sure(&y));
            if sx_ != 0 && sx_ == sy_ {
                er = x.er.max(y.er);
            } else {
                if x.er > 0.0 {
                    ea += x.er * self.fb(&x).mag();
                }
                if y.er > 0.0 {
                    ea += y.er * self.fb(&y).mag();
                }
            }
        }
        let nn = x.nn && y.nn;
        Ok(self.finish(num, den, ea, er, zs, nn, x.wide))
    }
    pub fn fsub(&mut self, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return Ok(V::F32(x - y)),
            (V::F64(x), V::F64(y)) => return Ok(V::F64(x - y)),
            _ => {}
        }
        if let (V::S(x), V::S(y)) = (a, b) {
            if x.id == y.id {
                return Ok(if x.wide { V::F64(0.0) } else { V::F32(0.0) });
            }
        }
        let nb = self.fneg(b)?;
        self.fadd(a, &nb)
    }
    pub fn fmul(&mut self, a: &V, b: &V) -> R<V> {
        let k = match self.opkey("fmul", a, b) {
            Some(k) => k,
            None => return self.fmul0(a, b),
        };
        if let Some(v) = self.cached(k) {
            return Ok(v);
        }
        let v = self.fmul0(a, b)?;
        self.cache(k, &v);
        Ok(v)
    }
    fn fmul0(&mut self, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return Ok(V::F32(x * y)),
            (V::F64(x), V::F64(y)) => return Ok(V::F64(x * y)),
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let (x, y) = match (self.to_s(a), self.to_s(b)) {
            (Some(x), Some(y)) => (x, y),
            (None, Some(y)) => return self.nonfinite_mul(a, &y, false),
            (Some(x), None) => return self.nonfinite_mul(b, &x, false),
            _ => return unsup("fmul"),
        };
        // power-of-two factors are exact
        for (p, q) in [(&x, &y), (&y, &x)] {
            if q.ea == 0.0 && q.er == 0.0 && q.den.is_one() && q.num.is_pow2() {
                let neg = q.num.const_sgn() < 0;
                let k = q.num.e;
                let zs = match (p.zs, neg) {
                    (z, false) => z,
                    (Zs::Plus, true) => Zs::Minus,
                    (Zs::Minus, true) => Zs::Plus,
                    (Zs::Any, true) => Zs::Any,
                };
                let n = p.num.scale2(k);
                let n = if neg { n.neg() } else { n };
                return Ok(self.sf(n, p.den.clone(), p.ea * 2f64.powi(k), p.er, zs, p.nn && !neg, p.wide));
            }
        }
        let same = x.id == y.id && x.id != 0;
        let nn = same || (x.nn && y.nn);
        let zs = if same || (x.nn && y.nn && x.zs == Zs::Plus && y.zs == Zs::Plus) {
            Zs::Plus
        } else {
            Zs::Any
        };
        if x.num.t.len() * y.num.t.len() > 20000 {
            return unsup("expression too large");
        }
        let num = x.num.mul(&y.num);
        let den = if x.den.is_one() {
            y.den.clone()
        } else if y.den.is_one() {
            x.den.clone()
        } else {
            x.den.mul(&y.den)
        };
        let er = (x.er + y.er + x.er * y.er) * SLACK;
        let mut ea = 0.0;
        if x.ea > 0.0 {
            ea += x.ea * self.fb(&y).mag() * (1.0 + y.er);
        }
        if y.ea > 0.0 {
            ea += y.ea * self.fb(&x).mag() * (1.0 + x.er);
        }
        ea += x.ea * y.ea;
        Ok(self.finish(num, den, ea, er, zs, nn, x.wide))
    }
    fn nonfinite_mul(&mut self, a: &V, s: &SFl, _div: bool) -> R<V> {
        let (nan, neg, wide) = match a {
            V::F32(x) => (x.is_nan(), *x < 0.0, false),
            V::F64(x) => (x.is_nan(), *x < 0.0, true),
            _ => return unsup("nonfinite operand"),
        };
        if nan {
            return Ok(a.clone());
        }
        let sg = self.csign(s)?;
        Ok(match sg {
            0 => {
                if wide {
                    V::F64(f64::NAN)
                } else {
                    V::F32(f32::NAN)
                }
            }
            k => {
                let n = (k < 0) != neg;
                if wide {
                    V::F64(if n { f64::NEG_INFINITY } else { f64::INFINITY })
                } else {
                    V::F32(if n { f32::NEG_INFINITY } else { f32::INFINITY })
                }
            }
        })
    }
    /// Sign of the computed value (forks; overlapping when rounding may hide it).
    pub fn csign(&mut self, s: &SFl) -> R<i32> {
        if s.ea == 0.0 {
            if self.decide(&F::lt0(&s.num))? {
                return Ok(-1);
            }
            if self.decide(&F::gt0(&s.num))? {
                return Ok(1);
            }
            return Ok(0);
        }
        let z = konst(0.0, false, s.wide);
        let lt = self.fcmp2("lt", s, &z);
        if self.split(&lt.t, &lt.f)? {
            return Ok(-1);
        }
        let gt = self.fcmp2("lt", &z, s);
        if self.split(&gt.t, &gt.f)? {
            return Ok(1);
        }
        Ok(0)
    }
    pub fn zero_sign(&mut self, s: &SFl) -> R<bool> {
        // true = negative zero
        Ok(match s.zs {
            Zs::Plus => false,
            Zs::Minus => true,
            Zs::Any => {
                let k = hkey("zs", &s.id, &0);
                let f = match self.cached(k) {
                    Some(V::B(b)) => b.t.clone(),
                    _ => {
                        let f = self.free_bool();
                        let v = V::B(Arc::new(SBool {
                            t: f.clone(),
                            f: f.not(),
                            w: 1,
                        }));
                        self.cache(k, &v);
                        f
                    }
                };
                self.decide(&f)?
            }
        })
    }
    /// Is the sign bit of the computed value set?
    pub fn sign_bit(&mut self, v: &V) -> R<bool> {
        match v {
            V::F32(x) => Ok(x.is_sign_negative()),
            V::F64(x) => Ok(x.is_sign_negative()),
            V::S(s) => {
                let s = s.clone();
                match self.csign(&s)? {
                    0 => self.zero_sign(&s),
                    k => Ok(k < 0),
                }
            }
            v => unsup(format!("sign of {:?}", v)),
        }
    }
    pub fn fdiv(&mut self, a: &V, b: &V) -> R<V> {
        let k = match self.opkey("fdiv", a, b) {
            Some(k) => k,
            None => return self.fdiv0(a, b),
        };
        if let Some(v) = self.cached(k) {
            return Ok(v);
        }
        let v = self.fdiv0(a, b)?;
        self.cache(k, &v);
        Ok(v)
    }
    fn fdiv0(&mut self, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return Ok(V::F32(x / y)),
            (V::F64(x), V::F64(y)) => return Ok(V::F64(x / y)),
            (V::U, _) | (_, V::U) => return Ok(V::U),
            _ => {}
        }
        let y = match self.to_s(b) {
            Some(y) => y,
            None => {
                // finite / inf = 0, / nan = nan
                return Ok(match b {
                    V::F32(q) if q.is_nan() => b.clone(),
                    V::F64(q) if q.is_nan() => b.clone(),
                    V::F32(_) | V::F64(_) => {
                        let wide = matches!(b, V::F64(_));
                        self.sf(Poly::zero(), Poly::int(1), 0.0, 0.0, Zs::Any, false, wide)
                    }
                    _ => return unsup("fdiv"),
                });
            }
        };
        let x = match self.to_s(a) {
            Some(x) => x,
            None => {
                let neg = self.sign_bit(b)?;
                return Ok(match a {
                    V::F32(p) => V::F32(if neg { -*p } else { *p }),
                    V::F64(p) => V::F64(if neg { -*p } else { *p }),
                    _ => return unsup("fdiv"),
                });
            }
        };
        if x.id != 0 && x.id == y.id {
            // v / v
            return Ok(match self.csign(&y)? {
                0 => nan(y.wide),
                _ => one(y.wide),
            });
        }
        let sg = self.csign(&y)?;
        if sg == 0 {
            // division by (computed) zero
            let nx = self.csign(&x)?;
            if nx == 0 {
                return Ok(nan(y.wide));
            }
            let nz = self.zero_sign(&y)?;
            let neg = nz != (nx < 0);
            return Ok(if y.wide {
                V::F64(if neg { f64::NEG_INFINITY } else { f64::INFINITY })
            } else {
                V::F32(if neg { f32::NEG_INFINITY } else { f32::INFINITY })
            });
        }
        // power of two divisor
        if y.num.is_const() && y.ea == 0.0 && y.er == 0.0 && y.den.is_one() && y.num.is_pow2() {
            let inv = if y.wide {
                V::F64(1.0 / match b { V::F64(q) => *q, _ => return unsup("div") })
            } else {
                V::F32(1.0 / match b { V::F32(q) => *q, _ => return unsup("div") })
            };
            return self.fmul(a, &inv);
        }
        if x.num.is_zero() && x.ea == 0.0 {
            return Ok(self.sf(Poly::zero(), Poly::int(1), 0.0, 0.0, Zs::Any, false, x.wide));
        }
        // exact quotient x/y with the sign of the denominator normalised
        let (mut yn, mut neg) = (y.num.clone(), false);
        if y.ea > 0.0 {
            // the computed sign may differ from the exact one inside the error band
            let pos = self.decide(&F::gt0(&y.num))?;
            if !pos {
                if self.decide(&F::eq0(&y.num))? {
                    return unsup("division by a value that is zero up to rounding");
                }
                neg = true;
            }
        } else if sg < 0 {
            neg = true;
        }
        if neg {
            yn = yn.neg();
        }
        let mut num = x.num.mul(&y.den);
        if neg {
            num = num.neg();
        }
        let den = if x.den.is_one() { yn } else { x.den.mul(&yn) };
        let mut er2 = y.er;
        if y.ea > 0.0 {
            let l = self.lower_abs(&y);
            if l <= 4.0 * y.ea {
                return unsup("division by a value not bounded away from its rounding error");
            }
            er2 += y.ea / l;
        }
        let er2 = er2 / (1.0 - er2);
        let er = (x.er + er2 + x.er * er2) * SLACK;
        let mut ea = 0.0;
        if x.ea > 0.0 {
            let l = self.lower_abs(&y);
            if l <= 0.0 {
                return unsup("division of an inexact value by one not bounded away from zero");
            }
            ea = x.ea / l * (1.0 + er2) * SLACK;
        }
        let nn = x.nn && !neg && sg > 0;
        let zs = if sg > 0 { x.zs } else { Zs::Any };
        Ok(self.finish(num, den, ea, er, zs, nn, x.wide))
    }
    pub fn fabs(&mut self, a: &V) -> R<V> {
        let k = match a {
            V::S(s) => hkey("fabs", &s.id, &s.wide),
            _ => return self.fabs0(a),
        };
        if let Some(v) = self.cached(k) {
            return Ok(v);
        }
        let v = self.fabs0(a)?;
        self.cache(k, &v);
        Ok(v)
    }
    fn fabs0(&mut self, a: &V) -> R<V> {
        Ok(match a {
            V::F32(x) => V::F32(x.abs()),
            V::F64(x) => V::F64(x.abs()),
            V::U => V::U,
            V::S(s) => {
                let s = s.clone();
                let neg = self.decide(&F::lt0(&s.num))?;
                let n = if neg { s.num.neg() } else { s.num.clone() };
                self.sf(n, s.den.clone(), s.ea, s.er, Zs::Plus, true, s.wide)
            }
            v => return unsup(format!("fabs {:?}", v)),
        })
    }
    pub fn copysign(&mut self, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return Ok(V::F32(x.copysign(*y))),
            (V::F64(x), V::F64(y)) => return Ok(V::F64(x.copysign(*y))),
            _ => {}
        }
        let neg = self.sign_bit(b)?;
        let m = self.fabs(a)?;
        if neg {
            self.fneg(&m)
        } else {
            Ok(m)
        }
    }
    /// max/min with NaN-ignoring semantics
    pub fn fmax(&mut self, a: &V, b: &V, max: bool) -> R<V> {
        match (a, b) {
            (V::F32(x), V::F32(y)) => return Ok(V::F32(if max { x.max(*y) } else { x.min(*y) })),
            (V::F64(x), V::F64(y)) => return Ok(V::F64(if max { x.max(*y) } else { x.min(*y) })),
            _ => {}
        }
        let isnan = |v: &V| match v {
            V::F32(x) => x.is_nan(),
            V::F64(x) => x.is_nan(),
            _ => false,
        };
        if isnan(a) {
            return Ok(b.clone());
        }
        if isnan(b) {
            return Ok(a.clone());
        }
        if let (Some(x), Some(y)) = (self.to_s(a), self.to_s(b)) {
            let d = diff(&x, &y);
            let first = if max { F::ge0(&d.0) } else { F::le0(&d.0) };
            let f = self.decide(&first)?;
            let (p, q) = if f { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
            let (ep, eq) = (self.err(&p), self.err(&q));
            if eq <= ep || eq == 0.0 {
                return Ok(if f { a.clone() } else { b.clone() });
            }
            // exact max of exact values, error = the larger of the two bounds
            let zs = if p.zs == q.zs { p.zs } else { Zs::Any };
            let nn = if max { p.nn || q.nn } else { p.nn && q.nn };
            return Ok(self.sf(p.num.clone(), p.den.clone(), ep.max(eq), 0.0, zs, nn, p.wide));
        }
        // one is infinite
        let inf = |v: &V| match v {
            V::F32(x) if x.is_infinite() => Some(*x > 0.0),
            V::F64(x) if x.is_infinite() => Some(*x > 0.0),
            _ => None,
        };
        if let Some(p) = inf(a) {
            return Ok(if p == max { a.clone() } else { b.clone() });
        }
        if let Some(p) = inf(b) {
            return Ok(if p == max { b.clone() } else { a.clone() });
        }
        unsup("fmax")
    }
    pub fn sqrt(&mut self, a: &V) -> R<V> {
        let k = match a {
            V::S(s) => hkey("sqrt", &s.id, &s.wide),
            _ => return self.sqrt0(a),
        };
        if let Some(v) = self.cached(k) {
            return Ok(v);
        }
        let v = self.sqrt0(a)?;
        self.cache(k, &v);
        Ok(v)
    }
    fn sqrt0(&mut self, a: &V) -> R<V> {
        let s = match a {
            V::F32(x) => return Ok(V::F32(x.sqrt())),
            V::F64(x) => return Ok(V::F64(x.sqrt())),
            V::S(s) => s.clone(),
            V::U => return Ok(V::U),
            v => return unsup(format!("sqrt {:?}", v)),
        };
        if s.ea == 0.0 {
            if !(s.nn && self.sign_sure(&s) >= 0) && self.decide(&F::lt0(&s.num))? {
                return Ok(nan(s.wide));
            }
            if self.decide(&F::eq0(&s.num))? {
                return Ok(if s.wide { V::F64(0.0) } else { V::F32(0.0) });
            }
        } else {
            if !s.nn {
                let z = konst(0.0, false, s.wide);
                let lt = self.fcmp2("lt", &s, &z);
                if self.split(&lt.t, &lt.f)? {
                    return Ok(nan(s.wide));
                }
            }
            // exact value may still be a hair below zero: clamp
            if self.decide(&F::le0(&s.num))? {
                let e = self.err(&s).sqrt() * SLACK;
                return Ok(self.sf(Poly::zero(), Poly::int(1), e, 0.0, Zs::Plus, true, s.wide));
            }
        }
        let u = unit(s.wide);
        // error of the root
        let (mut ea, er) = (0.0, (s.er / 2.0 * (1.0 + s.er) + u) * SLACK);
        if s.ea > 0.0 {
            let b = self.fb(&s);
            let e2 = s.ea;
            let mut r = e2.sqrt();
            let l = if b.lo > 0.0 { b.lo } else { self.lower_abs(&s) };
            if l > 0.0 {
                r = r.min(e2 / l.sqrt());
            }
            ea = r * SLACK;
        }
        // perfect squares
        if let (true, Some(root)) = (s.den.is_one(), s.num.sqrt_exact()) {
            let neg = self.decide(&F::lt0(&root))?;
            let n = if neg { root.neg() } else { root };
            if s.ea == 0.0 && s.er == 0.0 && self.exact(&n, &Poly::int(1), s.wide) {
                return Ok(self.sf(n, Poly::int(1), 0.0, 0.0, Zs::Plus, true, s.wide));
            }
            return Ok(self.sf(n, Poly::int(1), ea, er, Zs::Plus, true, s.wide));
        }
        let key = hkey("sqrt", &s.num, &s.den);
        let v = match self.cached(key) {
            Some(V::I(v, _)) => v as u16,
            _ => {
                let b = self.fb(&s);
                let (n, d) = (s.num.eval_f64(&self.st.w), s.den.eval_f64(&self.st.w));
                let lo = b.lo.max(0.0).sqrt().next_down().max(0.0);
                let hi = if b.hi.is_finite() { b.hi.sqrt().next_up() } else { f64::INFINITY };
                let v = self.st.new_var(false, Iv::new(lo, hi), (n / d).max(0.0).sqrt());
                let x = Poly::var(v);
                let eqn = x.mul(&x).mul(&s.den).sub(&s.num);
                self.st.add(&F::eq0(&eqn));
                self.st.add(&F::gt0(&x));
                if s.den.is_one() {
                    Arc::make_mut(&mut self.st.sq).insert(v, s.num.clone());
                }
                self.cache(key, &V::I(v as u128, 16));
                v
            }
        };
        Ok(self.sf(Poly::var(v), Poly::int(1), ea, er, Zs::Plus, true, s.wide))
    }
    /// Sine or cosine of a symbolic angle: a pair on the unit circle, one per
    /// angle (up to its sign). Nothing else is assumed about the functions.
    pub fn trig(&mut self, a: &V, sine: bool) -> R<V> {
        let s = match a {
            V::S(s) => s.clone(),
            _ => return unsup("trig"),
        };
        let (k, kn) = (hkey("trig", &s.num, &s.den), hkey("trig", &s.num.neg(), &s.den));
        let (v, neg) = if let Some(V::I(v, _)) = self.cached(k) {
            (v as u16, false)
        } else if let Some(V::I(v, _)) = self.cached(kn) {
            (v as u16, true)
        } else {
            let x = s.num.eval_f64(&self.st.w) / s.den.eval_f64(&self.st.w);
            let u = Iv::new(-1.0, 1.0);
            let c = self.st.new_var(false, u, x.cos());
            let v = self.st.new_var(false, u, x.sin());
            let (pc, ps) = (Poly::var(c), Poly::var(v));
            self.st.add(&F::eq0(&ps.mul(&ps).add(&pc.mul(&pc)).sub(&Poly::int(1))));
            Arc::make_mut(&mut self.st.sq).insert(v, Poly::int(1).sub(&pc.mul(&pc)));
            self.cache(k, &V::I(v as u128, 16));
            (v, false)
        };
        // the cosine's variable was made just before the sine's
        let e = (self.err(&s) + 2.0 * unit(s.wide)) * SLACK;
        let p = if !sine {
            Poly::var(v - 1)
        } else if neg {
            Poly::var(v).neg()
        } else {
            Poly::var(v)
        };
        Ok(self.sf(p, Poly::int(1), e, 0.0, Zs::Any, false, s.wide))
    }
    /// comparison of finite values: lt, le, eq
    pub fn fcmp2(&mut self, op: &str, x: &SFl, y: &SFl) -> SBool {
        let (d, den) = diff(x, y);
        let mut spans = None;
        let yz = y.num.is_zero() && y.ea == 0.0;
        let xz = x.num.is_zero() && x.ea == 0.0;
        let e = if (x.er == 0.0 && x.ea == 0.0 && y.er == 0.0 && y.ea == 0.0)
            || (yz && x.ea == 0.0)
            || (xz && y.ea == 0.0)
        {
            0.0
        } else {
            let (xs, ys) = (self.sign_sure(x), self.sign_sure(y));
            let mut e = x.ea + y.ea;
            if xs == 0 && x.er > 0.0 {
                e += x.er * self.fb(x).mag();
            }
            if ys == 0 && y.er > 0.0 {
                e += y.er * self.fb(y).mag();
            }
            if !e.is_finite() {
                return self.band(op, x, y, F::T, F::T);
            }
            // tiny bounds are rounded up to keep the coefficients short
            let e = if e > 0.0 { pow2_up((e * SLACK).max(2f64.powi(-40))) } else { 0.0 };
            // [xl, xh]: relative error of a value of known sign
            let span = |v: &SFl, s: i32| -> (Poly, Poly) {
                if s == 0 || v.er == 0.0 {
                    return (v.num.clone(), v.num.clone());
                }
                let r = pow2_up((v.er * SLACK).max(2f64.powi(-32)));
                let d = v.num.mul(&Poly::from_f64(r));
                if s > 0 {
                    (v.num.sub(&d), v.num.add(&d))
                } else {
                    (v.num.add(&d), v.num.sub(&d))
                }
            };
            let ((xl, xh), (yl, yh)) = (span(x, xs), span(y, ys));
            let dd = |a: Poly, b: Poly| diff_raw(&a, &x.den, &b, &y.den).0;
            let hi = dd(xh, yl); // largest x - y
            let lo = dd(xl, yh); // smallest
            spans = Some((hi, lo));
            e
        };
        let (t, f);
        if spans.is_none() {
            t = match op {
                "lt" => F::lt0(&d),
                "le" => F::le0(&d),
                _ => F::eq0(&d),
            };
            f = t.not();
            return SBool { t, f, w: 1 };
        }
        // nonnegative computed values
        if op == "lt" && yz && x.nn {
            return SBool { t: F::Fl, f: F::T, w: 1 };
        }
        if op == "le" && xz && y.nn {
            return SBool { t: F::T, f: F::Fl, w: 1 };
        }
        let (hi, lo) = spans.unwrap();
        let ed = den.mul(&Poly::from_f64(e));
        match op {
            "lt" => {
                t = F::lt0(&lo.sub(&ed));
                f = F::ge0(&hi.add(&ed));
            }
            "le" => {
                t = F::le0(&lo.sub(&ed));
                f = F::gt0(&hi.add(&ed));
            }
            _ => {
                t = F::and2(&F::le0(&lo.sub(&ed)), &F::ge0(&hi.add(&ed)));
                f = F::T;
            }
        }
        self.band(op, x, y, t, f)
    }
    /// Inside the rounding band the outcome is a free boolean, the same one
    /// whenever the same two computed values are compared.
    fn band(&mut self, op: &str, x: &SFl, y: &SFl, t: F, f: F) -> SBool {
        let vb = self.st.vb();
        let te = t.eval_iv(&vb);
        let fe = f.eval_iv(&vb);
        drop(vb);
        if te == Some(false) {
            return SBool { t: F::Fl, f: F::T, w: 1 };
        }
        if fe == Some(false) {
            return SBool { t: F::T, f: F::Fl, w: 1 };
        }
        let kk = |s: &SFl| if s.id != 0 { (s.id, vec![]) } else { (0, s.num.t.iter().map(|x| (x.1.to_i64(), s.num.e)).collect()) };
        // a < b is the negation of b <= a
        let (op2, a, b, neg) = match op {
            "le" => ("lt", y, x, true),
            "eq" => {
                if kk(x) <= kk(y) {
                    ("eq", x, y, false)
                } else {
                    ("eq", y, x, false)
                }
            }
            o => (o, x, y, false),
        };
        let k = hkey("band", &(op2, kk(a), x.wide), &kk(b));
        let bv = match self.cached(k) {
            Some(V::B(b)) => b.t.clone(),
            _ => {
                let bv = self.free_bool();
                let v = V::B(Arc::new(SBool { t: bv.clone(), f: bv.not(), w: 1 }));
                self.cache(k, &v);
                bv
            }
        };
        if let F::BV(i, _) = &bv {
            let raw = if neg { (f.clone(), t.clone()) } else { (t.clone(), f.clone()) };
            Arc::make_mut(&mut self.st.bands).insert(*i, raw);
        }
        let (bt, bf) = if neg { (bv.not(), bv) } else { (bv.clone(), bv.not()) };
        SBool {
            t: F::and2(&bt, &t),
            f: F::and2(&bf, &f),
            w: 1,
        }
    }
    pub fn fcmp(&mut self, pred: &str, a: &V, b: &V) -> R<V> {
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        let cv = |v: &V| match v {
            V::F32(x) => Some(*x as f64),
            V::F64(x) => Some(*x),
            _ => None,
        };
        let (unord_true, base) = match pred {
            "ord" | "uno" | "true" | "false" => (false, pred),
            p if p.starts_with('u') => (true, &p[1..]),
            p => (false, &p[1..]),
        };
        if let (Some(x), Some(y)) = (cv(a), cv(b)) {
            let un = x.is_nan() || y.is_nan();
            return Ok(V::bool(match base {
                "ord" => !un,
                "uno" => un,
                "true" => true,
                "false" => false,
                "eq" => (un && unord_true) || x == y,
                "ne" => (un && unord_true) || (!un && x != y),
                "lt" => (un && unord_true) || x < y,
                "le" => (un && unord_true) || x <= y,
                "gt" => (un && unord_true) || x > y,
                "ge" => (un && unord_true) || x >= y,
                _ => return unsup(format!("fcmp {}", pred)),
            }));
        }
        let nan_in = cv(a).map_or(false, |x| x.is_nan()) || cv(b).map_or(false, |x| x.is_nan());
        match base {
            "ord" => return Ok(V::bool(!nan_in)),
            "uno" => return Ok(V::bool(nan_in)),
            "true" => return Ok(V::bool(true)),
            "false" => return Ok(V::bool(false)),
            _ => {}
        }
        if nan_in {
            return Ok(V::bool(unord_true));
        }
        // infinities against a finite symbolic value
        if let Some(x) = cv(a) {
            if x.is_infinite() {
                let r = match base {
                    "eq" => false,
                    "ne" => true,
                    "lt" | "le" => x < 0.0,
                    _ => x > 0.0,
                };
                return Ok(V::bool(r));
            }
        }
        if let Some(y) = cv(b) {
            if y.is_infinite() {
                let r = match base {
                    "eq" => false,
                    "ne" => true,
                    "lt" | "le" => y > 0.0,
                    _ => y < 0.0,
                };
                return Ok(V::bool(r));
            }
        }
        let (x, y) = match (self.to_s(a), self.to_s(b)) {
            (Some(x), Some(y)) => (x, y),
            _ => return unsup(format!("fcmp {:?} {:?}", a, b)),
        };
        if x.id != 0 && x.id == y.id {
            return Ok(V::bool(matches!(base, "eq" | "le" | "ge")));
        }
        let r = match base {
            "lt" => self.fcmp2("lt", &x, &y),
            "le" => self.fcmp2("le", &x, &y),
            "gt" => self.fcmp2("lt", &y, &x),
            "ge" => self.fcmp2("le", &y, &x),
            "eq" => self.fcmp2("eq", &x, &y),
            "ne" => {
                let e = self.fcmp2("eq", &x, &y);
                SBool { t: e.f, f: e.t, w: 1 }
            }
            _ => return unsup(format!("fcmp {}", pred)),
        };
        Ok(mkbool(r))
    }
    /// Nearest/rounding functions to an integer polynomial variable.
    /// mode: 'f' floor, 'c' ceil, 't' trunc, 'r' half away from zero, 'e' half to even
    pub fn round_int(&mut self, s: &SFl, mode: char) -> R<SInt> {
        let b = self.fb(s);
        if !(b.lo > -1e17 && b.hi < 1e17) {
            return unsup("rounding of an unbounded value");
        }
        let mut mode = mode;
        if mode == 't' || mode == 'r' {
            let neg = self.decide(&F::lt0(&s.num))?;
            if mode == 't' {
                mode = if neg { 'c' } else { 'f' };
            } else {
                mode = if neg { 'd' } else { 'u' };
            }
        }
        let e = pow2_up(self.err(s));
        if s.den.is_one() {
            // whole parts (even ones when ties go to even) come out unchanged
            let (mut a, mut r) = self.split_mul(&s.num, 1);
            if mode == 'e' {
                let (x, y) = if r.is_const() { r.const_bounds() } else { (0.5, 0.5) };
                if x != y || (x - x.floor()) == 0.5 || e != 0.0 {
                    let (h, r2) = self.split_mul(&s.num, 2);
                    a = h.scale2(1);
                    r = r2;
                }
            }
            if !a.is_zero() {
                let m = match r.is_const() && e == 0.0 {
                    true => {
                        let (x, y) = r.const_bounds();
                        if x != y || x.abs() > 1e15 {
                            None
                        } else {
                            let x = match mode {
                                'f' => x.floor(),
                                'c' => x.ceil(),
                                'u' => (x + 0.5).floor(),
                                'e' => x.round_ties_even(),
                                _ => (x - 0.5).ceil(),
                            };
                            Some(Poly::from_f64(x))
                        }
                    }
                    false => {
                        let mut s2 = s.clone();
                        s2.ea = e;
                        s2.er = 0.0;
                        s2.num = r;
                        s2.id = 0;
                        let bb = self.st.pb(&s2.num);
                        if bb.lo > -1e15 && bb.hi < 1e15 {
                            Some(self.round_int(&s2, mode)?.p)
                        } else {
                            None
                        }
                    }
                };
                if let Some(m) = m {
                    let p = a.add(&m);
                    let pb = self.st.pb(&p);
                    let (lo, hi) = (pb.lo.max(b.lo.floor() - 1.0), pb.hi.min(b.hi.ceil() + 1.0));
                    return Ok(SInt { p, w: 64, lo: lo as i128, hi: hi as i128 });
                }
            }
        }
        let key = hkey("round", &(&s.num, &s.den, mode), &e.to_bits());
        let w = s.num.eval_f64(&self.st.w) / s.den.eval_f64(&self.st.w);
        let (lo, hi) = (b.lo.floor() - 1.0, b.hi.ceil() + 1.0);
        if let Some(V::N(n)) = self.cached(key) {
            return Ok((*n).clone());
        }
        let wi = match mode {
            'f' => w.floor(),
            'c' => w.ceil(),
            'u' => (w + 0.5).floor(),
            'd' => (w - 0.5).ceil(),
            _ => w.round_ties_even(),
        };
        let v = self.st.new_var(true, Iv::new(lo, hi), wi);
        let n = Poly::var(v);
        // constraints between n and v = num/den, with slack e
        let nd = n.mul(&s.den);
        let ed = s.den.mul(&Poly::from_f64(e));
        let half = s.den.mul(&Poly::from_f64(0.5));
        let one_ = s.den.clone();
        let exact = e == 0.0;
        let d = s.num.sub(&nd); // (v - n) * den
        let lt = |p: &Poly| if exact { F::lt0(p) } else { F::le0(&p.sub(&ed)) };
        let le = |p: &Poly| if exact { F::le0(p) } else { F::le0(&p.sub(&ed)) };
        let cons = match mode {
            // n <= v < n+1
            'f' => vec![le(&d.neg()), lt(&d.sub(&one_))],
            // n-1 < v <= n
            'c' => vec![lt(&d.neg().sub(&one_)), le(&d)],
            // v>=0: n-1/2 <= v < n+1/2
            'u' => vec![le(&d.neg().sub(&half)), lt(&d.sub(&half))],
            'd' => vec![lt(&d.neg().sub(&half)), le(&d.sub(&half))],
            _ => vec![le(&d.neg().sub(&half)), le(&d.sub(&half))],
        };
        for c in &cons {
            self.st.add(c);
        }
        self.st.recheck();
        let r = SInt {
            p: n,
            w: 64,
            lo: lo as i128,
            hi: hi as i128,
        };
        self.cache(key, &V::N(Arc::new(r.clone())));
        Ok(r)
    }
}

pub fn diff(x: &SFl, y: &SFl) -> (Poly, Poly) {
    diff_raw(&x.num, &x.den, &y.num, &y.den)
}
fn diff_raw(xn: &Poly, xd: &Poly, yn: &Poly, yd: &Poly) -> (Poly, Poly) {
    if xd == yd {
        (xn.sub(yn), xd.clone())
    } else if xd.is_one() {
        (xn.mul(yd).sub(yn), yd.clone())
    } else if yd.is_one() {
        (xn.sub(&yn.mul(xd)), xd.clone())
    } else {
        (xn.mul(yd).sub(&yn.mul(xd)), xd.mul(yd))
    }
}
pub fn konst(x: f64, neg: bool, wide: bool) -> SFl {
    SFl {
        num: Poly::from_f64(x),
        den: Poly::int(1),
        ea: 0.0,
        er: 0.0,
        zs: if neg { Zs::Minus } else { Zs::Plus },
        nn: x >= 0.0,
        wide,
        id: 0,
    }
}
pub fn nan(wide: bool) -> V {
    if wide {
        V::F64(f64::NAN)
    } else {
        V::F32(f32::NAN)
    }
}
pub fn one(wide: bool) -> V {
    if wide {
        V::F64(1.0)
    } else {
        V::F32(1.0)
    }
}
pub fn mkbool(b: SBool) -> V {
    if b.t == F::T && b.f == F::Fl {
        return V::bool(true);
    }
    if b.t == F::Fl && b.f == F::T {
        return V::bool(false);
    }
    V::B(Arc::new(b))
}
