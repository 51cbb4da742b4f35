//! Branch and prune for conjunctions over bounded integers: interval bounds
//! discard boxes, exact integer arithmetic decides the remaining points.
use crate::formula::{Rel, F};
use crate::poly::{Iv, Poly};
use crate::z::Z;

enum C {
    Bv(usize, bool),
    Atom(Vec<(Iv, Vec<(usize, u16)>)>, Rel, std::sync::Arc<Poly>),
    And(Vec<C>),
    Or(Vec<C>),
    K(bool),
}
pub struct Bnp<'a> {
    vs: &'a [u16],
    bs: &'a [u32],
    fs: Vec<C>,
    pub nodes: u64,
    budget: u64,
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
}
type B3 = Option<bool>;

impl<'a> Bnp<'a> {
    pub fn new(vs: &'a [u16], bs: &'a [u32], fs: &[&F], budget: u64, stop: std::sync::Arc<std::sync::atomic::AtomicBool>) -> Bnp<'a> {
        let mut r = Bnp { vs, bs, fs: vec![], nodes: 0, budget, stop };
        r.fs = fs.iter().map(|f| r.comp(f)).collect();
        r
    }
    fn comp(&self, f: &F) -> C {
        match f {
            F::T => C::K(true),
            F::Fl => C::K(false),
            F::BV(i, b) => C::Bv(self.bs.binary_search(i).unwrap(), *b),
            F::Atom(p, r) => C::Atom(
                p.t.iter()
                    .map(|(m, c)| {
                        let (a, b) = c.to_f64_bounds();
                        (
                            Iv::new(a, b),
                            m.iter().map(|(v, k)| (self.vs.binary_search(v).unwrap(), *k)).collect(),
                        )
                    })
                    .collect(),
                *r,
                p.clone(),
            ),
            F::And(v) => C::And(v.iter().map(|x| self.comp(x)).collect()),
            F::Or(v) => C::Or(v.iter().map(|x| self.comp(x)).collect()),
        }
    }
    fn ev(&self, c: &C, x: &[(i64, i64)], bw: &[B3]) -> B3 {
        match c {
            C::K(b) => Some(*b),
            C::Bv(i, b) => bw[*i].map(|v| v == *b),
            C::Atom(t, r, p) => {
                let mut s = Iv::pt(0.0);
                for (k, m) in t {
                    let mut q = *k;
                    for (v, n) in m {
                        q = q.mul(Iv::new(x[*v].0 as f64, x[*v].1 as f64).powi(*n));
                    }
                    s = s.add(q);
                }
                let (mut lo, mut hi) = (s.lo, s.hi);
                if lo <= 0.0 && hi >= 0.0 && lo != hi && x.iter().all(|b| b.0 == b.1) {
                    let g = self.exact(p, x);
                    lo = g as f64;
                    hi = lo;
                }
                match r {
                    Rel::Lt if hi < 0.0 => Some(true),
                    Rel::Lt if lo >= 0.0 => Some(false),
                    Rel::Le if hi <= 0.0 => Some(true),
                    Rel::Le if lo > 0.0 => Some(false),
                    Rel::Eq | Rel::Ne if lo > 0.0 || hi < 0.0 => Some(*r == Rel::Ne),
                    Rel::Eq | Rel::Ne if lo == 0.0 && hi == 0.0 => Some(*r == Rel::Eq),
                    _ => None,
                }
            }
            C::And(v) => {
                let mut all = Some(true);
                for y in v {
                    match self.ev(y, x, bw) {
                        Some(false) => return Some(false),
                        None => all = None,
                        _ => {}
                    }
                }
                all
            }
            C::Or(v) => {
                let mut none = Some(false);
                for y in v {
                    match self.ev(y, x, bw) {
                        Some(true) => return Some(true),
                        None => none = None,
                        _ => {}
                    }
                }
                none
            }
        }
    }
    fn exact(&self, p: &Poly, x: &[(i64, i64)]) -> i32 {
        let mut s = Z::new();
        for (m, c) in &p.t {
            let mut q = c.clone();
            for (v, n) in m {
                let k = Z::from(x[self.vs.binary_search(v).unwrap()].0);
                for _ in 0..*n {
                    q = q.mul(&k);
                }
            }
            s = s.add(&q);
        }
        s.sgn()
    }
    /// Some(Some(model)) / Some(None) = unsatisfiable / None = budget spent
    pub fn solve(&mut self, x: &[(i64, i64)]) -> Option<Option<(Vec<i64>, Vec<bool>)>> {
        let live: Vec<usize> = (0..self.fs.len()).collect();
        let bw = vec![None; self.bs.len()];
        self.go(x.to_vec(), bw, &live)
    }
    fn go(&mut self, x: Vec<(i64, i64)>, bw: Vec<B3>, live: &[usize]) -> Option<Option<(Vec<i64>, Vec<bool>)>> {
        self.nodes += 1;
        if self.nodes > self.budget || self.stop.load(std::sync::atomic::Ordering::Relaxed) {
            return None;
        }
        let mut rest = vec![];
        for i in live {
            match self.ev(&self.fs[*i], &x, &bw) {
                Some(false) => return Some(None),
                Some(true) => {}
                None => rest.push(*i),
            }
        }
        if rest.is_empty() {
            return Some(Some((
                x.iter().map(|b| b.0 + (b.1 - b.0) / 2).collect(),
                bw.iter().map(|b| b.unwrap_or(false)).collect(),
            )));
        }
        let (mut k, mut w) = (usize::MAX, 0);
        for (i, b) in x.iter().enumerate() {
            if b.1 - b.0 > w {
                w = b.1 - b.0;
                k = i;
            }
        }
        if k != usize::MAX {
            let m = x[k].0 + (x[k].1 - x[k].0) / 2;
            let mut a = x.clone();
            a[k].1 = m;
            match self.go(a, bw.clone(), &rest) {
                Some(None) => {}
                r => return r,
            }
            let mut a = x;
            a[k].0 = m + 1;
            return self.go(a, bw, &rest);
        }
        // a point: only booleans are left
        let i = match bw.iter().position(|b| b.is_none()) {
            Some(i) => i,
            None => return None,
        };
        for v in [true, false] {
            let mut b = bw.clone();
            b[i] = Some(v);
            match self.go(x.clone(), b, &rest) {
                Some(None) => {}
                r => return r,
            }
        }
        Some(None)
    }
}
