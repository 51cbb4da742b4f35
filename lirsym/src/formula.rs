//! Quantifier-free formulas over polynomial sign conditions and free booleans.
use crate::poly::{Iv, Poly};
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rel {
    Lt,
    Le,
    Eq,
    Ne,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum F {
    T,
    Fl,
    Atom(Arc<Poly>, Rel), // p rel 0, p primitive
    BV(u32, bool),
    And(Arc<Vec<F>>),
    Or(Arc<Vec<F>>),
}

impl F {
    pub fn atom(p: &Poly, r: Rel) -> F {
        if p.is_const() {
            let s = p.const_sgn();
            let b = match r {
                Rel::Lt => s < 0,
                Rel::Le => s <= 0,
                Rel::Eq => s == 0,
                Rel::Ne => s != 0,
            };
            return F::b(b);
        }
        let mut q = p.primitive();
        if matches!(r, Rel::Eq | Rel::Ne) && q.t[0].1.sgn() < 0 {
            q = q.neg();
        }
        F::Atom(Arc::new(q), r)
    }
    pub fn b(b: bool) -> F {
        if b {
            F::T
        } else {
            F::Fl
        }
    }
    pub fn lt0(p: &Poly) -> F {
        F::atom(p, Rel::Lt)
    }
    pub fn le0(p: &Poly) -> F {
        F::atom(p, Rel::Le)
    }
    pub fn gt0(p: &Poly) -> F {
        F::atom(&p.neg(), Rel::Lt)
    }
    pub fn ge0(p: &Poly) -> F {
        F::atom(&p.neg(), Rel::Le)
    }
    pub fn eq0(p: &Poly) -> F {
        F::atom(p, Rel::Eq)
    }
    pub fn ne0(p: &Poly) -> F {
        F::atom(p, Rel::Ne)
    }
    pub fn not(&self) -> F {
        match self {
            F::T => F::Fl,
            F::Fl => F::T,
            F::BV(i, b) => F::BV(*i, !b),
            F::Atom(p, Rel::Lt) => F::atom(&p.neg(), Rel::Le),
            F::Atom(p, Rel::Le) => F::atom(&p.neg(), Rel::Lt),
            F::Atom(p, Rel::Eq) => F::Atom(p.clone(), Rel::Ne),
            F::Atom(p, Rel::Ne) => F::Atom(p.clone(), Rel::Eq),
            F::And(v) => F::or(v.iter().map(|x| x.not()).collect()),
            F::Or(v) => F::and(v.iter().map(|x| x.not()).collect()),
        }
    }
    pub fn and(v: Vec<F>) -> F {
        let mut r: Vec<F> = vec![];
        for x in v {
            match x {
                F::T => {}
                F::Fl => return F::Fl,
                F::And(w) => {
                    for y in w.iter() {
                        if !r.contains(y) {
                            r.push(y.clone())
                        }
                    }
                }
                x => {
                    if !r.contains(&x) {
                        r.push(x)
                    }
                }
            }
        }
        match r.len() {
            0 => F::T,
            1 => r.pop().unwrap(),
            _ => F::And(Arc::new(r)),
        }
    }
    pub fn or(v: Vec<F>) -> F {
        let mut r: Vec<F> = vec![];
        for x in v {
            match x {
                F::Fl => {}
                F::T => return F::T,
                F::Or(w) => {
                    for y in w.iter() {
                        if !r.contains(y) {
                            r.push(y.clone())
                        }
                    }
                }
                x => {
                    if !r.contains(&x) {
                        r.push(x)
                    }
                }
            }
        }
        match r.len() {
            0 => F::Fl,
            1 => r.pop().unwrap(),
            _ => F::Or(Arc::new(r)),
        }
    }
    pub fn and2(a: &F, b: &F) -> F {
        F::and(vec![a.clone(), b.clone()])
    }
    pub fn or2(a: &F, b: &F) -> F {
        F::or(vec![a.clone(), b.clone()])
    }
    pub fn key(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
    pub fn vars(&self, out: &mut BTreeSet<u16>, bv: &mut BTreeSet<u32>) {
        match self {
            F::Atom(p, _) => p.vars(out),
            F::BV(i, _) => {
                bv.insert(*i);
            }
            F::And(v) | F::Or(v) => v.iter().for_each(|x| x.vars(out, bv)),
            _ => {}
        }
    }
    /// Three-valued evaluation under interval bounds.
    pub fn eval_iv(&self, vb: &dyn Fn(u16) -> Iv) -> Option<bool> {
        match self {
            F::T => Some(true),
            F::Fl => Some(false),
            F::BV(..) => None,
            F::Atom(p, r) => {
                let b = p.bounds(vb);
                match r {
                    Rel::Lt if b.hi < 0.0 => Some(true),
                    Rel::Lt if b.lo >= 0.0 => Some(false),
                    Rel::Le if b.hi <= 0.0 => Some(true),
                    Rel::Le if b.lo > 0.0 => Some(false),
                    Rel::Eq if b.lo > 0.0 || b.hi < 0.0 => Some(false),
                    Rel::Ne if b.lo > 0.0 || b.hi < 0.0 => Some(true),
                    Rel::Eq if b.lo == 0.0 && b.hi == 0.0 => Some(true),
                    Rel::Ne if b.lo == 0.0 && b.hi == 0.0 => Some(false),
                    _ => None,
                }
            }
            F::And(v) => {
                let mut all = true;
                for x in v.iter() {
                    match x.eval_iv(vb) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            F::Or(v) => {
                let mut none = true;
                for x in v.iter() {
                    match x.eval_iv(vb) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => none = false,
                    }
                }
                if none {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }
    /// Evaluation under a (possibly approximate) numeric witness; None = too close to call.
    pub fn eval_w(&self, w: &[f64], bw: &[bool]) -> Option<bool> {
        match self {
            F::T => Some(true),
            F::Fl => Some(false),
            F::BV(i, b) => Some(bw.get(*i as usize).copied().unwrap_or(false) == *b),
            F::Atom(p, r) => {
                let (v, a) = p.eval_f64_mag(w);
                if !v.is_finite() {
                    return None;
                }
                // exact when everything is an integer below 2^53
                let exact = a < 9.0e15 && {
                    let mut s = BTreeSet::new();
                    p.vars(&mut s);
                    s.iter().all(|x| w[*x as usize].fract() == 0.0)
                };
                if !exact && v.abs() <= 1e-9 * a {
                    return None;
                }
                Some(match r {
                    Rel::Lt => v < 0.0,
                    Rel::Le => v <= 0.0,
                    Rel::Eq => {
                        if !exact {
                            return Some(false);
                        }
                        v == 0.0
                    }
                    Rel::Ne => v != 0.0,
                })
            }
            F::And(v) => {
                let mut unk = false;
                for x in v.iter() {
                    match x.eval_w(w, bw) {
                        Some(false) => return Some(false),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk {
                    None
                } else {
                    Some(true)
                }
            }
            F::Or(v) => {
                let mut unk = false;
                for x in v.iter() {
                    match x.eval_w(w, bw) {
                        Some(true) => return Some(true),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk {
                    None
                } else {
                    Some(false)
                }
            }
        }
    }
    pub fn smt(&self, name: &dyn Fn(u16) -> String, real: bool) -> String {
        match self {
            F::T => "true".into(),
            F::Fl => "false".into(),
            F::BV(i, true) => format!("b{}", i),
            F::BV(i, false) => format!("(not b{})", i),
            F::Atom(p, r) => {
                let z = if real { "0.0" } else { "0" };
                let t = p.smt(name, real);
                match r {
                    Rel::Lt => format!("(< {} {})", t, z),
                    Rel::Le => format!("(<= {} {})", t, z),
                    Rel::Eq => format!("(= {} {})", t, z),
                    Rel::Ne => format!("(not (= {} {}))", t, z),
                }
            }
            F::And(v) => format!(
                "(and {})",
                v.iter().map(|x| x.smt(name, real)).collect::<Vec<_>>().join(" ")
            ),
            F::Or(v) => format!(
                "(or {})",
                v.iter().map(|x| x.smt(name, real)).collect::<Vec<_>>().join(" ")
            ),
        }
    }
    pub fn max_deg(&self) -> u32 {
        match self {
            F::Atom(p, _) => p.deg(),
            F::And(v) | F::Or(v) => v.iter().map(|x| x.max_deg()).max().unwrap_or(0),
            _ => 0,
        }
    }
}
