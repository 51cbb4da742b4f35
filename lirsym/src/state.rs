//! Execution state, decisions and the link to the solver.
use crate::formula::{Rel, F};
use crate::ir::{Func, Module, C};
use crate::mem::Mem;
use crate::poly::{div_dn, div_up, Iv, Poly};
use crate::smt::{Res, Smt, Var};
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Infeasible,
    Unsupported(String),
    Check(u32, bool, Vec<Inp>), // id, definite, concrete inputs
    Panic(String),
    Steps,
    Stop,
}
pub type R<T> = Result<T, End>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(End::Unsupported(s.into()))
}

#[derive(Clone, Debug)]
pub enum InVar {
    Int(u16),
    F32(u16),
    Fix(i64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Inp {
    I(i64),
    F(f32),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Arc<Func>,
    pub blk: u32,
    pub ip: usize,
    pub prev: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Arc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<F>,
    pub known: Arc<HashMap<u64, bool>>,
    pub cache: Arc<HashMap<u64, V>>,
    pub sq: Arc<BTreeMap<u16, Poly>>, // s -> s^2 when polynomial
    pub vars: Vec<Var>,
    pub w: Vec<f64>,
    pub bw: Vec<bool>,
    pub wok: bool,
    pub inputs: Vec<InVar>,
    pub steps: u64,
    pub depth: u32,
    pub next_id: u32,
    pub sbounds: Arc<HashMap<u64, Iv>>,
    pub seen_checks: u32,
    pub bands: Arc<HashMap<u32, (F, F)>>,
    pub files: Vec<SimFile>,
    /// open descriptors: file, position, readable, writable, append
    pub fds: Vec<Option<(usize, u64, bool, bool, bool)>>,
}
/// A file of the modelled file system; the contents lie in `mem`.
#[derive(Clone)]
pub struct SimFile {
    pub name: Vec<u8>,
    pub addr: u64,
    pub len: u64,
    pub cap: u64,
}

pub struct Ctx {
    pub m: Module,
    pub gaddr: HashMap<Arc<str>, u64>,
    pub faddr: HashMap<u64, Arc<str>>,
    pub base_mem: Mem,
    pub max_steps: u64,
    pub trace_forks: bool,
}

pub struct Ex<'a> {
    pub c: &'a Ctx,
    pub smt: &'a mut Smt,
    pub st: State,
    pub spawned: Vec<State>,
    pub used: &'a mut BTreeSet<Arc<str>>,
    pub stop: &'a std::sync::atomic::AtomicBool,
    pub checks: u64,
    pub forks: u64,
    pub bands: u64,
}

impl State {
    pub fn new(mem: Mem) -> State {
        State {
            frames: vec![],
            mem,
            pc: vec![],
            known: Default::default(),
            cache: Default::default(),
            sq: Default::default(),
            vars: vec![],
            w: vec![],
            bw: vec![],
            wok: true,
            inputs: vec![],
            steps: 0,
            depth: 0,
            next_id: 1,
            sbounds: Default::default(),
            seen_checks: 0,
            bands: Default::default(),
            files: vec![],
            fds: vec![],
        }
    }
    pub fn new_var(&mut self, int: bool, b: Iv, w: f64) -> u16 {
        assert!(self.vars.len() < 60000);
        self.vars.push(Var { int, b });
        self.w.push(w);
        (self.vars.len() - 1) as u16
    }
    pub fn vb(&self) -> impl Fn(u16) -> Iv + '_ {
        move |v| self.vars[v as usize].b
    }
    pub fn pb(&self, p: &Poly) -> Iv {
        p.bounds(&|v| self.vars[v as usize].b)
    }
    pub fn learn(&mut self, f: &F, b: bool) {
        let k = Arc::make_mut(&mut self.known);
        k.insert(f.key(), b);
        k.insert(f.not().key(), !b);
    }
    /// Assert a formula (assumed feasible).
    pub fn add(&mut self, f: &F) {
        if *f == F::T {
            return;
        }
        self.learn(f, true);
        self.tighten(f);
        match f {
            F::And(v) => {
                for x in v.iter() {
                    self.add(x)
                }
            }
            _ => {
                if !self.pc.contains(f) {
                    self.pc.push(f.clone())
                }
            }
        }
    }
    fn tighten(&mut self, f: &F) {
        if let F::Atom(p, r) = f {
            if p.deg() != 1 || *r == Rel::Ne {
                return;
            }
            self.tighten_le(p);
            if *r == Rel::Eq {
                self.tighten_le(&p.neg());
            }
        }
    }
    fn tighten_le(&mut self, p: &Poly) {
        // sum c_i x_i + c0 <= 0
        for (m, c) in &p.t {
            if m.len() != 1 {
                continue;
            }
            let v = m[0].0;
            let mut rest = Iv::pt(0.0);
            for (n, d) in &p.t {
                if n == m {
                    continue;
                }
                let (a, b) = d.to_f64_bounds();
                let mut q = Iv::new(a, b);
                if let Some(x) = n.first() {
                    q = q.mul(self.vars[x.0 as usize].b);
                }
                rest = rest.add(q);
            }
            // c x <= -rest.lo
            let k = -rest.lo;
            if !k.is_finite() {
                continue;
            }
            let (ca, cb) = c.to_f64_bounds();
            let x = &mut self.vars[v as usize];
            if ca > 0.0 {
                let mut h = div_up(k, ca).max(div_up(k, cb));
                if x.int {
                    h = h.floor();
                }
                if h < x.b.hi {
                    x.b.hi = h;
                }
            } else if cb < 0.0 {
                let mut l = div_dn(k, ca).min(div_dn(k, cb));
                if x.int {
                    l = l.ceil();
                }
                if l > x.b.lo {
                    x.b.lo = l;
                }
            }
        }
    }
    /// Constraints keeping every rounding-dependent comparison outside its band.
    pub fn definite(&self) -> Vec<F> {
        let mut v: Vec<_> = self.bands.iter().collect();
        v.sort_by_key(|x| *x.0);
        let mut r = vec![];
        for (i, (t, f)) in v {
            r.push(F::or2(&F::BV(*i, false), &f.not()));
            r.push(F::or2(&F::BV(*i, true), &t.not()));
        }
        r
    }
    pub fn set_model(&mut self, m: &[(u16, f64)], bm: &[(u32, bool)]) {
        for (v, x) in m {
            self.w[*v as usize] = *x;
        }
        for (i, b) in bm {
            while self.bw.len() <= *i as usize {
                self.bw.push(false);
            }
            self.bw[*i as usize] = *b;
        }
    }
    pub fn recheck(&mut self) {
        self.wok = self
            .pc
            .iter()
            .all(|f| f.eval_w(&self.w, &self.bw) != Some(false))
            && self.vars.iter().zip(&self.w).all(|(v, w)| {
                let s = 1e-9 * (1.0 + w.abs());
                *w >= v.b.lo - s && *w <= v.b.hi + s
            });
    }
    pub fn concrete_inputs(&self) -> Vec<Inp> {
        self.inputs
            .iter()
            .map(|i| match i {
                InVar::Int(v) => Inp::I(self.w[*v as usize].round() as i64),
                InVar::F32(v) => Inp::F(self.w[*v as usize] as f32),
                InVar::Fix(k) => Inp::I(*k),
            })
            .collect()
    }
}

pub enum Fea {
    No,
    Yes(Option<(Vec<(u16, f64)>, Vec<(u32, bool)>)>), // None: by the current witness
    Maybe,
}

impl<'a> Ex<'a> {
    pub fn sat(&mut self, f: &F) -> Fea {
        if *f == F::Fl {
            return Fea::No;
        }
        if let Some(b) = self.st.known.get(&f.key()) {
            if !*b {
                return Fea::No;
            }
        }
        if let F::And(v) = f {
            if v.iter().any(|x| self.st.known.get(&x.key()) == Some(&false)) {
                return Fea::No;
            }
        }
        let iv = f.eval_iv(&self.st.vb());
        if iv == Some(false) {
            return Fea::No;
        }
        if self.st.wok && f.eval_w(&self.st.w, &self.st.bw) == Some(true) {
            return Fea::Yes(None);
        }
        match self.smt.check(&self.st.vars, &self.st.pc, std::slice::from_ref(f)) {
            Res::Unsat => Fea::No,
            Res::Sat(m, b) => Fea::Yes(Some((m, b))),
            Res::Unknown => Fea::Maybe,
        }
    }
    /// Does the path condition imply f?
    pub fn implied(&mut self, f: &F) -> bool {
        matches!(self.sat(&f.not()), Fea::No)
    }
    fn take(st: &mut State, f: &F, fea: Fea) {
        st.add(f);
        match fea {
            Fea::Yes(None) => {}
            Fea::Yes(Some((m, b))) => {
                st.set_model(&m, &b);
                st.recheck();
            }
            Fea::Maybe => st.wok = false,
            Fea::No => unreachable!(),
        }
    }
    /// Split on two formulas that together cover everything (they may overlap).
    pub fn split(&mut self, t: &F, f: &F) -> R<bool> {
        if *t == F::T && *f == F::Fl {
            return Ok(true);
        }
        if *t == F::Fl && *f == F::T {
            return Ok(false);
        }
        if let Some(true) = self.st.known.get(&t.key()).copied() {
            if f.not() == *t {
                return Ok(true);
            }
        }
        if let Some(false) = self.st.known.get(&t.key()).copied() {
            return Ok(false);
        }
        if let Some(false) = self.st.known.get(&f.key()).copied() {
            return Ok(true);
        }
        if self.stop.load(std::sync::atomic::Ordering::Relaxed) {
            return Err(End::Stop);
        }
        let ft = self.sat(t);
        let ff = match ft {
            Fea::No => {
                self.st.learn(t, false);
                // f must hold
                if *f != t.not() {
                    self.st.learn(f, true);
                }
                return Ok(false);
            }
            _ => self.sat(f),
        };
        if let Fea::No = ff {
            self.st.learn(f, false);
            return Ok(true);
        }
        self.forks += 1;
        if self.c.trace_forks {
            let fr = self.st.frames.last().unwrap();
            eprintln!("FORK {} blk {} ip {} exact {} wit {:?} t {:?} f {:?}", fr.f.name, fr.f.blocks[fr.blk as usize].name, fr.ip, t.not() == *f, self.st.w, t, f);
        }
        self.st.depth += 1;
        let mut other = self.st.clone();
        // stay with the side the witness is on
        let stay_t = matches!(ft, Fea::Yes(None)) || !matches!(ff, Fea::Yes(None));
        if stay_t {
            Self::take(&mut other, f, ff);
            Self::take(&mut self.st, t, ft);
        } else {
            Self::take(&mut other, t, ft);
            Self::take(&mut self.st, f, ff);
        }
        self.spawned.push(other);
        Ok(stay_t)
    }
    pub fn decide(&mut self, f: &F) -> R<bool> {
        let n = f.not();
        self.split(f, &n)
    }
    pub fn branch(&mut self, v: &V) -> R<bool> {
        match v {
            V::I(x, _) => Ok(*x & 1 == 1),
            V::B(b) => self.split(&b.t.clone(), &b.f.clone()),
            V::U => Ok(false),
            V::N(n) => {
                let n = n.clone();
                let k = self.concretize(&n)?;
                Ok(k & 1 == 1)
            }
            v => unsup(format!("branch on {:?}", v)),
        }
    }
    /// Pick the value of a symbolic integer, forking over the alternatives.
    pub fn concretize(&mut self, n: &SInt) -> R<i128> {
        let mut tried: Vec<i128> = vec![];
        loop {
            let b = self.nb(n);
            if b.0 == b.1 {
                return Ok(b.0);
            }
            if b.0 > b.1 {
                return Err(End::Infeasible);
            }
            let wv = n.p.eval_f64(&self.st.w).round();
            let mut k = wv as i128;
            if k < b.0 || k > b.1 || tried.contains(&k) {
                // no usable witness: the first value not yet excluded
                k = b.0;
                while tried.contains(&k) {
                    k += 1;
                }
                if k > b.1 {
                    return Err(End::Infeasible);
                }
            }
            if tried.len() > 512 {
                return unsup(format!("integer with too many values: {:?} in {:?}", n.p, b));
            }
            let d = n.p.sub(&Poly::dyadic(crate::z::Z::from_i128(k), 0));
            if self.decide(&F::eq0(&d))? {
                return Ok(k);
            }
            tried.push(k);
        }
    }
    pub fn nb(&self, n: &SInt) -> (i128, i128) {
        let b = self.st.pb(&n.p);
        let lo = if b.lo < -1e30 { n.lo } else { (b.lo.ceil() as i128).max(n.lo) };
        let hi = if b.hi > 1e30 { n.hi } else { (b.hi.floor() as i128).min(n.hi) };
        (lo, hi)
    }
    /// Restrict the path; Infeasible when impossible.
    pub fn assume(&mut self, f: &F) -> R<()> {
        if *f == F::T {
            return Ok(());
        }
        match self.sat(f) {
            Fea::No => Err(End::Infeasible),
            x => {
                Self::take(&mut self.st, f, x);
                Ok(())
            }
        }
    }
    pub fn cached(&self, k: u64) -> Option<V> {
        self.st.cache.get(&k).cloned()
    }
    pub fn cache(&mut self, k: u64, v: &V) {
        Arc::make_mut(&mut self.st.cache).insert(k, v.clone());
    }
    pub fn free_bool(&mut self) -> F {
        let i = self.st.bw.len() as u32;
        self.st.bw.push(false);
        F::BV(i, true)
    }
}

pub fn hkey(tag: &str, x: &impl std::hash::Hash, y: &impl std::hash::Hash) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    tag.hash(&mut h);
    x.hash(&mut h);
    y.hash(&mut h);
    h.finish()
}

/// Global addresses and initial memory.
pub fn link(m: Module, max_steps: u64) -> Result<Ctx, String> {
    let mut gaddr: HashMap<Arc<str>, u64> = HashMap::new();
    let mut faddr = HashMap::new();
    let mut a = 0x1000u64;
    let mut names: Vec<Arc<str>> = m.funcs.keys().cloned().chain(m.decls.iter().cloned()).collect();
    names.sort();
    for n in names {
        gaddr.insert(n.clone(), a);
        faddr.insert(a, n);
        a += 16;
    }
    let mut mem = Mem::new();
    mem.next = (a + 0xfff) & !0xfff;
    for g in &m.globals {
        let sz = g.ty.size().max(1);
        let b = mem.alloc(sz, g.align.max(1));
        gaddr.insert(g.name.clone(), b);
    }
    for (k, t) in &m.aliases {
        if let Some(x) = gaddr.get(t).copied() {
            gaddr.insert(k.clone(), x);
        }
    }
    let mut ctx = Ctx {
        m,
        gaddr,
        faddr,
        base_mem: Mem::new(),
        max_steps,
        trace_forks: std::env::var("LIRSYM_FORKS").is_ok(),
    };
    for g in &ctx.m.globals {
        if let Some(i) = &g.init {
            let mut d = vec![0u8; g.ty.size() as usize];
            put(&ctx, &g.ty, i, &mut d)?;
            mem.write_bytes(ctx.gaddr[&g.name], &d);
        }
    }
    let mut gm = Mem::new();
    gm.next = (mem.next + 0xffff) & !0xffff;
    gm.glob = Arc::new(mem.m);
    ctx.base_mem = gm;
    Ok(ctx)
}

fn put(c: &Ctx, ty: &crate::ir::Ty, k: &C, d: &mut [u8]) -> Result<(), String> {
    use crate::ir::Ty;
    match k {
        C::Undef | C::Zero | C::Null => {}
        C::Str(s) => d[..s.len()].copy_from_slice(s),
        C::Int(v, _) => {
            let n = d.len().min(16);
            d[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        C::F32(b) => d[..4].copy_from_slice(&b.to_le_bytes()),
        C::F64(b) => d[..8].copy_from_slice(&b.to_le_bytes()),
        C::Agg(v) => {
            for (i, (t, x)) in v.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                put(c, t, x, &mut d[o..o + t.size() as usize])?;
            }
        }
        C::Splat(s) => {
            let n = match ty {
                Ty::Vec(n, _) | Ty::Arr(n, _) => *n as usize,
                _ => 0,
            };
            let z = s.0.size() as usize;
            for i in 0..n {
                put(c, &s.0, &s.1, &mut d[i * z..(i + 1) * z])?;
            }
        }
        C::Global(_) | C::Gep(_) | C::Cast(_) | C::Sub(_) | C::Add(_) => {
            let a = const_addr(c, k)?;
            let n = d.len().min(8);
            d[..n].copy_from_slice(&a.to_le_bytes()[..n]);
        }
    }
    Ok(())
}
pub fn const_addr(c: &Ctx, k: &C) -> Result<u64, String> {
    Ok(match k {
        C::Global(n) => *c.gaddr.get(n).ok_or(format!("global {}", n))?,
        C::Null | C::Zero | C::Undef => 0,
        C::Int(v, _) => *v as u64,
        C::Cast(x) => const_addr(c, x)?,
        C::Sub(x) => const_addr(c, &x.0)?.wrapping_sub(const_addr(c, &x.1)?),
        C::Add(x) => const_addr(c, &x.0)?.wrapping_add(const_addr(c, &x.1)?),
        C::Gep(g) => {
            let mut a = const_addr(c, &g.1)?;
            let mut t = g.0.clone();
            for (i, (it, ix)) in g.2.iter().enumerate() {
                let v = match ix {
                    C::Int(v, w) => sx(*v, *w),
                    C::Zero => 0,
                    x => const_addr(c, x)? as i64 as i128,
                };
                let _ = it;
                if i == 0 {
                    a = a.wrapping_add((v * t.size() as i128) as u64);
                } else {
                    a = a.wrapping_add(match &t {
                        crate::ir::Ty::Struct(..) => t.field_off(v as usize),
                        _ => (v * t.elem(0).size() as i128) as u64,
                    });
                    t = t.elem(if matches!(t, crate::ir::Ty::Struct(..)) { v as usize } else { 0 });
                }
            }
            a
        }
        x => return Err(format!("address constant {:?}", x)),
    })
}
