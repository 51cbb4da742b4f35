//! The instruction interpreter.
use crate::fl::*;
use crate::formula::F;
use crate::int::*;
use crate::ir::{mask, Callee, Ty, C, I, Op};
use crate::mem::Piece;
use crate::poly::{Iv, Poly};
use crate::state::*;
use crate::val::*;
use std::sync::atomic::Ordering;
use std::sync::Arc;

fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Int(w) => V::I(0, *w),
        Ty::F32 => V::F32(0.0),
        Ty::F64 => V::F64(0.0),
        Ty::Ptr => V::I(0, 64),
        Ty::Void => V::U,
        Ty::Arr(n, t) | Ty::Vec(n, t) => V::agg(vec![zero_of(t); *n as usize]),
        Ty::Struct(v, _) => V::agg(v.iter().map(zero_of).collect()),
        _ => V::U,
    }
}

impl<'a> Ex<'a> {
    fn fr(&self) -> &Frame {
        self.st.frames.last().unwrap()
    }
    fn frm(&mut self) -> &mut Frame {
        Arc::make_mut(self.st.frames.last_mut().unwrap())
    }
    pub fn konst(&self, ty: &Ty, k: &C) -> R<V> {
        Ok(match k {
            C::Int(v, w) => V::I(*v, *w),
            C::F32(b) => V::F32(f32::from_bits(*b)),
            C::F64(b) => V::F64(f64::from_bits(*b)),
            C::Null => V::I(0, 64),
            C::Undef => match ty {
                Ty::Arr(n, t) | Ty::Vec(n, t) => V::agg(vec![self.konst(t, k)?; *n as usize]),
                Ty::Struct(v, _) => {
                    V::agg(v.iter().map(|t| self.konst(t, k)).collect::<R<Vec<V>>>()?)
                }
                _ => V::U,
            },
            C::Zero => zero_of(ty),
            C::Str(s) => V::agg(s.iter().map(|b| V::I(*b as u128, 8)).collect()),
            C::Agg(v) => V::agg(
                v.iter()
                    .map(|(t, x)| self.konst(t, x))
                    .collect::<R<Vec<V>>>()?,
            ),
            C::Splat(s) => {
                let x = self.konst(&s.0, &s.1)?;
                V::agg(vec![x; ty.nelem()])
            }
            k => match const_addr(self.c, k) {
                Ok(a) => V::I(mask(a as u128, ty.bits()), ty.bits()),
                Err(e) => return unsup(e),
            },
        })
    }
    fn op(&self, o: &Op) -> R<V> {
        match o {
            Op::Reg(r) => Ok(self.fr().regs[*r as usize].clone()),
            Op::K(t, c) => self.konst(t, c),
        }
    }
    fn addr(&mut self, v: &V) -> R<u64> {
        match v {
            V::I(a, _) => Ok(*a as u64),
            V::N(_) | V::B(_) => match self.conc(v, 64)? {
                V::I(a, _) => Ok(a as u64),
                _ => unsup("address"),
            },
            V::U => unsup("undefined address"),
            v => unsup(format!("address {:?}", v)),
        }
    }
    /// Make every symbolic value partly covered by [a, a+n) concrete.
    fn uncut(&mut self, a: u64, n: u64) -> R<()> {
        while let Some((ea, sz, v)) = self.st.mem.cut_by(a, n) {
            let c = self.conc(&v, sz * 8)?;
            match c {
                V::I(x, _) => {
                    self.st.mem.write_bytes(ea, &x.to_le_bytes()[..sz as usize]);
                }
                V::S(_) => return unsup("part of a float overwritten"),
                v => return unsup(format!("cut {:?}", v)),
            }
        }
        Ok(())
    }
    fn read_pieces(&mut self, a: u64, n: u64) -> R<Vec<(V, u32)>> {
        loop {
            let p = match self.st.mem.read(a, n) {
                Some(p) => p,
                None => return unsup(format!("invalid read of {} bytes at {:#x} in {}", n, a, self.fr().f.name)),
            };
            let mut r = vec![];
            let mut again = false;
            for x in p {
                match x {
                    Piece::Bytes(b) => {
                        for ch in b.chunks(16) {
                            let mut t = [0u8; 16];
                            t[..ch.len()].copy_from_slice(ch);
                            r.push((V::I(u128::from_le_bytes(t), ch.len() as u32 * 8), ch.len() as u32));
                        }
                    }
                    Piece::Val(v, sz) => r.push((v, sz)),
                    Piece::Cut(v, sz, from, to, ea) => {
                        // a boolean/integer stored wide: high bytes
                        match &v {
                            V::N(_) if sz <= 8 => {
                                // kept apart from here on
                                let k = if from > 0 { from } else { to };
                                let lo = self.trunc(&v, sz * 8, k * 8)?;
                                let hi = self.int_bin("lshr", sz * 8, &v, &V::I(k as u128 * 8, sz * 8))?;
                                let hi = self.trunc(&hi, sz * 8, (sz - k) * 8)?;
                                self.st.mem.write_bytes(ea, &vec![0; sz as usize]);
                                for (v, a, n) in [(lo, ea, k), (hi, ea + k as u64, sz - k)] {
                                    match v {
                                        V::I(x, _) => self.st.mem.write_bytes(a, &x.to_le_bytes()[..n as usize]),
                                        v => self.st.mem.write_val(a, n, v),
                                    };
                                }
                                again = true;
                                break;
                            }
                            V::N(_) | V::B(_) => {
                                let c = self.conc(&v, sz * 8)?;
                                if let V::I(x, _) = c {
                                    self.st.mem.write_bytes(ea, &x.to_le_bytes()[..sz as usize]);
                                    again = true;
                                    break;
                                }
                                return unsup("cut");
                            }
                            v => return unsup(format!("bytes {}..{} of {:?}", from, to, v)),
                        }
                    }
                }
            }
            if !again {
                return Ok(r);
            }
        }
    }
    pub fn load(&mut self, ty: &Ty, a: u64) -> R<V> {
        match ty {
            Ty::Struct(v, _) => {
                let mut r = vec![];
                for (i, t) in v.iter().enumerate() {
                    r.push(self.load(t, a + ty.field_off(i))?);
                }
                Ok(V::agg(r))
            }
            Ty::Arr(n, t) => {
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load(t, a + i * t.size())?);
                }
                Ok(V::agg(r))
            }
            Ty::Vec(n, t) if **t != Ty::Int(1) => {
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load(t, a + i * t.size())?);
                }
                Ok(V::agg(r))
            }
            Ty::Void => Ok(V::U),
            t => {
                let n = t.size();
                let p = self.read_pieces(a, n)?;
                self.from_pieces(p, t)
            }
        }
    }
    fn from_pieces(&mut self, p: Vec<(V, u32)>, t: &Ty) -> R<V> {
        let v = join(p);
        Ok(match t {
            Ty::F32 | Ty::F64 => self.as_float(&v, *t == Ty::F64)?,
            Ty::Int(w) => match v {
                V::I(x, _) => V::I(mask(x, *w), *w),
                V::B(b) => V::B(Arc::new(SBool { t: b.t.clone(), f: b.f.clone(), w: *w })),
                V::N(n) if n.w == *w => V::N(n),
                V::N(n) => self.trunc(&V::N(n.clone()), n.w, *w)?,
                v => v,
            },
            Ty::Ptr => match v {
                V::I(x, _) => V::I(x, 64),
                v => v,
            },
            t => return unsup(format!("load {:?}", t)),
        })
    }
    fn as_float(&mut self, v: &V, wide: bool) -> R<V> {
        Ok(match v {
            V::I(x, _) => {
                if wide {
                    V::F64(f64::from_bits(*x as u64))
                } else {
                    V::F32(f32::from_bits(*x as u32))
                }
            }
            V::Cat(p) if p.len() == 1 => p[0].0.clone(),
            V::S(_) | V::F32(_) | V::F64(_) | V::U => v.clone(),
            v => return unsup(format!("float from {:?}", v)),
        })
    }
    pub fn store(&mut self, ty: &Ty, v: &V, a: u64) -> R<()> {
        match (ty, v) {
            (Ty::Void, _) => return Ok(()),
            (Ty::Struct(ts, _), V::Agg(x)) => {
                for (i, t) in ts.iter().enumerate() {
                    self.store(t, &x[i], a + ty.field_off(i))?;
                }
                return Ok(());
            }
            (Ty::Arr(_, t), V::Agg(x)) => {
                for (i, y) in x.iter().enumerate() {
                    self.store(t, y, a + i as u64 * t.size())?;
                }
                return Ok(());
            }
            (Ty::Vec(_, t), V::Agg(x)) if **t != Ty::Int(1) => {
                for (i, y) in x.iter().enumerate() {
                    self.store(t, y, a + i as u64 * t.size())?;
                }
                return Ok(());
            }
            _ => {}
        }
        let n = ty.size();
        self.uncut(a, n)?;
        let ok = match v {
            V::I(x, _) => {
                let x = mask(*x, ty.bits());
                self.st.mem.write_bytes(a, &x.to_le_bytes()[..n as usize])
            }
            V::F32(x) => self.st.mem.write_bytes(a, &x.to_bits().to_le_bytes()),
            V::F64(x) => self.st.mem.write_bytes(a, &x.to_bits().to_le_bytes()),
            V::U => true,
            V::Cat(p) => {
                let mut o = a;
                let mut ok = true;
                for (x, sz) in p.iter() {
                    ok &= match x {
                        V::I(k, _) => self.st.mem.write_bytes(o, &k.to_le_bytes()[..*sz as usize]),
                        V::U => true,
                        x => self.st.mem.write_val(o, *sz, x.clone()),
                    };
                    o += *sz as u64;
                }
                ok
            }
            v => self.st.mem.write_val(a, n as u32, v.clone()),
        };
        if ok {
            Ok(())
        } else {
            unsup(format!("invalid write of {} bytes at {:#x} in {}", n, a, self.fr().f.name))
        }
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let p = self.read_pieces(s, n)?;
        self.uncut(d, n)?;
        let mut o = d;
        for (v, sz) in p {
            let ok = match v {
                V::I(x, _) => self.st.mem.write_bytes(o, &x.to_le_bytes()[..sz as usize]),
                v => self.st.mem.write_val(o, sz, v),
            };
            if !ok {
                return unsup(format!("invalid write at {:#x} in {}", o, self.fr().f.name));
            }
            o += sz as u64;
        }
        Ok(())
    }

    pub fn call_fn(&mut self, name: &Arc<str>, args: Vec<V>) -> R<()> {
        let f = match self.c.m.funcs.get(name) {
            Some(f) => f.clone(),
            None => return unsup(format!("no function {}", name)),
        };
        self.used.insert(name.clone());
        let mut regs = vec![V::U; f.nregs as usize];
        for ((_, r), a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        if self.st.frames.len() > 200 {
            return unsup("call depth");
        }
        self.st.frames.push(Arc::new(Frame {
            f,
            blk: 0,
            ip: 0,
            prev: 0,
            regs,
            allocas: vec![],
        }));
        Ok(())
    }

    pub fn run(&mut self) -> End {
        loop {
            match self.step() {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }
    fn set(&mut self, dst: Option<u32>, v: V) {
        let fr = self.frm();
        if let Some(d) = dst {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }
    fn goto(&mut self, b: u32) -> R<()> {
        let fr = self.fr();
        let f = fr.f.clone();
        let from = fr.blk;
        // evaluate phis together
        let mut upd = vec![];
        let mut n = 0;
        for ins in &f.blocks[b as usize].insts {
            if let I::Phi(_, v) = &ins.i {
                let o = v.iter().find(|x| x.1 == from);
                match o {
                    Some((o, _)) => upd.push((ins.dst.unwrap(), self.op(o)?)),
                    None => return unsup("phi without predecessor"),
                }
                n += 1;
            } else {
                break;
            }
        }
        let fr = self.frm();
        for (d, v) in upd {
            fr.regs[d as usize] = v;
        }
        fr.prev = from;
        fr.blk = b;
        fr.ip = n;
        Ok(())
    }
    pub fn step1(&mut self) -> R<()> {
        self.step()
    }
    fn step(&mut self) -> R<()> {
        self.st.steps += 1;
        if self.st.steps & 0xf == 0 {
            if self.stop.load(Ordering::Relaxed) {
                return Err(End::Stop);
            }
            if self.st.steps > self.c.max_steps {
                return Err(End::Steps);
            }
        }
        let fr = self.fr();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].insts[fr.ip];
        let dst = ins.dst;
        match &ins.i {
            I::Bin(op, t, a, b) => {
                let (a, b) = (self.op(a)?, self.op(b)?);
                let r = self.bin(op, t, &a, &b)?;
                self.set(dst, r);
            }
            I::FNeg(t, a) => {
                let a = self.op(a)?;
                let r = match (t, &a) {
                    (Ty::Vec(..), V::Agg(x)) => {
                        let mut v = vec![];
                        for y in x.iter() {
                            v.push(self.fneg(y)?);
                        }
                        V::agg(v)
                    }
                    _ => self.fneg(&a)?,
                };
                self.set(dst, r);
            }
            I::Icmp(p, t, a, b) => {
                let (a, b) = (self.op(a)?, self.op(b)?);
                let r = match (t, &a, &b) {
                    (Ty::Vec(_, e), V::Agg(x), V::Agg(y)) => {
                        let mut v = vec![];
                        for (p1, q1) in x.iter().zip(y.iter()) {
                            v.push(self.icmp(p, e.bits(), p1, q1)?);
                        }
                        V::agg(v)
                    }
                    _ => self.icmp(p, t.bits(), &a, &b)?,
                };
                self.set(dst, r);
            }
            I::Fcmp(p, t, a, b) => {
                let (a, b) = (self.op(a)?, self.op(b)?);
                let r = match (t, &a, &b) {
                    (Ty::Vec(..), V::Agg(x), V::Agg(y)) => {
                        let mut v = vec![];
                        for (p1, q1) in x.iter().zip(y.iter()) {
                            v.push(self.fcmp(p, p1, q1)?);
                        }
                        V::agg(v)
                    }
                    _ => self.fcmp(p, &a, &b)?,
                };
                self.set(dst, r);
            }
            I::Cast(op, t, a, u) => {
                let a = self.op(a)?;
                let r = self.cast(op, t, &a, u)?;
                self.set(dst, r);
            }
            I::Select(c, t, a, b) => {
                let (c, a, b) = (self.op(c)?, self.op(a)?, self.op(b)?);
                let r = match (&c, t) {
                    (V::Agg(cs), Ty::Vec(_, e)) => {
                        let mut v = vec![];
                        if let (V::Agg(x), V::Agg(y)) = (&a, &b) {
                            for i in 0..cs.len() {
                                v.push(self.select(&cs[i], e, &x[i], &y[i])?);
                            }
                        }
                        V::agg(v)
                    }
                    _ => self.select(&c, t, &a, &b)?,
                };
                self.set(dst, r);
            }
            I::Alloca(t, al) => {
                let a = self.st.mem.alloc(t.size(), *al);
                self.frm().allocas.push(a);
                self.set(dst, V::i64(a));
            }
            I::Load(t, p) => {
                let p = self.op(p)?;
                let a = self.addr(&p)?;
                let v = self.load(t, a)?;
                self.set(dst, v);
            }
            I::Store(t, v, p) => {
                let p = self.op(p)?;
                let a = self.addr(&p)?;
                let v = self.op(v)?;
                self.store(t, &v, a)?;
                self.set(dst, V::U);
            }
            I::Gep(t, b, ix) => {
                let b = self.op(b)?;
                let mut a = self.addr(&b)?;
                let mut t = t.clone();
                for (i, (it, o)) in ix.iter().enumerate() {
                    let v = self.op(o)?;
                    let k = match v {
                        V::I(x, w) => sx(x, w),
                        V::N(_) | V::B(_) => match self.conc(&v, it.bits())? {
                            V::I(x, w) => sx(x, w),
                            _ => return unsup("gep index"),
                        },
                        V::U => 0,
                        v => return unsup(format!("gep index {:?}", v)),
                    };
                    if i == 0 {
                        a = a.wrapping_add((k * t.size() as i128) as u64);
                    } else {
                        let st = matches!(t, Ty::Struct(..));
                        a = a.wrapping_add(if st {
                            t.field_off(k as usize)
                        } else {
                            (k * t.elem(0).size() as i128) as u64
                        });
                        t = t.elem(if st { k as usize } else { 0 });
                    }
                }
                self.set(dst, V::i64(a));
            }
            I::Call(rt, callee, args) => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.op(o)?);
                }
                let name: Arc<str> = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let v = self.op(o)?;
                        let a = self.addr(&v)?;
                        match self.c.faddr.get(&a) {
                            Some(n) => n.clone(),
                            None => return unsup(format!("indirect call to {:#x}", a)),
                        }
                    }
                };
                let noreturn = matches!(
                    f.blocks[self.fr().blk as usize].insts.get(self.fr().ip + 1).map(|x| &x.i),
                    Some(I::Unreachable)
                );
                let name = match self.c.m.aliases.get(&name) {
                    Some(t) => t.clone(),
                    None => name,
                };
                match self.builtin(&name, rt, args, &av, noreturn)? {
                    Some(v) => self.set(dst, v),
                    None => self.call_fn(&name, av)?,
                }
            }
            I::ExtractValue(_, a, ix) => {
                let mut v = self.op(a)?;
                for i in ix {
                    v = match &v {
                        V::Agg(x) => x[*i as usize].clone(),
                        V::U => V::U,
                        v => return unsup(format!("extractvalue {:?}", v)),
                    };
                }
                self.set(dst, v);
            }
            I::InsertValue(t, a, _, b, ix) => {
                let (a, b) = (self.op(a)?, self.op(b)?);
                fn ins(t: &Ty, a: &V, b: &V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return b.clone();
                    }
                    let mut v: Vec<V> = match a {
                        V::Agg(x) => (**x).clone(),
                        _ => vec![V::U; t.nelem()],
                    };
                    let i = ix[0] as usize;
                    v[i] = ins(&t.elem(i), &v[i], b, &ix[1..]);
                    V::agg(v)
                }
                let r = ins(t, &a, &b, ix);
                self.set(dst, r);
            }
            I::ExtractElem(_, a, i) => {
                let (a, i) = (self.op(a)?, self.op(i)?);
                let i = self.addr(&i)? as usize;
                let r = match &a {
                    V::Agg(x) => x[i].clone(),
                    _ => V::U,
                };
                self.set(dst, r);
            }
            I::InsertElem(t, a, b, i) => {
                let (a, b, i) = (self.op(a)?, self.op(b)?, self.op(i)?);
                let i = self.addr(&i)? as usize;
                let mut v: Vec<V> = match &a {
                    V::Agg(x) => (**x).clone(),
                    _ => vec![V::U; t.nelem()],
                };
                v[i] = b;
                self.set(dst, V::agg(v));
            }
            I::Shuffle(_, a, b, ix) => {
                let (a, b) = (self.op(a)?, self.op(b)?);
                let get = |v: &V, i: usize| match v {
                    V::Agg(x) => x[i].clone(),
                    _ => V::U,
                };
                let n = match (&a, &b) {
                    (V::Agg(x), _) => x.len(),
                    (_, V::Agg(x)) => x.len(),
                    _ => usize::MAX,
                };
                let r = ix
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            V::U
                        } else if (*i as usize) < n {
                            get(&a, *i as usize)
                        } else {
                            get(&b, *i as usize - n)
                        }
                    })
                    .collect();
                self.set(dst, V::agg(r));
            }
            I::Phi(..) => return unsup("phi out of place"),
            I::Freeze(a) => {
                let v = self.op(a)?;
                self.set(dst, v);
            }
            I::CmpXchg(t, p, a, b) => {
                let (p, a, b) = (self.op(p)?, self.op(a)?, self.op(b)?);
                let ad = self.addr(&p)?;
                let old = self.load(t, ad)?;
                let c = self.icmp("eq", t.bits(), &old, &a)?;
                let ok = self.branch(&c)?;
                if ok {
                    self.store(t, &b, ad)?;
                }
                self.set(dst, V::agg(vec![old, V::bool(ok)]));
            }
            I::AtomicRmw(k, t, p, a) => {
                let (p, a) = (self.op(p)?, self.op(a)?);
                let ad = self.addr(&p)?;
                let old = self.load(t, ad)?;
                let n = match k.as_str() {
                    "xchg" => a,
                    "add" | "sub" | "and" | "or" | "xor" => {
                        let k: &'static str = match k.as_str() {
                            "add" => "add",
                            "sub" => "sub",
                            "and" => "and",
                            "or" => "or",
                            _ => "xor",
                        };
                        self.int_bin(k, t.bits(), &old, &a)?
                    }
                    k => return unsup(format!("atomicrmw {}", k)),
                };
                self.store(t, &n, ad)?;
                self.set(dst, old);
            }
            I::Fence => self.set(None, V::U),
            I::Br(b) => self.goto(*b)?,
            I::CondBr(c, a, b) => {
                let c = self.op(c)?;
                if a == b {
                    return self.goto(*a);
                }
                let x = self.branch(&c)?;
                self.goto(if x { *a } else { *b })?;
            }
            I::Switch(t, c, d, cases) => {
                let w = t.bits();
                let mut v = self.op(c)?;
                if let V::Cat(_) = v {
                    return unsup("switch on packed bytes");
                }
                if let V::B(_) = v {
                    v = self.conc(&v, w)?;
                }
                let mut tgt = *d;
                match &v {
                    V::I(x, _) => {
                        for k in cases {
                            if mask(k.v, w) == mask(*x, w) {
                                tgt = k.b;
                                break;
                            }
                        }
                    }
                    V::N(_) => {
                        for k in cases {
                            let e = self.icmp("eq", w, &v, &V::I(mask(k.v, w), w))?;
                            if self.branch(&e)? {
                                tgt = k.b;
                                break;
                            }
                        }
                    }
                    V::U => return unsup("switch on undefined value"),
                    v => return unsup(format!("switch {:?}", v)),
                }
                self.goto(tgt)?;
            }
            I::Ret(v) => {
                let r = match v {
                    Some((_, o)) => self.op(o)?,
                    None => V::U,
                };
                let fr = self.st.frames.pop().unwrap();
                for a in &fr.allocas {
                    self.st.mem.free(*a);
                }
                if self.st.frames.is_empty() {
                    return Err(End::Done);
                }
                let (fi, blk, ip) = {
                    let t = self.fr();
                    (t.f.clone(), t.blk, t.ip)
                };
                let d = fi.blocks[blk as usize].insts[ip].dst;
                self.set(d, r);
            }
            I::Unreachable => return unsup(format!("unreachable in {}", f.name)),
            I::Resume => return unsup("resume"),
        }
        Ok(())
    }
    fn select(&mut self, c: &V, t: &Ty, a: &V, b: &V) -> R<V> {
        match c {
            V::I(x, _) => return Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            V::U => return Ok(a.clone()),
            _ => {}
        }
        if *t == Ty::Int(1) {
            if let (V::B(c), Some(x), Some(y)) = (c, as_b(a), as_b(b)) {
                let tt = F::or2(&F::and2(&c.t, &x.0), &F::and2(&c.f, &y.0));
                let ff = F::or2(&F::and2(&c.t, &x.1), &F::and2(&c.f, &y.1));
                return Ok(mkbool(SBool { t: tt, f: ff, w: 1 }));
            }
        }
        let x = self.branch(c)?;
        Ok(if x { a.clone() } else { b.clone() })
    }
    fn bin(&mut self, op: &'static str, t: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(n, e) = t {
            let g = |v: &V, i: usize| match v {
                V::Agg(x) => x[i].clone(),
                _ => V::U,
            };
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.bin(op, e, &g(a, i), &g(b, i))?);
            }
            return Ok(V::agg(r));
        }
        match op {
            "fadd" => self.fadd(a, b),
            "fsub" => self.fsub(a, b),
            "fmul" => self.fmul(a, b),
            "fdiv" => self.fdiv(a, b),
            "frem" => match (a, b) {
                (V::F32(x), V::F32(y)) => Ok(V::F32(x % y)),
                (V::F64(x), V::F64(y)) => Ok(V::F64(x % y)),
                _ => unsup("frem"),
            },
            _ => self.int_bin(op, t.bits(), a, b),
        }
    }
    fn cast(&mut self, op: &str, t: &Ty, a: &V, u: &Ty) -> R<V> {
        if op != "bitcast" {
            if let (Ty::Vec(_, te), Ty::Vec(n, ue)) = (t, u) {
                let mut r = vec![];
                for i in 0..*n as usize {
                    let x = match a {
                        V::Agg(x) => x[i].clone(),
                        _ => V::U,
                    };
                    r.push(self.cast(op, te, &x, ue)?);
                }
                return Ok(V::agg(r));
            }
        }
        match op {
            "trunc" => self.trunc(a, t.bits(), u.bits()),
            "zext" => self.zext(a, t.bits(), u.bits()),
            "sext" => self.sext(a, t.bits(), u.bits()),
            "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                if t.bits() > u.bits() {
                    self.trunc(a, t.bits(), u.bits())
                } else if t.bits() < u.bits() {
                    self.zext(a, t.bits(), u.bits())
                } else {
                    Ok(a.clone())
                }
            }
            "bitcast" => self.bitcast(t, a, u),
            "fpext" => Ok(match a {
                V::F32(x) => V::F64(*x as f64),
                V::S(s) => {
                    let s = s.clone();
                    self.sf(s.num.clone(), s.den.clone(), s.ea, s.er, s.zs, s.nn, true)
                }
                v => v.clone(),
            }),
            "fptrunc" => Ok(match a {
                V::F64(x) => V::F32(*x as f32),
                V::S(s) => {
                    let s = s.clone();
                    let b = self.fb(&s);
                    let vs_exact = s.ea == 0.0 && s.er == 0.0 && s.den.is_one() && {
                        let mut vs = Default::default();
                        s.num.vars(&mut vs);
                        vs.iter().all(|v| self.st.vars[*v as usize].int)
                            && b.mag() <= crate::z::ldexp(1.0, 24 + s.num.e)
                    };
                    let er = if vs_exact { 0.0 } else { (s.er + 2f64.powi(-24)) * (1.0 + 1e-6) };
                    self.sf(s.num.clone(), s.den.clone(), s.ea * (1.0 + 1e-6), er, s.zs, s.nn, false)
                }
                v => v.clone(),
            }),
            "sitofp" | "uitofp" => {
                let wide = *u == Ty::F64;
                let w = t.bits();
                let v = match a {
                    V::B(_) => self.conc(a, w)?,
                    v => v.clone(),
                };
                Ok(match &v {
                    V::I(x, _) => {
                        if op == "sitofp" {
                            let k = sx(*x, w);
                            if wide {
                                V::F64(k as f64)
                            } else {
                                V::F32(k as f32)
                            }
                        } else {
                            let k = mask(*x, w);
                            if wide {
                                V::F64(k as f64)
                            } else {
                                V::F32(k as f32)
                            }
                        }
                    }
                    V::N(n) => {
                        let n = (**n).clone();
                        let s = if op == "sitofp" { self.signed(&n)? } else { self.unsigned(&n)? };
                        let (lo, hi) = self.nb(&s);
                        let lim = if wide { 1i128 << 53 } else { 1i128 << 24 };
                        let ex = lo >= -lim && hi <= lim;
                        let er = if ex { 0.0 } else { unit(wide) };
                        let nn = lo >= 0;
                        self.sf(s.p.clone(), Poly::int(1), 0.0, er, Zs::Plus, nn, wide)
                    }
                    V::U => V::U,
                    v => return unsup(format!("{} {:?}", op, v)),
                })
            }
            "fptosi" | "fptoui" => match a {
                V::F32(x) => Ok(V::I(mask((*x as i128) as u128, u.bits()), u.bits())),
                V::F64(x) => Ok(V::I(mask((*x as i128) as u128, u.bits()), u.bits())),
                V::S(s) => {
                    let s = s.clone();
                    let n = self.round_int(&s, 't')?;
                    self.mkn(n.p, u.bits())
                }
                _ => Ok(V::U),
            },
            o => unsup(format!("cast {}", o)),
        }
    }
    fn bitcast(&mut self, t: &Ty, a: &V, u: &Ty) -> R<V> {
        if t == u {
            return Ok(a.clone());
        }
        // <n x i1> to integer
        if let (Ty::Vec(_, e), Ty::Int(w)) = (t, u) {
            if **e == Ty::Int(1) {
                let mut r = 0u128;
                if let V::Agg(x) = a {
                    for (i, b) in x.iter().enumerate() {
                        if self.branch(b)? {
                            r |= 1 << i;
                        }
                    }
                }
                return Ok(V::I(r, *w));
            }
        }
        let n = t.size() as u32;
        let p = self.pieces_of(a, n)?;
        self.unpack(&p, 0, u)
    }
    fn unpack(&mut self, p: &[(V, u32)], off: u32, u: &Ty) -> R<V> {
        match u {
            Ty::Vec(n, e) => {
                let mut r = vec![];
                for i in 0..*n as u32 {
                    r.push(self.unpack(p, off + i * e.size() as u32, e)?);
                }
                Ok(V::agg(r))
            }
            t => {
                let q = self.take_bytes(p, off, t.size() as u32)?;
                self.from_pieces(q, t)
            }
        }
    }

    fn word(&mut self, a: u64) -> R<u64> {
        match self.load(&Ty::Int(64), a)? {
            V::I(x, _) => Ok(x as u64),
            _ => unsup("symbolic word in a library structure"),
        }
    }
    fn flag(&mut self, a: u64) -> R<bool> {
        match self.load(&Ty::Int(8), a)? {
            V::I(x, _) => Ok(x & 1 == 1),
            _ => unsup("symbolic flag in a library structure"),
        }
    }
    fn text(&mut self, a: u64, n: u64) -> R<Vec<u8>> {
        let mut r = vec![];
        for (v, s) in self.read_pieces(a, n)? {
            match v {
                V::I(x, _) => r.extend(&x.to_le_bytes()[..s as usize]),
                v => {
                    let x = self.conc(&v, s * 8)?;
                    match x {
                        V::I(x, _) => r.extend(&x.to_le_bytes()[..s as usize]),
                        _ => return unsup("symbolic text"),
                    }
                }
            }
        }
        Ok(r)
    }
    /// The file system: a few files in memory, `/dev/full` that takes nothing.
    /// `std::fs` entry points by the parts of their symbol names; results as
    /// `io::Result` is laid out (an error is a plain kind).
    fn files(&mut self, name: &str, av: &[V]) -> R<Option<V>> {
        let u = |v: &V| -> R<u64> {
            match v {
                V::I(x, _) => Ok(*x as u64),
                _ => unsup(format!("symbolic argument of {}", name)),
            }
        };
        // a plain error kind: not found, exists, invalid input, storage full, permission
        let os = |e: u64| (match e { 2 => 0, 17 => 12, 22 => 20, 28 => 24, _ => 1u64 }) << 32 | 3;
        let pair = |a: u64, b: u64| V::agg(vec![V::i64(a), V::i64(b)]);
        if name == "close" {
            let k = u(&av[0])? as usize;
            if k >= 3 && k - 3 < self.st.fds.len() {
                self.st.fds[k - 3] = None;
            }
            return Ok(Some(V::I(0, 32)));
        }
        if name.contains("11OpenOptions5__open") {
            let (ret, o) = (u(&av[0])?, u(&av[1])?);
            let (pa, pn) = (u(&av[2])?, u(&av[3])?);
            let path = self.text(pa, pn)?;
            let mut f = [false; 6];
            for i in 0..6 {
                f[i] = self.flag(o + 8 + i as u64)?;
            }
            let [read, write, append, trunc, create, new] = f;
            let mut at = self.st.files.iter().position(|x| x.name == path);
            let mut err = 0;
            let w = write || append;
            if (!read && !w) || ((trunc || create || new) && !w) || (append && trunc && !new) {
                err = 22;
            } else if at.is_some() && new {
                err = 17;
            } else if at.is_none() {
                if (create || new || path == b"/dev/full") && !path.is_empty() {
                    let a = self.st.mem.alloc(1024, 16);
                    self.st.files.push(crate::state::SimFile { name: path, addr: a, len: 0, cap: 1024 });
                    at = Some(self.st.files.len() - 1);
                } else {
                    err = 2;
                }
            }
            if err != 0 {
                self.st.mem.write_bytes(ret, &1u32.to_le_bytes());
                self.st.mem.write_bytes(ret + 8, &os(err).to_le_bytes());
                return Ok(Some(V::U));
            }
            let at = at.unwrap();
            if trunc {
                self.st.files[at].len = 0;
            }
            self.st.fds.push(Some((at, 0, read, w, append)));
            let fd = self.st.fds.len() as u32 + 2;
            self.st.mem.write_bytes(ret, &0u32.to_le_bytes());
            self.st.mem.write_bytes(ret + 4, &fd.to_le_bytes());
            return Ok(Some(V::U));
        }
        if name.contains("3std2fsNt") && name.contains("4FileNt") {
            let rd = name.ends_with("4Read4read");
            let rb = name.ends_with("4Read8read_buf");
            let wr = name.ends_with("5Write5write");
            let fl = name.ends_with("5Write5flush");
            if fl {
                return Ok(Some(V::i64(0)));
            }
            if !(rd || rb || wr) {
                return Ok(None);
            }
            let fa = u(&av[0])?;
            let fd = match self.load(&Ty::Int(32), fa)? {
                V::I(x, _) => x as usize,
                _ => return unsup("symbolic descriptor"),
            };
            let Some(Some((at, pos, r, w, app))) = fd.checked_sub(3).and_then(|k| self.st.fds.get(k)).cloned() else {
                return Ok(Some(if rb { V::i64(os(9)) } else { pair(1, os(9)) }));
            };
            if (wr && !w) || (!wr && !r) {
                return Ok(Some(if rb { V::i64(os(9)) } else { pair(1, os(9)) }));
            }
            if wr {
                let (b, n) = (u(&av[1])?, u(&av[2])?);
                let f = self.st.files[at].clone();
                if f.name == b"/dev/full" && n > 0 {
                    return Ok(Some(pair(1, os(28))));
                }
                let from = if app { f.len } else { pos };
                let end = from + n;
                if end > 1 << 22 {
                    return unsup("large file");
                }
                let mut f = f;
                if end > f.cap {
                    let cap = end.max(f.cap * 2);
                    let a = self.st.mem.alloc(cap, 16);
                    self.copy(a, f.addr, f.len)?;
                    self.st.mem.free(f.addr);
                    f.addr = a;
                    f.cap = cap;
                }
                self.copy(f.addr + from, b, n)?;
                f.len = f.len.max(end);
                self.st.files[at] = f;
                self.st.fds[fd - 3] = Some((at, end, r, w, app));
                return Ok(Some(pair(0, n)));
            }
            let f = self.st.files[at].clone();
            let left = f.len.saturating_sub(pos);
            if rd {
                let (b, n) = (u(&av[1])?, u(&av[2])?);
                let n = n.min(left);
                self.copy(b, f.addr + pos, n)?;
                self.st.fds[fd - 3] = Some((at, pos + n, r, w, app));
                return Ok(Some(pair(0, n)));
            }
            // BorrowedBuf { data, length, filled, init }
            let c = u(&av[1])?;
            let (d, n, k) = (self.word(c)?, self.word(c + 8)?, self.word(c + 16)?);
            let n = (n - k).min(left);
            self.copy(d + k, f.addr + pos, n)?;
            self.st.mem.write_bytes(c + 16, &(k + n).to_le_bytes());
            self.st.fds[fd - 3] = Some((at, pos + n, r, w, app));
            return Ok(Some(V::i64(0)));
        }
        if name.contains("8BufGuard") && (name.ends_with("9remaining") || name.ends_with("4Drop4drop")) {
            // { &mut Vec<u8> { capacity, pointer, length }, written }
            let g = u(&av[0])?;
            let (v, k) = (self.word(g)?, self.word(g + 8)?);
            let (p, n) = (self.word(v + 8)?, self.word(v + 16)?);
            if name.ends_with("9remaining") {
                return Ok(Some(pair(p + k, n - k)));
            }
            if k > 0 {
                let t = self.st.mem.alloc((n - k).max(1), 1);
                self.copy(t, p + k, n - k)?;
                self.copy(p, t, n - k)?;
                self.st.mem.free(t);
                self.st.mem.write_bytes(v + 16, &(n - k).to_le_bytes());
            }
            return Ok(Some(V::U));
        }
        if name.ends_with("3str8converts9from_utf8") {
            let (ret, a, n) = (u(&av[0])?, u(&av[1])?, u(&av[2])?);
            let t = self.text(a, n)?;
            if !t.is_ascii() {
                return unsup("text beyond ASCII");
            }
            self.st.mem.write_bytes(ret, &0u64.to_le_bytes());
            self.st.mem.write_bytes(ret + 8, &a.to_le_bytes());
            self.st.mem.write_bytes(ret + 16, &n.to_le_bytes());
            return Ok(Some(V::U));
        }
        if name.ends_with("6memchr14memchr_aligned") {
            let (c, a, n) = (u(&av[0])?, u(&av[1])?, u(&av[2])?);
            let t = self.text(a, n)?;
            return Ok(Some(match t.iter().position(|x| *x as u64 == c & 255) {
                Some(i) => pair(1, i as u64),
                None => pair(0, 0),
            }));
        }
        Ok(None)
    }
    /// Built-in functions; None = call the IR definition.
    fn builtin(&mut self, name: &str, rt: &Ty, args: &[(Ty, Op)], av: &[V], noreturn: bool) -> R<Option<V>> {
        if let Some(x) = name.strip_prefix("llvm.") {
            return self.intrinsic(x, rt, args, av).map(Some);
        }
        if name.starts_with("lirsym_") {
            return self.api(name, av).map(Some);
        }
        if name.contains("hash_one") {
            return Ok(Some(V::I(0, 64)));
        }
        if self.c.m.funcs.contains_key(name) {
            return Ok(None);
        }
        let u = |v: &V| -> R<u64> {
            match v {
                V::I(x, _) => Ok(*x as u64),
                _ => unsup(format!("symbolic argument of {}", name)),
            }
        };
        if name.contains("___rust_alloc_zeroed") || name.contains("12___rust_alloc") {
            let n = match &av[0] {
                V::I(x, _) => *x as u64,
                v => self.addr(&v.clone())?,
            };
            if n > 1 << 24 {
                return unsup("huge allocation");
            }
            let a = self.st.mem.alloc(n, u(&av[1])?);
            return Ok(Some(V::i64(a)));
        }
        if name.contains("___rust_dealloc") {
            self.st.mem.free(u(&av[0])?);
            return Ok(Some(V::U));
        }
        if name.contains("___rust_realloc") {
            let (old, on, al) = (u(&av[0])?, u(&av[1])?, u(&av[2])?);
            let nn = self.addr(&av[3].clone())?;
            let a = self.st.mem.alloc(nn, al);
            self.copy(a, old, on.min(nn))?;
            self.st.mem.free(old);
            return Ok(Some(V::i64(a)));
        }
        if name.contains("RawVechE8grow_oneB") {
            // Vec<u8> (shared instance in std): { capacity, pointer, .. }
            let a = u(&av[0])?;
            let cap = self.word(a)?;
            let p = self.word(a + 8)?;
            let nc = (cap * 2).max(8);
            let q = self.st.mem.alloc(nc, 1);
            if cap > 0 {
                self.copy(q, p, cap)?;
                self.st.mem.free(p);
            }
            self.st.mem.write_bytes(a, &nc.to_le_bytes());
            self.st.mem.write_bytes(a + 8, &q.to_le_bytes());
            return Ok(Some(V::U));
        }
        if let Some(r) = self.files(name, av)? {
            return Ok(Some(r));
        }
        if name.contains("no_alloc_shim") {
            return Ok(Some(V::U));
        }
        if name.contains("hashmap_random_keys") {
            return Ok(Some(V::agg(vec![V::i64(1), V::i64(2)])));
        }
        if name == "memcmp" || name == "bcmp" {
            let n = self.addr(&av[2].clone())?;
            let (a, b) = (u(&av[0])?, u(&av[1])?);
            if n == 0 {
                return Ok(Some(V::I(0, 32)));
            }
            let p = self.read_pieces(a, n)?;
            let q = self.read_pieces(b, n)?;
            let bytes = |p: &Vec<(V, u32)>| -> Option<Vec<u8>> {
                let mut r = vec![];
                for (v, s) in p {
                    match v {
                        V::I(x, _) => r.extend(&x.to_le_bytes()[..*s as usize]),
                        _ => return None,
                    }
                }
                Some(r)
            };
            if let (Some(x), Some(y)) = (bytes(&p), bytes(&q)) {
                let c = x.cmp(&y) as i32;
                return Ok(Some(V::I(mask(c as i128 as u128, 32), 32)));
            }
            if name == "bcmp" {
                let mut o = 0;
                for (v, s) in &p {
                    let y = self.take_bytes(&q, o, *s)?;
                    let y = join(y);
                    o += s;
                    let e = match (v, &y) {
                        (V::S(_), _) | (_, V::S(_)) | (_, V::Cat(_)) => return unsup("bcmp of floats"),
                        (x, y) => self.icmp("eq", s * 8, x, y)?,
                    };
                    if !self.branch(&e)? {
                        return Ok(Some(V::I(1, 32)));
                    }
                }
                return Ok(Some(V::I(0, 32)));
            }
            return unsup("memcmp");
        }
        // libm on constants
        let f1 = |f: fn(f32) -> f32| -> R<Option<V>> {
            match &av[0] {
                V::F32(x) => Ok(Some(V::F32(f(*x)))),
                _ => unsup(format!("{} of a symbolic value", name)),
            }
        };
        let d1 = |f: fn(f64) -> f64| -> R<Option<V>> {
            match &av[0] {
                V::F64(x) => Ok(Some(V::F64(f(*x)))),
                _ => unsup(format!("{} of a symbolic value", name)),
            }
        };
        match name {
            "sinf" => return f1(f32::sin),
            "cosf" => return f1(f32::cos),
            "tanf" => return f1(f32::tan),
            "acosf" => return f1(f32::acos),
            "asinf" => return f1(f32::asin),
            "atanf" => return f1(f32::atan),
            "sin" => return d1(f64::sin),
            "cos" => return d1(f64::cos),
            "atan2f" => {
                if let (V::F32(x), V::F32(y)) = (&av[0], &av[1]) {
                    return Ok(Some(V::F32(x.atan2(*y))));
                }
                return unsup("atan2f");
            }
            "hypotf" => {
                if let (V::F32(x), V::F32(y)) = (&av[0], &av[1]) {
                    return Ok(Some(V::F32(x.hypot(*y))));
                }
                return unsup("hypotf");
            }
            "roundf" => return self.round_f(&av[0], 'r').map(Some),
            "floorf" => return self.round_f(&av[0], 'f').map(Some),
            "ceilf" => return self.round_f(&av[0], 'c').map(Some),
            "truncf" => return self.round_f(&av[0], 't').map(Some),
            "fmaf" => {
                let m = self.fmul(&av[0], &av[1])?;
                return self.fadd(&m, &av[2]).map(Some);
            }
            _ => {}
        }
        if noreturn {
            let caller = self.fr().f.name.clone();
            return Err(End::Panic(format!("{} called from {}", name, caller)));
        }
        if name.contains("3fmt") || name.contains("_print") || name.contains("2io") || name.contains("5stdio") {
            return Ok(Some(zero_of(rt)));
        }
        unsup(format!("external {}", name))
    }
    fn round_f(&mut self, v: &V, mode: char) -> R<V> {
        Ok(match v {
            V::F32(x) => V::F32(match mode {
                'r' => x.round(),
                'f' => x.floor(),
                'c' => x.ceil(),
                't' => x.trunc(),
                _ => x.round_ties_even(),
            }),
            V::F64(x) => V::F64(match mode {
                'r' => x.round(),
                'f' => x.floor(),
                'c' => x.ceil(),
                't' => x.trunc(),
                _ => x.round_ties_even(),
            }),
            V::S(s) => {
                let s = s.clone();
                let n = self.round_int(&s, mode)?;
                self.sf(n.p, Poly::int(1), 0.0, 0.0, Zs::Any, false, s.wide)
            }
            v => return unsup(format!("round {:?}", v)),
        })
    }
    fn api(&mut self, name: &str, av: &[V]) -> R<V> {
        let k = |v: &V| -> R<i64> {
            match v {
                V::I(x, w) => Ok(sx(*x, *w) as i64),
                _ => unsup("symbolic argument of an input function"),
            }
        };
        match name {
            "lirsym_int" => {
                let (lo, hi) = (k(&av[0])?, k(&av[1])?);
                if lo == hi {
                    self.st.inputs.push(InVar::Fix(lo));
                    return Ok(V::I(lo as u64 as u128, 64));
                }
                // an input created before a fork inside this instruction cannot happen: no decisions here
                let mid = lo + (hi - lo) / 2;
                let v = self.st.new_var(true, Iv::new(lo as f64, hi as f64), mid as f64);
                self.st.inputs.push(InVar::Int(v));
                Ok(V::N(Arc::new(SInt { p: Poly::var(v), w: 64, lo: lo as i128, hi: hi as i128 })))
            }
            "lirsym_f32" => {
                let (lo, hi) = match (&av[0], &av[1]) {
                    (V::F32(a), V::F32(b)) => (*a as f64, *b as f64),
                    _ => return unsup("symbolic range"),
                };
                let r = 0.37 + 0.11 * (self.st.inputs.len() % 4) as f64;
                let w = ((lo + (hi - lo) * r) * 64.0).round() / 64.0;
                let w = if w > lo && w < hi { w } else { (lo + hi) / 2.0 };
                let v = self.st.new_var(false, Iv::new(lo, hi), w);
                self.st.inputs.push(InVar::F32(v));
                Ok(self.sf(Poly::var(v), Poly::int(1), 0.0, 0.0, Zs::Plus, lo >= 0.0, false))
            }
            "lirsym_choose" => {
                let n = k(&av[0])?;
                // fork eagerly
                for i in 1..n {
                    let mut o = self.st.clone();
                    o.inputs.push(InVar::Fix(i));
                    let fr = Arc::make_mut(o.frames.last_mut().unwrap());
                    let d = fr.f.blocks[fr.blk as usize].insts[fr.ip].dst;
                    if let Some(d) = d {
                        fr.regs[d as usize] = V::I(i as u128, 64);
                    }
                    fr.ip += 1;
                    self.spawned.push(o);
                }
                self.st.inputs.push(InVar::Fix(0));
                Ok(V::I(0, 64))
            }
            "lirsym_assume" => {
                match &av[0] {
                    V::I(x, _) => {
                        if x & 1 == 0 {
                            return Err(End::Infeasible);
                        }
                    }
                    V::B(b) => {
                        let t = b.t.clone();
                        self.assume(&t)?;
                    }
                    v => return unsup(format!("assume {:?}", v)),
                }
                Ok(V::U)
            }
            "lirsym_check" => {
                self.checks += 1;
                let id = k(&av[1])? as u32;
                match &av[0] {
                    V::I(x, _) => {
                        if x & 1 == 0 {
                            let sure = self.sure_path();
                            let i = self.st.concrete_inputs();
                            return Err(End::Check(id, sure, i));
                        }
                    }
                    V::B(b) => {
                        let (t, f) = (b.t.clone(), b.f.clone());
                        // falsified outside every rounding band, or at least possibly
                        let mut sure_f = self.st.definite();
                        sure_f.push(f.clone());
                        let mut cand = None;
                        match self.sat(&f) {
                            Fea::No => {}
                            y => {
                                let d = F::and(sure_f);
                                match self.sat(&d) {
                                    Fea::No => {
                                        self.bands += 1;
                                        cand = Some((f.clone(), false, y));
                                    }
                                    x => {
                                        let sure = !matches!(x, Fea::Maybe);
                                        cand = Some((d, sure, x))
                                    }
                                }
                            }
                        }
                        if let Some((d, sure, x)) = cand {
                            let mut o = self.st.clone();
                            Self::take_pub(&mut o, &d, x);
                            let i = o.concrete_inputs();
                            if std::env::var("LIRSYM_DBG").is_ok() {
                                eprintln!("CHECK {} sure {} w {:?} bw {:?} cond {:?}", id, sure, o.w, o.bw, f);
                                for f in &o.pc { eprintln!("   PC {:?}", f); }
                                for f in o.bands.iter() { eprintln!("   BAND {:?}", f); }
                            }
                            // the rest of the path continues where the check holds
                            if let Ok(()) = self.assume(&t) {
                                self.resume_after_check();
                            }
                            return Err(End::Check(id, sure, i));
                        }
                        if t != F::T {
                            self.assume(&t)?;
                        }
                    }
                    V::U => return unsup("check of an undefined value"),
                    v => return unsup(format!("check {:?}", v)),
                }
                Ok(V::U)
            }
            // evidence only: mark that the harness got this far
            "lirsym_reach" => {
                self.st.seen_checks += 1;
                Ok(V::U)
            }
            n => unsup(format!("api {}", n)),
        }
    }
    /// Is the path feasible without help from any rounding band? (moves the witness)
    pub fn sure_path(&mut self) -> bool {
        let d = self.st.definite();
        if d.is_empty() && self.st.wok {
            return true;
        }
        match self.smt.check(&self.st.vars, &self.st.pc, &d) {
            crate::smt::Res::Sat(m, b) => {
                self.st.set_model(&m, &b);
                true
            }
            crate::smt::Res::Unsat => {
                self.bands += 1;
                false
            }
            crate::smt::Res::Unknown => false,
        }
    }
    fn take_pub(st: &mut State, f: &F, fea: Fea) {
        st.add(f);
        if let Fea::Yes(Some((m, b))) = fea {
            st.set_model(&m, &b);
            st.recheck();
        }
    }
    /// Put the current state (check assumed) back on the work list, past the check.
    fn resume_after_check(&mut self) {
        let mut o = self.st.clone();
        let fr = Arc::make_mut(o.frames.last_mut().unwrap());
        fr.ip += 1;
        self.spawned.push(o);
    }

    fn intrinsic(&mut self, x: &str, rt: &Ty, args: &[(Ty, Op)], av: &[V]) -> R<V> {
        let st = |p: &str| x.starts_with(p);
        if st("lifetime") || st("dbg") || st("assume") || st("experimental.noalias") || st("donothing") || st("prefetch") {
            return Ok(V::U);
        }
        if st("expect") || st("threadlocal.address") || st("launder") || st("strip.invariant") || st("ptrmask") && false {
            return Ok(av[0].clone());
        }
        if st("is.constant") {
            return Ok(V::bool(!av[0].is_sym()));
        }
        if st("trap") {
            return Err(End::Panic(format!("trap in {}", self.fr().f.name)));
        }
        if st("memcpy") || st("memmove") {
            let n = self.addr(&av[2].clone())?;
            let d = self.addr(&av[0].clone())?;
            let s = self.addr(&av[1].clone())?;
            self.copy(d, s, n)?;
            return Ok(V::U);
        }
        if st("memset") {
            let n = self.addr(&av[2].clone())?;
            let d = self.addr(&av[0].clone())?;
            let b = match self.conc(&av[1], 8)? {
                V::I(b, _) => b as u8,
                _ => 0,
            };
            self.uncut(d, n)?;
            if !self.st.mem.write_bytes(d, &vec![b; n as usize]) {
                return unsup("invalid memset");
            }
            return Ok(V::U);
        }
        // vector forms
        if let Ty::Vec(n, e) = rt {
            if st("x86") || st("vector") {
                return unsup(format!("llvm.{}", x));
            }
            let mut r = vec![];
            for i in 0..*n as usize {
                let mut a2 = vec![];
                let mut t2 = vec![];
                for (j, a) in av.iter().enumerate() {
                    match a {
                        V::Agg(v) => {
                            a2.push(v[i].clone());
                            t2.push((args[j].0.elem(0), args[j].1.clone()));
                        }
                        v => {
                            a2.push(v.clone());
                            t2.push(args[j].clone());
                        }
                    }
                }
                r.push(self.intrinsic(x, e, &t2, &a2)?);
            }
            return Ok(V::agg(r));
        }
        if st("fabs") {
            return self.fabs(&av[0]);
        }
        if st("sqrt") {
            return self.sqrt(&av[0]);
        }
        if st("copysign") {
            return self.copysign(&av[0], &av[1]);
        }
        if st("maxnum") || st("maximumnum") {
            return self.fmax(&av[0], &av[1], true);
        }
        if st("minnum") || st("minimumnum") {
            return self.fmax(&av[0], &av[1], false);
        }
        if st("fma") || st("fmuladd") {
            let m = self.fmul(&av[0], &av[1])?;
            return self.fadd(&m, &av[2]);
        }
        if st("floor") {
            return self.round_f(&av[0], 'f');
        }
        if st("ceil") {
            return self.round_f(&av[0], 'c');
        }
        if st("trunc.") {
            return self.round_f(&av[0], 't');
        }
        if st("roundeven") || st("rint") || st("nearbyint") {
            return self.round_f(&av[0], 'e');
        }
        if st("round") {
            return self.round_f(&av[0], 'r');
        }
        if (st("sin.") || st("cos.")) && matches!(av[0], V::S(_)) {
            return self.trig(&av[0], st("sin."));
        }
        if let V::F64(v) = &av[0] {
            if st("sin.") {
                return Ok(V::F64(v.sin()));
            }
            if st("cos.") {
                return Ok(V::F64(v.cos()));
            }
        }
        for (n, f) in [("sin.", f32::sin as fn(f32) -> f32), ("cos.", f32::cos), ("exp.", f32::exp), ("log.", f32::ln)] {
            if st(n) {
                return match &av[0] {
                    V::F32(v) => Ok(V::F32(f(*v))),
                    _ => unsup(format!("llvm.{} of a symbolic value", x)),
                };
            }
        }
        if st("fptosi.sat") || st("fptoui.sat") {
            let w = rt.bits();
            let signed = st("fptosi");
            let (lo, hi) = if signed {
                (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
            } else {
                (0, (1i128 << w) - 1)
            };
            let c = |x: f64| -> V {
                let k = if x.is_nan() {
                    0
                } else {
                    (x as i128).clamp(lo, hi)
                };
                V::I(mask(k as u128, w), w)
            };
            return match &av[0] {
                V::F32(x) => Ok(c(*x as f64)),
                V::F64(x) => Ok(c(*x)),
                V::S(s) => {
                    let s = s.clone();
                    let n = self.round_int(&s, 't')?;
                    let (a, b) = self.nb(&n);
                    if a < lo && self.decide(&F::lt0(&n.p.sub(&pk(lo))))? {
                        return Ok(V::I(mask(lo as u128, w), w));
                    }
                    if b > hi && self.decide(&F::gt0(&n.p.sub(&pk(hi))))? {
                        return Ok(V::I(mask(hi as u128, w), w));
                    }
                    self.mkn(n.p, w)
                }
                _ => unsup("fptosi.sat"),
            };
        }
        let w = match args.first() {
            Some((Ty::Int(w), _)) => *w,
            _ => 64,
        };
        for (p, op) in [
            ("sadd.with.overflow", "add"),
            ("ssub.with.overflow", "sub"),
            ("smul.with.overflow", "mul"),
            ("uadd.with.overflow", "add"),
            ("usub.with.overflow", "sub"),
            ("umul.with.overflow", "mul"),
        ] {
            if st(p) {
                let signed = p.starts_with('s');
                if let (V::I(a, _), V::I(b, _)) = (&av[0], &av[1]) {
                    let r = conc_bin(op, w, *a, *b)?;
                    let rr = match &r {
                        V::I(x, _) => *x,
                        _ => 0,
                    };
                    let o = if signed {
                        let (a, b) = (sx(*a, w), sx(*b, w));
                        let e = match op {
                            "add" => a + b,
                            "sub" => a - b,
                            _ => a.saturating_mul(b),
                        };
                        e != sx(rr, w)
                    } else {
                        let (a, b) = (mask(*a, w), mask(*b, w));
                        match op {
                            "add" => a + b != rr,
                            "sub" => a < b,
                            _ => a.saturating_mul(b) != rr,
                        }
                    };
                    return Ok(V::agg(vec![r, V::bool(o)]));
                }
                let a = match &av[0] {
                    V::B(_) => self.conc(&av[0], w)?,
                    v => v.clone(),
                };
                let b = match &av[1] {
                    V::B(_) => self.conc(&av[1], w)?,
                    v => v.clone(),
                };
                let (a, b) = match (self.n_of(&a, w), self.n_of(&b, w)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return unsup("overflow intrinsic"),
                };
                let (a, b) = if signed {
                    (self.signed(&a)?, self.signed(&b)?)
                } else {
                    (self.unsigned(&a)?, self.unsigned(&b)?)
                };
                let p = match op {
                    "add" => a.p.add(&b.p),
                    "sub" => a.p.sub(&b.p),
                    _ => a.p.mul(&b.p),
                };
                let (lo, hi) = if signed {
                    (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
                } else {
                    (0, (1i128 << w) - 1)
                };
                if self.decide(&F::lt0(&p.sub(&pk(lo))))? {
                    return Ok(V::agg(vec![V::U, V::bool(true)]));
                }
                if self.decide(&F::gt0(&p.sub(&pk(hi))))? {
                    return Ok(V::agg(vec![V::U, V::bool(true)]));
                }
                let r = self.mkn(p, w)?;
                return Ok(V::agg(vec![r, V::bool(false)]));
            }
        }
        for (p, pred) in [("smax", "sge"), ("smin", "sle"), ("umax", "uge"), ("umin", "ule")] {
            if st(p) {
                let c = self.icmp(pred, w, &av[0], &av[1])?;
                let b = self.branch(&c)?;
                return Ok(av[if b { 0 } else { 1 }].clone());
            }
        }
        for (p, pred) in [("scmp", 's'), ("ucmp", 'u')] {
            if st(p) {
                let lt = self.icmp(if pred == 's' { "slt" } else { "ult" }, w, &av[0], &av[1])?;
                if self.branch(&lt)? {
                    return Ok(V::I(mask(u128::MAX, rt.bits()), rt.bits()));
                }
                let eq = self.icmp("eq", w, &av[0], &av[1])?;
                let b = self.branch(&eq)?;
                return Ok(V::I(if b { 0 } else { 1 }, rt.bits()));
            }
        }
        if st("abs") {
            let neg = self.icmp("slt", w, &av[0], &V::I(0, w))?;
            return if self.branch(&neg)? {
                self.int_bin("sub", w, &V::I(0, w), &av[0])
            } else {
                Ok(av[0].clone())
            };
        }
        if st("uadd.sat") || st("usub.sat") || st("sadd.sat") || st("ssub.sat") {
            if let (V::I(a, _), V::I(b, _)) = (&av[0], &av[1]) {
                let m = mask(u128::MAX, w);
                let r = match &x[..8] {
                    "uadd.sat" => (a + b).min(m),
                    "usub.sat" => a.saturating_sub(*b),
                    "sadd.sat" => (sx(*a, w) + sx(*b, w)).clamp(-(1 << (w - 1)), (1 << (w - 1)) - 1) as u128,
                    _ => (sx(*a, w) - sx(*b, w)).clamp(-(1 << (w - 1)), (1 << (w - 1)) - 1) as u128,
                };
                return Ok(V::I(mask(r, w), w));
            }
            return unsup(format!("llvm.{} of symbolic values", x));
        }
        // remaining ones on concrete integers
        let mut ci = vec![];
        for a in av {
            match self.conc(a, w)? {
                V::I(k, _) => ci.push(k),
                _ => return unsup(format!("llvm.{}", x)),
            }
        }
        let m = |v: u128| mask(v, w);
        if st("ctlz") {
            let v = m(ci[0]);
            return Ok(V::I((v.leading_zeros() - (128 - w)) as u128, w));
        }
        if st("cttz") {
            let v = m(ci[0]);
            return Ok(V::I(v.trailing_zeros().min(w) as u128, w));
        }
        if st("ctpop") {
            return Ok(V::I(m(ci[0]).count_ones() as u128, w));
        }
        if st("bswap") {
            let v = m(ci[0]).swap_bytes() >> (128 - w);
            return Ok(V::I(v, w));
        }
        if st("fshl") || st("fshr") {
            let (a, b, s) = (m(ci[0]), m(ci[1]), (ci[2] % w as u128) as u32);
            let r = if s == 0 {
                if st("fshl") {
                    a
                } else {
                    b
                }
            } else if st("fshl") {
                (a << s) | (b >> (w - s))
            } else {
                (a << (w - s)) | (b >> s)
            };
            return Ok(V::I(m(r), w));
        }
        unsup(format!("llvm.{}", x))
    }
}
