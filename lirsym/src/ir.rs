//! Parser for textual LLVM IR (the subset rustc emits).
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Label,
    Meta,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                (b + self.align() - 1) / self.align() * self.align()
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::Int(1) => (n + 7) / 8,
                t => n * t.size(),
            },
            Ty::Struct(v, p) => {
                let mut o = 0;
                for t in v.iter() {
                    if !*p {
                        o = (o + t.align() - 1) / t.align() * t.align();
                    }
                    o += t.size();
                }
                if !*p {
                    o = (o + self.align() - 1) / self.align() * self.align();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(v, p) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !*p {
                        o = (o + t.align() - 1) / t.align() * t.align();
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(v, _) => v[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(v, _) => v.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("nelem {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            t => (t.size() * 8) as u32,
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128, u32),
    F32(u32),
    F64(u64),
    Null,
    Undef,
    Zero,
    Global(Arc<str>),
    Str(Arc<Vec<u8>>),
    Agg(Arc<Vec<(Ty, C)>>),
    Splat(Arc<(Ty, C)>),
    Gep(Arc<(Ty, C, Vec<(Ty, C)>)>), // source elem type, base, indices
    Cast(Arc<C>),                    // ptrtoint / inttoptr / bitcast / addrspacecast
    Sub(Arc<(C, C)>),
    Add(Arc<(C, C)>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(Ty, C),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub v: u128,
    pub b: u32,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(&'static str, Ty, Op, Op),
    FNeg(Ty, Op),
    Icmp(String, Ty, Op, Op),
    Fcmp(String, Ty, Op, Op),
    Cast(&'static str, Ty, Op, Ty),
    Select(Op, Ty, Op, Op),
    Alloca(Ty, u64),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Call(Ty, Callee, Vec<(Ty, Op)>),
    ExtractValue(Ty, Op, Vec<u32>),
    InsertValue(Ty, Op, Ty, Op, Vec<u32>),
    ExtractElem(Ty, Op, Op),
    InsertElem(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<i32>),
    Phi(Ty, Vec<(Op, u32)>),
    Freeze(Op),
    CmpXchg(Ty, Op, Op, Op),
    AtomicRmw(String, Ty, Op, Op),
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<Case>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Resume,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Arc<str>),
    Indirect(Op),
}

#[derive(Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub i: I,
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Arc<str>,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

#[derive(Debug)]
pub struct Global {
    pub name: Arc<str>,
    pub ty: Ty,
    pub init: Option<C>,
    pub align: u64,
}

#[derive(Default, Debug)]
pub struct Module {
    pub funcs: HashMap<Arc<str>, Arc<Func>>,
    pub decls: Vec<Arc<str>>,
    pub globals: Vec<Global>,
    pub aliases: HashMap<Arc<str>, Arc<str>>,
    pub types: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Glob(String),
    Num(String),
    P(char),
    Str(Vec<u8>),
    Ell,
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut r = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
            continue;
        }
        if c == b';' {
            break;
        }
        if c == b'%' || c == b'@' {
            let g = c == b'@';
            i += 1;
            let name;
            if i < b.len() && b[i] == b'"' {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                name = s[st..i].to_string();
                i += 1;
            } else {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                name = s[st..i].to_string();
            }
            r.push(if g { Tok::Glob(name) } else { Tok::Local(name) });
            continue;
        }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            if c == b'c' {
                i += 1;
            }
            i += 1;
            let mut v = vec![];
            while b[i] != b'"' {
                if b[i] == b'\\' {
                    if b[i + 1] == b'\\' {
                        v.push(b'\\');
                        i += 2;
                    } else {
                        v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                        i += 3;
                    }
                } else {
                    v.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            r.push(Tok::Str(v));
            continue;
        }
        if c.is_ascii_digit()
            || ((c == b'-' || c == b'+') && i + 1 < b.len() && b[i + 1].is_ascii_digit())
        {
            let st = i;
            i += 1;
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == b'.'
                    || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E')))
            {
                i += 1;
            }
            r.push(Tok::Num(s[st..i].to_string()));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.') {
                i += 1;
            }
            r.push(Tok::Word(s[st..i].to_string()));
            continue;
        }
        if c == b'.' && s[i..].starts_with("...") {
            r.push(Tok::Ell);
            i += 3;
            continue;
        }
        r.push(Tok::P(c as char));
        i += 1;
    }
    r
}

struct Ps<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a HashMap<String, Ty>,
}

type R<T> = Result<T, String>;

impl<'a> Ps<'a> {
    fn new(s: &str, m: &'a HashMap<String, Ty>) -> Ps<'a> {
        Ps { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&Tok> {
        self.t.get(self.i + k)
    }
    fn next(&mut self) -> R<Tok> {
        let r = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(r)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len())..]))
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if let Some(Tok::Word(x)) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn exp_w(&mut self, w: &str) -> R<()> {
        if self.eat_w(w) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", w, self.peek()))
        }
    }
    fn is_ty_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(
                    w.as_str(),
                    "void" | "float" | "double" | "ptr" | "half" | "label" | "metadata" | "opaque"
                ) || (w.starts_with('i')
                    && w.len() > 1
                    && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.m.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Word(w) => Ok(match w.as_str() {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => Ty::Ptr,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "half" => Ty::Int(16),
                "opaque" => Ty::Opaque,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| w.to_string())?),
                w => return Err(format!("type {}", w)),
            }),
            Tok::Local(n) => self.m.get(&n).cloned().ok_or(format!("type %{}", n)),
            Tok::P('{') => {
                let mut v = vec![];
                if !self.eat_p('}') {
                    loop {
                        v.push(self.ty()?);
                        if !self.eat_p(',') {
                            break;
                        }
                    }
                    self.exp_p('}')?;
                }
                Ok(Ty::Struct(Arc::new(v), false))
            }
            Tok::P('[') => {
                let n = self.num()?;
                self.exp_w("x")?;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ok(Ty::Arr(n as u64, Arc::new(t)))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut v = vec![];
                    if !self.eat_p('}') {
                        loop {
                            v.push(self.ty()?);
                            if !self.eat_p(',') {
                                break;
                            }
                        }
                        self.exp_p('}')?;
                    }
                    self.exp_p('>')?;
                    Ok(Ty::Struct(Arc::new(v), true))
                } else {
                    let n = self.num()?;
                    self.exp_w("x")?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ok(Ty::Vec(n as u64, Arc::new(t)))
                }
            }
            t => Err(format!("type at {:?}", t)),
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(n) => n.parse::<i128>().map_err(|e| format!("{} {}", n, e)),
            t => Err(format!("num at {:?}", t)),
        }
    }
    fn skip_parens(&mut self) {
        if self.eat_p('(') {
            let mut d = 1;
            while d > 0 && self.i < self.t.len() {
                match self.t[self.i] {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
                self.i += 1;
            }
        }
    }
    /// Skip parameter attributes such as `noundef range(i64 0, 4) align 8`.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if self.is_ty_start() {
                        return;
                    }
                    match w.as_str() {
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            } else {
                                self.i += 1;
                            }
                        }
                        "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "nofree"
                        | "readonly" | "readnone" | "writeonly" | "nocapture" | "returned"
                        | "immarg" | "allocptr" | "allocalign" | "inreg" | "writable"
                        | "dead_on_unwind" | "dead_on_return" | "noext" | "nest" | "swiftself"
                        | "nonlazybind" | "unnamed_addr" | "local_unnamed_addr" | "fastcc"
                        | "coldcc" | "ccc" | "tail" | "musttail" | "notail" | "internal"
                        | "private" | "dso_local" | "hidden" | "linkonce_odr" | "weak"
                        | "weak_odr" | "available_externally" | "external" | "protected"
                        | "linkonce" | "common" | "extern_weak" | "nocallback" | "inalloca"
                        | "preallocated" | "byval" | "sret" | "elementtype"
                        | "dereferenceable" | "dereferenceable_or_null" | "range" | "captures"
                        | "initializes" | "nofpclass" | "byref" | "preserve_mostcc"
                        | "preserve_allcc" | "nsz" | "nnan" | "ninf" | "arcp" | "contract"
                        | "afn" | "reassoc" | "fast" | "memory" | "nounwind" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                        _ => return,
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::P('#')) => {
                    self.i += 2;
                }
                _ => return,
            }
        }
    }
    fn cval(&mut self, ty: &Ty) -> R<C> {
        match self.next()? {
            Tok::Num(n) => match ty {
                Ty::Int(w) => {
                    let v: i128 = n
                        .parse::<i128>()
                        .or_else(|_| n.parse::<u128>().map(|x| x as i128))
                        .map_err(|_| format!("int {}", n))?;
                    Ok(C::Int(mask(v as u128, *w), *w))
                }
                Ty::F32 => {
                    if let Some(h) = n.strip_prefix("0x") {
                        let d = f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| n.clone())?);
                        Ok(C::F32((d as f32).to_bits()))
                    } else {
                        let d: f64 = n.parse().map_err(|_| n.clone())?;
                        Ok(C::F32((d as f32).to_bits()))
                    }
                }
                Ty::F64 => {
                    if let Some(h) = n.strip_prefix("0x") {
                        Ok(C::F64(u64::from_str_radix(h, 16).map_err(|_| n.clone())?))
                    } else {
                        let d: f64 = n.parse().map_err(|_| n.clone())?;
                        Ok(C::F64(d.to_bits()))
                    }
                }
                t => Err(format!("number for {:?}", t)),
            },
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(C::Int(1, 1)),
                "false" => Ok(C::Int(0, 1)),
                "null" => Ok(C::Null),
                "undef" | "poison" => Ok(C::Undef),
                "none" => Ok(C::Undef),
                "zeroinitializer" => Ok(C::Zero),
                "splat" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.cval(&t)?;
                    self.exp_p(')')?;
                    Ok(C::Splat(Arc::new((t, c))))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        if matches!(self.peek(), Some(Tok::Word(w)) if w == "inrange") {
                            self.i += 1;
                            self.skip_parens();
                            continue;
                        }
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let st = self.ty()?;
                    self.exp_p(',')?;
                    let bt = self.ty()?;
                    let base = self.cval(&bt)?;
                    let mut ix = vec![];
                    while self.eat_p(',') {
                        let t = self.ty()?;
                        let c = self.cval(&t)?;
                        ix.push((t, c));
                    }
                    self.exp_p(')')?;
                    Ok(C::Gep(Arc::new((st, base, ix))))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.cval(&t)?;
                    self.exp_w("to")?;
                    self.ty()?;
                    self.exp_p(')')?;
                    Ok(C::Cast(Arc::new(c)))
                }
                "sub" | "add" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let a = self.cval(&t)?;
                    self.exp_p(',')?;
                    let t = self.ty()?;
                    let b = self.cval(&t)?;
                    self.exp_p(')')?;
                    Ok(if w == "sub" {
                        C::Sub(Arc::new((a, b)))
                    } else {
                        C::Add(Arc::new((a, b)))
                    })
                }
                w if w.starts_with("f0x") => {
                    let v = u64::from_str_radix(&w[3..], 16).map_err(|_| w.to_string())?;
                    match ty {
                        Ty::F32 => Ok(C::F32(v as u32)),
                        Ty::F64 => Ok(C::F64(v)),
                        _ => Err(w.to_string()),
                    }
                }
                w => Err(format!("const word {}", w)),
            },
            Tok::P('+') | Tok::P('-') => {
                // "+inf", "-inf", "+nan(0x...)", ...
                let neg = self.t[self.i - 1] == Tok::P('-');
                let w = match self.next()? {
                    Tok::Word(w) => w,
                    t => return Err(format!("float special {:?}", t)),
                };
                let v = match w.as_str() {
                    "inf" => f64::INFINITY,
                    "nan" | "qnan" => {
                        self.skip_parens();
                        f64::NAN
                    }
                    w => return Err(format!("float special {}", w)),
                };
                let v = if neg { -v } else { v };
                Ok(match ty {
                    Ty::F32 => C::F32((v as f32).to_bits()),
                    _ => C::F64(v.to_bits()),
                })
            }
            Tok::Glob(n) => Ok(C::Global(n.as_str().into())),
            Tok::Str(b) => Ok(C::Str(Arc::new(b))),
            Tok::P('{') | Tok::P('[') => {
                let mut v = vec![];
                if self.eat_p('}') || self.eat_p(']') {
                    return Ok(C::Agg(Arc::new(v)));
                }
                loop {
                    let t = self.ty()?;
                    let c = self.cval(&t)?;
                    v.push((t, c));
                    if !self.eat_p(',') {
                        break;
                    }
                }
                if !self.eat_p('}') {
                    self.exp_p(']')?;
                }
                Ok(C::Agg(Arc::new(v)))
            }
            Tok::P('<') => {
                let st = self.eat_p('{');
                let mut v = vec![];
                if st && self.eat_p('}') {
                    self.exp_p('>')?;
                    return Ok(C::Agg(Arc::new(v)));
                }
                loop {
                    let t = self.ty()?;
                    let c = self.cval(&t)?;
                    v.push((t, c));
                    if !self.eat_p(',') {
                        break;
                    }
                }
                if st {
                    self.exp_p('}')?;
                }
                self.exp_p('>')?;
                Ok(C::Agg(Arc::new(v)))
            }
            t => Err(format!("const at {:?}", t)),
        }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

struct Fb {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl Fb {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
}

impl<'a> Ps<'a> {
    fn op(&mut self, ty: &Ty, fb: &mut Fb) -> R<Op> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Op::Reg(fb.reg(&n)));
        }
        if let Ty::Meta = ty {
            // metadata operands are ignored
            while let Some(t) = self.peek() {
                if *t == Tok::P(',') || *t == Tok::P(')') {
                    break;
                }
                self.i += 1;
                if self.is_p('(') {
                    self.skip_parens();
                }
            }
            return Ok(Op::K(Ty::Meta, C::Undef));
        }
        Ok(Op::K(ty.clone(), self.cval(ty)?))
    }
    fn lbl(&mut self, fb: &mut Fb) -> R<u32> {
        self.exp_w("label")?;
        match self.next()? {
            Tok::Local(n) => Ok(fb.blk(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn args(&mut self, fb: &mut Fb) -> R<Vec<(Ty, Op)>> {
        self.exp_p('(')?;
        let mut v = vec![];
        if self.eat_p(')') {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            self.skip_attrs();
            let o = self.op(&t, fb)?;
            v.push((t, o));
            if !self.eat_p(',') {
                break;
            }
        }
        self.exp_p(')')?;
        Ok(v)
    }
    fn inst(&mut self, fb: &mut Fb) -> R<Option<Inst>> {
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.peek(), self.peek_at(1)) {
            let n = n.clone();
            dst = Some(fb.reg(&n));
            self.i += 2;
        }
        let w = match self.next()? {
            Tok::Word(w) => w,
            Tok::P('#') => return Ok(None), // debug record
            t => return Err(format!("instruction {:?}", t)),
        };
        let mut w = w;
        while matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match self.next()? {
                Tok::Word(w) => w,
                t => return Err(format!("{:?}", t)),
            };
        }
        const BINS: &[&str] = &[
            "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr",
            "ashr", "fadd", "fsub", "fmul", "fdiv", "frem",
        ];
        const CASTS: &[&str] = &[
            "trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp",
            "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "ptrtoaddr",
        ];
        if let Some(b) = BINS.iter().find(|x| **x == w) {
            while !self.is_ty_start() {
                self.i += 1;
            }
            let t = self.ty()?;
            let a = self.op(&t, fb)?;
            self.exp_p(',')?;
            let c = self.op(&t, fb)?;
            return Ok(Some(Inst {
                dst,
                i: I::Bin(b, t, a, c),
            }));
        }
        if let Some(b) = CASTS.iter().find(|x| **x == w) {
            while !self.is_ty_start() {
                self.i += 1;
            }
            let t = self.ty()?;
            let a = self.op(&t, fb)?;
            self.exp_w("to")?;
            let u = self.ty()?;
            return Ok(Some(Inst {
                dst,
                i: I::Cast(b, t, a, u),
            }));
        }
        let i = match w.as_str() {
            "fneg" => {
                while !self.is_ty_start() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                I::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                let mut pred = String::new();
                while !self.is_ty_start() {
                    if let Tok::Word(p) = self.next()? {
                        if !matches!(
                            p.as_str(),
                            "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
                                | "reassoc" | "fast"
                        ) {
                            pred = p;
                        }
                    }
                }
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let b = self.op(&t, fb)?;
                if w == "icmp" {
                    I::Icmp(pred, t, a, b)
                } else {
                    I::Fcmp(pred, t, a, b)
                }
            }
            "select" => {
                while !self.is_ty_start() {
                    self.i += 1;
                }
                let ct = self.ty()?;
                let c = self.op(&ct, fb)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2, fb)?;
                I::Select(c, t, a, b)
            }
            "alloca" => {
                while !self.is_ty_start() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let mut al = t.align();
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.num()? as u64;
                    } else {
                        break;
                    }
                }
                I::Alloca(t, al)
            }
            "load" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt, fb)?;
                I::Load(t, p)
            }
            "store" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                let v = self.op(&t, fb)?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt, fb)?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while !self.is_ty_start() {
                    if self.is_p('(') {
                        self.skip_parens();
                    } else {
                        self.i += 1;
                    }
                }
                let st = self.ty()?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.op(&pt, fb)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if self.is_p('!') {
                        break;
                    }
                    let t = self.ty()?;
                    let o = self.op(&t, fb)?;
                    ix.push((t, o));
                }
                I::Gep(st, p, ix)
            }
            "call" => {
                self.skip_attrs();
                let rt = self.ty()?;
                self.skip_attrs();
                // optional function type for varargs
                if self.is_p('(') {
                    self.skip_parens();
                }
                match self.next()? {
                    Tok::Glob(n) => {
                        let a = self.args(fb)?;
                        I::Call(rt, Callee::Direct(n.as_str().into()), a)
                    }
                    Tok::Local(n) => {
                        let r = fb.reg(&n);
                        let a = self.args(fb)?;
                        I::Call(rt, Callee::Indirect(Op::Reg(r)), a)
                    }
                    Tok::Word(w) if w == "asm" => {
                        I::Call(rt, Callee::Direct("llvm.asm".into()), vec![])
                    }
                    t => return Err(format!("callee {:?}", t)),
                }
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if self.is_p('!') {
                        break;
                    }
                    ix.push(self.num()? as u32);
                }
                I::ExtractValue(t, a, ix)
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2, fb)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if self.is_p('!') {
                        break;
                    }
                    ix.push(self.num()? as u32);
                }
                I::InsertValue(t, a, t2, b, ix)
            }
            "extractelement" => {
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2, fb)?;
                I::ExtractElem(t, a, b)
            }
            "insertelement" => {
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2, fb)?;
                self.exp_p(',')?;
                let t3 = self.ty()?;
                let c = self.op(&t3, fb)?;
                I::InsertElem(t, a, b, c)
            }
            "shufflevector" => {
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2, fb)?;
                self.exp_p(',')?;
                let mt = self.ty()?;
                let m = self.cval(&mt)?;
                let n = mt.nelem();
                let ix = match m {
                    C::Zero => vec![0; n],
                    C::Undef => vec![-1; n],
                    C::Agg(v) => v
                        .iter()
                        .map(|x| match &x.1 {
                            C::Int(k, _) => *k as i32,
                            _ => -1,
                        })
                        .collect(),
                    C::Splat(s) => match &s.1 {
                        C::Int(k, _) => vec![*k as i32; n],
                        _ => vec![-1; n],
                    },
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle(t, a, b, ix)
            }
            "phi" => {
                while !self.is_ty_start() {
                    self.i += 1;
                }
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp_p('[')?;
                    let o = self.op(&t, fb)?;
                    self.exp_p(',')?;
                    let b = match self.next()? {
                        Tok::Local(n) => fb.blk(&n),
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.exp_p(']')?;
                    v.push((o, b));
                    if !self.eat_p(',') || self.is_p('!') {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "freeze" => {
                let t = self.ty()?;
                I::Freeze(self.op(&t, fb)?)
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let pt = self.ty()?;
                let p = self.op(&pt, fb)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.op(&t2, fb)?;
                I::CmpXchg(t, p, a, b)
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let k = match self.next()? {
                    Tok::Word(k) => k,
                    t => return Err(format!("rmw {:?}", t)),
                };
                let pt = self.ty()?;
                let p = self.op(&pt, fb)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let a = self.op(&t, fb)?;
                I::AtomicRmw(k, t, p, a)
            }
            "fence" => I::Fence,
            "br" => {
                if let Some(Tok::Word(l)) = self.peek() {
                    if l == "label" {
                        let b = self.lbl(fb)?;
                        return Ok(Some(Inst { dst, i: I::Br(b) }));
                    }
                }
                let t = self.ty()?;
                let c = self.op(&t, fb)?;
                self.exp_p(',')?;
                let a = self.lbl(fb)?;
                self.exp_p(',')?;
                let b = self.lbl(fb)?;
                I::CondBr(c, a, b)
            }
            "switch" => {
                let t = self.ty()?;
                let c = self.op(&t, fb)?;
                self.exp_p(',')?;
                let d = self.lbl(fb)?;
                self.exp_p('[')?;
                let mut v = vec![];
                while !self.eat_p(']') {
                    let t2 = self.ty()?;
                    let k = match self.cval(&t2)? {
                        C::Int(k, _) => k,
                        c => return Err(format!("case {:?}", c)),
                    };
                    self.exp_p(',')?;
                    let b = self.lbl(fb)?;
                    v.push(Case { v: k, b });
                }
                I::Switch(t, c, d, v)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let o = self.op(&t, fb)?;
                    I::Ret(Some((t, o)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            w => return Err(format!("unknown instruction {}", w)),
        };
        Ok(Some(Inst { dst, i }))
    }
}

pub fn parse(src: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    // named types first (may refer to each other in order)
    let mut pending: Vec<&str> = lines
        .iter()
        .copied()
        .filter(|l| l.starts_with('%') && l.contains(" = type "))
        .collect();
    let mut progress = true;
    while !pending.is_empty() && progress {
        progress = false;
        let mut rest = vec![];
        for l in pending {
            let types = std::mem::take(&mut m.types);
            let mut p = Ps::new(l, &types);
            let n = match p.next() {
                Ok(Tok::Local(n)) => n,
                _ => return Err(l.into()),
            };
            p.i += 2;
            let t = p.ty();
            m.types = types;
            match t {
                Ok(t) => {
                    m.types.insert(n, t);
                    progress = true;
                }
                Err(_) => rest.push(l),
            }
        }
        pending = rest;
    }
    let types = std::mem::take(&mut m.types);
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let mut p = Ps::new(l, &types);
            let n = match p.next() {
                Ok(Tok::Glob(n)) => n,
                _ => return Err(l.into()),
            };
            p.exp_p('=')?;
            let mut ext = false;
            let mut alias = false;
            loop {
                match p.next()? {
                    Tok::Word(w) if w == "external" || w == "extern_weak" => ext = true,
                    Tok::Word(w) if w == "alias" => {
                        alias = true;
                        break;
                    }
                    Tok::Word(w) if w == "constant" || w == "global" => break,
                    Tok::P('(') => {
                        p.i -= 1;
                        p.skip_parens();
                    }
                    _ => {}
                }
            }
            if alias {
                let tgt = p.t.iter().rev().find_map(|t| match t {
                    Tok::Glob(g) => Some(g.clone()),
                    _ => None,
                });
                if let Some(g) = tgt {
                    m.aliases.insert(n.as_str().into(), g.as_str().into());
                }
                i += 1;
                continue;
            }
            let ty = p.ty().map_err(|e| format!("{}: {}", l, e))?;
            let init = if ext {
                None
            } else {
                Some(p.cval(&ty).map_err(|e| format!("{}: {}", l, e))?)
            };
            let mut align = ty.align();
            while p.eat_p(',') {
                if p.eat_w("align") {
                    align = p.num()? as u64;
                } else {
                    p.i += 1;
                }
            }
            m.globals.push(Global {
                name: n.as_str().into(),
                ty,
                init,
                align,
            });
        } else if l.starts_with("declare") {
            if let Some(k) = l.find('@') {
                let mut p = Ps::new(&l[k..], &types);
                if let Ok(Tok::Glob(n)) = p.next() {
                    m.decls.push(n.as_str().into());
                }
            }
        } else if l.starts_with("define") {
            let mut p = Ps::new(l, &types);
            p.i += 1;
            p.skip_attrs();
            while !p.is_ty_start() {
                p.i += 1;
                p.skip_attrs();
            }
            let ret = p.ty()?;
            p.skip_attrs();
            let name: Arc<str> = match p.next()? {
                Tok::Glob(n) => n.as_str().into(),
                t => return Err(format!("define {:?} in {}", t, l)),
            };
            let mut fb = Fb {
                regs: HashMap::new(),
                blocks: HashMap::new(),
            };
            let mut params = vec![];
            p.exp_p('(')?;
            let mut unnamed = 0;
            if !p.eat_p(')') {
                loop {
                    let t = p.ty().map_err(|e| format!("{}: {}", l, e))?;
                    p.skip_attrs();
                    let r = if let Some(Tok::Local(n)) = p.peek() {
                        let n = n.clone();
                        p.i += 1;
                        fb.reg(&n)
                    } else {
                        let r = fb.reg(&unnamed.to_string());
                        unnamed += 1;
                        r
                    };
                    params.push((t, r));
                    if !p.eat_p(',') {
                        break;
                    }
                }
                p.exp_p(')')?;
            }
            i += 1;
            let mut blocks: Vec<(u32, Block)> = vec![];
            let mut cur: Option<(u32, Block)> = None;
            while lines[i] != "}" {
                let mut l = lines[i].to_string();
                let tr = l.trim_start();
                if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                    i += 1;
                    continue;
                }
                if !l.starts_with(' ') {
                    // label
                    let q = l.split(';').next().unwrap().trim_end();
                    let n = q.trim_end_matches(':').trim_matches('"').to_string();
                    if let Some(c) = cur.take() {
                        blocks.push(c);
                    }
                    let id = fb.blk(&n);
                    cur = Some((
                        id,
                        Block {
                            name: n,
                            insts: vec![],
                        },
                    ));
                    i += 1;
                    continue;
                }
                if tr.starts_with("switch") && !l.contains(']') {
                    while !lines[i].trim_start().starts_with(']') {
                        i += 1;
                        l.push(' ');
                        l.push_str(lines[i].trim());
                    }
                }
                if cur.is_none() {
                    let id = fb.blk("start");
                    cur = Some((
                        id,
                        Block {
                            name: "start".into(),
                            insts: vec![],
                        },
                    ));
                }
                let mut p = Ps::new(&l, &types);
                match p.inst(&mut fb) {
                    Ok(Some(ins)) => cur.as_mut().unwrap().1.insts.push(ins),
                    Ok(None) => {}
                    Err(e) => return Err(format!("{}\n  in {}: {}", e, name, l)),
                }
                i += 1;
            }
            if let Some(c) = cur.take() {
                blocks.push(c);
            }
            let entry = blocks[0].0;
            let mut table: Vec<Option<Block>> = (0..fb.blocks.len()).map(|_| None).collect();
            for (id, b) in blocks {
                table[id as usize] = Some(b);
            }
            let mut bl: Vec<Block> = table
                .into_iter()
                .map(|b| {
                    b.unwrap_or(Block {
                        name: "?".into(),
                        insts: vec![],
                    })
                })
                .collect();
            if entry != 0 {
                // keep ids; swap entry to 0 would need renaming, so add a jump block
                return Err(format!("entry block not first in {}", name));
            }
            bl.shrink_to_fit();
            m.funcs.insert(
                name.clone(),
                Arc::new(Func {
                    name,
                    ret,
                    params,
                    nregs: fb.regs.len() as u32,
                    blocks: bl,
                }),
            );
        }
        i += 1;
    }
    m.types = types;
    Ok(m)
}
