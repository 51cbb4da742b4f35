//! Flat byte-addressed memory with symbolic overlay.
use crate::val::V;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Alloc {
    pub size: u64,
    pub d: Vec<u8>,
    pub s: BTreeMap<u32, (u32, V)>, // offset -> (size, symbolic value)
}

#[derive(Clone)]
pub struct Mem {
    pub glob: Arc<BTreeMap<u64, Arc<Alloc>>>,
    pub m: BTreeMap<u64, Arc<Alloc>>,
    pub next: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            glob: Arc::new(BTreeMap::new()),
            m: BTreeMap::new(),
            next: 0x10_0000,
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let base = (self.next + al - 1) / al * al;
        self.next = base + size + 32;
        self.m.insert(
            base,
            Arc::new(Alloc {
                size,
                d: vec![0; size as usize],
                s: BTreeMap::new(),
            }),
        );
        base
    }
    pub fn free(&mut self, base: u64) -> bool {
        self.m.remove(&base).is_some()
    }
    fn find(&self, a: u64, n: u64) -> Option<(u64, &Arc<Alloc>)> {
        if let Some((b, x)) = self.m.range(..=a).next_back() {
            if a + n <= b + x.size {
                return Some((*b, x));
            }
        }
        if let Some((b, x)) = self.glob.range(..=a).next_back() {
            if a + n <= b + x.size {
                return Some((*b, x));
            }
        }
        None
    }
    fn find_mut(&mut self, a: u64, n: u64) -> Option<(u64, &mut Alloc)> {
        let b = self.find(a, n)?.0;
        if !self.m.contains_key(&b) {
            let g = self.glob.get(&b)?.clone();
            self.m.insert(b, g);
        }
        let x = self.m.get_mut(&b)?;
        Some((b, Arc::make_mut(x)))
    }
    /// Bytes [a, a+n) as pieces: concrete byte runs or whole symbolic values.
    /// Err(piece address) when a symbolic value is cut.
    pub fn read(&self, a: u64, n: u64) -> Option<Vec<Piece>> {
        if n == 0 {
            return Some(vec![]);
        }
        let (b, x) = self.find(a, n)?;
        let o = (a - b) as u32;
        let end = o + n as u32;
        if x.s.is_empty() {
            return Some(vec![Piece::Bytes(x.d[o as usize..end as usize].to_vec())]);
        }
        let mut r = vec![];
        let mut pos = o;
        // an entry starting before o may overlap
        let first = x
            .s
            .range(..o)
            .next_back()
            .filter(|(k, (sz, _))| **k + sz > o)
            .map(|(k, v)| (*k, v.clone()));
        let rest = x.s.range(o..end).map(|(k, v)| (*k, v.clone()));
        for (k, (sz, v)) in first.into_iter().chain(rest) {
            if k > pos {
                r.push(Piece::Bytes(x.d[pos as usize..k as usize].to_vec()));
                pos = k;
            }
            let from = pos - k;
            let to = (k + sz).min(end) - k;
            if from == 0 && to == sz {
                r.push(Piece::Val(v, sz));
            } else {
                r.push(Piece::Cut(v, sz, from, to, b + k as u64));
            }
            pos = k + to;
        }
        if pos < end {
            r.push(Piece::Bytes(x.d[pos as usize..end as usize].to_vec()));
        }
        Some(r)
    }
    fn clear(x: &mut Alloc, o: u32, end: u32) -> Option<u32> {
        // remove overlay entries inside; a partly overwritten entry cannot be kept
        let mut cut = None;
        if let Some((k, (sz, _))) = x.s.range(..o).next_back() {
            if k + sz > o {
                cut = Some(*k);
            }
        }
        let ks: Vec<u32> = x.s.range(o..end).map(|(k, _)| *k).collect();
        for k in ks {
            let sz = x.s[&k].0;
            if k + sz > end {
                cut = Some(k);
            } else {
                x.s.remove(&k);
            }
        }
        cut
    }
    /// Which symbolic entry would be partly overwritten by a write?
    pub fn cut_by(&self, a: u64, n: u64) -> Option<(u64, u32, V)> {
        let (b, x) = self.find(a, n)?;
        let o = (a - b) as u32;
        let end = o + n as u32;
        if let Some((k, (sz, v))) = x.s.range(..o).next_back() {
            if k + sz > o {
                return Some((b + *k as u64, *sz, v.clone()));
            }
        }
        for (k, (sz, v)) in x.s.range(o..end) {
            if k + sz > end {
                return Some((b + *k as u64, *sz, v.clone()));
            }
        }
        None
    }
    pub fn write_bytes(&mut self, a: u64, d: &[u8]) -> bool {
        if d.is_empty() {
            return true;
        }
        match self.find_mut(a, d.len() as u64) {
            None => false,
            Some((b, x)) => {
                let o = (a - b) as usize;
                Mem::clear(x, o as u32, (o + d.len()) as u32);
                x.d[o..o + d.len()].copy_from_slice(d);
                true
            }
        }
    }
    pub fn write_val(&mut self, a: u64, n: u32, v: V) -> bool {
        match self.find_mut(a, n as u64) {
            None => false,
            Some((b, x)) => {
                let o = (a - b) as u32;
                Mem::clear(x, o, o + n);
                x.s.insert(o, (n, v));
                true
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Piece {
    Bytes(Vec<u8>),
    Val(V, u32),
    /// symbolic value of `sz` bytes of which only [from, to) is wanted; address of the entry
    Cut(V, u32, u32, u32, u64),
}
