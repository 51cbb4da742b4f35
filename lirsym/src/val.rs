//! Values of the symbolic machine.
use crate::formula::F;
use crate::poly::Poly;
use std::sync::Arc;

/// Sign of a zero the value may take.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Zs {
    Plus,
    Minus,
    Any,
}

/// A floating-point value known as exact/den with |computed - exact| <= ea + er*|exact|.
#[derive(Clone, Debug)]
pub struct SFl {
    pub num: Poly,
    pub den: Poly, // positive
    pub ea: f64,
    pub er: f64,
    pub zs: Zs,
    pub nn: bool, // computed value certainly >= 0
    pub wide: bool,
    pub id: u32,
}

#[derive(Clone, Debug)]
pub struct SInt {
    pub p: Poly,
    pub w: u32,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Clone, Debug)]
pub struct SBool {
    pub t: F, // may be true only if
    pub f: F, // may be false only if
    pub w: u32,
}

#[derive(Clone, Debug)]
pub enum V {
    U,
    I(u128, u32),
    F32(f32),
    F64(f64),
    S(Arc<SFl>),
    N(Arc<SInt>),
    B(Arc<SBool>),
    Agg(Arc<Vec<V>>),
    /// bytes of several values side by side, little end first: (value, bytes)
    Cat(Arc<Vec<(V, u32)>>),
}

impl V {
    pub fn agg(v: Vec<V>) -> V {
        V::Agg(Arc::new(v))
    }
    pub fn bool(b: bool) -> V {
        V::I(b as u128, 1)
    }
    pub fn i64(v: u64) -> V {
        V::I(v as u128, 64)
    }
    pub fn is_sym(&self) -> bool {
        match self {
            V::S(_) | V::N(_) | V::B(_) | V::Cat(_) => true,
            V::Agg(v) => v.iter().any(|x| x.is_sym()),
            _ => false,
        }
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
