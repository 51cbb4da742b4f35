//! Inputs and assertions of a harness. In the IR build these are externals of
//! the symbolic executor; in the replay build they read a recorded input tape.
#[cfg(not(feature = "native"))]
mod api {
    extern "C" {
        fn lirsym_int(lo: i64, hi: i64) -> i64;
        fn lirsym_f32(lo: f32, hi: f32) -> f32;
        fn lirsym_choose(n: i64) -> i64;
        fn lirsym_assume(c: bool);
        fn lirsym_check(c: bool, id: u32);
        fn lirsym_reach();
    }
    pub fn int(lo: i64, hi: i64) -> i64 {
        unsafe { lirsym_int(lo, hi) }
    }
    pub fn real(lo: f32, hi: f32) -> f32 {
        unsafe { lirsym_f32(lo, hi) }
    }
    pub fn choose(n: i64) -> i64 {
        unsafe { lirsym_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { lirsym_assume(c) }
    }
    pub fn check(c: bool, id: u32) {
        unsafe { lirsym_check(c, id) }
    }
    pub fn reach() {
        unsafe { lirsym_reach() }
    }
}
#[cfg(feature = "native")]
mod api {
    use std::cell::RefCell;
    #[derive(Clone, Copy, Debug)]
    pub enum In {
        I(i64),
        F(f32),
    }
    pub struct Assume;
    pub struct Failed(pub u32);
    thread_local! { pub static TAPE: RefCell<(Vec<In>, usize)> = RefCell::new((vec![], 0)); }
    fn next() -> In {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            let i = t.1;
            t.1 += 1;
            match t.0.get(i) {
                Some(x) => *x,
                None => std::panic::panic_any(Assume),
            }
        })
    }
    pub fn int(lo: i64, hi: i64) -> i64 {
        match next() {
            In::I(x) if x >= lo && x <= hi => x,
            _ => std::panic::panic_any(Assume),
        }
    }
    pub fn real(lo: f32, hi: f32) -> f32 {
        match next() {
            In::F(x) if x >= lo && x <= hi => x,
            _ => std::panic::panic_any(Assume),
        }
    }
    pub fn choose(n: i64) -> i64 {
        int(0, n - 1)
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assume)
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            std::panic::panic_any(Failed(id))
        }
    }
    pub fn reach() {}
}
pub use api::*;

/// Defines harness functions under their symbol names and lists them.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $n() $b )*
        pub const LIST: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
    };
}
