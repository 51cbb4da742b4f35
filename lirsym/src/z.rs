//! Arbitrary-precision integers (thin wrapper over GMP).
use std::cmp::Ordering;
use std::ffi::{c_char, c_int, c_long, c_ulong, CStr, CString};
use std::hash::{Hash, Hasher};

#[repr(C)]
pub struct Z {
    alloc: c_int,
    size: c_int,
    d: *mut u64,
}
unsafe impl Send for Z {}
unsafe impl Sync for Z {}

extern "C" {
    fn __gmpz_init(a: *mut Z);
    fn __gmpz_clear(a: *mut Z);
    fn __gmpz_init_set(a: *mut Z, b: *const Z);
    fn __gmpz_init_set_si(a: *mut Z, b: c_long);
    fn __gmpz_add(r: *mut Z, a: *const Z, b: *const Z);
    fn __gmpz_sub(r: *mut Z, a: *const Z, b: *const Z);
    fn __gmpz_mul(r: *mut Z, a: *const Z, b: *const Z);
    fn __gmpz_neg(r: *mut Z, a: *const Z);
    fn __gmpz_gcd(r: *mut Z, a: *const Z, b: *const Z);
    fn __gmpz_divexact(r: *mut Z, a: *const Z, b: *const Z);
    fn __gmpz_mul_2exp(r: *mut Z, a: *const Z, n: c_ulong);
    fn __gmpz_tdiv_q_2exp(r: *mut Z, a: *const Z, n: c_ulong);
    fn __gmpz_cmp(a: *const Z, b: *const Z) -> c_int;
    fn __gmpz_get_str(s: *mut c_char, base: c_int, a: *const Z) -> *mut c_char;
    fn __gmpz_init_set_str(a: *mut Z, s: *const c_char, base: c_int) -> c_int;
    fn __gmpz_get_d_2exp(e: *mut c_long, a: *const Z) -> f64;
    fn __gmpz_scan1(a: *const Z, start: c_ulong) -> c_ulong;
    fn __gmpz_fits_slong_p(a: *const Z) -> c_int;
    fn __gmpz_get_si(a: *const Z) -> c_long;
    fn __gmpz_sqrt(r: *mut Z, a: *const Z);
    fn __gmpz_perfect_square_p(a: *const Z) -> c_int;
    fn __gmpz_sizeinbase(a: *const Z, base: c_int) -> usize;
}

impl Z {
    pub fn new() -> Z {
        unsafe {
            let mut z = std::mem::MaybeUninit::<Z>::uninit();
            __gmpz_init(z.as_mut_ptr());
            z.assume_init()
        }
    }
    pub fn from(v: i64) -> Z {
        unsafe {
            let mut z = std::mem::MaybeUninit::<Z>::uninit();
            __gmpz_init_set_si(z.as_mut_ptr(), v);
            z.assume_init()
        }
    }
    pub fn from_i128(v: i128) -> Z {
        if let Ok(x) = i64::try_from(v) {
            return Z::from(x);
        }
        Z::parse(&v.to_string())
    }
    pub fn parse(s: &str) -> Z {
        unsafe {
            let mut z = std::mem::MaybeUninit::<Z>::uninit();
            let c = CString::new(s).unwrap();
            __gmpz_init_set_str(z.as_mut_ptr(), c.as_ptr(), 10);
            z.assume_init()
        }
    }
    pub fn is_zero(&self) -> bool {
        self.size == 0
    }
    pub fn sgn(&self) -> i32 {
        self.size.signum()
    }
    pub fn is_one(&self) -> bool {
        self.fits_i64() && self.to_i64() == 1
    }
    pub fn fits_i64(&self) -> bool {
        unsafe { __gmpz_fits_slong_p(self) != 0 }
    }
    pub fn to_i64(&self) -> i64 {
        unsafe { __gmpz_get_si(self) }
    }
    pub fn bits(&self) -> usize {
        unsafe { __gmpz_sizeinbase(self, 2) }
    }
    pub fn sqrt_exact(&self) -> Option<Z> {
        if unsafe { __gmpz_perfect_square_p(self) } == 0 {
            return None;
        }
        let mut r = Z::new();
        unsafe { __gmpz_sqrt(&mut r, self) };
        Some(r)
    }
    pub fn add(&self, o: &Z) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_add(&mut r, self, o) };
        r
    }
    pub fn sub(&self, o: &Z) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_sub(&mut r, self, o) };
        r
    }
    pub fn mul(&self, o: &Z) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_mul(&mut r, self, o) };
        r
    }
    pub fn neg(&self) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_neg(&mut r, self) };
        r
    }
    pub fn gcd(&self, o: &Z) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_gcd(&mut r, self, o) };
        r
    }
    pub fn divexact(&self, o: &Z) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_divexact(&mut r, self, o) };
        r
    }
    pub fn shl(&self, n: u32) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_mul_2exp(&mut r, self, n as c_ulong) };
        r
    }
    pub fn shr_exact(&self, n: u32) -> Z {
        let mut r = Z::new();
        unsafe { __gmpz_tdiv_q_2exp(&mut r, self, n as c_ulong) };
        r
    }
    pub fn trailing_zeros(&self) -> u32 {
        if self.is_zero() {
            return u32::MAX;
        }
        unsafe { __gmpz_scan1(self, 0) as u32 }
    }
    /// (lower, upper) f64 enclosure; equal when exactly representable.
    pub fn to_f64_bounds(&self) -> (f64, f64) {
        if self.is_zero() {
            return (0.0, 0.0);
        }
        let mut e: c_long = 0;
        let m = unsafe { __gmpz_get_d_2exp(&mut e, self) };
        let v = ldexp(m, e as i32);
        if self.bits() <= 53 || self.bits() - (self.trailing_zeros() as usize) <= 53 {
            (v, v)
        } else if v >= 0.0 {
            (v, next_up(v))
        } else {
            (next_down(v), v)
        }
    }
}

pub fn ldexp(m: f64, e: i32) -> f64 {
    let mut m = m;
    let mut e = e;
    while e > 1000 {
        m *= 2f64.powi(1000);
        e -= 1000;
    }
    while e < -1000 {
        m *= 2f64.powi(-1000);
        e += 1000;
    }
    m * 2f64.powi(e)
}
pub fn next_up(v: f64) -> f64 {
    v.next_up()
}
pub fn next_down(v: f64) -> f64 {
    v.next_down()
}

impl Clone for Z {
    fn clone(&self) -> Z {
        unsafe {
            let mut z = std::mem::MaybeUninit::<Z>::uninit();
            __gmpz_init_set(z.as_mut_ptr(), self);
            z.assume_init()
        }
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { __gmpz_clear(self) }
    }
}
impl PartialEq for Z {
    fn eq(&self, o: &Z) -> bool {
        unsafe { __gmpz_cmp(self, o) == 0 }
    }
}
impl Eq for Z {}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        unsafe { __gmpz_cmp(self, o).cmp(&0) }
    }
}
impl Hash for Z {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.size.hash(h);
        for i in 0..self.size.unsigned_abs() as usize {
            unsafe { (*self.d.add(i)).hash(h) }
        }
    }
}
impl std::fmt::Display for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let n = self.bits() / 3 + 4;
        let mut buf = vec![0u8; n];
        unsafe {
            __gmpz_get_str(buf.as_mut_ptr() as *mut c_char, 10, self);
            let s = CStr::from_ptr(buf.as_ptr() as *const c_char);
            f.write_str(s.to_str().unwrap())
        }
    }
}
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self)
    }
}
