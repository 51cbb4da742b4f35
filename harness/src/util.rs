//! Numbers and events: C24 C25 C26.
use crate::harnesses;
use crate::sym::*;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::{Lerp, Square, Vec2, Vec3};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// powers of two, so that scaling is exact: 1, 2^-10, 2^33, 2^66, 2^120, 2^-66
const HUGE: f32 = 73786976294838206464.0;
const TINY: f32 = 1.0 / HUGE;
const SCALES: [f32; 6] = [1.0, 1.0 / 1024.0, 8589934592.0, HUGE, HUGE * 18014398509481984.0, TINY];
const TOLS: [f32; 3] = [0.125, 1.0e-3, 1.0e-6];
const ODD: [f32; 7] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, 1.0e38, -1.0];

/// both orders, well inside or well outside
fn tell<T: Approx>(a: &T, b: &T, tol: f32, near: bool, far: bool) {
    if near {
        check(a.approx_eq_tolerance(b, tol), 1);
        check(b.approx_eq_tolerance(a, tol), 2);
    }
    if far {
        check(!a.approx_eq_tolerance(b, tol), 3);
        check(!b.approx_eq_tolerance(a, tol), 4);
    }
}
fn num(s: f32) {
    let a = real(-1.0, 1.0) * s;
    let b = real(-1.0, 1.0) * s;
    assume((a.abs() >= s / 64.0) & (b.abs() >= s / 64.0));
    let tol = real(1.0e-6, 0.125);
    let (x, y, t) = (a as f64, b as f64, tol as f64);
    let d = if x > y { x - y } else { y - x };
    let m = x.abs().max(y.abs());
    tell(&a, &b, tol, d < 0.5 * t * m, d > 2.0 * t * m);
}
fn vec2(s: f32) {
    let a = Vec2::new(real(-1.0, 1.0) * s, real(-1.0, 1.0) * s);
    let b = Vec2::new(real(-1.0, 1.0) * s, real(-1.0, 1.0) * s);
    let tol = TOLS[choose(3) as usize];
    let (dx, dy) = (a.x as f64 - b.x as f64, a.y as f64 - b.y as f64);
    let d = dx * dx + dy * dy;
    let (p, q) = (a.as_dvec2(), b.as_dvec2());
    let (p, q) = (p.x * p.x + p.y * p.y, q.x * q.x + q.y * q.y);
    let u = s as f64 * s as f64 / 256.0;
    assume((p >= u) & (q >= u));
    let t2 = tol as f64 * tol as f64;
    let near = (d < 0.25 * t2 * p) & (d < 0.25 * t2 * q);
    let far = (d > 4.0 * t2 * p) & (d > 4.0 * t2 * q);
    tell(&a, &b, tol, near, far);
}
fn vec3(s: f32) {
    let c = || real(-1.0, 1.0) * s;
    let a = Vec3::new(c(), c(), c());
    let b = Vec3::new(c(), c(), c());
    let tol = TOLS[choose(3) as usize];
    let (p, q) = (a.as_dvec3(), b.as_dvec3());
    let (dx, dy, dz) = (p.x - q.x, p.y - q.y, p.z - q.z);
    let d = dx * dx + dy * dy + dz * dz;
    let (p, q) = (p.x * p.x + p.y * p.y + p.z * p.z, q.x * q.x + q.y * q.y + q.z * q.z);
    let u = s as f64 * s as f64 / 256.0;
    assume((p >= u) & (q >= u));
    let t2 = tol as f64 * tol as f64;
    let near = (d < 0.25 * t2 * p) & (d < 0.25 * t2 * q);
    let far = (d > 4.0 * t2 * p) & (d > 4.0 * t2 * q);
    tell(&a, &b, tol, near, far);
}
/// one component off, the others equal
fn axis(k: usize, s: f32) {
    let mut a = [real(0.25, 1.0) * s, real(-1.0, -0.25) * s, real(0.25, 1.0) * s];
    let b = Vec3::from_array(a);
    let e = real(-1.0, 1.0) * s;
    let old = a[k];
    a[k] = e;
    let a = Vec3::from_array(a);
    let d = e as f64 - old as f64;
    let d = if d < 0.0 { -d } else { d };
    // lengths lie within [0.25, 1.75] s
    let t = 0.0078125;
    let (near, far) = (d < t * 0.2 * s as f64, d > t * 4.0 * s as f64);
    tell(&a, &b, t as f32, near, far);
    if k < 2 {
        tell(&a.truncate(), &b.truncate(), t as f32, near, far);
    }
}
fn odd() -> f32 {
    ODD[choose(7) as usize]
}

static LEN: AtomicU64 = AtomicU64::new(0);
static LOG: [AtomicU64; 1024] = [const { AtomicU64::new(0) }; 1024];
fn note(v: u64) {
    let n = LEN.load(Relaxed);
    LOG[n as usize].store(v, Relaxed);
    LEN.store(n + 1, Relaxed);
}
fn key() -> u64 {
    int(0, 1 << 40) as u64
}
fn list(n: i64) {
    let mut l = Ledger::new();
    let k = choose(n + 1);
    let mut want = vec![];
    for _ in 0..k {
        let e = key();
        l.notify(e);
        want.push(e);
    }
    check(l.events.len() == want.len(), 1);
    for i in 0..want.len() {
        check(l.events[i] == want[i], 2);
    }
}
fn set(n: usize) {
    let mut l = HashsetLedger::new();
    let mut want: Vec<u64> = vec![];
    for _ in 0..n {
        let e = int(-3, 1 << 40) as u64;
        l.notify(e);
        let mut new = true;
        for w in &want {
            if *w == e {
                new = false;
            }
        }
        if new {
            want.push(e);
        }
        check(l.events.len() == want.len(), 1);
    }
    for w in &want {
        check(l.events.contains(w), 2);
    }
    let q = int(-3, 1 << 40) as u64;
    let mut there = false;
    for w in &want {
        if *w == q {
            there = true;
        }
    }
    check(l.events.contains(&q) == there, 3);
}
fn callbacks(n: usize) {
    LEN.store(0, Relaxed);
    let mut p = CallbackPublisher::<u64>::new();
    let mut subs = 0;
    let mut want: Vec<u64> = vec![];
    for i in 0..n {
        if choose(2) == 0 {
            // one kind of subscriber adds its number, the other keeps the event
            let id = (i as u64) << 48;
            if choose(2) == 0 {
                p.attach(move |e| note(*e + id));
            } else {
                p.attach(move |e| note(*e + (id | (1 << 47))));
                subs |= 1 << i;
            }
            subs |= 1 << (i + 16);
        } else {
            let e = key();
            p.notify(e);
            for j in 0..i {
                if subs >> (j + 16) & 1 == 1 {
                    want.push(e + ((j as u64) << 48) + (((subs >> j & 1) as u64) << 47));
                }
            }
        }
    }
    check(LEN.load(Relaxed) == want.len() as u64, 1);
    for i in 0..want.len() {
        check(LOG[i].load(Relaxed) == want[i], 2);
    }
}
fn add(v: u64) {
    LEN.store(LEN.load(Relaxed) + v, Relaxed);
}
/// Up to 80 subscribers attached before, between and after four events.
fn crowd() {
    LEN.store(0, Relaxed);
    let mut p = CallbackPublisher::<u64>::new();
    let mut want: Vec<u64> = vec![];
    let k = [8, 9, 16, 17, 24, 25, 32, 33, 120][choose(9) as usize] as u64;
    let mut n = 0;
    for round in 0..3 {
        let m = if round == 1 { k / 2 } else { k };
        for _ in 0..m {
            let id = n << 48;
            p.attach(move |e| note(*e + id));
            n += 1;
        }
        if round < 2 {
            let e = key();
            p.notify(e);
            for j in 0..n {
                want.push(e + (j << 48));
            }
        }
    }
    let e = key();
    p.notify(e);
    for j in 0..n {
        want.push(e + (j << 48));
    }
    check(LEN.load(Relaxed) == want.len() as u64, 1);
    for i in 0..want.len() {
        check(LOG[i].load(Relaxed) == want[i], 2);
    }
}
const SQ: [f32; 6] = [1.0, -1.0, 1048576.0, -1048576.0, 1.0 / 1048576.0, -1.0 / 1048576.0];
fn between(r: f64, a: f64, b: f64, e: f64) -> bool {
    ((r >= a - e) & (r <= b + e)) | ((r <= a + e) & (r >= b - e))
}
fn lerp(n: f32) {
    let a = real(-n, n);
    let b = real(-n, n);
    let t = real(0.0, 1.0);
    let r = Lerp::lerp(a, b, t) as f64;
    let (x, y, u) = (a as f64, b as f64, t as f64);
    let e = n as f64 / (1 << 20) as f64;
    check(between(r, x, y, e), 1);
    let d = r - (x + u * (y - x));
    check((d <= e) & (d >= -e), 2);
}
fn lerp2(n: f32) {
    let a = Vec2::new(real(-n, n), real(-n, n));
    let b = Vec2::new(real(-n, n), real(-n, n));
    let t = real(0.0, 1.0);
    let r = Lerp::lerp(a, b, t);
    let e = n as f64 / (1 << 20) as f64;
    let u = t as f64;
    let dx = r.x as f64 - (a.x as f64 + u * (b.x as f64 - a.x as f64));
    let dy = r.y as f64 - (a.y as f64 + u * (b.y as f64 - a.y as f64));
    check((dx <= e) & (dx >= -e), 1);
    check((dy <= e) & (dy >= -e), 2);
}
fn ends(n: f32) {
    let a = Vec2::new(real(-n, n), real(-n, n));
    let b = Vec2::new(real(-n, n), real(-n, n));
    let e = n as f64 / (1 << 20) as f64;
    let near = |x: f32, y: f32| {
        let d = x as f64 - y as f64;
        (d <= e) & (d >= -e)
    };
    check(Lerp::lerp(a.x, b.x, 0.0) == a.x, 1);
    check(near(Lerp::lerp(a.x, b.x, 1.0), b.x), 2);
    let z = Lerp::lerp(a, b, 0.0);
    check((z.x == a.x) & (z.y == a.y), 3);
    let o = Lerp::lerp(a, b, 1.0);
    check(near(o.x, b.x) & near(o.y, b.y), 4);
    // no movement between equal ends
    let t = real(0.0, 1.0);
    check(Lerp::lerp(a.x, a.x, t) == a.x, 5);
    let s = Lerp::lerp(a, a, t);
    check((s.x == a.x) & (s.y == a.y), 6);
}

harnesses! {
    fn c24_num() { num(1.0) }
    fn c24_num_scales() { num(SCALES[1 + choose(5) as usize]) }
    fn c24_vec2() { vec2(1.0) }
    fn c24_vec3() { vec3(1.0) }
    fn c24_x() { axis(0, 1.0) }
    fn c24_y() { axis(1, 1.0) }
    fn c24_z() { axis(2, 1.0) }
    fn c24_x_huge() { axis(0, HUGE) }
    fn c24_y_huge() { axis(1, HUGE) }
    fn c24_z_huge() { axis(2, HUGE) }
    fn c24_x_tiny() { axis(0, TINY) }
    fn c24_y_tiny() { axis(1, TINY) }
    fn c24_z_tiny() { axis(2, TINY) }
    fn c24_zero() {
        // next to zero the difference itself counts
        let b = real(-2.0, 2.0);
        let tol = real(1.0e-6, 0.125);
        let m = if b < 0.0 { -b } else { b } as f64;
        tell(&0.0, &b, tol, m < 0.5 * tol as f64, m > 2.0 * tol as f64);
    }
    fn c24_equal() {
        let s = SCALES[choose(6) as usize];
        let (x, y, z) = (real(-1.0, 1.0) * s, real(-1.0, 1.0) * s, real(-1.0, 1.0) * s);
        check(x.approx_eq(&x), 1);
        let v = Vec2::new(x, y);
        check(v.approx_eq(&v), 2);
        let v = Vec3::new(x, y, z);
        check(v.approx_eq(&v), 3);
    }
    fn c24_default() {
        // the default tolerance is one in a million
        let a = 1.0 + int(0, 1 << 20) as f32 / 1048576.0;
        let k = int(-64, 64);
        let b = a + k as f32 / 4194304.0;
        let near = (k > -2) & (k < 2);
        let far = (k > 17) | (k < -17);
        if near {
            check(a.approx_eq(&b), 1);
            check(Vec2::new(a, 0.0).approx_eq(&Vec2::new(b, 0.0)), 2);
            check(Vec3::new(a, 0.0, 0.0).approx_eq(&Vec3::new(b, 0.0, 0.0)), 3);
        }
        if far {
            check(!a.approx_eq(&b), 4);
            check(!Vec2::new(a, 0.0).approx_eq(&Vec2::new(b, 0.0)), 5);
            check(!Vec3::new(a, 0.0, 0.0).approx_eq(&Vec3::new(b, 0.0, 0.0)), 6);
        }
    }
    fn c24_nan() {
        let x = real(-4.0, 4.0);
        let o = odd();
        let tol = real(1.0e-6, 0.125);
        let n = f32::NAN;
        check(!n.approx_eq_tolerance(&x, tol) & !x.approx_eq_tolerance(&n, tol), 1);
        check(!n.approx_eq_tolerance(&o, tol) & !o.approx_eq_tolerance(&n, tol), 2);
        let k = choose(2);
        let v = if k == 0 { Vec2::new(n, x) } else { Vec2::new(o, n) };
        let w = if k == 0 { Vec2::new(o, x) } else { Vec2::new(o, x) };
        check(!v.approx_eq_tolerance(&w, tol) & !w.approx_eq_tolerance(&v, tol), 3);
        check(!v.approx_eq_tolerance(&v, tol), 4);
        for i in 0..3 {
            let mut a = [x, o, 1.0];
            let b = Vec3::from_array(a);
            a[i] = n;
            let a = Vec3::from_array(a);
            check(!a.approx_eq_tolerance(&b, tol) & !b.approx_eq_tolerance(&a, tol), 5);
        }
    }
    fn c24_infinite() {
        let x = real(-4.0, 4.0);
        let o = if choose(2) == 0 { f32::INFINITY } else { f32::NEG_INFINITY };
        let tol = real(1.0e-6, 0.125);
        tell(&o, &x, tol, false, true);
        tell(&o, &-o, tol, false, true);
        tell(&Vec2::new(x, o), &Vec2::new(x, 2.0), tol, false, true);
        tell(&Vec2::new(o, x), &Vec2::new(-1.0, x), tol, false, true);
        tell(&Vec3::new(x, 0.0, o), &Vec3::new(x, 0.0, x), tol, false, true);
        tell(&Vec3::new(x, o, x), &Vec3::new(x, -o, x), tol, false, true);
        tell(&Vec3::new(o, 1.0, x), &Vec3::new(x, 1.0, x), tol, false, true);
    }

    fn c25_list() { list(8) }
    fn c25_list_long() { list(24) }
    fn c25_list_5000() {
        let mut l = Ledger::new();
        let e = key();
        for k in 0..5000u64 {
            l.notify(if k % 1000 == 7 { e } else { k });
        }
        check(l.events.len() == 5000, 1);
        for k in 0..5000u64 {
            check(l.events[k as usize] == if k % 1000 == 7 { e } else { k }, 2);
        }
    }
    fn c25_list_200() {
        let mut l = Ledger::new();
        let mut want = vec![];
        for _ in 0..200 {
            let e = key();
            l.notify(e);
            want.push(e);
        }
        check(l.events.len() == 200, 1);
        for i in 0..want.len() {
            check(l.events[i] == want[i], 2);
        }
    }
    fn c25_crowd() { crowd() }
    fn c25_set_2() { set(2) }
    fn c25_set_3() { set(3) }
    fn c25_set_4() { set(4) }
    fn c25_set_many() {
        // one free event among many
        let mut l = HashsetLedger::new();
        let e = int(-3, 1 << 40) as u64;
        let i = choose(40);
        for k in 0..40 {
            l.notify(if k == i { e } else { 7 * (k as u64 % 30) });
        }
        let mut want: Vec<u64> = (0..40).map(|k| if k == i { e } else { 7 * (k as u64 % 30) }).collect();
        let mut n = 0;
        for a in 0..40usize {
            check(l.events.contains(&want[a]), 1);
            let mut first = true;
            for b in 0..a {
                first &= want[a] != want[b];
            }
            n += first as usize;
        }
        check(l.events.len() == n, 2);
        want.clear();
    }
    fn c25_set_crowd() {
        // many different events, one of them (any, from outside or inside their range) notified first and last
        let mut l = HashsetLedger::new();
        let n = 96u64;
        let inside = choose(2) == 1;
        let e = if inside { 7 * 19 * choose(6) as u64 } else { 7 * n + int(0, 1 << 40) as u64 };
        l.notify(e);
        for k in 0..n {
            l.notify(7 * k);
        }
        l.notify(e);
        check(l.events.len() as u64 == n + !inside as u64, 1);
        for k in 0..n {
            check(l.events.contains(&(7 * k)), 2);
        }
        check(l.events.contains(&e), 3);
    }
    fn c25_callback_long() {
        // two subscribers, a third one later, and many events, some of them any
        LEN.store(0, Relaxed);
        let mut p = CallbackPublisher::<u64>::new();
        p.attach(|e| add(*e));
        let (mut sum, e) = (0u64, int(0, 1 << 40) as u64);
        let at = [0u64, 1, 255, 256, 700][choose(5) as usize];
        for k in 0..1000u64 {
            if k == at {
                p.attach(|e| add(3 * *e));
            }
            let v = if k % 250 == 249 { e } else { k };
            p.notify(v);
            sum += if k >= at { 4 * v } else { v };
            check(LEN.load(Relaxed) == sum, 1);
        }
    }
    fn c25_set_5() { set(5) }
    fn c25_callback_4() { callbacks(4) }
    fn c25_callback_6() { callbacks(6) }
    fn c25_callback_7() { callbacks(7) }

    fn c26_lerp() { lerp(1.0) }
    fn c26_lerp_large() { lerp(1.0e6) }
    fn c26_lerp_small() { lerp(1.0e-6) }
    fn c26_lerp2() { lerp2(1.0) }
    fn c26_lerp2_large() { lerp2(1.0e6) }
    fn c26_ends() { ends(1.0) }
    fn c26_ends_large() { ends(1.0e6) }
    fn c26_square() {
        let x = real(1.0, 2.0) * SQ[choose(6) as usize];
        let y = x.square() as f64;
        let w = x as f64 * x as f64;
        let d = y - w;
        let e = 1.0e-6 * w;
        check((d <= e) & (d >= -e), 1);
        check(y >= 0.0, 2);
    }
}
