//! Placements: C12 (apply / unapply / inverse), C13 (composition), C14 (directions).
use crate::harnesses;
use crate::sym::*;
use auburn::col2d::*;
use auburn::Quat;

fn v(a: f32) -> Vec2 {
    let x = real(-a, a);
    let y = real(-a, a);
    Vec2::new(x, y)
}
/// A rotation from the four-parameter form (only its planar part is non-zero).
pub fn turn() -> Rotor2d {
    let z = real(-2.0, 2.0);
    let w = real(-2.0, 2.0);
    assume(z * z + w * w >= 0.25);
    Rotor2d::from_quaternion(Quat::from_xyzw(0.0, 0.0, z, w))
}
/// Rotations by fixed angles spread over the circle.
pub fn fixed(k: i64) -> Rotor2d {
    const Q: [(f32, f32); 8] =
        [(0.0, 1.0), (1.0, 2.0), (1.0, 1.0), (2.0, 1.0), (1.0, 0.0), (-3.0, 1.0), (-1.0, 1.0), (-1.0, 4.0)];
    let (z, w) = Q[k as usize];
    Rotor2d::from_quaternion(Quat::from_xyzw(0.0, 0.0, z, w))
}
/// cos, sin of the rotations `fixed` builds
#[derive(Clone, Copy)]
pub struct Fr(pub f64, pub f64);
pub fn frame(k: i64) -> Fr {
    const F: [(f64, f64); 8] =
        [(1.0, 0.0), (0.6, 0.8), (0.0, 1.0), (-0.6, 0.8), (-1.0, 0.0), (-0.8, -0.6), (0.0, -1.0), (15.0 / 17.0, -8.0 / 17.0)];
    let f = F[k as usize];
    Fr(f.0, f.1)
}
impl Fr {
    pub fn to(self, x: f64, y: f64) -> (f64, f64) {
        (self.0 * x - self.1 * y, self.0 * y + self.1 * x)
    }
    pub fn un(self, x: f64, y: f64) -> (f64, f64) {
        (self.0 * x + self.1 * y, self.0 * y - self.1 * x)
    }
}
fn eq(a: Vec2, b: Vec2, t: f64, id: u32) {
    let (dx, dy) = (a.x as f64 - b.x as f64, a.y as f64 - b.y as f64);
    check((dx < t) & (dx > -t), id);
    check((dy < t) & (dy > -t), id + 1);
}
const T: f64 = 1.0 / 1024.0;

fn laws<X: Transformation2d + Invertible>(t: &X, p: Vec2, tol: f64) {
    eq(t.unapply(t.apply(p)), p, tol, 1);
    eq(t.apply(t.unapply(p)), p, tol, 3);
    eq(t.apply_origin(), t.apply(Vec2::ZERO), tol, 5);
    eq(t.inverse().apply(p), t.unapply(p), tol, 7);
    eq(t.inverse().unapply(p), t.apply(p), tol, 9);
    eq(t.inverse().apply(t.apply(p)), p, tol, 11);
}
fn same_as<X: Transformation2d, Y: Transformation2d>(t: &X, u: &Y, p: Vec2) {
    eq(t.apply(p), u.apply(p), T, 1);
    eq(t.unapply(p), u.unapply(p), T, 3);
    eq(t.apply_origin(), u.apply_origin(), T, 5);
    eq(t.apply_normal(p), u.apply_normal(p), T, 7);
    eq(t.unapply_normal(p), u.unapply_normal(p), T, 9);
}
fn tr(pos: Vec2, rot: Rotor2d, s: Vec2) -> Transform2d {
    Transform2d { pos, rot, scale: s }
}
fn scale() -> f32 {
    real(0.25, 4.0)
}
/// scales of either sign
fn scale2() -> f32 {
    let s = scale();
    if choose(2) == 0 { s } else { -s }
}
/// scales of other magnitudes
fn scale3() -> f32 {
    scale() * [1.0 / 4096.0, 1024.0, -1.0 / 4096.0][choose(3) as usize]
}
/// compositions: `a` after `b`
fn comp<X: Transformation2d + Composable + Invertible>(a: &X, b: &X, p: Vec2, tol: f64) {
    eq(a.compose(b).apply(p), a.apply(b.apply(p)), tol, 1);
    eq(a.compose(b).apply_origin(), a.apply(b.apply_origin()), tol, 3);
}
fn delta<X: Transformation2d + Composable + Invertible>(a: &X, b: &X, p: Vec2, tol: f64) {
    let d = a.delta_transform(b);
    eq(a.apply(d.apply(p)), b.apply(p), tol, 1);
    eq(d.apply_normal(p), a.unapply_normal(b.apply_normal(p)), tol, 3);
}
fn neutral<X: Transformation2d + Composable>(a: &X, i: &X, p: Vec2, tol: f64) {
    eq(a.compose(i).apply(p), a.apply(p), tol, 1);
    eq(i.compose(a).apply(p), a.apply(p), tol, 3);
    eq(i.apply(p), p, tol, 5);
    eq(i.unapply(p), p, tol, 7);
}
fn dirs<X: Transformation2d>(t: &X, d: Vec2, e: Vec2, tol: f64) {
    let (f, g) = (t.apply_normal(d), t.apply_normal(e));
    let (dx, dy, ex, ey) = (d.x as f64, d.y as f64, e.x as f64, e.y as f64);
    let (fx, fy, gx, gy) = (f.x as f64, f.y as f64, g.x as f64, g.y as f64);
    near(fx * gx + fy * gy, dx * ex + dy * ey, tol, 1);
    near(fx * gy - fy * gx, dx * ey - dy * ex, tol, 2);
    eq(t.unapply_normal(f), d, tol, 3);
    eq(t.apply_normal(t.unapply_normal(d)), d, tol, 5);
    eq(t.apply_normal(Vec2::ZERO), Vec2::ZERO, tol, 7);
}
fn near(a: f64, b: f64, t: f64, id: u32) {
    let d = a - b;
    check((d < t) & (d > -t), id);
}
/// A placed direction is the difference of two placed points, up to the scale.
fn lin<X: Transformation2d>(t: &X, p: Vec2, d: Vec2, s: f64, tol: f64) {
    let (a, b) = (t.apply(p), t.apply(p + d));
    let n = t.apply_normal(d);
    near(b.x as f64 - a.x as f64, s * n.x as f64, tol, 1);
    near(b.y as f64 - a.y as f64, s * n.y as f64, tol, 2);
}
/// The scaling factor bounds the growth of distances.
fn grow<X: Transformation2d>(t: &X, d: Vec2, tol: f64) {
    let o = t.apply_origin();
    let a = t.apply(d);
    let (x, y) = (a.x as f64 - o.x as f64, a.y as f64 - o.y as f64);
    let k = t.scaling_factor() as f64;
    let (dx, dy) = (d.x as f64, d.y as f64);
    check(x * x + y * y <= k * k * (dx * dx + dy * dy) + tol, 1);
}

/// angles close to, and exactly at, the multiples of a quarter turn
pub const CLOSE: [f32; 9] = [0.0, 1.0e-4, -1.0e-4, 1.5e-3, -1.5e-3, 0.01, -0.01, 3.0e-7, -3.0e-7];
pub fn close() -> (f32, Fr) {
    let a = (choose(17) - 8) as f32 * std::f32::consts::FRAC_PI_2 + CLOSE[choose(9) as usize];
    (a, Fr((a as f64).cos(), (a as f64).sin()))
}
/// places, un-places and inverts at a rotation of this cosine and sine
fn turned<X: Transformation2d + Invertible>(t: &X, f: Fr, q: Vec2, k: f64, p: Vec2, tol: f64) {
    let (x, y) = f.to(k * p.x as f64, k * p.y as f64);
    let a = t.apply(p);
    near(a.x as f64, x + q.x as f64, tol, 1);
    near(a.y as f64, y + q.y as f64, tol, 2);
    let u = t.unapply(p);
    let (x, y) = f.un((p.x as f64 - q.x as f64) / k, (p.y as f64 - q.y as f64) / k);
    near(u.x as f64, x, tol, 3);
    near(u.y as f64, y, tol, 4);
    eq(t.inverse().apply(p), u, tol, 5);
    eq(t.inverse().unapply(p), a, tol, 7);
    let (x, y) = f.to(p.x as f64, p.y as f64);
    let n = t.apply_normal(p);
    near(n.x as f64, x, tol, 9);
    near(n.y as f64, y, tol, 10);
    let (x, y) = f.un(p.x as f64, p.y as f64);
    let n = t.unapply_normal(p);
    near(n.x as f64, x, tol, 11);
    near(n.y as f64, y, tol, 12);
}

/// other orders of magnitude: powers of two, so that scaling is exact
pub const UNITS: [f32; 4] = [1.0 / 1099511627776.0, 1.0 / 1048576.0, 1048576.0, 1099511627776.0];
pub fn unit() -> f32 {
    UNITS[choose(4) as usize]
}
fn equ(a: Vec2, b: Vec2, k: f32, t: f64, id: u32) {
    let k = 1.0 / k as f64;
    let (dx, dy) = ((a.x as f64 - b.x as f64) * k, (a.y as f64 - b.y as f64) * k);
    check((dx < t) & (dx > -t), id);
    check((dy < t) & (dy > -t), id + 1);
}
/// places, un-places and inverts points of magnitude `k` to points of magnitude `m`
fn laws_u<X: Transformation2d + Invertible>(t: &X, p: Vec2, q: Vec2, k: f32, m: f32, tol: f64) {
    equ(t.unapply(t.apply(p)), p, k, tol, 1);
    equ(t.apply(t.unapply(q)), q, m, tol, 3);
    equ(t.apply_origin(), t.apply(Vec2::ZERO), m, tol, 5);
    equ(t.inverse().apply(q), t.unapply(q), k, tol, 7);
    equ(t.inverse().unapply(p), t.apply(p), m, tol, 9);
}
fn comp_u<X: Transformation2d + Composable + Invertible>(a: &X, b: &X, p: Vec2, k: f32, tol: f64) {
    equ(a.compose(b).apply(p), a.apply(b.apply(p)), k, tol, 1);
    equ(a.compose(b).apply_origin(), a.apply(b.apply_origin()), k, tol, 3);
    let d = a.delta_transform(b);
    equ(a.apply(d.apply(p)), b.apply(p), k, tol, 5);
}
fn dirs_u<X: Transformation2d>(t: &X, d: Vec2, e: Vec2, k: f32, tol: f64) {
    let (f, g) = (t.apply_normal(d), t.apply_normal(e));
    let u = 1.0 / k as f64;
    let (dx, dy, ex, ey) = (d.x as f64 * u, d.y as f64 * u, e.x as f64 * u, e.y as f64 * u);
    let (fx, fy, gx, gy) = (f.x as f64 * u, f.y as f64 * u, g.x as f64 * u, g.y as f64 * u);
    near(fx * gx + fy * gy, dx * ex + dy * ey, tol, 1);
    near(fx * gy - fy * gx, dx * ey - dy * ex, tol, 2);
    equ(t.unapply_normal(f), d, k, tol, 3);
    equ(t.apply_normal(t.unapply_normal(d)), d, k, tol, 5);
}

harnesses! {
    fn c12_unit() {
        // everything of another order of magnitude
        let k = unit();
        let (q, p, w) = (v(8.0) * k, v(8.0) * k, v(8.0) * k);
        laws_u(&q, p, w, k, k, T);
        laws_u(&Translate2d::new(q), p, w, k, k, T);
        laws_u(&AxisTransform2d::new(q, scale2()), p, w, k, k, 8.0 * T);
    }
    fn c12_unit_transform() {
        let k = unit();
        let (q, p, w) = (v(8.0) * k, v(8.0) * k, v(8.0) * k);
        let s = scale2();
        laws_u(&tr(q, fixed(choose(8)), Vec2::new(s, s)), p, w, k, k, 8.0 * T)
    }
    fn c12_unit_scale() {
        // scales that turn one order of magnitude into another
        let (k, m) = (unit(), unit());
        let (q, p, w) = (v(8.0) * m, v(8.0) * k, v(8.0) * m);
        let s = scale2() * (m / k);
        laws_u(&AxisTransform2d::new(q, s), p, w, k, m, 8.0 * T);
        laws_u(&tr(q, fixed(choose(8)), Vec2::new(s, s)), p, w, k, m, 8.0 * T)
    }
    fn c12_unit_axes() {
        // each axis by another order of magnitude
        let (a, b) = (scale2() * UNITS[choose(2) as usize], scale2() * UNITS[2 + choose(2) as usize]);
        let q = v(8.0);
        let t = tr(q, Rotor2d::IDENTITY, Vec2::new(a, b));
        let p = v(8.0);
        let r = t.apply(Vec2::new(p.x / a, p.y / b));
        eq(r, p + q, 8.0 * T, 1);
        let r = t.unapply(p + q);
        eq(Vec2::new(r.x * a, r.y * b), p, 8.0 * T, 3);
    }
    fn c13_unit() {
        let k = unit();
        let (qa, qb, p) = (v(8.0) * k, v(8.0) * k, v(8.0) * k);
        let (s, u) = (scale2(), scale2());
        comp_u(&qa, &qb, p, k, T);
        comp_u(&Translate2d::new(qa), &Translate2d::new(qb), p, k, T);
        comp_u(&AxisTransform2d::new(qa, s), &AxisTransform2d::new(qb, u), p, k, 8.0 * T);
    }
    fn c13_unit_transform() {
        let k = unit();
        let (qa, qb, p) = (v(8.0) * k, v(8.0) * k, v(8.0) * k);
        let (s, u) = (scale2(), scale2());
        comp_u(&tr(qa, fixed(choose(8)), Vec2::new(s, s)), &tr(qb, fixed(choose(8)), Vec2::new(u, u)), p, k, 8.0 * T);
    }
    fn c13_unit_scale() {
        // the first turns `m` into `n`, the second `k` into `m`
        let (k, m, n) = (unit(), unit(), unit());
        let (qa, qb, p) = (v(8.0) * n, v(8.0) * m, v(8.0) * k);
        let (s, u) = (scale2() * (n / m), scale2() * (m / k));
        let (a, b) = (AxisTransform2d::new(qa, s), AxisTransform2d::new(qb, u));
        equ(a.compose(&b).apply(p), a.apply(b.apply(p)), n, 8.0 * T, 1);
        let (a, b) = (tr(qa, fixed(choose(8)), Vec2::new(s, s)), tr(qb, fixed(choose(8)), Vec2::new(u, u)));
        equ(a.compose(&b).apply(p), a.apply(b.apply(p)), n, 8.0 * T, 3);
    }
    fn c14_unit() {
        let k = unit();
        let (d, e) = (v(4.0) * k, v(4.0) * k);
        dirs_u(&v(8.0), d, e, k, T);
        dirs_u(&AxisTransform2d::new(v(8.0), scale2()), d, e, k, T);
        dirs_u(&tr(v(8.0), fixed(choose(8)), Vec2::new(scale2(), scale2())), d, e, k, T);
    }
    fn c14_unit_any_turn() {
        let k = unit();
        let (d, e) = (v(4.0) * k, v(4.0) * k);
        dirs_u(&Transform2d::from_angle(real(-7.0, 7.0)), d, e, k, T);
    }
    fn c14_unit_grow() {
        // scales of other orders of magnitude bound the growth
        let k = unit();
        let (x, y) = (scale2() * k, scale2() * k);
        let d = v(4.0);
        let t = tr(v(8.0) * k, fixed(choose(8)), Vec2::new(x, y));
        let (o, a) = (t.apply_origin(), t.apply(d));
        let u = 1.0 / k as f64;
        let (px, py) = ((a.x as f64 - o.x as f64) * u, (a.y as f64 - o.y as f64) * u);
        let f = t.scaling_factor() as f64 * u;
        let (dx, dy) = (d.x as f64, d.y as f64);
        check(px * px + py * py <= f * f * (dx * dx + dy * dy) + 8.0 * T, 1);
        check((f == x.abs() as f64 * u) | (f == y.abs() as f64 * u), 2);
        check(AxisTransform2d::new(d, x).scaling_factor() as f64 == x.abs() as f64, 3);
    }
    fn c12_identity() {
        let p = v(8.0);
        same_as(&IdentityTransform, &Vec2::ZERO, p)
    }
    fn c12_vec() { laws(&v(8.0), v(8.0), T) }
    fn c12_translate() { laws(&Translate2d::new(v(8.0)), v(8.0), T) }
    fn c12_axis() { let q = v(8.0); laws(&AxisTransform2d::new(q, scale()), v(8.0), T) }
    fn c12_transform() {
        let s = scale();
        laws(&tr(v(8.0), turn(), Vec2::new(s, s)), v(8.0), 16.0 * T)
    }
    fn c12_close() {
        let (a, f) = close();
        let (q, p) = (v(8.0), v(64.0));
        let k = [1.0f32, -2.0, 0.5][choose(3) as usize];
        turned(&tr(q, Rotor2d::from_angle(a), Vec2::splat(k)), f, q, k as f64, p, 8.0 * T)
    }
    fn c12_transform_fixed() {
        let s = scale();
        laws(&tr(v(8.0), fixed(choose(8)), Vec2::new(s, s)), v(8.0), T)
    }
    fn c12_axis_scaled() {
        // different scales per axis, no rotation
        let (x, y) = (scale(), scale());
        laws(&tr(v(8.0), Rotor2d::IDENTITY, Vec2::new(x, y)), v(8.0), T)
    }
    fn c12_scaled_turned() {
        let (x, y) = (scale(), scale());
        let t = tr(v(8.0), fixed(choose(8)), Vec2::new(x, y));
        let p = v(8.0);
        eq(t.unapply(t.apply(p)), p, T, 1);
        eq(t.apply(t.unapply(p)), p, T, 3);
        eq(t.apply_origin(), t.apply(Vec2::ZERO), T, 5);
        // the inverse at least undoes the placed origin
        eq(t.inverse().apply_origin(), t.unapply(Vec2::ZERO), T, 7);
    }
    fn c12_builders() {
        let (q, p) = (v(8.0), v(8.0));
        let (x, y) = (scale(), scale());
        let s = Vec2::new(x, y);
        let r = fixed(choose(8));
        let t = Transform2d::from_translation(q).with_rotation(r).with_scale(s);
        let u = Transform2d::from_rotation(r).with_scale(s).with_translation(q);
        let w = Transform2d::from_scale(s).with_translation(q).with_rotation(r);
        let z = tr(q, r, s);
        eq(t.apply(p), z.apply(p), T, 1);
        eq(u.apply(p), z.apply(p), T, 3);
        eq(w.apply(p), z.apply(p), T, 5);
        eq(Translate2d::from(q).apply(p), q + p, T, 7);
        eq(Transform2d::from_scale(s).apply(p), s * p, T, 9);
        eq(Transform2d::from_rotation(r).apply(p), r * p, T, 11);
    }

    fn c12_mirror() {
        let (x, y) = (scale2(), scale2());
        assume((x < 0.0) | (y < 0.0));
        let t = tr(v(8.0), fixed(choose(8)), Vec2::new(x, y));
        let p = v(8.0);
        eq(t.unapply(t.apply(p)), p, T, 1);
        eq(t.apply(t.unapply(p)), p, T, 3);
        eq(t.apply_origin(), t.apply(Vec2::ZERO), T, 5);
        eq(t.inverse().apply_origin(), t.unapply(Vec2::ZERO), T, 7);
    }
    fn c12_mirror_uniform() {
        let s = -scale();
        let q = v(8.0);
        laws(&AxisTransform2d::new(q, s), v(8.0), T);
        laws(&tr(q, fixed(choose(8)), Vec2::new(s, s)), v(8.0), T)
    }
    fn c12_tiny_huge() {
        let s = scale3();
        let k = if s > 1.0 { 1024.0 } else { 1.0 };
        let q = v(8.0) * k;
        let p = v(8.0);
        let a = AxisTransform2d::new(Vec2::ZERO, s);
        eq(a.unapply(a.apply(p)), p, T, 1);
        let a = AxisTransform2d::new(q, s);
        eq(a.unapply(a.apply(p)), p, 32.0 * T, 3);
        let t = tr(q, fixed(choose(8)), Vec2::new(s, s));
        eq(t.unapply(t.apply(p)), p, 32.0 * T, 5);
        eq(t.apply_origin(), q, T, 7);
    }
    fn c12_far() {
        // far from the origin
        let q = v(8192.0);
        let p = v(8192.0);
        laws(&q, p, 8.0 * T);
        laws(&Translate2d::new(q), p, 8.0 * T);
        laws(&tr(q, fixed(choose(8)), Vec2::ONE), p, 64.0 * T)
    }
    fn c13_vec() { let p = v(8.0); let (a, b) = (v(8.0), v(8.0)); comp(&a, &b, p, T); delta(&a, &b, p, T); neutral(&a, &Vec2::ZERO, p, T) }
    fn c13_translate() {
        let p = v(8.0);
        let (a, b) = (Translate2d::new(v(8.0)), Translate2d::new(v(8.0)));
        comp(&a, &b, p, T);
        delta(&a, &b, p, T);
        neutral(&a, &Translate2d::default(), p, T)
    }
    fn c13_axis() {
        let p = v(8.0);
        let (qa, qb) = (v(8.0), v(8.0));
        let (a, b) = (AxisTransform2d::new(qa, scale()), AxisTransform2d::new(qb, scale()));
        comp(&a, &b, p, 8.0 * T);
        neutral(&a, &AxisTransform2d::new(Vec2::ZERO, 1.0), p, T)
    }
    fn c13_axis_delta() {
        let p = v(8.0);
        let (qa, qb) = (v(8.0), v(8.0));
        let (a, b) = (AxisTransform2d::new(qa, scale()), AxisTransform2d::new(qb, scale()));
        delta(&a, &b, p, 8.0 * T);
    }
    fn c13_transform() {
        let (s, u) = (scale(), scale());
        let a = tr(v(8.0), fixed(choose(8)), Vec2::new(s, s));
        let b = tr(v(8.0), fixed(choose(8)), Vec2::new(u, u));
        comp(&a, &b, v(8.0), 8.0 * T);
    }
    fn c13_transform_delta() {
        let (s, u) = (scale(), scale());
        let a = tr(v(8.0), fixed(choose(8)), Vec2::new(s, s));
        let b = tr(v(8.0), fixed(choose(8)), Vec2::new(u, u));
        delta(&a, &b, v(8.0), 8.0 * T);
    }
    fn c13_turn() {
        // every rotation of the first, fixed ones of the second
        let s = scale();
        let a = tr(v(4.0), turn(), Vec2::new(s, s));
        let b = tr(v(4.0), fixed(choose(8)), Vec2::new(0.5, 0.5));
        comp(&a, &b, v(4.0), 8.0 * T);
    }
    fn c13_mirror() {
        let p = v(8.0);
        let (s, u) = (scale2(), scale2());
        assume((s < 0.0) | (u < 0.0));
        let (a, b) = (AxisTransform2d::new(v(8.0), s), AxisTransform2d::new(v(8.0), u));
        comp(&a, &b, p, 8.0 * T);
        delta(&a, &b, p, 8.0 * T);
    }
    fn c13_mirror_transform() {
        let (s, u) = (scale2(), scale2());
        assume((s < 0.0) | (u < 0.0));
        let a = tr(v(8.0), fixed(choose(8)), Vec2::new(s, s));
        let b = tr(v(8.0), fixed(choose(8)), Vec2::new(u, u));
        let p = v(8.0);
        comp(&a, &b, p, 8.0 * T);
        eq(a.apply(a.delta_transform(&b).apply(p)), b.apply(p), 8.0 * T, 11);
    }
    fn c13_far() {
        let p = v(8192.0);
        let (a, b) = (v(8192.0), v(8192.0));
        comp(&a, &b, p, 8.0 * T);
        delta(&a, &b, p, 8.0 * T);
        let (s, u) = (tr(a, fixed(choose(8)), Vec2::ONE), tr(b, fixed(choose(8)), Vec2::ONE));
        comp(&s, &u, p, 128.0 * T);
        eq(s.apply(s.delta_transform(&u).apply(p)), u.apply(p), 128.0 * T, 11);
    }
    fn c13_neutral() {
        let s = scale();
        let a = tr(v(8.0), fixed(choose(8)), Vec2::new(s, s));
        neutral(&a, &Transform2d::IDENTITY, v(8.0), T);
        neutral(&a, &Transform2d::default(), v(8.0), T);
    }

    fn c14_plain() {
        let (d, e) = (v(4.0), v(4.0));
        dirs(&IdentityTransform, d, e, T);
        dirs(&v(8.0), d, e, T);
        dirs(&Translate2d::new(v(8.0)), d, e, T);
        let q = v(8.0);
        dirs(&AxisTransform2d::new(q, scale()), d, e, T);
    }
    fn c14_transform() {
        let (x, y) = (scale(), scale());
        dirs(&tr(v(8.0), fixed(choose(8)), Vec2::new(x, y)), v(4.0), v(4.0), T)
    }
    fn c14_turn() {
        dirs(&tr(v(8.0), turn(), Vec2::ONE), v(4.0), v(4.0), T)
    }
    fn c14_linear() {
        let (p, d) = (v(8.0), v(4.0));
        lin(&v(8.0), p, d, 1.0, T);
        lin(&Translate2d::new(v(8.0)), p, d, 1.0, T);
        let s = scale();
        lin(&AxisTransform2d::new(v(8.0), s), p, d, s as f64, T);
    }
    fn c14_linear_transform() {
        let s = scale();
        lin(&tr(v(8.0), fixed(choose(8)), Vec2::new(s, s)), v(8.0), v(4.0), s as f64, T);
    }
    fn c14_grow() {
        let d = v(4.0);
        grow(&IdentityTransform, d, T);
        grow(&v(8.0), d, T);
        grow(&Translate2d::new(v(8.0)), d, T);
        let q = v(8.0);
        grow(&AxisTransform2d::new(q, scale()), d, T);
        check(AxisTransform2d::new(q, 2.0).scaling_factor() == 2.0, 8);
        check(Translate2d::new(q).scaling_factor() == 1.0, 9);
        check(IdentityTransform.scaling_factor() == 1.0, 10);
    }
    fn c14_grow_transform() {
        let (x, y) = (scale(), scale());
        let t = tr(v(8.0), fixed(choose(8)), Vec2::new(x, y));
        grow(&t, v(4.0), 4.0 * T);
        // and is attained by one of the axes
        let k = t.scaling_factor();
        check((k == x) | (k == y), 5);
    }
    fn c14_mirror() {
        let (x, y) = (scale2(), scale2());
        assume((x < 0.0) | (y < 0.0));
        dirs(&tr(v(8.0), fixed(choose(8)), Vec2::new(x, y)), v(4.0), v(4.0), T);
        dirs(&AxisTransform2d::new(v(8.0), -scale()), v(4.0), v(4.0), T)
    }
    fn c14_grow_mirror() {
        let (x, y) = (scale2(), scale2());
        assume((x < 0.0) | (y < 0.0));
        let d = v(4.0);
        let t = tr(v(8.0), fixed(choose(8)), Vec2::new(x, y));
        grow(&t, d, 4.0 * T);
        check(t.scaling_factor() > 0.0, 5);
        let a = AxisTransform2d::new(v(8.0), -scale());
        grow(&a, d, 4.0 * T);
        check(a.scaling_factor() > 0.0, 6);
    }
    fn c14_rotors() {
        let (a, b) = (turn(), fixed(choose(8)));
        let p = v(4.0);
        eq((a * b) * p, a * (b * p), T, 1);
        eq((b * a) * p, a * (b * p), T, 3);
        eq((a * a.inverse()) * p, p, T, 5);
        eq(a.inverse() * (a * p), p, T, 7);
        eq(Rotor2d::IDENTITY * p, p, T, 9);
        eq((Rotor2d::IDENTITY * a) * p, a * p, T, 11);
        eq(Rotor2d::default() * p, p, T, 13);
    }
    fn c14_angle() {
        // every angle
        let a = real(-7.0, 7.0);
        let r = Rotor2d::from_angle(a);
        let (d, e) = (v(4.0), v(4.0));
        dirs(&Transform2d::from_angle(a), d, e, T);
        eq(r.inverse() * (r * d), d, T, 11);
        eq(Rotor2d::from_angle(-a) * (r * d), d, T, 13);
        eq(Transform2d::IDENTITY.with_angle(a).apply(d), r * d, T, 15);
        eq(Transform2d::from_angle(a).apply(d), r * d, T, 17);
    }
    fn c14_angles() {
        let (a, b) = (real(-7.0, 7.0), real(-7.0, 7.0));
        let (r, s) = (Rotor2d::from_angle(a), Rotor2d::from_angle(b));
        let p = v(4.0);
        eq((r * s) * p, r * (s * p), T, 1);
        eq((s * r) * p, r * (s * p), T, 3);
    }
    fn c14_angle_is() {
        // multiples of 1/8 between -7 and 7, against the double-precision functions
        let a = (choose(113) - 56) as f32 * 0.125;
        let p = v(4.0);
        let (c, s) = ((a as f64).cos(), (a as f64).sin());
        let (x, y) = (p.x as f64, p.y as f64);
        let q = Rotor2d::from_angle(a) * p;
        near(q.x as f64, c * x - s * y, T, 1);
        near(q.y as f64, c * y + s * x, T, 2);
    }
    fn c14_close() {
        // next to the quarter and half turns, far from the origin
        let (a, f) = close();
        let p = v(256.0);
        let r = Rotor2d::from_angle(a);
        turned(&Transform2d { pos: Vec2::ZERO, rot: r, scale: Vec2::ONE }, f, Vec2::ZERO, 1.0, p, 4.0 * T);
        let h = a as f64 * 0.5;
        let r = Rotor2d::from_quaternion(Quat::from_xyzw(0.0, 0.0, h.sin() as f32, h.cos() as f32));
        turned(&Transform2d { pos: Vec2::ZERO, rot: r, scale: Vec2::ONE }, f, Vec2::ZERO, 1.0, p, 4.0 * T);
    }
    fn c14_angle_of() {
        // the reported angle is the rotation's
        let p = v(4.0);
        let (r, s) = (fixed(choose(8)), fixed(choose(8)));
        for r in [r, r * s, r.inverse()] {
            eq(Rotor2d::from_angle(r.angle()) * p, r * p, T, 1);
        }
    }
    fn c14_angle_of_close() {
        let (a, _) = close();
        let p = v(4.0);
        let r = Rotor2d::from_angle(a);
        eq(Rotor2d::from_angle(r.angle()) * p, r * p, T, 1);
        eq(Rotor2d::from_angle(r.inverse().angle()) * (r * p), p, T, 3);
    }
    fn c14_quarter() {
        // the sense of rotation
        let p = v(4.0);
        let q = Rotor2d::from_quaternion(Quat::from_xyzw(0.0, 0.0, 1.0, 1.0));
        eq(q * p, Vec2::new(-p.y, p.x), T, 1);
        eq(q.inverse() * p, Vec2::new(p.y, -p.x), T, 3);
    }
}
