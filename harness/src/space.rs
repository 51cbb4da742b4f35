//! The engine's transform moving 3D points: C31.
use crate::harnesses;
use crate::sym::*;
use auburn::col2d::{Composable, DeltaTransform, IdentityTransform, Invertible, Transformation3d};
use auburn::{Quat, Vec3};
use bevy::prelude::Transform;

const T: f64 = 1.0 / 1024.0;
pub type V = [f64; 3];
pub fn v(a: f32) -> Vec3 {
    let x = real(-a, a);
    let y = real(-a, a);
    let z = real(-a, a);
    Vec3::new(x, y, z)
}
pub fn d(p: Vec3) -> V {
    [p.x as f64, p.y as f64, p.z as f64]
}
pub fn scale() -> f32 {
    let s = real(0.25, 4.0);
    if choose(2) == 0 {
        s
    } else {
        -s
    }
}
pub fn scales() -> Vec3 {
    let x = scale();
    let y = scale();
    let z = scale();
    Vec3::new(x, y, z)
}
pub fn eq(a: Vec3, b: V, t: f64, id: u32) {
    let a = d(a);
    for i in 0..3 {
        let e = a[i] - b[i];
        check((e < t) & (e > -t), id + i as u32);
    }
}
pub const N: i64 = 12;
/// unit quaternions and their rotation matrices
pub fn turn(k: i64) -> (Quat, [V; 3]) {
    const Q: [(f64, f64, f64, f64); N as usize] = [
        (0.0, 0.0, 0.0, 1.0),
        (1.0, 0.0, 0.0, 0.0),
        (0.0, 1.0, 0.0, 0.0),
        (0.0, 0.0, -1.0, 0.0),
        (0.6, 0.0, 0.0, 0.8),
        (0.0, -0.8, 0.0, 0.6),
        (0.5, 0.5, 0.5, 0.5),
        (-0.5, 0.5, -0.5, 0.5),
        (0.2, 0.4, 0.4, 0.8),
        (0.4, -0.2, 0.8, -0.4),
        (2.0 / 9.0, 4.0 / 9.0, 5.0 / 9.0, 6.0 / 9.0),
        (-0.1, 0.7, -0.5, -0.5),
    ];
    let (x, y, z, w) = Q[k as usize];
    let m = [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
        [2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
        [2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
    ];
    (Quat::from_xyzw(x as f32, y as f32, z as f32, w as f32), m)
}
pub fn mul(m: &[V; 3], p: V) -> V {
    [0, 1, 2].map(|i| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2])
}
pub fn un(m: &[V; 3], p: V) -> V {
    [0, 1, 2].map(|i| m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2])
}
pub fn tr(translation: Vec3, rotation: Quat, scale: Vec3) -> Transform {
    Transform { translation, rotation, scale }
}
harnesses! {
    fn c31_apply() {
        let (q, m) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scales());
        let a = tr(t, q, s);
        let r = mul(&m, [0, 1, 2].map(|i| s[i] as f64 * p[i] as f64));
        eq(Transformation3d::apply(&a, p), [0, 1, 2].map(|i| r[i] + t[i] as f64), T, 1);
        eq(Transformation3d::apply_origin(&a), d(t), T, 4);
    }
    fn c31_unapply() {
        let (q, m) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scales());
        let a = tr(t, q, s);
        let r = un(&m, [0, 1, 2].map(|i| p[i] as f64 - t[i] as f64));
        eq(Transformation3d::unapply(&a, p) * s, r, 4.0 * T, 1);
        let r = un(&m, [0, 1, 2].map(|i| -(t[i] as f64)));
        eq(Transformation3d::unapply_origin(&a) * s, r, 4.0 * T, 4);
    }
    fn c31_back() {
        let (q, _) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scales());
        let a = tr(t, q, s);
        eq(Transformation3d::unapply(&a, Transformation3d::apply(&a, p)), d(p), 4.0 * T, 1);
        eq(Transformation3d::apply(&a, Transformation3d::unapply(&a, p)), d(p), 4.0 * T, 4);
    }
    fn c31_inverse() {
        let (q, _) = turn(choose(N));
        let (t, p) = (v(8.0), v(4.0));
        let a = tr(t, q, Vec3::splat(scale()));
        let i = a.inverse();
        eq(Transformation3d::apply(&i, Transformation3d::apply(&a, p)), d(p), 16.0 * T, 1);
        eq(Transformation3d::apply(&a, Transformation3d::apply(&i, p)), d(p), 16.0 * T, 4);
        eq(Transformation3d::apply(&i, p), d(Transformation3d::unapply(&a, p)), 16.0 * T, 7);
        eq(Transformation3d::unapply(&i, p), d(Transformation3d::apply(&a, p)), 16.0 * T, 10);
    }
    fn c31_inverse_unturned() {
        // without rotation also with unequal scales
        let (t, p) = (v(8.0), v(4.0));
        let a = tr(t, Quat::IDENTITY, scales());
        eq(Transformation3d::apply(&a.inverse(), Transformation3d::apply(&a, p)), d(p), 16.0 * T, 1);
        eq(Transformation3d::apply(&a, Transformation3d::apply(&a.inverse(), p)), d(p), 16.0 * T, 4);
    }
    fn c31_compose() {
        let ((qa, _), (qb, _)) = (turn(choose(N)), turn(choose(N)));
        let (ta, tb, p) = (v(4.0), v(4.0), v(4.0));
        // the inner one may scale its axes differently
        let (a, b) = (tr(ta, qa, Vec3::splat(scale())), tr(tb, qb, scales()));
        let c = a.compose(&b);
        eq(Transformation3d::apply(&c, p), d(Transformation3d::apply(&a, Transformation3d::apply(&b, p))), 16.0 * T, 1);
        eq(Transformation3d::apply_origin(&c), d(Transformation3d::apply(&a, tb)), 16.0 * T, 4);
    }
    fn c31_delta() {
        let ((qa, _), (qb, _)) = (turn(choose(N)), turn(choose(N)));
        let (ta, tb, p) = (v(4.0), v(4.0), v(4.0));
        let k = [1.0, -2.0, 0.75, -0.5, 3.0][choose(5) as usize];
        let (a, b) = (tr(ta, qa, Vec3::splat(k)), tr(tb, qb, scales()));
        let c = a.delta_transform(&b);
        eq(Transformation3d::apply(&c, p), d(Transformation3d::unapply(&a, Transformation3d::apply(&b, p))), 64.0 * T, 1);
    }
    fn c31_any_turn() {
        // every rotation about an axis, as an engine builds it
        let g = real(-7.0, 7.0);
        let q = match choose(3) {
            0 => Quat::from_rotation_x(g),
            1 => Quat::from_rotation_y(g),
            _ => Quat::from_rotation_z(g),
        };
        let (t, p) = (v(4.0), v(4.0));
        let a = tr(t, q, Vec3::ONE);
        eq(Transformation3d::unapply(&a, Transformation3d::apply(&a, p)), d(p), 4.0 * T, 1);
        eq(Transformation3d::apply(&a.inverse(), Transformation3d::apply(&a, p)), d(p), 4.0 * T, 4);
    }
    fn c31_close() {
        // next to the quarter and half turns, far from the origin
        let (g, f) = crate::trans::close();
        let (t, p) = (v(8.0), v(256.0));
        let (c, s) = (f.0, f.1);
        let (q, m) = match choose(3) {
            0 => (Quat::from_rotation_x(g), [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]),
            1 => (Quat::from_rotation_y(g), [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]),
            _ => (Quat::from_rotation_z(g), [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]),
        };
        let a = tr(t, q, Vec3::ONE);
        let r = mul(&m, d(p));
        eq(Transformation3d::apply(&a, p), [0, 1, 2].map(|i| r[i] + t[i] as f64), 4.0 * T, 1);
        let r = un(&m, [0, 1, 2].map(|i| p[i] as f64 - t[i] as f64));
        eq(Transformation3d::unapply(&a, p), r, 4.0 * T, 4);
        eq(Transformation3d::apply(&a.inverse(), p), r, 8.0 * T, 7);
    }
    fn c31_unit() {
        // other orders of magnitude
        let (q, m) = turn(choose(N));
        let (k, n) = (crate::trans::unit(), crate::trans::unit());
        let (t, p, s) = (v(8.0), v(4.0), scales());
        let a = tr(t * n, q, s * (n / k));
        let r = mul(&m, [0, 1, 2].map(|i| s[i] as f64 * p[i] as f64));
        eq(Transformation3d::apply(&a, p * k) / n, [0, 1, 2].map(|i| r[i] + t[i] as f64), 4.0 * T, 1);
        let r = un(&m, [0, 1, 2].map(|i| p[i] as f64 - t[i] as f64));
        eq(Transformation3d::unapply(&a, p * n) / k * s, r, 8.0 * T, 4);
    }
    fn c31_unit_inverse() {
        let (q, _) = turn(choose(N));
        let (k, n) = (crate::trans::unit(), crate::trans::unit());
        let (t, p) = (v(8.0), v(4.0));
        let a = tr(t * n, q, Vec3::splat(scale() * (n / k)));
        let i = a.inverse();
        eq(Transformation3d::apply(&i, p * n) / k, d(Transformation3d::unapply(&a, p * n) / k), 16.0 * T, 1);
        eq(Transformation3d::unapply(&i, p * k) / n, d(Transformation3d::apply(&a, p * k) / n), 16.0 * T, 4);
    }
    fn c31_unit_compose() {
        let ((qa, _), (qb, _)) = (turn(choose(N)), turn(choose(N)));
        let k = crate::trans::unit();
        let (ta, tb, p) = (v(4.0) * k, v(4.0) * k, v(4.0) * k);
        let (a, b) = (tr(ta, qa, Vec3::splat(scale())), tr(tb, qb, scales()));
        let c = a.compose(&b);
        eq(Transformation3d::apply(&c, p) / k, d(Transformation3d::apply(&a, Transformation3d::apply(&b, p)) / k), 16.0 * T, 1);
    }
    fn c31_identity() {
        let p = v(4.0);
        let i = IdentityTransform;
        eq(Transformation3d::apply(&i, p), d(p), 0.5 * T, 1);
        eq(Transformation3d::unapply(&i, p), d(p), 0.5 * T, 4);
        eq(Transformation3d::apply_origin(&i), [0.0; 3], 0.5 * T, 7);
        eq(Transformation3d::unapply_origin(&i), [0.0; 3], 0.5 * T, 10);
    }
    fn c31_far() {
        // far away and large
        let (q, m) = turn(choose(N));
        let (t, p) = (v(8192.0), v(1024.0));
        let a = tr(t, q, Vec3::splat(64.0));
        let r = mul(&m, d(p).map(|x| 64.0 * x));
        eq(Transformation3d::apply(&a, p), [0, 1, 2].map(|i| r[i] + t[i] as f64), 0.25, 1);
        eq(Transformation3d::unapply(&a, Transformation3d::apply(&a, p)), d(p), 1.0 / 64.0, 4);
    }
}
