//! The engine's 3D transform on 2D shapes: C15.
use crate::harnesses;
use crate::sd::*;
use crate::sym::*;
use crate::trans::*;
use auburn::col2d::*;
use auburn::{Quat, Vec3};
use bevy::prelude::Transform;

const T: f64 = 1.0 / 1024.0;
fn v(a: f32) -> Vec2 {
    let x = real(-a, a);
    let y = real(-a, a);
    Vec2::new(x, y)
}
fn scale() -> f32 {
    real(0.25, 4.0)
}
fn eq(a: Vec2, b: Vec2, t: f64, id: u32) {
    let (dx, dy) = (a.x as f64 - b.x as f64, a.y as f64 - b.y as f64);
    check((dx < t) & (dx > -t), id);
    check((dy < t) & (dy > -t), id + 1);
}
fn eqp(a: Vec2, b: (f64, f64), t: f64, id: u32) {
    let (dx, dy) = (a.x as f64 - b.0, a.y as f64 - b.1);
    check((dx < t) & (dx > -t), id);
    check((dy < t) & (dy > -t), id + 1);
}
/// the scale of the third axis, of either sign: of no effect in the plane
fn depth() -> f32 {
    let s = scale();
    if choose(2) == 0 { s } else { -s }
}
/// unit quaternions about Z (also with negative sign) and their cosine and sine
fn spin(k: i64) -> (Quat, Fr) {
    const Q: [(f32, f32, f64, f64); 7] = [
        (0.0, 1.0, 1.0, 0.0),
        (0.6, 0.8, 0.28, 0.96),
        (0.8, 0.6, -0.28, 0.96),
        (1.0, 0.0, -1.0, 0.0),
        (-0.6, 0.8, 0.28, -0.96),
        (0.8, -0.6, -0.28, -0.96),
        (-0.28, -0.96, 0.8432, 0.5376),
    ];
    let (z, w, c, s) = Q[k as usize];
    (Quat::from_xyzw(0.0, 0.0, z, w), Fr(c, s))
}
fn t3(p: Vec2, z: f32, q: Quat, s: Vec2, sz: f32) -> Transform {
    Transform { translation: Vec3::new(p.x, p.y, z), rotation: q, scale: Vec3::new(s.x, s.y, sz) }
}
fn t2(p: Vec2, q: Quat, s: Vec2) -> Transform2d {
    Transform2d { pos: p, rot: Rotor2d::from_quaternion(q), scale: s }
}
/// both act alike
fn alike<A: Transformation2d, B: Transformation2d>(a: &A, b: &B, p: Vec2, tol: f64) {
    eq(a.apply(p), b.apply(p), tol, 1);
    eq(a.unapply(p), b.unapply(p), tol, 3);
    eq(a.apply_origin(), b.apply_origin(), tol, 5);
    eq(a.apply_normal(p), b.apply_normal(p), tol, 7);
    eq(a.unapply_normal(p), b.unapply_normal(p), tol, 9);
}
harnesses! {
    fn c15_geometry() {
        // against the geometry itself: scale, turn, translate in the plane
        let (q, f) = spin(choose(7));
        let (pos, p) = (v(8.0), v(4.0));
        let (sx, sy) = (scale(), scale());
        let z = real(-8.0, 8.0);
        let sz = depth();
        let t = t3(pos, z, q, Vec2::new(sx, sy), sz);
        let (x, y) = f.to(sx as f64 * p.x as f64, sy as f64 * p.y as f64);
        let w = (x + pos.x as f64, y + pos.y as f64);
        eqp(Transformation2d::apply(&t, p), w, T, 1);
        eqp(Transformation2d::apply_origin(&t), (pos.x as f64, pos.y as f64), T, 3);
        eqp(Transformation2d::apply_normal(&t, p), f.to(p.x as f64, p.y as f64), T, 5);
        eqp(Transformation2d::unapply_normal(&t, p), f.un(p.x as f64, p.y as f64), T, 7);
        let (x, y) = f.un(p.x as f64 - pos.x as f64, p.y as f64 - pos.y as f64);
        let u = Transformation2d::unapply(&t, p);
        eqp(Vec2::new(u.x * sx, u.y * sy), (x, y), T, 9);
        // how far shapes grow
        let k = Transformation2d::scaling_factor(&t);
        check((k >= sx) & (k >= sy) & ((k == sx) | (k == sy)), 11);
        // the extreme point of a box lies farthest along the direction
    }
    fn c15_extreme() {
        let (q, f) = spin(choose(7));
        let (sx, sy) = (scale(), scale());
        let t = t3(v(4.0), 3.0, q, Vec2::new(sx, sy), 0.5);
        let d = v(1.0);
        let (hx, hy) = (1.0f32, 2.0f32);
        let b = Box2d::with_halfdims(hx, hy);
        let e = Collider2d::new(&b, &t).extreme_point(d);
        let (cx, cy) = (if choose(2) == 0 { hx } else { -hx }, if choose(2) == 0 { hy } else { -hy });
        let (x, y) = f.to((sx * cx) as f64, (sy * cy) as f64);
        let (x, y) = (x + t.translation.x as f64, y + t.translation.y as f64);
        let (dx, dy) = (d.x as f64, d.y as f64);
        check(x * dx + y * dy <= e.x as f64 * dx + e.y as f64 * dy + T, 1);
    }
    fn c15_planar() {
        let (q, _) = spin(choose(7));
        let (pos, p) = (v(8.0), v(4.0));
        let (sx, sy) = (scale(), scale());
        let z = real(-8.0, 8.0);
        let s = Vec2::new(sx, sy);
        let t = t3(pos, z, q, s, depth());
        alike(&t, &t2(pos, q, s), p, T);
        let c: Transform2d = t.into();
        alike(&c, &t2(pos, q, s), p, T);
    }
    fn c15_any_turn() {
        // every rotation about Z, as an engine builds it
        let a = real(-7.0, 7.0);
        let (pos, p) = (v(4.0), v(4.0));
        let q = Quat::from_rotation_z(a);
        let t = t3(pos, 1.0, q, Vec2::ONE, 1.0);
        alike(&t, &t2(pos, q, Vec2::ONE), p, T);
        // lengths survive
        let n = Transformation2d::apply_normal(&t, p);
        let l = (n.x as f64) * n.x as f64 + (n.y as f64) * n.y as f64 - (p.x as f64) * p.x as f64 - (p.y as f64) * p.y as f64;
        check((l < 16.0 * T) & (l > -16.0 * T), 11);
    }
    fn c15_turn_is() {
        // rotations by given angles
        let a = (choose(113) - 56) as f32 * 0.125;
        let p = v(4.0);
        let f = Fr((a as f64).cos(), (a as f64).sin());
        let t = Transform::from_rotation(Quat::from_rotation_z(a));
        eqp(Transformation2d::apply(&t, p), f.to(p.x as f64, p.y as f64), T, 1);
        eqp(Transformation2d::unapply(&t, p), f.un(p.x as f64, p.y as f64), T, 3);
    }
    fn c15_mirror() {
        // planar scales of either sign
        let (q, f) = spin(choose(7));
        let (pos, p) = (v(8.0), v(4.0));
        let (sx, sy) = (depth(), depth());
        let t = t3(pos, 2.0, q, Vec2::new(sx, sy), depth());
        let (x, y) = f.to(sx as f64 * p.x as f64, sy as f64 * p.y as f64);
        eqp(Transformation2d::apply(&t, p), (x + pos.x as f64, y + pos.y as f64), T, 1);
        alike(&t, &t2(pos, q, Vec2::new(sx, sy)), p, T);
        let c: Transform2d = t.into();
        alike(&c, &t2(pos, q, Vec2::new(sx, sy)), p, T);
    }
    fn c15_close() {
        // next to the quarter and half turns, far from the origin
        let (a, f) = close();
        let (pos, p) = (v(8.0), v(256.0));
        let t = t3(pos, 1.0, Quat::from_rotation_z(a), Vec2::ONE, 1.0);
        let w = f.to(p.x as f64, p.y as f64);
        eqp(Transformation2d::apply(&t, p), (w.0 + pos.x as f64, w.1 + pos.y as f64), 4.0 * T, 1);
        eqp(Transformation2d::unapply(&t, p), f.un(p.x as f64 - pos.x as f64, p.y as f64 - pos.y as f64), 4.0 * T, 3);
        eqp(Transformation2d::apply_normal(&t, p), w, 4.0 * T, 5);
        eqp(Transformation2d::unapply_normal(&t, p), f.un(p.x as f64, p.y as f64), 4.0 * T, 7);
        eq(Transformation2d::apply(&t.inverse(), p), Transformation2d::unapply(&t, p), 8.0 * T, 9);
    }
    fn c15_norm() {
        // quaternions of any length turn the same
        let (q, f) = spin(choose(7));
        let k = [0.25f32, 0.9, 2.0, 16.0][choose(4) as usize];
        let q = Quat::from_xyzw(q.x * k, q.y * k, q.z * k, q.w * k);
        let (pos, p) = (v(8.0), v(4.0));
        let t = t3(pos, 1.0, q, Vec2::ONE, 1.0);
        let w = f.to(p.x as f64, p.y as f64);
        eqp(Transformation2d::apply(&t, p), (w.0 + pos.x as f64, w.1 + pos.y as f64), T, 1);
        eqp(Transformation2d::unapply(&t, p), f.un(p.x as f64 - pos.x as f64, p.y as f64 - pos.y as f64), T, 3);
        eqp(Transformation2d::apply_normal(&t, p), w, T, 5);
        eqp(Transformation2d::unapply_normal(&t, p), f.un(p.x as f64, p.y as f64), T, 7);
    }
    fn c15_unit() {
        // other orders of magnitude
        let (q, f) = spin(choose(7));
        let (k, m) = (unit(), unit());
        let (pos, p, w) = (v(8.0) * m, v(4.0) * k, v(4.0) * m);
        let (sx, sy) = (depth(), depth());
        let t = t3(pos, 2.0, q, Vec2::new(sx * (m / k), sy * (m / k)), depth());
        let (x, y) = f.to(sx as f64 * (p.x / k) as f64, sy as f64 * (p.y / k) as f64);
        let (ox, oy) = ((pos.x / m) as f64, (pos.y / m) as f64);
        let a = Transformation2d::apply(&t, p);
        eqp(Vec2::new(a.x / m, a.y / m), (x + ox, y + oy), 8.0 * T, 1);
        let (x, y) = f.un((w.x / m) as f64 - ox, (w.y / m) as f64 - oy);
        let u = Transformation2d::unapply(&t, w);
        eqp(Vec2::new(u.x / k * sx, u.y / k * sy), (x, y), 8.0 * T, 3);
        let n = Transformation2d::apply_normal(&t, p);
        eqp(Vec2::new(n.x / k, n.y / k), f.to((p.x / k) as f64, (p.y / k) as f64), 8.0 * T, 5);
        let n = Transformation2d::unapply_normal(&t, p);
        eqp(Vec2::new(n.x / k, n.y / k), f.un((p.x / k) as f64, (p.y / k) as f64), 8.0 * T, 7);
    }
    fn c15_unit_inverse() {
        let (q, _) = spin(choose(7));
        let (k, m) = (unit(), unit());
        let (pos, p, w) = (v(8.0) * m, v(4.0) * k, v(4.0) * m);
        let s = depth() * (m / k);
        let a = t3(pos, 2.0, q, Vec2::splat(s), s);
        let (i, u) = (Transformation2d::apply(&a.inverse(), w), Transformation2d::unapply(&a, w));
        eq(Vec2::new(i.x / k, i.y / k), Vec2::new(u.x / k, u.y / k), 8.0 * T, 1);
        let (i, u) = (Transformation2d::unapply(&a.inverse(), p), Transformation2d::apply(&a, p));
        eq(Vec2::new(i.x / m, i.y / m), Vec2::new(u.x / m, u.y / m), 8.0 * T, 3);
    }
    fn c15_compose() {
        let ((qa, _), (qb, _)) = (spin(choose(7)), spin(choose(7)));
        let (pa, pb, p) = (v(4.0), v(4.0), v(4.0));
        let (sa, sb) = (scale(), scale());
        let (za, zb) = (real(-8.0, 8.0), real(-8.0, 8.0));
        let (ua, ub) = (Vec2::splat(sa), Vec2::splat(sb));
        let a = t3(pa, za, qa, ua, 2.0);
        let b = t3(pb, zb, qb, ub, 3.0);
        let c = a.compose(&b);
        alike(&c, &t2(pa, qa, ua).compose(&t2(pb, qb, ub)), p, 8.0 * T);
        eq(Transformation2d::apply(&c, p), Transformation2d::apply(&a, Transformation2d::apply(&b, p)), 8.0 * T, 11);
    }
    fn c15_inverse() {
        let (q, _) = spin(choose(7));
        let (pos, p) = (v(4.0), v(4.0));
        let s = Vec2::splat(scale());
        let z = real(-8.0, 8.0);
        let a = t3(pos, z, q, s, depth());
        alike(&a.inverse(), &t2(pos, q, s).inverse(), p, 8.0 * T);
        eq(Transformation2d::apply(&a.inverse(), Transformation2d::apply(&a, p)), p, 8.0 * T, 11);
    }
    fn c15_inverse_scaled() {
        // different scales per axis: as the 2D inverse does it
        let (q, _) = spin(choose(7));
        let (pos, p) = (v(4.0), v(4.0));
        let (sx, sy) = (scale(), scale());
        let s = Vec2::new(sx, sy);
        let a = t3(pos, 1.0, q, s, depth());
        alike(&a.inverse(), &t2(pos, q, s).inverse(), p, 8.0 * T);
    }
    fn c15_compose_scaled() {
        let ((qa, _), (qb, _)) = (spin(choose(7)), spin(choose(7)));
        let (pa, pb, p) = (v(4.0), v(4.0), v(4.0));
        let sa = Vec2::new(0.5, 2.0);
        let (sx, sy) = (scale(), scale());
        let sb = Vec2::new(sx, sy);
        let c = t3(pa, 1.0, qa, sa, 2.0).compose(&t3(pb, -2.0, qb, sb, 3.0));
        alike(&c, &t2(pa, qa, sa).compose(&t2(pb, qb, sb)), p, 8.0 * T);
    }
    fn c15_delta() {
        let ((qa, _), (qb, _)) = (spin(choose(7)), spin(choose(7)));
        let (pa, pb, p) = (v(4.0), v(4.0), v(4.0));
        let (sa, sb) = (scale(), scale());
        let z = real(-8.0, 8.0);
        let a = t3(pa, z, qa, Vec2::splat(sa), sa);
        let b = t3(pb, -z, qb, Vec2::splat(sb), sb);
        let d = a.delta_transform(&b);
        eq(Transformation2d::apply(&a, Transformation2d::apply(&d, p)), Transformation2d::apply(&b, p), 8.0 * T, 1);
    }
    fn c15_box_point() { placed(0) }
    fn c15_box_ball() { placed(1) }
    fn c15_ball_ball() { placed(2) }
    fn c15_point_box() { placed(3) }
}
/// Colliders placed by engine transforms, at any heights.
fn placed(k: i64) {
    let (q, f) = spin(1);
    let (qb, _) = spin(6);
    let pa = Vec2::new(1.5, -0.75);
    let (x, y) = (real(-3.0, 3.0), real(-3.0, 3.0));
    // the situation is stated in the axes of the box
    let g = if k == 3 { frame2(6) } else { f };
    let (dx, dy) = g.to(x as f64, y as f64);
    let pb = Vec2::new(pa.x + dx as f32, pa.y + dy as f32);
    let (za, zb) = (real(-8.0, 8.0), real(-8.0, 8.0));
    let (ta, tb) = (t3(pa, za, q, Vec2::ONE, 1.0), t3(pb, zb, qb, Vec2::ONE, 1.0));
    let (hx, hy) = if k == 2 { (0.0, 0.0) } else { (real(0.25, 2.0), real(0.25, 2.0)) };
    let r = if k == 1 || k == 2 { real(0.25, 2.0) } else { 0.0 };
    let r2 = if k == 2 { real(0.25, 2.0) } else { 0.0 };
    let rr = r as f64 + r2 as f64;
    let s = Sit { hx: hx as f64, hy: hy as f64, r: rr, x: x as f64, y: y as f64, s: sd(hx as f64, hy as f64, rr, x as f64, y as f64), tol: 1.0 / 64.0 };
    let (ex, ey) = (s.x.abs() - s.hx, s.y.abs() - s.hy);
    assume(((s.hx > 0.0) & ((ex <= -1.0 / 256.0) | (ey <= -1.0 / 256.0))) | (ex * ex + ey * ey >= 0.25));
    let bx = Box2d::with_halfdims(hx, hy);
    match k {
        0 => ask((&bx, &ta), (&Point, &tb), &s),
        1 => ask((&bx, &ta), (&Ball::with_radius(r), &tb), &s),
        2 => ask((&Ball::with_radius(r), &ta), (&Ball::with_radius(r2), &tb), &s),
        _ => ask((&Point, &ta), (&bx, &tb), &s),
    }
}
fn frame2(k: i64) -> Fr {
    spin(k).1
}
fn ask<A, B>(a: (&A, &Transform), b: (&B, &Transform), s: &Sit)
where
    A: CollidesRel2d<B, Transform> + PenetratesRel2d<B, Transform> + DistanceToRel2d<B, Transform> + SdfvRel2d<B, Transform>,
{
    verdict(s, a.collides(b), 1);
    let (p, d) = (a.penetrates(b), a.distance_to(b));
    check((s.s > -s.tol) | (p.is_some() & d.is_none()), 3);
    check((s.s < s.tol) | (p.is_none() & d.is_some()), 4);
}
