//! Three dimensions: queries of boxes, balls and points (C29), transforms
//! (C32), extreme points and growing boxes (C33).
use crate::harnesses;
use crate::space::*;
use crate::sym::*;
use crate::trans::unit;
use auburn::col3d::*;
use bevy::prelude::Transform;

const T: f64 = 1.0 / 1024.0;

/// What a point sees of the other shape: a box (half sizes) or a ball.
#[derive(Clone, Copy)]
enum Sh {
    B(V),
    R(f64),
}
/// outside by how much: the excess over each face of a box
fn exc(h: V, p: V) -> V {
    [0, 1, 2].map(|i| p[i].abs() - h[i])
}
fn sq(p: V) -> f64 {
    p[0] * p[0] + p[1] * p[1] + p[2] * p[2]
}
fn pos(a: f64) -> f64 {
    if a > 0.0 { a } else { 0.0 }
}
impl Sh {
    /// surely inside (by t), surely outside (by t)
    fn side(self, p: V, t: f64) -> (bool, bool) {
        match self {
            Sh::B(h) => {
                let e = exc(h, p);
                ((e[0] <= -t) & (e[1] <= -t) & (e[2] <= -t), (e[0] >= t) | (e[1] >= t) | (e[2] >= t))
            }
            Sh::R(r) => {
                let q = sq(p);
                ((r > t) & (q <= (r - t) * (r - t)), q >= (r + t) * (r + t))
            }
        }
    }
    /// the scalar distance (or depth, negative) is right
    fn value(self, p: V, s: f64, t: f64, id: u32) {
        match self {
            Sh::R(r) => {
                let (q, a) = (sq(p), s + r);
                check((a >= -t) & (a * a >= q - t * (q + 1.0)) & (a * a <= q + t * (q + 1.0)), id);
            }
            Sh::B(h) => {
                let e = exc(h, p);
                if (e[0] < 0.0) & (e[1] < 0.0) & (e[2] < 0.0) {
                    let m = if e[0] > e[1] { e[0] } else { e[1] };
                    let m = if e[2] > m { e[2] } else { m };
                    check((s - m < t) & (s - m > -t), id + 1);
                } else {
                    let q = sq(e.map(pos));
                    check((s >= -t) & (s * s >= q - t * (q + 1.0)) & (s * s <= q + t * (q + 1.0)), id + 2);
                }
            }
        }
    }
    /// moving the point by w brings it into contact, and no shorter way does
    fn way(self, p: V, w: V, t: f64, id: u32) {
        let n = [0, 1, 2].map(|i| p[i] + w[i]);
        let (i, o) = self.side(n, t);
        check(!i & !o, id);
        let l = sq(w);
        match self {
            Sh::R(r) => {
                // | |p| - r | is the length
                let q = sq(p);
                // (|p| - r)^2 = q - 2 r |p| + r^2
                let d = q + r * r - l;
                // d = 2 r |p|, up to rounding
                check((d >= -t) & (d * d <= 4.0 * r * r * q + t * (1.0 + q)) & (d * d >= 4.0 * r * r * q - t * (1.0 + q)), id + 1);
            }
            Sh::B(h) => {
                let e = exc(h, p);
                if (e[0] < 0.0) & (e[1] < 0.0) & (e[2] < 0.0) {
                    for i in 0..3 {
                        check(l <= (t - e[i]) * (t - e[i]), id + 2);
                    }
                } else {
                    let q = sq(e.map(pos));
                    check(l <= q + t * (q + 1.0), id + 3);
                }
            }
        }
    }
}
/// the shape against a point at p, in the shape's own axes; everything real is k times as large
fn first_u<A>(a: &A, s: Sh, rel: &impl Transformation3d, p: V, t: f64, k: f32)
where
    A: CollidesRel3d<Point> + PenetratesRel3d<Point> + SdfRel3d<Point> + SdfvRel3d<Point>,
{
    let (i, o) = s.side(p, t);
    let hit = a.collides_rel(&Point, rel);
    check(!i | hit, 1);
    check(!o | !hit, 2);
    let v = a.penetrates_rel(&Point, rel);
    check(!i | v.is_some(), 3);
    check(!o | v.is_none(), 4);
    if let Some(v) = v {
        s.way(p, d(v / k).map(|x| -x), t, 5);
    }
    s.value(p, (a.sdf_rel(&Point, rel) / k) as f64, t, 10);
    s.way(p, d(a.sdfv_rel(&Point, rel) / k).map(|x| -x), t, 15);
}
/// the point against the shape placed by rel (turned by m): p is where the
/// point is in the shape's axes
fn second_u<B>(b: &B, s: Sh, rel: &impl Transformation3d, m: &[V; 3], p: V, t: f64, k: f32)
where
    Point: CollidesRel3d<B> + PenetratesRel3d<B> + SdfRel3d<B> + SdfvRel3d<B>,
{
    let (i, o) = s.side(p, t);
    let hit = Point.collides_rel(b, rel);
    check(!i | hit, 1);
    check(!o | !hit, 2);
    let v = Point.penetrates_rel(b, rel);
    check(!i | v.is_some(), 3);
    check(!o | v.is_none(), 4);
    if let Some(v) = v {
        s.way(p, un(m, d(v / k)), t, 5);
    }
    s.value(p, (Point.sdf_rel(b, rel) / k) as f64, t, 10);
    s.way(p, un(m, d(Point.sdfv_rel(b, rel) / k)), t, 15);
}
fn first<A>(a: &A, s: Sh, rel: &impl Transformation3d, p: V, t: f64)
where
    A: CollidesRel3d<Point> + PenetratesRel3d<Point> + SdfRel3d<Point> + SdfvRel3d<Point>,
{
    first_u(a, s, rel, p, t, 1.0)
}
fn second<B>(b: &B, s: Sh, rel: &impl Transformation3d, m: &[V; 3], p: V, t: f64)
where
    Point: CollidesRel3d<B> + PenetratesRel3d<B> + SdfRel3d<B> + SdfvRel3d<B>,
{
    second_u(b, s, rel, m, p, t, 1.0)
}
fn pick_box() -> (Box3d, Sh) {
    let h = || real(0.25, 2.0);
    let (x, y, z) = (h(), h(), h());
    (Box3d::with_halfdims(x, y, z), Sh::B([x as f64, y as f64, z as f64]))
}
fn pick_ball() -> (Ball, Sh) {
    let r = real(0.25, 2.0);
    (Ball::with_radius(r), Sh::R(r as f64))
}
/// sizes and places on a grid, zero sizes and ties included
fn grid_box() -> (Box3d, Sh, Vec3) {
    let h = || int(0, 8) as f32 * 0.25;
    let (x, y, z) = (h(), h(), h());
    let c = || int(-16, 16) as f32 * 0.25;
    let (a, b, e) = (c(), c(), c());
    (Box3d::with_halfdims(x, y, z), Sh::B([x as f64, y as f64, z as f64]), Vec3::new(a, b, e))
}
fn neg(p: V) -> V {
    p.map(|x| -x)
}
const I: [V; 3] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
/// p away from the centre of a ball, where a direction is the point's own
fn off(p: Vec3) {
    let q = d(p);
    assume((q[0] >= 0.125) | (q[1] >= 0.125) | (q[2] >= 0.125) | (q[0] <= -0.125) | (q[1] <= -0.125) | (q[2] <= -0.125));
}
/// a transform turned by one of the table's rotations
fn rigid(a: f32) -> (Transform, [V; 3], Vec3) {
    let (q, m) = turn(choose(N));
    let t = v(a);
    (tr(t, q, Vec3::ONE), m, t)
}
/// every law of one transform: scale, then turn by m, then move by t
fn laws<X: Transformation3d + Invertible>(a: &X, m: &[V; 3], s: V, t: Vec3, p: Vec3, even: bool, tol: f64) {
    let r = mul(m, [0, 1, 2].map(|i| s[i] * p[i] as f64));
    eq(a.apply(p), [0, 1, 2].map(|i| r[i] + t[i] as f64), tol, 1);
    eq(a.apply_origin(), d(t), tol, 4);
    let k = Vec3::new(s[0] as f32, s[1] as f32, s[2] as f32);
    let r = un(m, [0, 1, 2].map(|i| p[i] as f64 - t[i] as f64));
    eq(a.unapply(p) * k, r, tol, 7);
    let r = un(m, [0, 1, 2].map(|i| -(t[i] as f64)));
    eq(a.unapply_origin() * k, r, tol, 10);
    if even {
        let i = a.inverse();
        eq(i.apply(p), d(a.unapply(p)), tol, 13);
        eq(i.unapply(p), d(a.apply(p)), tol, 16);
    }
    eq(a.unapply(a.apply(p)), d(p), tol, 19);
    eq(a.apply(a.unapply(p)), d(p), tol, 22);
}
fn two<X: Transformation3d + Composable + Invertible>(a: &X, b: &X, p: Vec3, tol: f64) {
    let c = a.compose(b);
    eq(c.apply(p), d(a.apply(b.apply(p))), tol, 1);
    eq(c.apply_origin(), d(a.apply(b.apply_origin())), tol, 4);
    let c = a.delta_transform(b);
    eq(c.apply(p), d(a.unapply(b.apply(p))), 4.0 * tol, 7);
}
/// as `laws` and `two`, with points of magnitude k placed to ones of magnitude n
fn laws_u<X: Transformation3d + Invertible>(a: &X, m: &[V; 3], s: f32, t: Vec3, p: Vec3, k: f32, n: f32, tol: f64) {
    let r = mul(m, d(p).map(|x| x * s as f64));
    eq(a.apply(p * k) / n, [0, 1, 2].map(|i| r[i] + t[i] as f64), tol, 1);
    eq(a.apply_origin() / n, d(t), tol, 4);
    let r = un(m, [0, 1, 2].map(|i| p[i] as f64 - t[i] as f64));
    eq(a.unapply(p * n) / k * s, r, tol, 7);
    let i = a.inverse();
    eq(i.apply(p * n) / k, d(a.unapply(p * n) / k), tol, 10);
    eq(i.unapply(p * k) / n, d(a.apply(p * k) / n), tol, 13);
}
fn two_u<X: Transformation3d + Composable + Invertible>(a: &X, b: &X, p: Vec3, k: f32, tol: f64) {
    let c = a.compose(b);
    eq(c.apply(p) / k, d(a.apply(b.apply(p)) / k), tol, 1);
    let c = a.delta_transform(b);
    eq(c.apply(p) / k, d(a.unapply(b.apply(p)) / k), 4.0 * tol, 4);
}
harnesses! {
    fn c29_box() {
        let (b, s) = pick_box();
        let p = v(4.0);
        first(&b, s, &p, d(p), 8.0 * T);
    }
    fn c29_box_grid() {
        let (b, s, p) = grid_box();
        first(&b, s, &Translate3d::from(p), d(p), 8.0 * T);
    }
    fn c29_box_back() {
        let (b, s) = pick_box();
        let p = v(4.0);
        second(&b, s, &Translate3d::new(p), &I, neg(d(p)), 8.0 * T);
    }
    fn c29_box_grid_back() {
        let (b, s, p) = grid_box();
        second(&b, s, &p, &I, neg(d(p)), 8.0 * T);
    }
    fn c29_ball() {
        let (b, s) = pick_ball();
        let p = v(4.0);
        off(p);
        first(&b, s, &p, d(p), 8.0 * T);
    }
    fn c29_ball_back() {
        let (b, s) = pick_ball();
        let p = v(4.0);
        off(p);
        second(&b, s, &Translate3d::new(p), &I, neg(d(p)), 8.0 * T);
    }
    fn c29_ball_ray() {
        // along rays on which lengths are whole multiples
        const R: [(V, f64); 6] = [
            ([1.0, 2.0, 2.0], 3.0),
            ([2.0, -3.0, 6.0], 7.0),
            ([-4.0, 4.0, 7.0], 9.0),
            ([0.0, 3.0, -4.0], 5.0),
            ([1.0, 0.0, 0.0], 1.0),
            ([0.0, 0.0, -1.0], 1.0),
        ];
        let (g, n) = R[choose(6) as usize];
        let u = real(1.0 / 64.0, 4.0);
        let r = real(0.25, 2.0);
        let k = 1.0 / n as f32;
        let p = Vec3::new(u * (g[0] as f32 * k), u * (g[1] as f32 * k), u * (g[2] as f32 * k));
        let b = Ball::with_radius(r);
        let gap = u as f64 - r as f64;
        let t = 4.0 * T;
        let back = choose(2) == 1;
        let (hit, v, s, w) = if back {
            let o = -p;
            (Point.collides_rel(&b, &o), Point.penetrates_rel(&b, &o), Point.sdf_rel(&b, &o), Point.sdfv_rel(&b, &o))
        } else {
            (b.collides_rel(&Point, &p), b.penetrates_rel(&Point, &p), b.sdf_rel(&Point, &p), b.sdfv_rel(&Point, &p))
        };
        // the first shape moves: the ball towards the point, or the point (at p from the ball) back
        let z = if back { -gap } else { gap };
        let way = [0, 1, 2].map(|i| z * g[i] / n);
        check((gap > -t) | hit, 1);
        check((gap < t) | !hit, 2);
        check(v.is_some() == hit, 3);
        if let Some(v) = v {
            eq(v, way, t, 4);
        }
        let e = s as f64 - gap;
        check((e < t) & (e > -t), 7);
        eq(w, way, t, 8);
    }
    fn c29_unit_box() {
        // sizes and places of other orders of magnitude
        let k = unit();
        let (b, s) = pick_box();
        let b = Box3d::with_halfdims(b.halfsize.x * k, b.halfsize.y * k, b.halfsize.z * k);
        let p = v(4.0);
        if choose(2) == 0 {
            first_u(&b, s, &(p * k), d(p), 8.0 * T, k)
        } else {
            second_u(&b, s, &Translate3d::new(p * k), &I, neg(d(p)), 8.0 * T, k)
        }
    }
    fn c29_unit_ball() {
        let k = unit();
        let c = || (choose(7) - 3) as f32 * 0.375;
        let (x, y, z) = (c(), c(), c());
        let p = Vec3::new(x, y, z);
        let r = [0.25f32, 1.0][choose(2) as usize];
        let (b, s) = (Ball::with_radius(r * k), Sh::R(r as f64));
        first_u(&b, s, &(p * k), d(p), 8.0 * T, k);
        second_u(&b, s, &(p * k), &I, neg(d(p)), 8.0 * T, k);
    }
    fn c29_unit_turned() {
        let k = unit();
        let (q, m) = turn(choose(N));
        let l = v(4.0);
        let t = mul(&m, d(l)).map(|x| -x as f32 * k);
        let a = tr(Vec3::new(t[0], t[1], t[2]), q, Vec3::ONE);
        let b = Box3d::with_halfdims(k, 0.5 * k, 2.0 * k);
        second_u(&b, Sh::B([1.0, 0.5, 2.0]), &a, &m, d(l), 16.0 * T, k);
    }
    fn c29_ball_grid() {
        // placement by placement, the centre included
        let c = || (choose(7) - 3) as f32 * 0.375;
        let (x, y, z) = (c(), c(), c());
        let p = Vec3::new(x, y, z);
        let r = [0.0f32, 0.25, 1.0][choose(3) as usize];
        let (b, s) = (Ball::with_radius(r), Sh::R(r as f64));
        first(&b, s, &p, d(p), 8.0 * T);
        second(&b, s, &p, &I, neg(d(p)), 8.0 * T);
    }
    fn c29_box_turned() {
        // the point's own orientation is of no matter
        let (a, m, t) = rigid(4.0);
        let _ = m;
        let b = Box3d::with_halfdims(1.0, 0.5, 2.0);
        first(&b, Sh::B([1.0, 0.5, 2.0]), &a, d(t), 8.0 * T);
    }
    fn c29_turned_box() {
        let (q, m) = turn(choose(N));
        let l = v(4.0);
        // the point is at l in the box's axes
        let t = mul(&m, d(l)).map(|x| -x as f32);
        let a = tr(Vec3::new(t[0], t[1], t[2]), q, Vec3::ONE);
        let b = Box3d::with_halfdims(1.0, 0.5, 2.0);
        second(&b, Sh::B([1.0, 0.5, 2.0]), &a, &m, d(l), 16.0 * T);
    }
    fn c29_turned_ball() {
        let (q, m) = turn(choose(N));
        let c = || (choose(5) - 2) as f32 * 0.625;
        let (x, y, z) = (c(), c(), c());
        let l = Vec3::new(x, y, z);
        let t = mul(&m, d(l)).map(|x| -x as f32);
        let a = tr(Vec3::new(t[0], t[1], t[2]), q, Vec3::ONE);
        second(&Ball::with_radius(1.0), Sh::R(1.0), &a, &m, d(l), 16.0 * T);
    }
    fn c29_placed() {
        // both placed, in every form of the call
        let (q, m) = turn(choose(N));
        let (l, t) = (v(3.0), v(4.0));
        let w = mul(&m, d(l));
        let p = [0, 1, 2].map(|i| w[i] + t[i] as f64);
        let ta = tr(t, q, Vec3::ONE);
        let tb = tr(Vec3::new(p[0] as f32, p[1] as f32, p[2] as f32), turn(8).0, Vec3::ONE);
        let b = Box3d::with_halfdims(1.0, 0.5, 2.0);
        let s = Sh::B([1.0, 0.5, 2.0]);
        let (i, o) = s.side(d(l), 8.0 * T);
        let hit = b.collides(&ta, &Point, &tb);
        check(!i | hit, 1);
        check(!o | !hit, 2);
        check((&b, &ta).collides_v2(&Point, &tb) == hit, 3);
        check((&b, &ta).collides_v3((&Point, &tb)) == hit, 4);
        let v = b.penetrates(&ta, &Point, &tb);
        check(v.is_some() == hit, 5);
        if let Some(v) = v {
            s.way(d(l), d(v).map(|x| -x), 16.0 * T, 6);
        }
    }
    fn c29_placed_back() {
        let (q, m) = turn(choose(N));
        let (l, t) = (v(3.0), v(4.0));
        let w = mul(&m, d(l));
        let p = [0, 1, 2].map(|i| w[i] + t[i] as f64);
        let tb = tr(t, q, Vec3::ONE);
        let ta = tr(Vec3::new(p[0] as f32, p[1] as f32, p[2] as f32), turn(4).0, Vec3::ONE);
        let b = Box3d::with_halfdims(1.0, 0.5, 2.0);
        let s = Sh::B([1.0, 0.5, 2.0]);
        let (i, o) = s.side(d(l), 8.0 * T);
        let hit = Point.collides(&ta, &b, &tb);
        check(!i | hit, 1);
        check(!o | !hit, 2);
        let v = Point.penetrates(&ta, &b, &tb);
        check(v.is_some() == hit, 3);
        if let Some(v) = v {
            // in the axes of the point's own placement
            let g = mul(&turn(4).1, d(v));
            s.way(d(l), un(&m, g), 16.0 * T, 6);
        }
    }
    fn c32_vec() {
        let (t, p) = (v(8.0), v(4.0));
        laws(&t, &I, [1.0; 3], t, p, true, T);
        laws(&Translate3d::new(t), &I, [1.0; 3], t, p, true, T);
        two(&t, &v(8.0), p, T);
        let u = v(8.0);
        two(&Translate3d::new(t), &Translate3d::from(u), p, T);
    }
    fn c32_axis() {
        let (t, p, s) = (v(8.0), v(4.0), scale());
        laws(&AxisTransform3d::new(t, s), &I, [s as f64; 3], t, p, true, 16.0 * T);
    }
    fn c32_axis_two() {
        let (t, u, p) = (v(8.0), v(8.0), v(4.0));
        two(&AxisTransform3d::new(t, scale()), &AxisTransform3d::new(u, scale()), p, 16.0 * T);
    }
    fn c32_transform() {
        let (q, m) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scales());
        let a = Transform3d::from(tr(t, q, s));
        laws(&a, &m, d(s), t, p, false, 16.0 * T);
        let b: Transform = a.into();
        eq(b.translation, d(t), T, 30);
        eq(b.scale, d(s), T, 33);
        eq(b.rotation * p, mul(&m, d(p)), T, 36);
    }
    fn c32_transform_even() {
        let (q, m) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scale());
        laws(&Transform3d::from(tr(t, q, Vec3::splat(s))), &m, [s as f64; 3], t, p, true, 64.0 * T);
    }
    fn c32_transform_two() {
        let ((qa, _), (qb, _)) = (turn(choose(N)), turn(choose(N)));
        let (ta, tb, p) = (v(4.0), v(4.0), v(4.0));
        let k = [1.0, -2.0, 0.75][choose(3) as usize];
        two(&Transform3d::from(tr(ta, qa, Vec3::splat(k))), &Transform3d::from(tr(tb, qb, scales())), p, 16.0 * T);
    }
    fn c32_isotropic() {
        let (q, m) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scale());
        let b = tr(t, q, Vec3::splat(s));
        laws(&Isotropic3d::from(b), &m, [s as f64; 3], t, p, true, 64.0 * T);
        eq(Isotropic3d::from(&b).apply(p), d(Isotropic3d::from(b).apply(p)), T, 40);
    }
    fn c32_isotropic_two() {
        let ((qa, _), (qb, _)) = (turn(choose(N)), turn(choose(N)));
        let (ta, tb, p) = (v(4.0), v(4.0), v(4.0));
        let k = [1.0, -2.0, 0.75][choose(3) as usize];
        two(&Isotropic3d::from(tr(ta, qa, Vec3::splat(k))), &Isotropic3d::from(tr(tb, qb, Vec3::splat(scale()))), p, 16.0 * T);
    }
    fn c32_close() {
        let (g, f) = crate::trans::close();
        let (t, p) = (v(8.0), v(256.0));
        let (c, s) = (f.0, f.1);
        let (q, m) = match choose(3) {
            0 => (glam::Quat::from_rotation_x(g), [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]),
            1 => (glam::Quat::from_rotation_y(g), [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]),
            _ => (glam::Quat::from_rotation_z(g), [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]),
        };
        let b = tr(t, q, Vec3::ONE);
        laws(&Transform3d::from(b), &m, [1.0; 3], t, p, true, 16.0 * T);
        laws(&Isotropic3d::from(b), &m, [1.0; 3], t, p, true, 16.0 * T);
    }
    fn c32_unit() {
        // scales that turn one order of magnitude into another
        let (k, n) = (unit(), unit());
        let (q, m) = turn(choose(N));
        let (t, p, s) = (v(8.0), v(4.0), scale());
        let z = s * (n / k);
        laws_u(&AxisTransform3d::new(t * n, z), &I, s, t, p, k, n, 64.0 * T);
        laws_u(&Transform3d::from(tr(t * n, q, Vec3::splat(z))), &m, s, t, p, k, n, 64.0 * T);
        laws_u(&Isotropic3d::from(tr(t * n, q, Vec3::splat(z))), &m, s, t, p, k, n, 64.0 * T);
    }
    fn c32_unit_two() {
        let ((qa, _), (qb, _)) = (turn(choose(N)), turn(choose(N)));
        let k = unit();
        let (ta, tb, p) = (v(4.0) * k, v(4.0) * k, v(4.0) * k);
        let (a, b) = (tr(ta, qa, Vec3::splat(-2.0)), tr(tb, qb, Vec3::splat(scale())));
        two_u(&Transform3d::from(a), &Transform3d::from(b), p, k, 16.0 * T);
        two_u(&Isotropic3d::from(a), &Isotropic3d::from(b), p, k, 16.0 * T);
        two_u(&AxisTransform3d::new(ta, -2.0), &AxisTransform3d::new(tb, scale()), p, k, 16.0 * T);
        two_u(&Translate3d::new(ta), &Translate3d::new(tb), p, k, 16.0 * T);
    }
    fn c33_unit() {
        let (k, n) = (unit(), unit());
        let (b, _) = pick_box();
        let h = d(b.halfsize);
        let g = v(1.0);
        let mut b = Box3d::with_halfdims(b.halfsize.x * k, b.halfsize.y * k, b.halfsize.z * k);
        let e = d(b.extreme_point(g * n) / k);
        let mut best = 0.0;
        for i in 0..3 {
            check((e[i] == h[i]) | (e[i] == -h[i]), 1);
            best += h[i] * (g[i] as f64).abs();
        }
        let dot = e[0] * g.x as f64 + e[1] * g.y as f64 + e[2] * g.z as f64;
        check((dot >= best - T) & (dot <= best + T), 2);
        let p = v(4.0);
        b.cover(&(p * k));
        let (n, p) = (d(b.halfsize / k), d(p));
        for i in 0..3 {
            let a = p[i].abs();
            check((n[i] >= h[i]) & (n[i] >= a), 3);
            check((n[i] == h[i]) | (n[i] == a), 4);
        }
    }
    fn c33_unit_ball() {
        let k = unit();
        let n = [1.0f32 / 1048576.0, 1048576.0][choose(2) as usize];
        let c = || (choose(5) - 2) as f32;
        let (x, y, z) = (c(), c(), c());
        let g = Vec3::new(x, y, z);
        assume(choose(2) == 0 || (x != 0.0) | (y != 0.0) | (z != 0.0));
        let r = [0.5f32, 3.0][choose(2) as usize];
        let e = d(Ball::with_radius(r * k).extreme_point(g * n) / k);
        check(sq(e) <= (r * r) as f64 * (1.0 + T), 1);
        let dot = e[0] * g.x as f64 + e[1] * g.y as f64 + e[2] * g.z as f64;
        check((dot >= 0.0) & (dot * dot >= (r * r) as f64 * sq(d(g)) * (1.0 - T)), 2);
    }
    fn c33_box() {
        let (b, _) = pick_box();
        let h = d(b.halfsize);
        let g = v(1.0);
        let e = d(b.extreme_point(g));
        let mut best = 0.0;
        for i in 0..3 {
            check((e[i] == h[i]) | (e[i] == -h[i]), 1);
            best += h[i] * (g[i] as f64).abs();
        }
        let dot = e[0] * g.x as f64 + e[1] * g.y as f64 + e[2] * g.z as f64;
        check((dot >= best - T) & (dot <= best + T), 2);
    }
    fn c33_ball() {
        let r = real(0.25, 4.0);
        let g = v(1.0);
        let q = sq(d(g));
        assume(q >= 1.0 / 64.0);
        let e = d(Ball::with_radius(r).extreme_point(g));
        let r = r as f64;
        check(sq(e) <= r * r + 16.0 * T, 1);
        let dot = e[0] * g.x as f64 + e[1] * g.y as f64 + e[2] * g.z as f64;
        check((dot >= 0.0) & (dot * dot >= r * r * q - 16.0 * T), 2);
    }
    fn c33_ball_axis() {
        // along the axes and the diagonals
        let k = [1.0f32, 1.0e-3, 512.0][choose(3) as usize];
        let c = || (choose(3) - 1) as f32 * k;
        let (x, y, z) = (c(), c(), c());
        let g = Vec3::new(x, y, z);
        let r = [0.5f32, 3.0][choose(2) as usize];
        let e = d(Ball::with_radius(r).extreme_point(g));
        let n = sq(d(g));
        check(sq(e) <= (r * r) as f64 * (1.0 + T), 1);
        let dot = e[0] * g.x as f64 + e[1] * g.y as f64 + e[2] * g.z as f64;
        check((dot >= 0.0) & (dot * dot >= (r * r) as f64 * n * (1.0 - T)), 2);
    }
    fn c33_point() {
        let e = Point.extreme_point(v(1.0));
        check((e.x == 0.0) & (e.y == 0.0) & (e.z == 0.0), 1);
    }
    fn c33_cover() {
        let (mut b, _) = pick_box();
        let h = d(b.halfsize);
        let p = v(4.0);
        b.cover(&p);
        let (n, p) = (d(b.halfsize), d(p));
        for i in 0..3 {
            let a = p[i].abs();
            check((n[i] >= h[i]) & (n[i] >= a), 1);
            check((n[i] == h[i]) | (n[i] == a), 2);
        }
        // a second point keeps the first
        let q = v(4.0);
        b.cover(&q);
        let k = d(b.halfsize);
        for i in 0..3 {
            check(k[i] >= n[i], 3);
        }
    }
    fn c33_new() {
        let p = v(4.0);
        let b = Box3d::new(p);
        let c = Box3d::with_halfdims(p.x, p.y, p.z);
        eq(b.halfsize, d(p), T, 1);
        eq(c.halfsize, d(p), T, 4);
    }
}
