//! Extreme points, bounding boxes, the shape union: C16 C17 C18.
use crate::cat::*;
use crate::geo::*;
use crate::harnesses;
use crate::sym::*;
use crate::trans::*;
use auburn::col2d::*;

const T: f64 = 1.0 / 1024.0;
/// strict check of a polygon, from the lines through each two of its corners
fn strict(v: &[Vec2], tol: f64) {
    let ok = Poly2d::new(v).strict_check();
    let p: Vec<P> = v.iter().map(|q| pt(q.x as f64, q.y as f64)).collect();
    let n = p.len();
    let (mut far, mut near, mut inside, mut outside) = (true, false, true, false);
    for i in 0..n {
        let own = p[i].x * p[i].x + p[i].y * p[i].y;
        for j in 0..n {
            if i == j {
                continue;
            }
            let other = p[j].x * p[i].x + p[j].y * p[i].y;
            far &= other < own - tol;
            near |= other > own + tol;
            // all corners on the left of the line from i to j?
            let (dx, dy) = (p[j].x - p[i].x, p[j].y - p[i].y);
            let mut left = dx * dx + dy * dy > tol;
            let mut nearly = true;
            for k in 0..n {
                if k != i && k != j {
                    let s = dx * (p[k].y - p[i].y) - dy * (p[k].x - p[i].x);
                    left &= s >= tol;
                    nearly &= s >= -tol;
                }
            }
            let o = dy * p[i].x - dx * p[i].y;
            outside |= left & (o < -tol);
            inside &= !nearly | (o > tol);
        }
    }
    if ok {
        check(!near, 1);
        check(!outside, 2);
    } else {
        check(!(far & inside), 3);
    }
}
fn one_free_u(v: &[(f32, f32)], k: f32) {
    let mut v: Vec<Vec2> = v.iter().map(|q| Vec2::new(q.0 * k, q.1 * k)).collect();
    let i = choose(v.len() as i64) as usize;
    let x = real(-4.0, 4.0);
    let y = real(-4.0, 4.0);
    v[i] = Vec2::new(x * k, y * k);
    strict(&v, T * k as f64 * k as f64)
}
fn one_free(v: &[(f32, f32)], tol: f64) {
    let mut v: Vec<Vec2> = v.iter().map(|q| Vec2::new(q.0, q.1)).collect();
    let i = choose(v.len() as i64) as usize;
    let x = real(-4.0, 4.0);
    let y = real(-4.0, 4.0);
    v[i] = Vec2::new(x, y);
    strict(&v, tol)
}
fn dir() -> Vec2 {
    let x = real(-4.0, 4.0);
    let y = real(-4.0, 4.0);
    assume(x * x + y * y >= 1.0 / 64.0);
    Vec2::new(x, y)
}
fn size() -> f32 {
    real(0.0, 4.0)
}
/// directions on a grid, including the axes
fn gdir() -> Vec2 {
    let x = int(-8, 8);
    let y = int(-8, 8);
    assume((x != 0) | (y != 0));
    Vec2::new(x as f32 * 0.25, y as f32 * 0.25)
}
/// `e` is one of `vs` and none of them is farther along `d`
fn farthest(e: Vec2, d: Vec2, vs: &[P], tol: f64, id: u32) {
    let (ex, ey, dx, dy) = (e.x as f64, e.y as f64, d.x as f64, d.y as f64);
    let mut on = false;
    for p in vs {
        let (x, y) = (ex - p.x, ey - p.y);
        on |= (x < tol) & (x > -tol) & (y < tol) & (y > -tol);
        check(dx * p.x + dy * p.y <= dx * ex + dy * ey + 8.0 * tol, id);
    }
    check(on, id + 1);
}
/// inside the box and no corner farther; a side-on direction may give any point of the side
fn farthest_box(e: Vec2, d: Vec2, hx: f64, hy: f64, tol: f64, id: u32) {
    let (ex, ey, dx, dy) = (e.x as f64, e.y as f64, d.x as f64, d.y as f64);
    check((ex <= hx + tol) & (ex >= -hx - tol) & (ey <= hy + tol) & (ey >= -hy - tol), id);
    let s = dx * ex + dy * ey + 8.0 * tol;
    check((dx * hx + dy * hy <= s) & (dx * hx - dy * hy <= s) & (dy * hy - dx * hx <= s) & (-dx * hx - dy * hy <= s), id + 1);
}
fn farthest_ball(e: Vec2, d: Vec2, ox: f64, oy: f64, r: f64, tol: f64, id: u32) {
    let (ex, ey, dx, dy) = (e.x as f64 - ox, e.y as f64 - oy, d.x as f64, d.y as f64);
    check(ex * ex + ey * ey <= (r + tol) * (r + tol), id);
    let s = dx * ex + dy * ey + 64.0 * tol;
    check((s >= 0.0) & (s * s >= r * r * (dx * dx + dy * dy)), id + 1);
}
fn at(p: &[P], f: Fr, sx: f64, sy: f64, o: Vec2) -> Vec<P> {
    p.iter().map(|q| { let (x, y) = f.to(q.x * sx, q.y * sy); pt(x + o.x as f64, y + o.y as f64) }).collect()
}
fn plain<S: ExtremePoint2d>(s: &S, vs: &[P], d: Vec2) {
    farthest(s.extreme_point(d), d, vs, T, 1);
}
fn placed<S: ExtremePointT2d<Transform2d>>(s: &S, vs: &[P], k: i64, sc: Vec2) {
    let d = gdir();
    let x = real(-4.0, 4.0);
    let y = real(-4.0, 4.0);
    let o = Vec2::new(x, y);
    let t = Transform2d { pos: o, rot: fixed(k), scale: sc };
    let vs = at(vs, frame(k), sc.x as f64, sc.y as f64, o);
    farthest(s.extreme_point_t(&t, d), d, &vs, 8.0 * T, 1);
    let c = Collider2d::new(s, &t);
    farthest(c.extreme_point(d), d, &vs, 8.0 * T, 3);
}
fn shift<S, X>(s: &S, vs: &[P], mk: fn(Vec2) -> X, k: f64)
where
    X: Transformation2d,
    S: ExtremePointT2d<X>,
{
    let d = gdir();
    let x = real(-4.0, 4.0);
    let y = real(-4.0, 4.0);
    let o = Vec2::new(x, y);
    let vs = at(vs, Fr(1.0, 0.0), k, k, o);
    farthest(s.extreme_point_t(&mk(o), d), d, &vs, 8.0 * T, 1);
}
fn sc() -> Vec2 {
    let x = real(0.25, 4.0);
    let y = real(0.25, 4.0);
    Vec2::new(x, y)
}
/// symbolic triangle around the origin
fn tri() -> ([P; 3], Poly2d) {
    let c = || int(1, 8) as f32 * 0.25;
    let (ax, ay, bx, by, cy) = (c(), c(), c(), c(), c());
    let v = [Vec2::new(ax, -ay), Vec2::new(0.0, cy), Vec2::new(-bx, -by)];
    let p = v.map(|q| pt(q.x as f64, q.y as f64));
    (p, Poly2d::new(&v))
}
fn bounds(b: Box2d, vs: &[P], id: u32) {
    let (hx, hy) = (b.halfsize.x as f64, b.halfsize.y as f64);
    let (mut tx, mut ty) = (false, false);
    for p in vs {
        check((p.x <= hx) & (-p.x <= hx) & (p.y <= hy) & (-p.y <= hy), id);
        tx |= (p.x == hx) | (-p.x == hx);
        ty |= (p.y == hy) | (-p.y == hy);
    }
    check(tx & ty, id + 1);
}
fn same(a: Vec2, b: Vec2, id: u32) {
    check((a.x == b.x) & (a.y == b.y), id);
}
/// The union against the same pair unwrapped.
fn union_as<A, B>(a: &A, b: &B, ua: Shape2d, ub: Shape2d)
where
    A: CollidesRel2d<B, Vec2> + PenetratesRel2d<B, Vec2> + DistanceToRel2d<B, Vec2> + SdfvRel2d<B, Vec2>,
{
    let x = int(-20, 20) as f32 * 0.25;
    let y = int(-20, 20) as f32 * 0.25;
    let t = Vec2::new(x, y);
    check(a.collides_rel(b, &t) == ua.collides_rel(&ub, &t), 1);
    match (a.penetrates_rel(b, &t), ua.penetrates_rel(&ub, &t)) {
        (Some(p), Some(q)) => close(p, q, 2),
        (p, q) => check(p.is_none() & q.is_none(), 3),
    }
    match (a.distance_to_rel(b, &t), ua.distance_to_rel(&ub, &t)) {
        (Some(p), Some(q)) => close(p, q, 4),
        (p, q) => check(p.is_none() & q.is_none(), 5),
    }
    let ((f, p), (g, q)) = (a.sdfv_rel(b, &t), ua.sdfv_rel(&ub, &t));
    check(f == g, 6);
    close(p, q, 7);
}
fn close(a: Vec2, b: Vec2, id: u32) {
    let (dx, dy) = (a.x as f64 - b.x as f64, a.y as f64 - b.y as f64);
    let t = 1.0 / 64.0;
    check((dx < t) & (dx > -t) & (dy < t) & (dy > -t), id);
}
fn rsh(k: i64) -> (Shape2d, f64, f64, f64) {
    // a shape and its rounded-box description
    match k {
        0 => (Shape2d::ball(1.0), 0.0, 0.0, 1.0),
        1 => (Shape2d::rect(1.5, 0.5), 1.5, 0.5, 0.0),
        _ => (Shape2d::poly(&[Vec2::new(1.0, 2.0), Vec2::new(-1.0, 2.0), Vec2::new(-1.0, -2.0), Vec2::new(1.0, -2.0)]), 1.0, 2.0, 0.0),
    }
}
fn union_geo(i: i64, j: i64, w: u8, n: i64) {
    // along a few lines
    let u = int(-n, n) as f32 * 0.25;
    let (xi, yi) = [(u, 0.25f32), (0.5, u), (u, -1.5)][choose(3) as usize];
    union_at(i, j, w, xi, yi)
}
/// placement by placement
fn union_grid() {
    let (i, j) = (choose(3), choose(3));
    let x = (choose(25) - 12) as f32 * 0.3125;
    let y = (choose(19) - 9) as f32 * 0.4375;
    union_at(i, j, 7, x, y)
}
fn union_at(i: i64, j: i64, w: u8, xi: f32, yi: f32) {
    let (a, ax, ay, ar) = rsh(i);
    let (b, bx, by, br) = rsh(j);
    let t = Vec2::new(xi, yi);
    let (hx, hy, r, x, y) = (ax + bx, ay + by, ar + br, xi as f64, yi as f64);
    let s = crate::sd::sd(hx, hy, r, x, y);
    let tol = 1.0 / 32.0;
    if w & 1 != 0 {
        let c = a.collides_rel(&b, &t);
        check((s > -tol) | c, 1);
        check((s < tol) | !c, 2);
    }
    if w & 2 != 0 {
        let p = a.penetrates_rel(&b, &t);
        check((s > -tol) | p.is_some(), 3);
        check((s < tol) | p.is_none(), 4);
        if s < -tol {
            if let Some(v) = p {
                let l = v.x as f64 * v.x as f64 + v.y as f64 * v.y as f64;
                let m = -s * 1.03125 + tol;
                check(l <= m * m, 5);
                check(crate::sd::sd(hx, hy, r, x - v.x as f64, y - v.y as f64) > -2.0 * tol, 6);
            }
        }
    }
    if w & 4 != 0 {
        let p = a.distance_to_rel(&b, &t);
        check((s < tol) | p.is_some(), 7);
        check((s > -tol) | p.is_none(), 8);
        if s > tol {
            if let Some(v) = p {
                let l = v.x as f64 * v.x as f64 + v.y as f64 * v.y as f64;
                let m = s * 1.03125 + tol;
                check(l <= m * m, 9);
                check(crate::sd::sd(hx, hy, r, x - v.x as f64, y - v.y as f64) < 2.0 * tol, 10);
            }
        }
    }
}
/// `n` vertices at radius r, vertex i at the i-th part of a full turn
fn regular(n: i64, up: bool) {
    let r = real(1.0, 2.0) * [1.0, 1.0 / 64.0, 1024.0, UNITS[0], UNITS[1], UNITS[2], UNITS[3]][if n < 20 { choose(7) } else { 0 } as usize];
    let p = if up { Poly2d::regular_upright(n as usize, r) } else { Poly2d::regular(n as usize, r) };
    check(p.points.len() == n as usize, 1);
    let mut i = 0;
    while i < n {
        let a = std::f64::consts::PI * 2.0 * i as f64 / n as f64;
        let (c, s) = if up { (a.sin(), a.cos()) } else { (a.cos(), a.sin()) };
        let q = p.points[i as usize];
        let (dx, dy) = (q.x as f64 - c * r as f64, q.y as f64 - s * r as f64);
        let t = r as f64 / 16384.0;
        check((dx < t) & (dx > -t) & (dy < t) & (dy > -t), 2);
        i += 1;
    }
}
harnesses! {
    fn c16_box() {
        let (hx, hy) = (size(), size());
        let d = dir();
        farthest_box(Box2d::with_halfdims(hx, hy).extreme_point(d), d, hx as f64, hy as f64, T, 1)
    }
    fn c16_box_axes() {
        let (hx, hy) = (size(), size());
        let d = gdir();
        farthest_box(Box2d::with_halfdims(hx, hy).extreme_point(d), d, hx as f64, hy as f64, T, 1)
    }
    fn c16_ball() {
        let (r, d) = (size(), dir());
        farthest_ball(Ball::with_radius(r).extreme_point(d), d, 0.0, 0.0, r as f64, T, 1)
    }
    fn c16_ball_scaled() {
        // directions of any length
        let (r, d) = (size(), dir());
        let k = [0.0001f32, 1000.0][choose(2) as usize];
        let e = Ball::with_radius(r).extreme_point(d * k);
        farthest_ball(e, d, 0.0, 0.0, r as f64, T, 1)
    }
    fn c16_ball_placed() {
        let (r, d) = (size(), gdir());
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        let o = Vec2::new(x, y);
        let b = Ball::with_radius(r);
        let s = real(0.25, 4.0);
        let (ox, oy) = (x as f64, y as f64);
        farthest_ball(b.extreme_point_t(&o, d), d, ox, oy, r as f64, 8.0 * T, 1);
        farthest_ball(b.extreme_point_t(&Translate2d::new(o), d), d, ox, oy, r as f64, 8.0 * T, 3);
        farthest_ball(b.extreme_point_t(&AxisTransform2d::new(o, s), d), d, ox, oy, r as f64 * s as f64, 8.0 * T, 5);
        let t = Transform2d { pos: o, rot: fixed(choose(8)), scale: Vec2::new(s, s) };
        farthest_ball(b.extreme_point_t(&t, d), d, ox, oy, r as f64 * s as f64, 8.0 * T, 7);
        farthest_ball(Collider2d::new(&b, &t).extreme_point(d), d, ox, oy, r as f64 * s as f64, 8.0 * T, 9);
    }
    fn c16_box_scaled() {
        let (hx, hy) = (size(), size());
        let d = dir();
        let k = [0.0001f32, 4096.0][choose(2) as usize];
        farthest_box(Box2d::with_halfdims(hx, hy).extreme_point(d * k), d, hx as f64, hy as f64, T, 1)
    }
    fn c16_box_large() {
        let (hx, hy) = (size(), size());
        let d = dir();
        let k = [1.0 / 1024.0f32, 1024.0][choose(2) as usize];
        let e = Box2d::with_halfdims(hx * k, hy * k).extreme_point(d);
        farthest_box(e / k, d, hx as f64, hy as f64, T, 1)
    }
    fn c16_tri_scaled() {
        let d = dir();
        let k = [0.0001f32, 4096.0][choose(2) as usize];
        farthest(poly(TRI).extreme_point(d * k), d, &pts(TRI), T, 1);
    }
    fn c16_pent_large() {
        let k = [1.0 / 1024.0f32, 1024.0][choose(2) as usize];
        let v: Vec<Vec2> = PENT.iter().map(|q| Vec2::new(q.0 * k, q.1 * k)).collect();
        let d = dir();
        farthest(Poly2d::new(&v).extreme_point(d) / k, d, &pts(PENT), T, 1);
    }
    fn c16_many() {
        // polygons of 1 to 48 vertices
        let n = [1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 33, 48][choose(13) as usize];
        let p = Poly2d::regular(n, 2.0);
        let d = gdir();
        let v: Vec<P> = p.points.iter().map(|q| pt(q.x as f64, q.y as f64)).collect();
        farthest(p.extreme_point(d), d, &v, T, 1);
    }
    fn c16_hundred() {
        let n = [64, 100, 300][choose(3) as usize];
        let p = Poly2d::regular(n, 2.0);
        let k = choose(8) as f32;
        let e = real(-0.0625, 0.0625);
        let d = Vec2::new((k * 0.75).cos() + e, (k * 0.75).sin());
        let v: Vec<P> = p.points.iter().map(|q| pt(q.x as f64, q.y as f64)).collect();
        farthest(p.extreme_point(d), d, &v, T, 1);
    }
    fn c16_from_any() {
        // the vertex order does not matter
        let n = choose(5) as usize;
        let mut v: Vec<Vec2> = PENT.iter().map(|q| Vec2::new(q.0, q.1)).collect();
        v.rotate_left(n);
        if choose(2) == 1 {
            v.reverse();
        }
        plain(&Poly2d::new(&v), &pts(PENT), gdir())
    }
    fn c16_ball_mirror() {
        let (r, d) = (size(), gdir());
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        let o = Vec2::new(x, y);
        let b = Ball::with_radius(r);
        let s = real(0.25, 4.0);
        let (ox, oy) = (x as f64, y as f64);
        farthest_ball(b.extreme_point_t(&AxisTransform2d::new(o, -s), d), d, ox, oy, r as f64 * s as f64, 8.0 * T, 1);
        let m = [Vec2::new(-s, -s), Vec2::new(s, -s), Vec2::new(-s, s)][choose(3) as usize];
        let t = Transform2d { pos: o, rot: fixed(choose(8)), scale: m };
        farthest_ball(b.extreme_point_t(&t, d), d, ox, oy, r as f64 * s as f64, 8.0 * T, 3);
    }
    fn c16_t_mirror() {
        let k = choose(8);
        let s = sc() * [Vec2::new(-1.0, -1.0), Vec2::new(1.0, -1.0), Vec2::new(-1.0, 1.0)][choose(3) as usize];
        placed(&poly(QUAD), &pts(QUAD), k, s)
    }
    fn c16_t_mirror_box() {
        let k = choose(8);
        let s = [Vec2::new(-1.5, 0.5), Vec2::new(0.5, -2.0), Vec2::new(-2.0, -1.0)][choose(3) as usize];
        placed(&Box2d::with_halfdims(1.0, 2.0), &corners(1.0, 2.0), k, s)
    }
    fn c16_axis_mirror() { shift(&poly(TRI), &pts(TRI), |o| AxisTransform2d::new(o, -1.5), -1.5) }
    fn c16_point() {
        let d = dir();
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        let o = Vec2::new(x, y);
        same(Point.extreme_point(d), Vec2::ZERO, 1);
        same(Point.extreme_point_t(&o, d), o, 2);
        same(Point.extreme_point_t(&AxisTransform2d::new(o, 2.0), d), o, 3);
        same(Point.extreme_point_t(&Transform2d { pos: o, rot: fixed(choose(8)), scale: Vec2::new(2.0, 3.0) }, d), o, 4);
    }
    fn c16_tri() { plain(&poly(TRI), &pts(TRI), dir()) }
    fn c16_pent() { plain(&poly(PENT), &pts(PENT), dir()) }
    fn c16_hex() { plain(&poly(HEX), &pts(HEX), dir()) }
    fn c16_slim_axes() { plain(&poly(SLIM), &pts(SLIM), gdir()) }
    fn c16_quad_axes() { plain(&poly(QUAD), &pts(QUAD), gdir()) }
    fn c16_any_tri() { let (p, s) = tri(); plain(&s, &p, gdir()) }
    fn c16_union() {
        let d = gdir();
        let b = Shape2d::ball(1.5);
        farthest_ball(b.extreme_point(d), d, 0.0, 0.0, 1.5, T, 1);
        let b = Shape2d::rect(1.5, 0.5);
        farthest_box(b.extreme_point(d), d, 1.5, 0.5, T, 3);
        let b = Shape2d::poly(&[Vec2::new(2.0, -1.0), Vec2::new(0.0, 2.0), Vec2::new(-2.0, -1.0)]);
        plain(&b, &pts(TRI), d);
    }
    fn c16_unit_box() {
        // sizes and directions of other orders of magnitude
        let (hx, hy) = (size(), size());
        let (d, k, m) = (dir(), unit(), unit());
        let e = Box2d::with_halfdims(hx * k, hy * k).extreme_point(d * m);
        farthest_box(e / k, d, hx as f64, hy as f64, T, 1)
    }
    fn c16_unit_ball() {
        let r = real(0.25, 4.0);
        let (d, k) = (dir(), unit());
        let m = [1.0 / 1048576.0f32, 1.0, 1048576.0][choose(3) as usize];
        let e = Ball::with_radius(r * k).extreme_point(d * m);
        farthest_ball(e / k, d, 0.0, 0.0, r as f64, T, 1)
    }
    fn c16_unit_poly() {
        let (d, k, m) = (dir(), unit(), unit());
        let v: Vec<Vec2> = PENT.iter().map(|q| Vec2::new(q.0 * k, q.1 * k)).collect();
        let e = Poly2d::new(&v).extreme_point(d * m);
        farthest(e / k, d, &pts(PENT), T, 1)
    }
    fn c16_unit_placed() {
        let (k, m) = (unit(), [1.0 / 1048576.0f32, 1048576.0][choose(2) as usize]);
        let d = gdir();
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        let i = choose(8);
        let s = [Vec2::ONE, Vec2::new(1.5, -0.5), Vec2::new(-2.0, 0.75)][choose(3) as usize];
        let t = Transform2d { pos: Vec2::new(x, y) * k, rot: fixed(i), scale: s * k };
        let vs = at(&pts(QUAD), frame(i), s.x as f64, s.y as f64, Vec2::new(x, y));
        farthest(poly(QUAD).extreme_point_t(&t, d * m) / k, d, &vs, 8.0 * T, 1);
        let vs = at(&corners(1.0, 2.0), frame(i), s.x as f64, s.y as f64, Vec2::new(x, y));
        farthest(Collider2d::new(&Box2d::with_halfdims(1.0, 2.0), &t).extreme_point(d * m) / k, d, &vs, 8.0 * T, 3);
    }
    fn c16_t_pent() { let k = choose(8); placed(&poly(PENT), &pts(PENT), k, Vec2::ONE) }
    fn c16_t_box() { let k = choose(8); placed(&Box2d::with_halfdims(1.0, 2.0), &corners(1.0, 2.0), k, Vec2::ONE) }
    fn c16_t_scaled() { let s = sc(); placed(&poly(TRI), &pts(TRI), 0, s) }
    fn c16_t_scaled_turned() { let k = choose(8); let s = sc(); placed(&poly(QUAD), &pts(QUAD), k, s) }
    fn c16_t_scaled_box() { let k = choose(8); placed(&Box2d::with_halfdims(1.0, 2.0), &corners(1.0, 2.0), k, Vec2::new(1.5, 0.5)) }
    fn c16_vec() { shift(&poly(TRI), &pts(TRI), |o| o, 1.0) }
    fn c16_translate() { shift(&poly(TRI), &pts(TRI), Translate2d::new, 1.0) }
    fn c16_axis() { shift(&poly(TRI), &pts(TRI), |o| AxisTransform2d::new(o, 1.5), 1.5) }
    fn c16_axis_box() { shift(&Box2d::with_halfdims(1.0, 2.0), &corners(1.0, 2.0), |o| AxisTransform2d::new(o, 0.5), 0.5) }

    fn c17_ball() {
        let r = size();
        let b = Ball::with_radius(r).symmetric_bounding_box();
        check((b.halfsize.x == r) & (b.halfsize.y == r), 1);
    }
    fn c17_box() {
        let (x, y) = (size(), size());
        let b = Box2d::with_halfdims(x, y).symmetric_bounding_box();
        check((b.halfsize.x == x) & (b.halfsize.y == y), 1);
    }
    fn c17_point() {
        let b = Point.symmetric_bounding_box();
        check((b.halfsize.x == 0.0) & (b.halfsize.y == 0.0), 1);
    }
    fn c17_tri() { let (p, s) = tri(); bounds(s.symmetric_bounding_box(), &p, 1) }
    fn c17_three() {
        let v = [0; 3].map(|_| { let x = real(-4.0, 4.0); let y = real(-4.0, 4.0); Vec2::new(x, y) });
        bounds(Poly2d::new(&v).symmetric_bounding_box(), &v.map(|q| pt(q.x as f64, q.y as f64)), 1)
    }
    fn c17_five() {
        let v = [0; 5].map(|_| { let x = int(-16, 16) as f32 * 0.25; let y = int(-16, 16) as f32 * 0.25; Vec2::new(x, y) });
        bounds(Poly2d::new(&v).symmetric_bounding_box(), &v.map(|q| pt(q.x as f64, q.y as f64)), 1)
    }
    fn c17_many() {
        // one free vertex among many
        let n = [9, 17, 33, 70, 300][choose(5) as usize];
        let i = if n < 64 { int(0, n as i64 - 1) } else { [0, 40, n as i64 - 1][choose(3) as usize] };
        let mut v: Vec<Vec2> = (0..n).map(|k| Vec2::new((k % 5) as f32 * 0.25 - 0.5, (k % 7) as f32 * 0.25 - 0.75)).collect();
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        v[i as usize] = Vec2::new(x, y);
        let q: Vec<P> = v.iter().map(|q| pt(q.x as f64, q.y as f64)).collect();
        bounds(Poly2d::new(&v).symmetric_bounding_box(), &q, 1)
    }
    fn c17_scales() {
        let k = [1.0 / 65536.0f32, 65536.0, unit()][choose(3) as usize];
        let v = [0; 2].map(|_| { let x = real(-4.0, 4.0); let y = real(-4.0, 4.0); Vec2::new(x * k, y * k) });
        bounds(Poly2d::new(&v).symmetric_bounding_box(), &v.map(|q| pt(q.x as f64, q.y as f64)), 1);
        let mut b = Box2d::with_halfdims(k, k);
        b.cover(&v[0]);
        check((b.halfsize.x >= k) & (v[0].x <= b.halfsize.x) & (-v[0].x <= b.halfsize.x), 3);
        check((b.halfsize.y >= k) & (v[0].y <= b.halfsize.y) & (-v[0].y <= b.halfsize.y), 4);
        check((b.halfsize.x == k) | (b.halfsize.x == v[0].x) | (b.halfsize.x == -v[0].x), 5);
        check((b.halfsize.y == k) | (b.halfsize.y == v[0].y) | (b.halfsize.y == -v[0].y), 6);
    }
    fn c17_none() {
        let b = Poly2d::new(&[]).symmetric_bounding_box();
        check((b.halfsize.x == 0.0) & (b.halfsize.y == 0.0), 1);
    }
    fn c17_cover() {
        let (hx, hy) = (size(), size());
        let x = real(-8.0, 8.0);
        let y = real(-8.0, 8.0);
        let mut b = Box2d::with_halfdims(hx, hy);
        b.cover(&Vec2::new(x, y));
        let (nx, ny) = (b.halfsize.x, b.halfsize.y);
        check((x <= nx) & (-x <= nx) & (y <= ny) & (-y <= ny), 1);
        check((nx >= hx) & (ny >= hy), 2);
        check((nx == hx) | (nx == x) | (nx == -x), 3);
        check((ny == hy) | (ny == y) | (ny == -y), 4);
    }
    fn c17_cover_twice() {
        // the order of covered points does not matter
        let c = || int(-16, 16) as f32 * 0.25;
        let (p, q) = (Vec2::new(c(), c()), Vec2::new(c(), c()));
        let (mut a, mut b) = (Box2d::with_halfdims(1.0, 1.0), Box2d::with_halfdims(1.0, 1.0));
        a.cover(&p);
        a.cover(&q);
        b.cover(&q);
        b.cover(&p);
        same(a.halfsize, b.halfsize, 1);
    }

    fn c18_from_box() {
        // the converted box has the box's corners as extreme points
        let (hx, hy) = (size(), size());
        let b = Box2d::with_halfdims(hx, hy);
        let p = Poly2d::from(b);
        let d = dir();
        farthest_box(p.extreme_point(d), d, hx as f64, hy as f64, T, 1);
        let s = p.symmetric_bounding_box();
        same(s.halfsize, b.halfsize, 3);
        check(p.points.len() == 4, 4);
    }
    fn c18_from_box_axes() {
        let (hx, hy) = (size(), size());
        let p = Poly2d::from(Box2d::with_halfdims(hx, hy));
        let d = gdir();
        farthest_box(p.extreme_point(d), d, hx as f64, hy as f64, T, 1);
    }
    fn c18_ext_ball() {
        let d = gdir();
        let r = size();
        same(Shape2d::ball(r).extreme_point(d), Ball::with_radius(r).extreme_point(d), 1);
    }
    fn c18_ext_box() {
        let d = gdir();
        let (x, y) = (size(), size());
        same(Shape2d::rect(x, y).extreme_point(d), Box2d::with_halfdims(x, y).extreme_point(d), 1);
    }
    fn c18_ext_poly() {
        let d = gdir();
        let v: Vec<Vec2> = PENT.iter().map(|q| Vec2::new(q.0, q.1)).collect();
        same(Shape2d::poly(&v).extreme_point(d), Poly2d::new(&v).extreme_point(d), 1);
    }
    fn c18_ext_placed() {
        let d = gdir();
        let x = int(-16, 16) as f32 * 0.25;
        let t = Transform2d { pos: Vec2::new(x, -1.25), rot: fixed(choose(8)), scale: Vec2::new(2.0, 2.0) };
        let v: Vec<Vec2> = PENT.iter().map(|q| Vec2::new(q.0, q.1)).collect();
        same(Shape2d::poly(&v).extreme_point_t(&t, d), Poly2d::new(&v).extreme_point_t(&t, d), 1);
        same(Shape2d::rect(1.0, 2.0).extreme_point_t(&t, d), Box2d::with_halfdims(1.0, 2.0).extreme_point_t(&t, d), 2);
    }
    fn c18_ext_placed_ball() {
        let d = gdir();
        let x = int(-16, 16) as f32 * 0.25;
        let t = Transform2d { pos: Vec2::new(x, -1.25), rot: fixed(choose(8)), scale: Vec2::new(2.0, 2.0) };
        farthest_ball(Shape2d::ball(1.5).extreme_point_t(&t, d), d, x as f64, -1.25, 3.0, 4.0 * T, 1);
    }
    fn c18_box_poly() {
        union_as(&Box2d::with_halfdims(1.0, 2.0), &poly(TRI), Shape2d::rect(1.0, 2.0), Shape2d::Poly2d(poly(TRI)))
    }
    fn c18_poly_box() {
        union_as(&poly(TRI), &Box2d::with_halfdims(1.5, 0.5), Shape2d::Poly2d(poly(TRI)), Shape2d::rect(1.5, 0.5))
    }
    fn c18_box_box() {
        union_as(&Box2d::with_halfdims(1.0, 2.0), &Box2d::with_halfdims(1.5, 0.5), Shape2d::rect(1.0, 2.0), Shape2d::rect(1.5, 0.5))
    }
    fn c18_poly_poly() {
        union_as(&poly(QUAD), &poly(TRI), Shape2d::Poly2d(poly(QUAD)), Shape2d::Poly2d(poly(TRI)))
    }
    fn c18_c_ball_ball() { union_geo(0, 0, 1, 16) }
    fn c18_c_ball_box() { union_geo(0, 1, 1, 20) }
    fn c18_c_box_ball() { union_geo(1, 0, 1, 20) }
    fn c18_c_ball_poly() { union_geo(0, 2, 1, 20) }
    fn c18_c_poly_ball() { union_geo(2, 0, 1, 20) }
    fn c18_p_box_ball() { union_geo(1, 0, 2, 20) }
    fn c18_d_box_ball() { union_geo(1, 0, 4, 20) }
    fn c18_d_ball_poly() { union_geo(0, 2, 4, 20) }
    fn c18_grid() { union_grid() }
    fn c18_as_poly() {
        // a box and the polygon made from it give the same answers
        let x = int(-20, 20) as f32 * 0.25;
        let y = int(-20, 20) as f32 * 0.25;
        let t = Vec2::new(x, y);
        let b = Box2d::with_halfdims(1.0, 2.0);
        let c = Box2d::with_halfdims(1.5, 0.5);
        let p = Poly2d::from(c);
        let (dx, dy) = (x.abs() - 2.5, y.abs() - 2.5);
        if (dx != 0.0) & (dy != 0.0) {
            check(b.collides_rel(&c, &t) == b.collides_rel(&p, &t), 1);
            check(p.collides_rel(&b, &t) == ((dx < 0.0) & (dy < 0.0)), 2);
        }
    }

    fn c28_regular() { regular(choose(20), false) }
    fn c28_upright() { regular(choose(20), true) }
    fn c28_regular_many() { regular(20 + choose(21), false) }
    fn c28_upright_many() { regular(20 + choose(21), true) }
    fn c28_regular_large() { regular([64, 128, 257, 360, 1000][choose(5) as usize], false) }
    fn c28_upright_large() { regular([64, 128, 257, 360, 1000][choose(5) as usize], true) }
    fn c28_regular_hundred() { regular(100, false) }
    fn c28_upright_hundred() { regular(100, true) }

    fn c30_triangle() { one_free(&[(2.0, -1.0), (0.0, 2.0), (-2.0, -1.0)], T) }
    fn c30_slim() { one_free(&[(3.0, 1.0), (-3.0, 1.0), (0.0, 1.25)], T) }
    fn c30_square() { one_free(&[(-1.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (1.0, -1.0)], T) }
    fn c30_five() { one_free(&[(2.0, 0.0), (0.5, 2.0), (-1.5, 1.25), (-1.5, -1.25), (0.5, -2.0)], T) }
    fn c30_six() { one_free(&[(2.0, 0.0), (1.0, 2.0), (-1.0, 2.0), (-2.0, 0.0), (-1.0, -2.0), (1.0, -2.0)], T) }
    fn c30_any_triangle() {
        let v = [0; 3].map(|_| { let x = real(-4.0, 4.0); let y = real(-4.0, 4.0); Vec2::new(x, y) });
        strict(&v, T)
    }
    fn c30_moved() {
        // a catalogue polygon moved about: the origin leaves it on every side
        let p: &[(f32, f32)] = match choose(3) {
            0 => &[(2.0, -1.0), (0.0, 2.0), (-2.0, -1.0)],
            1 => &[(-1.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (1.0, -1.0)],
            _ => &[(2.0, 0.0), (0.5, 2.0), (-1.5, 1.25), (-1.5, -1.25), (0.5, -2.0)],
        };
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        let v: Vec<Vec2> = p.iter().map(|q| Vec2::new(q.0 + x, q.1 + y)).collect();
        strict(&v, T)
    }
    fn c30_round() {
        // a regular polygon with one corner moved in or out: it is valid between the cosine of
        // the step and its inverse
        let n = [9usize, 12, 20, 40, 60][choose(5) as usize];
        let i = [0, n / 3, n / 2, n - 1][choose(4) as usize];
        let k = real(0.5, 2.0);
        let mut v: Vec<Vec2> = (0..n).map(|i| { let a = i as f32 * (core::f32::consts::TAU / n as f32); Vec2::new(2.0 * a.cos(), 2.0 * a.sin()) }).collect();
        v[i] = Vec2::new(v[i].x * k, v[i].y * k);
        let c = (core::f64::consts::TAU / n as f64).cos();
        let k = k as f64;
        if Poly2d::new(&v).strict_check() {
            check((k > c - T) & (k < 1.0 / c + T), 1);
        } else {
            check((k < c + T) | (k > 1.0 / c - T), 2);
        }
    }
    fn c30_unit() {
        // other orders of magnitude
        one_free_u(&[(2.0, 0.0), (0.5, 2.0), (-1.5, 1.25), (-1.5, -1.25), (0.5, -2.0)], [UNITS[0], 1.0 / 1024.0, UNITS[1], UNITS[2], UNITS[3]][choose(5) as usize])
    }
    fn c30_unit_square() {
        one_free_u(&[(-1.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (1.0, -1.0)], [UNITS[0], 1.0 / 1024.0, UNITS[1], UNITS[2], UNITS[3]][choose(5) as usize])
    }
    fn c30_unit_regular() {
        let (n, k) = (3 + choose(30) as usize, unit());
        check(Poly2d::regular(n, 2.0 * k).strict_check(), 1);
        check(Poly2d::regular_upright(n, 0.5 * k).strict_check(), 2);
    }
    fn c30_regular() { check(Poly2d::regular(3 + choose(100) as usize, 2.0).strict_check(), 1) }
    fn c30_upright() { check(Poly2d::regular_upright(3 + choose(100) as usize, 0.5).strict_check(), 1) }
    fn c30_grid() {
        let c = || int(-4, 4) as f32;
        strict(&[Vec2::new(c(), c()), Vec2::new(c(), -1.5), Vec2::new(-2.0, c())], T)
    }
    fn c30_two() {
        let x = real(-4.0, 4.0);
        let y = real(-4.0, 4.0);
        let z = real(-4.0, 4.0);
        let w = real(-4.0, 4.0);
        check(!Poly2d::new(&[Vec2::new(x, y), Vec2::new(z, w)]).strict_check(), 1);
        check(!Poly2d::new(&[Vec2::new(x, y)]).strict_check(), 2);
        check(!Poly2d::new(&[]).strict_check(), 3);
    }
}
