//! Placed colliders against world-space geometry: C10.
use crate::harnesses;
use crate::sd::*;
use crate::sym::*;
use crate::cat::*;
use crate::geo::*;
use crate::trans::*;
use auburn::col2d::*;

const TOL: f64 = 1.0 / 64.0;
fn pos() -> Vec2 {
    let x = real(-3.0, 3.0);
    let y = real(-3.0, 3.0);
    Vec2::new(x, y)
}
fn size() -> f32 {
    real(0.25, 2.0)
}
fn near(q: &Sit) -> bool {
    // away from the points where the answer's direction is undefined
    let (dx, dy) = (q.x.abs() - q.hx, q.y.abs() - q.hy);
    let m = -1.0 / 256.0;
    ((q.hx > 0.0) & ((dx <= m) | (dy <= m))) | (dx * dx + dy * dy >= 0.25)
}
const VER: u8 = 1;
const PEN: u8 = 2;
const DST: u8 = 4;
const SDV: u8 = 8;
/// `fa`: axes of the first collider, `fq`: axes the situation is stated in
fn ask<A, B, X>(w: u8, a: (&A, &X), b: (&B, &X), q: &Sit, fa: Fr, fq: Fr)
where
    X: Transformation2d + DeltaTransform,
    A: CollidesRel2d<B, X> + PenetratesRel2d<B, X> + DistanceToRel2d<B, X> + SdfvRel2d<B, X>,
{
    ask_u(w, a, b, q, fa, fq, 1.0)
}
/// everything real is `m` times as large as in the situation
fn ask_u<A, B, X>(w: u8, a: (&A, &X), b: (&B, &X), q: &Sit, fa: Fr, fq: Fr, m: f32)
where
    X: Transformation2d + DeltaTransform,
    A: CollidesRel2d<B, X> + PenetratesRel2d<B, X> + DistanceToRel2d<B, X> + SdfvRel2d<B, X>,
{
    let inn = |v: Vec2, f: Fr| {
        let (x, y) = f.to((v.x / m) as f64, (v.y / m) as f64);
        fq.un(x, y)
    };
    if w == VER {
        q.verdict(a.collides(b), 1);
        let (c, d) = (Collider2d::new(a.0, a.1), Collider2d::new(b.0, b.1));
        q.verdict(c.collides(d), 3);
    }
    if w == PEN {
        let p = a.penetrates(b);
        check(!q.below(-q.tol) | p.is_some(), 5);
        check(!q.above(q.tol) | p.is_none(), 6);
        if q.below(-4.0 * q.tol) {
            if let Some(v) = p {
                let (x, y) = inn(v, fa);
                q.moved(x, y, 20);
            }
        }
    }
    if w == DST {
        let p = a.distance_to(b);
        check(!q.above(q.tol) | p.is_some(), 9);
        check(!q.below(-q.tol) | p.is_none(), 10);
        if q.above(4.0 * q.tol) {
            if let Some(v) = p {
                let (x, y) = inn(v, fa);
                q.moved(x, y, 30);
            }
        }
    }
    if w == SDV {
        let (c, v) = a.sdfv(b);
        q.verdict(c, 13);
        if (q.above(4.0 * q.tol)) | (q.below(-4.0 * q.tol)) {
            let (x, y) = inn(v, Fr(1.0, 0.0));
            q.moved(x, y, 40);
        }
    }
}
fn rigid(p: Vec2, k: i64) -> Transform2d {
    Transform2d { pos: p, rot: fixed(k), scale: Vec2::ONE }
}
fn situ(hx: f32, hy: f32, r: f64, pa: Vec2, pb: Vec2, f: Fr) -> Sit {
    let (dx, dy) = (pb.x as f64 - pa.x as f64, pb.y as f64 - pa.y as f64);
    let (x, y) = f.un(dx, dy);
    let (hx, hy) = (hx as f64, hy as f64);
    Sit { hx, hy, r, x, y, s: sd(hx, hy, r, x, y), tol: TOL }
}
/// The first collider stands at one of these, turned; the second is placed so
/// that the situation in the box's axes is the symbolic one.
fn stand(c: i64) -> (Vec2, i64, i64) {
    match c {
        0 => (Vec2::new(1.5, -0.75), 1, 6),
        1 => (Vec2::new(-2.25, 3.0), 5, 2),
        2 => (Vec2::new(0.5, 2.0), 2, 3),
        _ => (Vec2::new(0.0, -1.0), 7, 4),
    }
}
fn wh(f: Fr, p: Vec2, x: f32, y: f32) -> Vec2 {
    let (c, s) = (f.0 as f32, f.1 as f32);
    Vec2::new(p.x + (c * x - s * y), p.y + (c * y + s * x))
}
/// A position on one of a few lines along the axes, and sizes from a short list.
fn on_line() -> (Vec2, f32, f32, Vec2) {
    const C: [f32; 6] = [-2.25, -0.75, 0.0, 0.375, 1.25, 2.75];
    let u = real(-3.0, 3.0);
    let c = C[choose(6) as usize];
    let d = if choose(2) == 0 { Vec2::new(u, c) } else { Vec2::new(c, u) };
    let (r, r2, hx, hy) = [(0.5, 0.75, 1.0, 0.5), (1.5, 0.25, 0.375, 2.0)][choose(2) as usize];
    (d, r, r2, Vec2::new(hx, hy))
}
fn setup(k: i64, n: i64, line: bool) -> (Transform2d, Transform2d, Fr, Fr, Sit, f32, f32, Vec2) {
    let (pa, ka, kb) = stand(choose(n));
    let (fa, fb) = (frame(ka), frame(kb));
    let fq = if k == 4 { fb } else { fa };
    let l = if line { Some(on_line()) } else { None };
    let d = match l {
        Some(l) => l.0,
        None => pos(),
    };
    let pb = wh(fq, pa, d.x, d.y);
    let (r, r2) = match (k, l) {
        (1 | 2 | 5, None) => (size(), 0.0),
        (3, None) => (size(), size()),
        (1 | 2 | 5, Some(l)) => (l.1, 0.0),
        (3, Some(l)) => (l.1, l.2),
        _ => (0.0, 0.0),
    };
    let h = match (k, l) {
        (0 | 1 | 4, None) => {
            let (hx, hy) = (size(), size());
            Vec2::new(hx, hy)
        }
        (0 | 1 | 4, Some(l)) => l.3,
        _ => Vec2::ZERO,
    };
    let (hx, hy, x, y) = (h.x as f64, h.y as f64, d.x as f64, d.y as f64);
    let q = Sit { hx, hy, r: r as f64 + r2 as f64, x, y, s: sd(hx, hy, r as f64 + r2 as f64, x, y), tol: TOL };
    assume(near(&q));
    (rigid(pa, ka), rigid(pb, kb), fa, fq, q, r, r2, h)
}
/// the pairs, k: 0 box point, 1 box ball, 2 ball point, 3 ball ball, 4 point box, 5 point ball
fn turned(k: i64, w: u8, n: i64) {
    turned_on(k, w, n, false)
}
fn turned_on(k: i64, w: u8, n: i64, line: bool) {
    let (ta, tb, fa, fq, q, r, r2, h) = setup(k, n, line);
    let bx = Box2d::new(h);
    let ba = Ball::with_radius(r);
    match k {
        0 => ask(w, (&bx, &ta), (&Point, &tb), &q, fa, fq),
        1 => ask(w, (&bx, &ta), (&ba, &tb), &q, fa, fq),
        2 => ask(w, (&ba, &ta), (&Point, &tb), &q, fa, fq),
        3 => ask(w, (&ba, &ta), (&Ball::with_radius(r2), &tb), &q, fa, fq),
        4 => ask(w, (&Point, &ta), (&bx, &tb), &q, fa, fq),
        _ => ask(w, (&Point, &ta), (&ba, &tb), &q, fa, fq),
    }
}
/// both colliders only translated
fn moved_by<X: Transformation2d + DeltaTransform + Invertible>(k: i64, w: u8, at: impl Fn(Vec2) -> X) {
    let f = Fr(1.0, 0.0);
    let (pa, pb) = (pos(), pos());
    let (ta, tb) = (at(pa), at(pb));
    let r = size();
    let (hx, hy) = (size(), size());
    let q = match k {
        1 => situ(hx, hy, r as f64, pa, pb, f),
        _ => situ(hx, hy, 0.0, pa, pb, f),
    };
    assume(near(&q));
    let bx = Box2d::with_halfdims(hx, hy);
    match k {
        0 => ask(w, (&bx, &ta), (&Point, &tb), &q, f, f),
        1 => ask(w, (&bx, &ta), (&Ball::with_radius(r), &tb), &q, f, f),
        _ => ask(w, (&Point, &ta), (&bx, &tb), &q, f, f),
    }
}
/// the placed scalar form
fn scalar_placed(k: i64, line: bool) {
    let (ta, tb, _, _, q, r, r2, h) = setup(k, if line { 2 } else { 4 }, line);
    let bx = Box2d::new(h);
    let ba = Ball::with_radius(r);
    let d = match k {
        0 => (&bx, &ta).sdf((&Point, &tb)),
        1 => (&bx, &ta).sdf((&ba, &tb)),
        2 => (&ba, &ta).sdf((&Point, &tb)),
        _ => (&ba, &ta).sdf((&Ball::with_radius(r2), &tb)),
    };
    q.scalar(d, 1);
}

/// Polygons and boxes, both placed: (first turn, second turn); exact turns only
/// need the vertices to be turned along.
fn pair<A, B>(w: u8, a: &A, b: &B, va: Vec<P>, vb: Vec<P>, ka: i64, kb: i64, at: fn(i64) -> Vec2, n: i64)
where
    A: CollidesRel2d<B, Transform2d> + PenetratesRel2d<B, Transform2d> + DistanceToRel2d<B, Transform2d> + SdfvRel2d<B, Transform2d>,
{
    let pa = at(n);
    let x = int(-40, 40) as f32 * 0.125;
    let y = int(-40, 40) as f32 * 0.125;
    pair_at(w, a, b, va, vb, (fixed(ka), frame(ka)), (fixed(kb), frame(kb)), pa, x, y, 1.0)
}
type Turn = (Rotor2d, Fr);
fn pair_at<A, B>(w: u8, a: &A, b: &B, va: Vec<P>, vb: Vec<P>, ka: Turn, kb: Turn, pa: Vec2, x: f32, y: f32, k: f32)
where
    A: CollidesRel2d<B, Transform2d> + PenetratesRel2d<B, Transform2d> + DistanceToRel2d<B, Transform2d> + SdfvRel2d<B, Transform2d>,
{
    let (fa, fb) = (ka.1, kb.1);
    let pb = Vec2::new(pa.x + x, pa.y + y);
    let ta = Transform2d { pos: pa * k, rot: ka.0, scale: Vec2::ONE };
    let tb = Transform2d { pos: pb * k, rot: kb.0, scale: Vec2::ONE };
    let tu = |v: Vec<P>, f: Fr| -> Vec<P> { v.iter().map(|p| { let q = f.to(p.x, p.y); pt(q.0, q.1) }).collect() };
    let m = Md::new(&tu(va, fa), &tu(vb, fb));
    let (x, y) = (x as f64, y as f64);
    let deep = m.inside(x, y, -1.0 / 256.0);
    let apart = !m.inside(x, y, 1.0 / 256.0);
    if w == VER {
        let c = (a, &ta).collides((b, &tb));
        check(!deep | c, 1);
        check(!apart | !c, 2);
        let (c, d) = (Collider2d::new(a, &ta), Collider2d::new(b, &tb));
        let c = c.collides(d);
        check(!deep | c, 3);
        check(!apart | !c, 4);
    }
    let world = |v: Vec2| fa.to((v.x / k) as f64, (v.y / k) as f64);
    let parted = |v: (f64, f64), id: u32| {
        check(!m.inside(x - v.0, y - v.1, -1.0 / 128.0), id);
        check(m.not_deeper(x, y, v.0 * v.0 + v.1 * v.1, 1.03125, 1.0 / 128.0), id + 1);
    };
    let joined = |v: (f64, f64), id: u32| {
        check(m.inside(x - v.0, y - v.1, 1.0 / 128.0), id);
        check(m.not_longer(x, y, v.0 * v.0 + v.1 * v.1, 1.0625, 1.0 / 4096.0), id + 1);
    };
    if w == PEN {
        let p = (a, &ta).penetrates((b, &tb));
        check(!deep | p.is_some(), 5);
        check(!apart | p.is_none(), 6);
        if deep {
            if let Some(v) = p {
                parted(world(v), 7);
            }
        }
    }
    if w == DST {
        let p = (a, &ta).distance_to((b, &tb));
        check(!deep | p.is_none(), 9);
        check(!apart | p.is_some(), 10);
        if apart {
            if let Some(v) = p {
                joined(world(v), 11);
            }
        }
    }
    if w == SDV {
        let (c, v) = (a, &ta).sdfv((b, &tb));
        check(!deep | c, 13);
        check(!apart | !c, 14);
        let v = ((v.x / k) as f64, (v.y / k) as f64);
        if deep {
            parted(v, 15);
        }
        if apart {
            joined(v, 17);
        }
    }
}
fn there(_: i64) -> Vec2 {
    Vec2::new(3.0, -1.25)
}
fn grid(n: i64) -> Vec2 {
    let x = int(-n, n) as f32 * 0.125;
    let y = int(-n, n) as f32 * 0.125;
    Vec2::new(x, y)
}
fn box_tri(w: u8, ka: i64, kb: i64, at: fn(i64) -> Vec2) {
    pair(w, &Box2d::with_halfdims(1.0, 2.0), &poly(TRI), corners(1.0, 2.0), pts(TRI), ka, kb, at, 16)
}
fn quad_box(w: u8, ka: i64, kb: i64, at: fn(i64) -> Vec2) {
    pair(w, &poly(QUAD), &Box2d::with_halfdims(1.5, 0.5), pts(QUAD), corners(1.5, 0.5), ka, kb, at, 16)
}
fn box_box(w: u8, ka: i64, kb: i64, at: fn(i64) -> Vec2) {
    pair(w, &Box2d::with_halfdims(1.0, 2.0), &Box2d::with_halfdims(1.5, 0.5), corners(1.0, 2.0), corners(1.5, 0.5), ka, kb, at, 16)
}
fn any_turn() -> Turn {
    let a = choose(8) as f32 * 0.8125 - 2.9375;
    (Rotor2d::from_angle(a), Fr((a as f64).cos(), (a as f64).sin()))
}
/// any of many angles and places, one by one
fn any(w: u8, k: i64) {
    any_u(w, k, 1.0)
}
fn any_u(w: u8, k: i64, m: f32) {
    let (ka, kb) = (any_turn(), any_turn());
    let pa = [Vec2::new(1.5, -0.75), Vec2::new(-40.25, 17.5)][choose(2) as usize];
    let u = (choose(15) - 7) as f32 * 0.4375;
    let (x, y) = [(u, 0.25f32), (-0.75, u), (u, 1.875)][choose(3) as usize];
    let (b1, b2) = (Box2d::with_halfdims(m, 2.0 * m), Box2d::with_halfdims(1.5 * m, 0.5 * m));
    let big = |v: &[(f32, f32)]| poly(&v.iter().map(|p| (p.0 * m, p.1 * m)).collect::<Vec<_>>());
    match k {
        6 => return pair_at(w, &b1, &big(TRI), corners(1.0, 2.0), pts(TRI), ka, kb, pa, x, y, m),
        7 => return pair_at(w, &big(QUAD), &b2, pts(QUAD), corners(1.5, 0.5), ka, kb, pa, x, y, m),
        8 => return pair_at(w, &b1, &b2, corners(1.0, 2.0), corners(1.5, 0.5), ka, kb, pa, x, y, m),
        9 => return pair_at(w, &big(PENT), &big(SLIM), pts(PENT), pts(SLIM), ka, kb, pa, x, y, m),
        _ => {}
    }
    let fq = if k == 4 { kb.1 } else { ka.1 };
    let pb = wh(fq, pa, x, y);
    let (r, r2) = match k {
        1 | 2 | 5 => (0.75, 0.0),
        3 => (0.75, 1.25),
        _ => (0.0, 0.0),
    };
    let h = if matches!(k, 0 | 1 | 4) { Vec2::new(1.5, 0.5) } else { Vec2::ZERO };
    let (hx, hy, x, y) = (h.x as f64, h.y as f64, x as f64, y as f64);
    let q = Sit { hx, hy, r: r as f64 + r2 as f64, x, y, s: sd(hx, hy, r as f64 + r2 as f64, x, y), tol: TOL };
    assume(near(&q));
    let ta = Transform2d { pos: pa * m, rot: ka.0, scale: Vec2::ONE };
    let tb = Transform2d { pos: pb * m, rot: kb.0, scale: Vec2::ONE };
    let (bx, ba) = (Box2d::new(h * m), Ball::with_radius(r * m));
    match k {
        0 => ask_u(w, (&bx, &ta), (&Point, &tb), &q, ka.1, fq, m),
        1 => ask_u(w, (&bx, &ta), (&ba, &tb), &q, ka.1, fq, m),
        2 => ask_u(w, (&ba, &ta), (&Point, &tb), &q, ka.1, fq, m),
        3 => ask_u(w, (&ba, &ta), (&Ball::with_radius(r2 * m), &tb), &q, ka.1, fq, m),
        4 => ask_u(w, (&Point, &ta), (&bx, &tb), &q, ka.1, fq, m),
        _ => ask_u(w, (&Point, &ta), (&ba, &tb), &q, ka.1, fq, m),
    }
}
fn um() -> f32 {
    [1.0f32 / 1048576.0, 1.0 / 256.0, 4096.0, 1048576.0][choose(4) as usize]
}
/// shapes with corners: the search directions shrink with the cube of the size
fn up() -> f32 {
    [1.0f32 / 65536.0, 1.0 / 256.0, 4096.0, 1048576.0][choose(4) as usize]
}
harnesses! {
    fn c10_u_v_closed() { any_u(VER, choose(6), um()) }
    fn c10_u_p_closed() { any_u(PEN, choose(6), um()) }
    fn c10_u_d_closed() { any_u(DST, choose(6), um()) }
    fn c10_u_s_closed() { any_u(SDV, choose(6), um()) }
    fn c10_u_v_poly() { any_u(VER, 6 + choose(4), up()) }
    fn c10_u_s_poly() { any_u(SDV, 6 + choose(4), up()) }
    fn c10_a_v_closed() { any(VER, choose(6)) }
    fn c10_a_p_closed() { any(PEN, choose(6)) }
    fn c10_a_d_closed() { any(DST, choose(6)) }
    fn c10_a_s_closed() { any(SDV, choose(6)) }
    fn c10_a_v_poly() { any(VER, 6 + choose(4)) }
    fn c10_a_p_poly() { any(PEN, 6 + choose(4)) }
    fn c10_a_d_poly() { any(DST, 6 + choose(4)) }
    fn c10_a_s_poly() { any(SDV, 6 + choose(4)) }
    fn c10_g_v_straight() { box_tri(VER, 0, 0, grid) }
    fn c10_g_v_over() { quad_box(VER, 4, 0, grid) }
    fn c10_g_v_turned() { box_tri(VER, 1, 2, there) }
    fn c10_g_v_boxes() { box_box(VER, 5, 3, there) }
    fn c10_g_p_over() { quad_box(PEN, 4, 0, grid) }
    fn c10_g_p_turned() { box_tri(PEN, 1, 2, there) }
    fn c10_g_d_over() { quad_box(DST, 4, 0, grid) }
    fn c10_g_d_turned() { box_tri(DST, 1, 2, there) }
    fn c10_g_s_over() { quad_box(SDV, 4, 0, grid) }
    fn c10_g_s_turned() { box_tri(SDV, 1, 2, there) }
    fn c10_g_s_boxes() { box_box(SDV, 5, 3, there) }
    fn c10_v_box_point() { turned(0, VER, 2) }
    fn c10_v_box_ball() { turned(1, VER, 2) }
    fn c10_v_ball_point() { turned(2, VER, 2) }
    fn c10_v_ball_ball() { turned(3, VER, 2) }
    fn c10_v_point_box() { turned(4, VER, 2) }
    fn c10_v_point_ball() { turned(5, VER, 2) }
    fn c10_p_box_point() { turned(0, PEN, 2) }
    fn c10_p_box_ball() { turned(1, PEN, 2) }
    fn c10_p_ball_ball() { turned(3, PEN, 2) }
    fn c10_p_point_box() { turned(4, PEN, 2) }
    fn c10_d_box_point() { turned(0, DST, 2) }
    fn c10_d_box_ball() { turned(1, DST, 2) }
    fn c10_d_ball_ball() { turned(3, DST, 2) }
    fn c10_d_point_box() { turned(4, DST, 2) }
    fn c10_s_box_point() { turned(0, SDV, 2) }
    fn c10_s_box_ball() { turned(1, SDV, 2) }
    fn c10_s_ball_point() { turned(2, SDV, 2) }
    fn c10_s_ball_ball() { turned(3, SDV, 2) }
    fn c10_s_point_box() { turned(4, SDV, 2) }
    fn c10_s_point_ball() { turned(5, SDV, 2) }
    fn c10_vec_box_ball() { moved_by(1, VER, |p| p) }
    fn c10_vec_box_ball_s() { moved_by(1, SDV, |p| p) }
    fn c10_vec_box_point_p() { moved_by(0, PEN, |p| p) }
    fn c10_vec_point_box_d() { moved_by(2, DST, |p| p) }
    fn c10_translate_box_ball() { moved_by(1, VER, Translate2d::new) }
    fn c10_translate_point_box_s() { moved_by(2, SDV, Translate2d::new) }
    fn c10_axis_box_ball() { moved_by(1, VER, |p| AxisTransform2d::new(p, 1.0)) }
    fn c10_axis_box_point_s() { moved_by(0, SDV, |p| AxisTransform2d::new(p, 1.0)) }
    fn c10_axis_point_box_d() { moved_by(2, DST, |p| AxisTransform2d::new(p, 1.0)) }
    fn c10_sdf_box_point() { scalar_placed(0, false) }
    fn c10_sdf_box_ball() { scalar_placed(1, false) }
    fn c10_sdf_ball_point() { scalar_placed(2, false) }
    fn c10_sdf_ball_ball() { scalar_placed(3, false) }
    fn c10_l_sdf_box_point() { scalar_placed(0, true) }
    fn c10_l_sdf_box_ball() { scalar_placed(1, true) }
    fn c10_l_sdf_ball_point() { scalar_placed(2, true) }
    fn c10_l_sdf_ball_ball() { scalar_placed(3, true) }
    fn c10_l_v_box_point() { turned_on(0, VER, 2, true) }
    fn c10_l_v_box_ball() { turned_on(1, VER, 2, true) }
    fn c10_l_v_ball_point() { turned_on(2, VER, 2, true) }
    fn c10_l_v_ball_ball() { turned_on(3, VER, 2, true) }
    fn c10_l_v_point_box() { turned_on(4, VER, 2, true) }
    fn c10_l_v_point_ball() { turned_on(5, VER, 2, true) }
    fn c10_l_p_box_point() { turned_on(0, PEN, 2, true) }
    fn c10_l_p_box_ball() { turned_on(1, PEN, 2, true) }
    fn c10_l_p_ball_point() { turned_on(2, PEN, 2, true) }
    fn c10_l_p_ball_ball() { turned_on(3, PEN, 2, true) }
    fn c10_l_p_point_box() { turned_on(4, PEN, 2, true) }
    fn c10_l_p_point_ball() { turned_on(5, PEN, 2, true) }
    fn c10_l_d_box_point() { turned_on(0, DST, 2, true) }
    fn c10_l_d_box_ball() { turned_on(1, DST, 2, true) }
    fn c10_l_d_ball_point() { turned_on(2, DST, 2, true) }
    fn c10_l_d_ball_ball() { turned_on(3, DST, 2, true) }
    fn c10_l_d_point_box() { turned_on(4, DST, 2, true) }
    fn c10_l_d_point_ball() { turned_on(5, DST, 2, true) }
    fn c10_l_s_box_point() { turned_on(0, SDV, 2, true) }
    fn c10_l_s_box_ball() { turned_on(1, SDV, 2, true) }
    fn c10_l_s_ball_point() { turned_on(2, SDV, 2, true) }
    fn c10_l_s_ball_ball() { turned_on(3, SDV, 2, true) }
    fn c10_l_s_point_box() { turned_on(4, SDV, 2, true) }
    fn c10_l_s_point_ball() { turned_on(5, SDV, 2, true) }
}
