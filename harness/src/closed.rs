//! Ball / box / point pairs (closed forms): C01 C02 C03 C04 C08 C09 C11.
use crate::harnesses;
use crate::sd::*;
use crate::sym::*;
use crate::trans::{fixed, frame};
use auburn::col2d::*;

const COL: u8 = 1;
const PEN: u8 = 2;
const DST: u8 = 4;
const AGREE: u8 = 8;
const FIN: u8 = 16;

/// How inputs are made: reals in a unit range, exactly representable grids
/// (which include every degenerate configuration), or reals at other scales.
#[derive(Clone, Copy)]
struct Dom {
    grid: bool,
    s: f32,
    wide: bool,
    // squared clearance from the point where the nearest-corner direction is undefined
    clear: f64,
}
const REAL: Dom = Dom { grid: false, wide: false, s: 1.0, clear: 1.0 / 4.0 };
const VERD: Dom = Dom { grid: false, wide: false, s: 1.0, clear: 1.0 / 16384.0 };
const TINY: Dom = Dom { grid: false, wide: false, s: 1.0 / 1024.0, clear: 1.0 / 4.0 };
const HUGE: Dom = Dom { grid: false, wide: false, s: 4096.0, clear: 1.0 / 4.0 };
const DUST: Dom = Dom { grid: false, wide: false, s: 1.0 / 1099511627776.0, clear: 1.0 / 4.0 };
const VAST: Dom = Dom { grid: false, wide: false, s: 1099511627776.0, clear: 1.0 / 4.0 };
/// Sizes far apart from each other: flat boxes, small shapes beside large ones.
const WIDE: Dom = Dom { grid: false, wide: true, s: 1.0, clear: 1.0 / 4.0 };
const GRID: Dom = Dom { grid: true, wide: false, s: 1.0, clear: 0.0 };
impl Dom {
    fn coord(self) -> f32 {
        if self.grid {
            int(-32, 32) as f32 * 0.125
        } else if self.wide {
            real(-96.0, 96.0)
        } else {
            real(-3.0, 3.0) * self.s
        }
    }
    fn size(self) -> f32 {
        if self.grid {
            int(0, 16) as f32 * 0.125
        } else if self.wide {
            real(1.0 / 64.0, 64.0)
        } else {
            real(0.25, 2.0) * self.s
        }
    }
    fn sit(self, hx: f32, hy: f32, r: f64, x: f32, y: f32) -> Sit {
        if !self.grid {
            let l2 = self.clear * self.s as f64 * self.s as f64;
            let (dx, dy) = (x.abs() as f64 - hx as f64, y.abs() as f64 - hy as f64);
            assume((dx <= 0.0) | (dy <= 0.0) | (dx * dx + dy * dy >= l2));
            if hx == 0.0 {
                assume(dx * dx + dy * dy >= l2)
            }
        }
        sit(hx, hy, r, x, y, self.s as f64 / 1024.0)
    }
}

fn ask<A, B>(w: u8, a: &A, b: &B, t: &Vec2, q: &Sit)
where
    A: CollidesRel2d<B, Vec2> + PenetratesRel2d<B, Vec2> + DistanceToRel2d<B, Vec2> + SdfvRel2d<B, Vec2>,
{
    if w == COL {
        verdict(q, a.collides_rel(b, t), 1);
    }
    if w == PEN {
        pen(q, a.penetrates_rel(b, t), 1);
    }
    if w == DST {
        dst(q, a.distance_to_rel(b, t), 1);
    }
    if w == AGREE {
        let c = a.collides_rel(b, t);
        let p = a.penetrates_rel(b, t);
        let d = a.distance_to_rel(b, t);
        let (f, v) = a.sdfv_rel(b, t);
        let off = (q.s > q.tol) | (q.s < -q.tol);
        check(!off | (c == f), 1);
        check(!off | (p.is_some() == f), 2);
        check(!off | (d.is_none() == f), 3);
        if off {
            if let Some(p) = p {
                same(p, v, q.tol, 4);
            }
            if let Some(d) = d {
                same(d, v, q.tol, 5);
            }
        }
    }
    if w == FIN {
        let _ = a.collides_rel(b, t);
        if let Some(p) = a.penetrates_rel(b, t) {
            finite(p, 1);
        }
        if let Some(d) = a.distance_to_rel(b, t) {
            finite(d, 2);
        }
        finite(a.sdfv_rel(b, t).1, 3);
    }
}
fn same(a: Vec2, b: Vec2, tol: f64, id: u32) {
    let (dx, dy) = (a.x as f64 - b.x as f64, a.y as f64 - b.y as f64);
    check((dx < tol) & (dx > -tol) & (dy < tol) & (dy > -tol), id);
}
fn at(d: Dom) -> (f32, f32, Vec2) {
    let (x, y) = (d.coord(), d.coord());
    (x, y, Vec2::new(x, y))
}
// the seven pairs
fn xp(d: Dom, w: u8) {
    let (hx, hy) = (d.size(), d.size());
    let (x, y, t) = at(d);
    let q = d.sit(hx, hy, 0.0, x, y);
    ask(w, &Box2d::with_halfdims(hx, hy), &Point, &t, &q);
}
fn px(d: Dom, w: u8) {
    let (hx, hy) = (d.size(), d.size());
    let (x, y, t) = at(d);
    let q = d.sit(hx, hy, 0.0, x, y);
    ask(w, &Point, &Box2d::with_halfdims(hx, hy), &t, &q);
}
fn xb(d: Dom, w: u8) {
    let (hx, hy) = (d.size(), d.size());
    let r = d.size();
    let (x, y, t) = at(d);
    let q = d.sit(hx, hy, r as f64, x, y);
    ask(w, &Box2d::with_halfdims(hx, hy), &Ball::with_radius(r), &t, &q);
}
fn bp(d: Dom, w: u8) {
    let r = d.size();
    let (x, y, t) = at(d);
    let q = d.sit(0.0, 0.0, r as f64, x, y);
    ask(w, &Ball::with_radius(r), &Point, &t, &q);
}
fn pb(d: Dom, w: u8) {
    let r = d.size();
    let (x, y, t) = at(d);
    let q = d.sit(0.0, 0.0, r as f64, x, y);
    ask(w, &Point, &Ball::with_radius(r), &t, &q);
}
fn bb(d: Dom, w: u8) {
    let (r, r2) = (d.size(), d.size());
    let (x, y, t) = at(d);
    let q = d.sit(0.0, 0.0, r as f64 + r2 as f64, x, y);
    ask(w, &Ball::with_radius(r), &Ball::with_radius(r2), &t, &q);
}
fn pp(d: Dom, w: u8) {
    let (x, y, t) = at(d);
    let q = d.sit(0.0, 0.0, 0.0, x, y);
    ask(w, &Point, &Point, &t, &q);
}
/// Scalar forms.
fn scal<A: SdfRel2d<B>, B>(a: &A, b: &B, t: &Vec2, q: &Sit) {
    scalar(q, a.sdf_rel(b, t), 1);
}
fn s_all(d: Dom, k: i64) {
    let (hx, hy, r) = if k == 0 {
        (d.size(), d.size(), 0.0)
    } else if k == 1 {
        (d.size(), d.size(), d.size())
    } else if k == 4 {
        (0.0, 0.0, 0.0)
    } else {
        (0.0, 0.0, d.size())
    };
    let r2 = if k == 3 { d.size() } else { 0.0 };
    let (x, y, t) = at(d);
    let q = d.sit(hx, hy, r as f64 + r2 as f64, x, y);
    let b = Box2d::with_halfdims(hx, hy);
    match k {
        0 => scal(&b, &Point, &t, &q),
        1 => scal(&b, &Ball::with_radius(r), &t, &q),
        2 => scal(&Ball::with_radius(r), &Point, &t, &q),
        3 => scal(&Ball::with_radius(r), &Ball::with_radius(r2), &t, &q),
        _ => scal(&Point, &Point, &t, &q),
    }
}
/// (a, b at t) against (b, a at -t)
fn swap<A, B>(a: &A, b: &B, t: &Vec2, q: &Sit)
where
    A: CollidesRel2d<B, Vec2> + PenetratesRel2d<B, Vec2> + DistanceToRel2d<B, Vec2> + SdfvRel2d<B, Vec2>,
    B: CollidesRel2d<A, Vec2> + PenetratesRel2d<A, Vec2> + DistanceToRel2d<A, Vec2> + SdfvRel2d<A, Vec2>,
{
    let u = t.inverse();
    let off = (q.s > q.tol) | (q.s < -q.tol);
    assume(off);
    check(a.collides_rel(b, t) == b.collides_rel(a, &u), 1);
    let (f, v) = a.sdfv_rel(b, t);
    let (g, w) = b.sdfv_rel(a, &u);
    check(f == g, 2);
    same(v, -w, q.tol, 3);
    let (p, o) = (a.penetrates_rel(b, t), b.penetrates_rel(a, &u));
    check(p.is_some() == o.is_some(), 4);
    if let (Some(p), Some(o)) = (p, o) {
        same(p, -o, q.tol, 5);
    }
    let (p, o) = (a.distance_to_rel(b, t), b.distance_to_rel(a, &u));
    check(p.is_some() == o.is_some(), 6);
    if let (Some(p), Some(o)) = (p, o) {
        same(p, -o, q.tol, 7);
    }
}
fn sw(d: Dom, k: u8) {
    let (hx, hy) = if k == 0 { (d.size(), d.size()) } else { (0.0, 0.0) };
    let r = if k > 0 { d.size() } else { 0.0 };
    let r2 = if k == 2 { d.size() } else { 0.0 };
    let (x, y, t) = at(d);
    let q = d.sit(hx, hy, r as f64 + r2 as f64, x, y);
    if k > 0 {
        assume(x as f64 * x as f64 + y as f64 * y as f64 > 0.0);
    } else {
        // a tie between two faces or signs may be broken either way
        let g = if d.grid { 0.0 } else { 1.0 / 1024.0 };
        let k = (x.abs() as f64 - hx as f64) - (y.abs() as f64 - hy as f64);
        assume((x != 0.0) & (y != 0.0) & ((k > g) | (k < -g)));
    }
    match k {
        0 => swap(&Box2d::with_halfdims(hx, hy), &Point, &t, &q),
        1 => swap(&Ball::with_radius(r), &Point, &t, &q),
        _ => swap(&Ball::with_radius(r), &Ball::with_radius(r2), &t, &q),
    }
}
/// As `swap`, the second shape also turned; `w` is expressed in its axes.
fn turn_swap<A, B>(a: &A, b: &B, k: i64, d: Dom, x: f32, y: f32, q: &Sit)
where
    A: CollidesRel2d<B, Transform2d> + PenetratesRel2d<B, Transform2d> + DistanceToRel2d<B, Transform2d> + SdfvRel2d<B, Transform2d>,
    B: CollidesRel2d<A, Transform2d> + PenetratesRel2d<A, Transform2d> + DistanceToRel2d<A, Transform2d> + SdfvRel2d<A, Transform2d>,
{
    let t = Transform2d { pos: Vec2::new(x, y), rot: fixed(k), scale: Vec2::ONE };
    let u = t.inverse();
    let f = frame(k);
    let tol = d.s as f64 / 128.0;
    assume((q.s > q.tol) | (q.s < -q.tol));
    check(a.collides_rel(b, &t) == b.collides_rel(a, &u), 1);
    let back = |w: Vec2| {
        let w = f.to(w.x as f64, w.y as f64);
        Vec2::new(w.0 as f32, w.1 as f32)
    };
    let (g, v) = a.sdfv_rel(b, &t);
    let (h, w) = b.sdfv_rel(a, &u);
    check(g == h, 2);
    same(v, -back(w), tol, 3);
    let (p, o) = (a.penetrates_rel(b, &t), b.penetrates_rel(a, &u));
    check(p.is_some() == o.is_some(), 4);
    if let (Some(p), Some(o)) = (p, o) {
        same(p, -back(o), tol, 5);
    }
    let (p, o) = (a.distance_to_rel(b, &t), b.distance_to_rel(a, &u));
    check(p.is_some() == o.is_some(), 6);
    if let (Some(p), Some(o)) = (p, o) {
        same(p, -back(o), tol, 7);
    }
}
fn ts(d: Dom, k: u8, c: i64) {
    let (hx, hy) = if k == 0 { (d.size(), d.size()) } else { (0.0, 0.0) };
    let r = if k > 0 { d.size() } else { 0.0 };
    let r2 = if k == 2 { d.size() } else { 0.0 };
    let (x, y, _) = at(d);
    let q = d.sit(hx, hy, r as f64 + r2 as f64, x, y);
    if k == 0 {
        // ties between faces, and contact, are left out
        let g = 1.0 / 64.0;
        let k = (x.abs() as f64 - hx as f64) - (y.abs() as f64 - hy as f64);
        assume(((x > g) | (x < -g)) & ((y > g) | (y < -g)) & ((k > g as f64) | (k < -g as f64)));
    }
    match k {
        0 => turn_swap(&Box2d::with_halfdims(hx, hy), &Point, c, d, x, y, &q),
        1 => turn_swap(&Ball::with_radius(r), &Point, c, d, x, y, &q),
        _ => turn_swap(&Ball::with_radius(r), &Ball::with_radius(r2), c, d, x, y, &q),
    }
}

harnesses! {
    fn c01_box_point() { xp(VERD, COL) }
    fn c01_point_box() { px(VERD, COL) }
    fn c01_box_ball() { xb(VERD, COL) }
    fn c01_ball_point() { bp(VERD, COL) }
    fn c01_point_ball() { pb(VERD, COL) }
    fn c01_ball_ball() { bb(VERD, COL) }
    fn c01_point_point() { pp(VERD, COL) }
    fn c01_box_point_grid() { xp(GRID, COL) }
    fn c01_point_box_grid() { px(GRID, COL) }
    fn c01_box_ball_grid() { xb(GRID, COL) }
    fn c01_ball_point_grid() { bp(GRID, COL) }
    fn c01_point_ball_grid() { pb(GRID, COL) }
    fn c01_ball_ball_grid() { bb(GRID, COL) }
    fn c01_point_point_grid() { pp(GRID, COL) }
    fn c01_box_ball_tiny() { xb(TINY, COL) }
    fn c01_box_ball_huge() { xb(HUGE, COL) }
    fn c01_ball_ball_tiny() { bb(TINY, COL) }
    fn c01_ball_ball_huge() { bb(HUGE, COL) }
    fn c01_box_ball_dust() { xb(DUST, COL) }
    fn c01_ball_ball_dust() { bb(DUST, COL) }
    fn c01_box_point_dust() { xp(DUST, COL) }
    fn c01_point_box_dust() { px(DUST, COL) }
    fn c01_ball_point_dust() { bp(DUST, COL) }
    fn c01_point_ball_dust() { pb(DUST, COL) }
    fn c01_box_ball_vast() { xb(VAST, COL) }
    fn c01_ball_ball_vast() { bb(VAST, COL) }
    fn c01_box_point_vast() { xp(VAST, COL) }
    fn c01_point_box_vast() { px(VAST, COL) }
    fn c01_ball_point_vast() { bp(VAST, COL) }
    fn c01_point_ball_vast() { pb(VAST, COL) }
    fn c01_box_ball_wide() { xb(WIDE, COL) }
    fn c01_ball_ball_wide() { bb(WIDE, COL) }
    fn c01_box_point_wide() { xp(WIDE, COL) }
    fn c01_point_box_wide() { px(WIDE, COL) }
    fn c01_ball_point_wide() { bp(WIDE, COL) }
    fn c01_point_ball_wide() { pb(WIDE, COL) }

    fn c02_box_point() { xp(REAL, PEN) }
    fn c02_point_box() { px(REAL, PEN) }
    fn c02_box_ball() { xb(REAL, PEN) }
    fn c02_ball_point() { bp(REAL, PEN) }
    fn c02_point_ball() { pb(REAL, PEN) }
    fn c02_ball_ball() { bb(REAL, PEN) }
    fn c02_box_point_grid() { xp(GRID, PEN) }
    fn c02_point_box_grid() { px(GRID, PEN) }
    fn c02_box_ball_grid() { xb(GRID, PEN) }
    fn c02_ball_point_grid() { bp(GRID, PEN) }
    fn c02_point_ball_grid() { pb(GRID, PEN) }
    fn c02_ball_ball_grid() { bb(GRID, PEN) }
    fn c02_box_ball_tiny() { xb(TINY, PEN) }
    fn c02_box_ball_huge() { xb(HUGE, PEN) }
    fn c02_ball_ball_tiny() { bb(TINY, PEN) }
    fn c02_ball_ball_huge() { bb(HUGE, PEN) }
    fn c02_box_ball_dust() { xb(DUST, PEN) }
    fn c02_ball_ball_dust() { bb(DUST, PEN) }
    fn c02_box_point_dust() { xp(DUST, PEN) }
    fn c02_point_box_dust() { px(DUST, PEN) }
    fn c02_ball_point_dust() { bp(DUST, PEN) }
    fn c02_point_ball_dust() { pb(DUST, PEN) }
    fn c02_box_ball_vast() { xb(VAST, PEN) }
    fn c02_ball_ball_vast() { bb(VAST, PEN) }
    fn c02_box_point_vast() { xp(VAST, PEN) }
    fn c02_point_box_vast() { px(VAST, PEN) }
    fn c02_ball_point_vast() { bp(VAST, PEN) }
    fn c02_point_ball_vast() { pb(VAST, PEN) }
    fn c02_box_ball_wide() { xb(WIDE, PEN) }
    fn c02_ball_ball_wide() { bb(WIDE, PEN) }
    fn c02_box_point_wide() { xp(WIDE, PEN) }
    fn c02_point_box_wide() { px(WIDE, PEN) }
    fn c02_ball_point_wide() { bp(WIDE, PEN) }
    fn c02_point_ball_wide() { pb(WIDE, PEN) }

    fn c03_box_point() { xp(REAL, DST) }
    fn c03_point_box() { px(REAL, DST) }
    fn c03_box_ball() { xb(REAL, DST) }
    fn c03_ball_point() { bp(REAL, DST) }
    fn c03_point_ball() { pb(REAL, DST) }
    fn c03_ball_ball() { bb(REAL, DST) }
    fn c03_point_point() { pp(REAL, DST) }
    fn c03_box_point_grid() { xp(GRID, DST) }
    fn c03_point_box_grid() { px(GRID, DST) }
    fn c03_box_ball_grid() { xb(GRID, DST) }
    fn c03_ball_point_grid() { bp(GRID, DST) }
    fn c03_point_ball_grid() { pb(GRID, DST) }
    fn c03_ball_ball_grid() { bb(GRID, DST) }
    fn c03_point_point_grid() { pp(GRID, DST) }
    fn c03_box_ball_tiny() { xb(TINY, DST) }
    fn c03_box_ball_huge() { xb(HUGE, DST) }
    fn c03_ball_ball_tiny() { bb(TINY, DST) }
    fn c03_ball_ball_huge() { bb(HUGE, DST) }
    fn c03_box_ball_dust() { xb(DUST, DST) }
    fn c03_ball_ball_dust() { bb(DUST, DST) }
    fn c03_box_point_dust() { xp(DUST, DST) }
    fn c03_point_box_dust() { px(DUST, DST) }
    fn c03_ball_point_dust() { bp(DUST, DST) }
    fn c03_point_ball_dust() { pb(DUST, DST) }
    fn c03_box_ball_vast() { xb(VAST, DST) }
    fn c03_ball_ball_vast() { bb(VAST, DST) }
    fn c03_box_point_vast() { xp(VAST, DST) }
    fn c03_point_box_vast() { px(VAST, DST) }
    fn c03_ball_point_vast() { bp(VAST, DST) }
    fn c03_point_ball_vast() { pb(VAST, DST) }
    fn c03_box_ball_wide() { xb(WIDE, DST) }
    fn c03_ball_ball_wide() { bb(WIDE, DST) }
    fn c03_box_point_wide() { xp(WIDE, DST) }
    fn c03_point_box_wide() { px(WIDE, DST) }
    fn c03_ball_point_wide() { bp(WIDE, DST) }
    fn c03_point_ball_wide() { pb(WIDE, DST) }

    fn c04_box_point() { s_all(VERD, 0) }
    fn c04_box_ball() { s_all(VERD, 1) }
    fn c04_ball_point() { s_all(VERD, 2) }
    fn c04_ball_ball() { s_all(VERD, 3) }
    fn c04_point_point() { s_all(VERD, 4) }
    fn c04_box_point_grid() { s_all(GRID, 0) }
    fn c04_box_ball_grid() { s_all(GRID, 1) }
    fn c04_ball_point_grid() { s_all(GRID, 2) }
    fn c04_ball_ball_grid() { s_all(GRID, 3) }
    fn c04_point_point_grid() { s_all(GRID, 4) }
    fn c04_box_ball_tiny() { s_all(TINY, 1) }
    fn c04_box_ball_huge() { s_all(HUGE, 1) }
    fn c04_box_point_huge() { s_all(HUGE, 0) }
    fn c04_ball_ball_tiny() { s_all(TINY, 3) }
    fn c04_box_point_dust() { s_all(DUST, 0) }
    fn c04_box_ball_dust() { s_all(DUST, 1) }
    fn c04_ball_point_dust() { s_all(DUST, 2) }
    fn c04_ball_ball_dust() { s_all(DUST, 3) }
    fn c04_box_point_vast() { s_all(VAST, 0) }
    fn c04_box_ball_vast() { s_all(VAST, 1) }
    fn c04_ball_point_vast() { s_all(VAST, 2) }
    fn c04_ball_ball_vast() { s_all(VAST, 3) }
    fn c04_box_point_wide() { s_all(WIDE, 0) }
    fn c04_box_ball_wide() { s_all(WIDE, 1) }
    fn c04_ball_point_wide() { s_all(WIDE, 2) }
    fn c04_ball_ball_wide() { s_all(WIDE, 3) }

    fn c08_box_point() { xp(REAL, AGREE) }
    fn c08_point_box() { px(REAL, AGREE) }
    fn c08_box_ball() { xb(REAL, AGREE) }
    fn c08_ball_point() { bp(REAL, AGREE) }
    fn c08_point_ball() { pb(REAL, AGREE) }
    fn c08_ball_ball() { bb(REAL, AGREE) }
    fn c08_point_point() { pp(REAL, AGREE) }
    fn c08_box_point_grid() { xp(GRID, AGREE) }
    fn c08_box_ball_grid() { xb(GRID, AGREE) }
    fn c08_ball_ball_grid() { bb(GRID, AGREE) }
    fn c08_point_box_grid() { px(GRID, AGREE) }

    fn c09_box_point() { sw(REAL, 0) }
    fn c09_ball_point() { sw(REAL, 1) }
    fn c09_ball_ball() { sw(REAL, 2) }
    fn c09_box_point_turned() { ts(REAL, 0, 1) }
    fn c09_ball_point_half() { ts(REAL, 1, 4) }
    fn c09_ball_ball_half() { ts(REAL, 2, 4) }
    fn c09_box_point_quarter() { ts(REAL, 0, 2) }
    fn c09_box_point_grid() { sw(GRID, 0) }
    fn c09_ball_point_grid() { sw(GRID, 1) }
    fn c09_ball_ball_grid() { sw(GRID, 2) }

    fn c11_box_point() { xp(GRID, FIN) }
    fn c11_point_box() { px(GRID, FIN) }
    fn c11_box_ball() { xb(GRID, FIN) }
    fn c11_ball_point() { bp(GRID, FIN) }
    fn c11_point_ball() { pb(GRID, FIN) }
    fn c11_ball_ball() { bb(GRID, FIN) }
    fn c11_point_point() { pp(GRID, FIN) }
}
