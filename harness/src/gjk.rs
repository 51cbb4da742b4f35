//! Box / polygon queries through the general algorithm: C05 C06 C07 C08 C09 C11.
use crate::geo::*;
use crate::harnesses;
use crate::sd;
use crate::sym::*;
use auburn::col2d::*;

use crate::cat::*;

pub const BAND: f64 = 1.0 / 1024.0;
pub const TOL: f64 = 1.0 / 512.0;

pub const COL: u8 = 1;
pub const PEN: u8 = 2;
pub const DST: u8 = 4;
pub const ALL: u8 = 8;
pub const FIN: u8 = 16;
pub const SWAP: u8 = 32;

/// Verdict bands around exact contact: (certainly overlapping, certainly apart)
pub struct Sit {
    deep: bool,
    apart: bool,
}
pub trait Oracle {
    fn sit(&self) -> Sit;
    /// `v` separates (up to the tolerance) and is not longer than allowed
    fn pen(&self, v: Vec2, id: u32);
    /// `v` brings into contact and is not longer than the gap
    fn dst(&self, v: Vec2, id: u32);
    /// size of the shapes
    fn unit(&self) -> f64 {
        1.0
    }
}
pub struct Mo<'a> {
    pub m: &'a Md,
    pub x: f64,
    pub y: f64,
}
impl Oracle for Mo<'_> {
    fn sit(&self) -> Sit {
        Sit { deep: self.m.inside(self.x, self.y, -BAND), apart: !self.m.inside(self.x, self.y, BAND) }
    }
    fn pen(&self, v: Vec2, id: u32) {
        let (vx, vy) = (v.x as f64, v.y as f64);
        // moving the first shape by v moves the origin of the difference by -v
        check(!self.m.inside(self.x - vx, self.y - vy, -TOL), id);
        check(self.m.not_deeper(self.x, self.y, vx * vx + vy * vy, 1.03125, TOL), id + 1);
    }
    fn dst(&self, v: Vec2, id: u32) {
        let (vx, vy) = (v.x as f64, v.y as f64);
        check(self.m.inside(self.x - vx, self.y - vy, TOL), id);
        check(self.m.not_longer(self.x, self.y, vx * vx + vy * vy, 1.0625, 1.0 / 65536.0), id + 1);
    }
}
/// The same situation at another scale (a power of two).
pub struct Zo<'a> {
    pub o: Mo<'a>,
    pub k: f64,
}
impl Zo<'_> {
    fn back(&self, v: Vec2) -> Vec2 {
        let k = (1.0 / self.k) as f32;
        Vec2::new(v.x * k, v.y * k)
    }
}
impl Oracle for Zo<'_> {
    fn sit(&self) -> Sit {
        self.o.sit()
    }
    fn pen(&self, v: Vec2, id: u32) {
        self.o.pen(self.back(v), id)
    }
    fn dst(&self, v: Vec2, id: u32) {
        self.o.dst(self.back(v), id)
    }
    fn unit(&self) -> f64 {
        self.k
    }
}
/// A point against a box (the difference of two boxes), sizes may be symbolic.
pub struct Bo {
    pub hx: f64,
    pub hy: f64,
    pub x: f64,
    pub y: f64,
}
impl Bo {
    fn inside(&self, x: f64, y: f64, s: f64) -> bool {
        (x < self.hx + s) & (-x < self.hx + s) & (y < self.hy + s) & (-y < self.hy + s)
    }
}
impl Oracle for Bo {
    fn sit(&self) -> Sit {
        Sit { deep: self.inside(self.x, self.y, -BAND), apart: !self.inside(self.x, self.y, BAND) }
    }
    fn pen(&self, v: Vec2, id: u32) {
        let (vx, vy) = (v.x as f64, v.y as f64);
        check(!self.inside(self.x - vx, self.y - vy, -TOL), id);
        let l2 = vx * vx + vy * vy;
        let (dx, dy) = (self.hx - self.x.abs(), self.hy - self.y.abs());
        let (dx, dy) = (dx * 1.03125 + TOL, dy * 1.03125 + TOL);
        check((l2 <= dx * dx) & (l2 <= dy * dy), id + 1);
    }
    fn dst(&self, v: Vec2, id: u32) {
        let (vx, vy) = (v.x as f64, v.y as f64);
        check(self.inside(self.x - vx, self.y - vy, TOL), id);
        let l2 = vx * vx + vy * vy;
        let (dx, dy) = (self.x.abs() - self.hx, self.y.abs() - self.hy);
        let t = 1.0 / 65536.0;
        check((dy > 0.0) | (l2 <= dx * dx * 1.0625 + t), id + 1);
        check((dx > 0.0) | (l2 <= dy * dy * 1.0625 + t), id + 1);
        check((dx < 0.0) | (dy < 0.0) | (l2 <= (dx * dx + dy * dy) * 1.0625 + t), id + 1);
    }
}

pub fn judge<A, B, T>(w: u8, a: &A, b: &B, o: &impl Oracle, t: &T)
where
    T: Transformation2d,
    A: CollidesRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T> + SdfvRel2d<B, T>,
{
    if w == FIN {
        let _ = a.collides_rel(b, t);
        if let Some(p) = a.penetrates_rel(b, t) {
            sd::finite(p, 1);
        }
        if let Some(d) = a.distance_to_rel(b, t) {
            sd::finite(d, 2);
        }
        sd::finite(a.sdfv_rel(b, t).1, 3);
        return;
    }
    let s = o.sit();
    if w == COL {
        let c = a.collides_rel(b, t);
        check(!s.deep | c, 1);
        check(!s.apart | !c, 2);
    }
    if w == PEN {
        let p = a.penetrates_rel(b, t);
        check(!s.deep | p.is_some(), 1);
        check(!s.apart | p.is_none(), 2);
        if s.deep {
            if let Some(v) = p {
                o.pen(v, 3);
            }
        }
    }
    if w == DST {
        let p = a.distance_to_rel(b, t);
        check(!s.deep | p.is_none(), 1);
        check(!s.apart | p.is_some(), 2);
        if s.apart {
            if let Some(v) = p {
                o.dst(v, 3);
            }
        }
    }
    if w == ALL {
        if s.deep | s.apart {
            let c = a.collides_rel(b, t);
            let p = a.penetrates_rel(b, t);
            let d = a.distance_to_rel(b, t);
            let (f, v) = a.sdfv_rel(b, t);
            check(c == f, 1);
            check(p.is_some() == f, 2);
            check(d.is_none() == f, 3);
            if let Some(p) = p {
                same(p, v, o.unit(), 4);
            }
            if let Some(d) = d {
                same(d, v, o.unit(), 5);
            }
            if s.deep {
                o.pen(v, 6);
            } else {
                o.dst(v, 8);
            }
        }
    }
}
fn same(a: Vec2, b: Vec2, k: f64, id: u32) {
    let t = k / 1024.0;
    let (dx, dy) = (a.x as f64 - b.x as f64, a.y as f64 - b.y as f64);
    check((dx < t) & (dx > -t) & (dy < t) & (dy > -t), id);
}
/// (a, b at t) against (b, a at -t): same verdict, equally long vectors
fn swap<A, B>(a: &A, b: &B, o: &impl Oracle, t: &Vec2)
where
    A: CollidesRel2d<B, Vec2> + PenetratesRel2d<B, Vec2> + DistanceToRel2d<B, Vec2>,
    B: CollidesRel2d<A, Vec2> + PenetratesRel2d<A, Vec2> + DistanceToRel2d<A, Vec2>,
{
    let u = t.inverse();
    let s = o.sit();
    if s.deep | s.apart {
        check(a.collides_rel(b, t) == b.collides_rel(a, &u), 1);
        if s.deep {
            if let (Some(p), Some(q)) = (a.penetrates_rel(b, t), b.penetrates_rel(a, &u)) {
                long(p, q, o.unit(), 3);
            } else {
                check(false, 2);
            }
        } else {
            if let (Some(p), Some(q)) = (a.distance_to_rel(b, t), b.distance_to_rel(a, &u)) {
                long(p, q, o.unit(), 5);
            } else {
                check(false, 4);
            }
        }
    }
}
fn long(p: Vec2, q: Vec2, k: f64, id: u32) {
    let (px, py, qx, qy) = (p.x as f64, p.y as f64, q.x as f64, q.y as f64);
    let (p2, q2) = (px * px + py * py, qx * qx + qy * qy);
    let t = k * k / 1024.0;
    check((p2 <= q2 * 1.0625 + t) & (q2 <= p2 * 1.0625 + t), id);
}

/// A position on the 1/8 grid.
pub fn place(n: i64) -> (f64, f64, Vec2) {
    let x = int(-n, n) as f32 * 0.125;
    let y = int(-n, n) as f32 * 0.125;
    (x as f64, y as f64, Vec2::new(x, y))
}
fn bt(w: u8) {
    let (x, y, t) = place(40);
    let (a, b) = (Box2d::with_halfdims(1.0, 2.0), poly(TRI));
    let m = Md::new(&corners(1.0, 2.0), &pts(TRI));
    let o = Mo { m: &m, x, y };
    if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
}
fn tb(w: u8) {
    let (x, y, t) = place(40);
    let (a, b) = (poly(TRI), Box2d::with_halfdims(1.5, 0.5));
    let m = Md::new(&pts(TRI), &corners(1.5, 0.5));
    judge(w, &a, &b, &Mo { m: &m, x, y }, &t);
}
fn pq(w: u8) {
    let (x, y, t) = place(60);
    let (a, b) = (poly(PENT), poly(QUAD));
    let m = Md::new(&pts(PENT), &pts(QUAD));
    let o = Mo { m: &m, x, y };
    if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
}
fn tt(w: u8) {
    let (x, y, t) = place(40);
    let (a, b) = (poly(TRI), poly(TRI));
    let m = Md::new(&pts(TRI), &pts(TRI));
    let o = Mo { m: &m, x, y };
    if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
}
fn hs(w: u8) {
    let (x, y, t) = place(64);
    let (a, b) = (poly(HEX), poly(SLIM));
    let m = Md::new(&pts(HEX), &pts(SLIM));
    let o = Mo { m: &m, x, y };
    if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
}
fn bx(w: u8) {
    let (x, y, t) = place(40);
    let (a, b) = (Box2d::with_halfdims(1.0, 2.0), Box2d::with_halfdims(1.5, 0.5));
    let o = Bo { hx: 2.5, hy: 2.5, x, y };
    if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
}
/// boxes of symbolic size
fn bs(w: u8) {
    let h = || int(1, 8) as f32 * 0.25;
    let (ax, ay, bx, by) = (h(), h(), h(), h());
    let (x, y, t) = place(40);
    let (a, b) = (Box2d::with_halfdims(ax, ay), Box2d::with_halfdims(bx, by));
    let o = Bo { hx: ax as f64 + bx as f64, hy: ay as f64 + by as f64, x, y };
    judge(w, &a, &b, &o, &t);
}
/// the same at other scales
fn sc(w: u8, k: f32) {
    let (x, y, t) = place(40);
    let t = Vec2::new(t.x * k, t.y * k);
    let (a, b) = (Box2d::with_halfdims(1.0 * k, 2.0 * k), Box2d::with_halfdims(1.5 * k, 0.5 * k));
    let (k, x, y) = (k as f64, x, y);
    let o = Bo { hx: 2.5 * k, hy: 2.5 * k, x: x * k, y: y * k };
    judge(w, &a, &b, &o, &t);
}
/// from dust to mountains, on a few lines
fn zoom(w: u8) {
    let k = [1.0f32 / 262144.0, 1.0 / 8192.0, 1.0 / 256.0, 1024.0, 1048576.0][choose(5) as usize];
    let pick = choose(2) == 0;
    let u = int(-48, 48) as f32 * 0.125;
    let (x, y) = [(u, 0.25f32), (-0.75, u), (u, 0.5 * u)][choose(3) as usize];
    let t = Vec2::new(x * k, y * k);
    let big = |v: &[(f32, f32)]| v.iter().map(|p| (p.0 * k, p.1 * k)).collect::<Vec<_>>();
    let (x, y) = (x as f64, y as f64);
    if pick {
        let m = Md::new(&pts(PENT), &pts(QUAD));
        let o = Zo { o: Mo { m: &m, x, y }, k: k as f64 };
        let (a, b) = (poly(&big(PENT)), poly(&big(QUAD)));
        if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
    } else {
        let m = Md::new(&corners(1.0, 2.0), &pts(TRI));
        let o = Zo { o: Mo { m: &m, x, y }, k: k as f64 };
        let (a, b) = (Box2d::with_halfdims(k, 2.0 * k), poly(&big(TRI)));
        if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
    }
}
/// a large polygon and one 512 times smaller, along its rim and inside
fn ratio(w: u8, flip: bool) {
    let k = 64.0f32;
    let (bx, by) = [(2.0f32, 0.0f32), (0.5, 2.0), (-1.5, 0.0), (1.25, 1.0), (0.25, 0.125)][choose(5) as usize];
    let u = int(-24, 24) as f32 * 0.25;
    let (dx, dy) = [(u, 0.5 * u), (u, 0.1875)][choose(2) as usize];
    let t = Vec2::new(bx * k + dx, by * k + dy);
    let big: Vec<(f32, f32)> = PENT.iter().map(|p| (p.0 * k, p.1 * k)).collect();
    let small: Vec<(f32, f32)> = TRI.iter().map(|p| (p.0 * 0.125, p.1 * 0.125)).collect();
    let tiny: Vec<P> = small.iter().map(|p| pt((p.0 / k) as f64, (p.1 / k) as f64)).collect();
    let (x, y) = ((t.x / k) as f64, (t.y / k) as f64);
    let (a, b) = (poly(&big), poly(&small));
    if flip {
        let m = Md::new(&tiny, &pts(PENT));
        let o = Zo { o: Mo { m: &m, x: -x, y: -y }, k: k as f64 };
        judge(w, &b, &a, &o, &-t)
    } else {
        let m = Md::new(&pts(PENT), &tiny);
        let o = Zo { o: Mo { m: &m, x, y }, k: k as f64 };
        if w == SWAP { swap(&a, &b, &o, &t) } else { judge(w, &a, &b, &o, &t) }
    }
}
/// polygons of 12 and 16 vertices, on a few lines
fn many(w: u8) {
    let u = int(-60, 60) as f32 * 0.125;
    let (x, y) = [(u, 0.5f32), (1.0, u), (u, u * 0.5)][choose(3) as usize];
    let t = Vec2::new(x, y);
    let (a, b) = (poly(DODE), poly(ROUND));
    let m = Md::new(&pts(DODE), &pts(ROUND));
    judge(w, &a, &b, &Mo { m: &m, x: x as f64, y: y as f64 }, &t);
}
/// shapes with many corners against a triangle
fn ring(w: u8) {
    let n = [20, 32, 48][choose(3) as usize];
    let u = int(-44, 44) as f32 * 0.125;
    let (x, y) = [(u, 0.5f32), (1.0, u), (u, u * 0.5)][choose(3) as usize];
    let t = Vec2::new(x, y);
    let v: Vec<(f32, f32)> = (0..n)
        .map(|i| {
            let a = i as f32 * (core::f32::consts::TAU / n as f32) + 0.03;
            ((a.cos() * 3072.0).round() / 1024.0, (a.sin() * 3072.0).round() / 1024.0)
        })
        .collect();
    let m = Md::ordered(&pts(&v), &pts(TRI));
    judge(w, &poly(&v), &poly(TRI), &Mo { m: &m, x: x as f64, y: y as f64 }, &t);
}
/// nearly concentric round shapes: more edges than the expansion has steps
fn oct(w: u8) {
    let (x, y) = (int(-3, 3) as f32 * 0.125, int(-3, 3) as f32 * 0.125);
    let t = Vec2::new(x, y);
    let (a, b) = (poly(OCT), poly(ROUND));
    let m = Md::new(&pts(OCT), &pts(ROUND));
    judge(w, &a, &b, &Mo { m: &m, x: x as f64, y: y as f64 }, &t);
}
/// long thin boxes
fn lng(w: u8) {
    let x = int(-80, 80) as f32 * 0.125;
    let y = int(-40, 40) as f32 * 0.125;
    let (a, b) = (Box2d::with_halfdims(8.0, 0.125), Box2d::with_halfdims(0.25, 4.0));
    judge(w, &a, &b, &Bo { hx: 8.25, hy: 4.125, x: x as f64, y: y as f64 }, &Vec2::new(x, y));
}
/// a sliver against a triangle
fn sliv(w: u8) {
    let (x, y, t) = place(80);
    let s: &[(f32, f32)] = &[(8.0, 0.5), (-8.0, 0.0), (4.0, -0.125)];
    let m = Md::new(&pts(s), &pts(TRI));
    judge(w, &poly(s), &poly(TRI), &Mo { m: &m, x, y }, &t);
}
/// far apart
fn far(w: u8) {
    let k = [8.0f32, 64.0, 512.0][choose(3) as usize];
    let x = int(-40, 40) as f32 * k;
    let y = int(-40, 40) as f32 * k;
    let m = Md::new(&corners(1.0, 2.0), &pts(TRI));
    judge(w, &Box2d::with_halfdims(1.0, 2.0), &poly(TRI), &Mo { m: &m, x: x as f64, y: y as f64 }, &Vec2::new(x, y));
}
/// the second shape scaled (not evenly) and turned by a quarter
fn scaled(w: u8, turned: bool) {
    let (x, y, t) = if turned {
        // on a few lines, off the grid's ties
        let u = int(-40, 40) as f32 * 0.125;
        let (x, y) = [(u, 0.3125f32), (1.0625, u), (u, 0.75 * u)][choose(3) as usize];
        (x as f64, y as f64, Vec2::new(x, y))
    } else {
        place(40)
    };
    let (c, s) = if turned { (0.0, 1.0f32) } else { (1.0, 0.0) };
    let rot = if turned { Rotor2d::from_angle(std::f32::consts::FRAC_PI_2) } else { Rotor2d::IDENTITY };
    let (kx, ky) = if choose(2) == 0 { (0.5f32, 1.5) } else { (2.0, 0.75) };
    let r = Transform2d { pos: t, rot, scale: Vec2::new(kx, ky) };
    let q: Vec<P> = pts(TRI).iter().map(|p| { let (a, b) = (p.x * kx as f64, p.y * ky as f64); pt(c * a - s as f64 * b, s as f64 * a + c * b) }).collect();
    let m = Md::new(&corners(1.0, 2.0), &q);
    judge(w, &Box2d::with_halfdims(1.0, 2.0), &poly(TRI), &Mo { m: &m, x, y }, &r);
}
/// uniformly scaled placement without rotation
fn axis(w: u8) {
    let (x, y, t) = place(48);
    let k = [0.25f32, 1.75, -1.5][choose(3) as usize];
    let q: Vec<P> = pts(QUAD).iter().map(|p| pt(p.x * k as f64, p.y * k as f64)).collect();
    let m = Md::new(&pts(TRI), &q);
    judge(w, &poly(TRI), &poly(QUAD), &Mo { m: &m, x, y }, &AxisTransform2d::new(t, k));
}
/// small shapes placed close to contact: a finer grid, a narrower band
fn fine(w: u8, tri: bool) {
    let k = 1.0f32 / 16.0;
    let u = |n: i64| int(-n, n) as f32 / 2048.0;
    let c = choose(3);
    let (x, y) = match c {
        0 => (2.5 * k + u(24), u(512)),
        1 => (u(512), -2.5 * k + u(24)),
        _ => (-2.5 * k + u(24), 2.5 * k + u(24)),
    };
    let t = Vec2::new(x, y);
    let a = Box2d::with_halfdims(1.0 * k, 2.0 * k);
    let (x, y) = (x as f64, y as f64);
    let band = 1.0 / 4096.0;
    if tri {
        let s: Vec<(f32, f32)> = TRI.iter().map(|p| (p.0 * k, p.1 * k)).collect();
        let m = Md::new(&corners(k, 2.0 * k), &pts(&s));
        let hit = a.collides_rel(&poly(&s), &t);
        check(!m.inside(x, y, -band) | hit, 1);
        check(m.inside(x, y, band) | !hit, 2);
    } else {
        let h = 2.5 * k as f64;
        let o = Bo { hx: h, hy: h, x, y };
        let b = Box2d::with_halfdims(1.5 * k, 0.5 * k);
        let hit = a.collides_rel(&b, &t);
        if w == COL {
            check(!o.inside(x, y, -band) | hit, 1);
            check(o.inside(x, y, band) | !hit, 2);
        }
    }
}
/// degenerate: zero-size and flat boxes, coincident shapes
fn dg() {
    let h = || int(0, 1) as f32;
    let (ax, ay, bx, by) = (h(), h(), h(), h());
    let x = int(-4, 4) as f32 * 0.5;
    let y = int(-4, 4) as f32 * 0.5;
    let (a, b) = (Box2d::with_halfdims(ax, ay), Box2d::with_halfdims(bx, by));
    let o = Bo { hx: 0.0, hy: 0.0, x: 0.0, y: 0.0 };
    judge(FIN, &a, &b, &o, &Vec2::new(x, y));
}
/// second shape turned by 3/5, 4/5
fn rot(w: u8) {
    let (x, y, t) = place(40);
    let r = Transform2d { pos: t, rot: Rotor2d::from_quaternion(auburn::Quat::from_xyzw(0.0, 0.0, 1.0, 2.0)), scale: Vec2::ONE };
    let (a, b) = (Box2d::with_halfdims(1.0, 2.0), Box2d::with_halfdims(1.5, 0.5));
    let q: Vec<P> = corners(1.5, 0.5).iter().map(|p| pt(0.6 * p.x - 0.8 * p.y, 0.8 * p.x + 0.6 * p.y)).collect();
    let m = Md::new(&corners(1.0, 2.0), &q);
    judge(w, &a, &b, &Mo { m: &m, x, y }, &r);
}
/// corners out of order, repeated, in the middle of a side
const ROUGH: &[(f32, f32)] = &[(0.0, -1.0), (2.0, -1.0), (0.0, 2.0), (2.0, -1.0), (-2.0, -1.0), (-1.0, 0.5), (0.0, 2.0)];
const BACK: &[(f32, f32)] = &[(0.5, -1.0), (-1.0, 0.5), (1.0, 2.0), (3.0, 0.0)];
fn rough(w: u8) {
    let (x, y, t) = place(48);
    let (a, b) = (poly(ROUGH), poly(BACK));
    let m = Md::new(&pts(TRI), &pts(QUAD));
    judge(w, &a, &b, &Mo { m: &m, x, y }, &t);
}
/// second shape upside down
fn flip(w: u8) {
    let (x, y, t) = place(60);
    let r = Transform2d { pos: t, rot: Rotor2d::from_quaternion(auburn::Quat::from_xyzw(0.0, 0.0, 1.0, 0.0)), scale: Vec2::ONE };
    let (a, b) = (poly(PENT), poly(QUAD));
    let q: Vec<P> = pts(QUAD).iter().map(|p| pt(-p.x, -p.y)).collect();
    let m = Md::new(&pts(PENT), &q);
    judge(w, &a, &b, &Mo { m: &m, x, y }, &r);
}
/// A point against a rounded box.
struct Ro {
    hx: f64,
    hy: f64,
    r: f64,
    x: f64,
    y: f64,
}
impl Oracle for Ro {
    fn sit(&self) -> Sit {
        let s = sd::sd(self.hx, self.hy, self.r, self.x, self.y);
        Sit { deep: s < -1.0 / 64.0, apart: s > 1.0 / 64.0 }
    }
    fn pen(&self, v: Vec2, id: u32) {
        let (vx, vy) = (v.x as f64, v.y as f64);
        let s = sd::sd(self.hx, self.hy, self.r, self.x, self.y);
        check(sd::sd(self.hx, self.hy, self.r, self.x - vx, self.y - vy) > -1.0 / 32.0, id);
        let l = -s * 1.03125 + 1.0 / 64.0;
        check(vx * vx + vy * vy <= l * l, id + 1);
    }
    fn dst(&self, v: Vec2, id: u32) {
        let (vx, vy) = (v.x as f64, v.y as f64);
        let s = sd::sd(self.hx, self.hy, self.r, self.x, self.y);
        check(sd::sd(self.hx, self.hy, self.r, self.x - vx, self.y - vy) < 1.0 / 32.0, id);
        let l = s * 1.03125 + 1.0 / 64.0;
        check(vx * vx + vy * vy <= l * l, id + 1);
    }
}
/// ball against box through the general algorithm
fn bb(w: u8) {
    let (x, y, t) = place(40);
    let (a, b) = (Ball::with_radius(1.0), Box2d::with_halfdims(1.5, 0.5));
    judge(w, &a, &b, &Ro { hx: 1.5, hy: 0.5, r: 1.0, x, y }, &t);
}
const SPUN: [Vec2; 4] = [Vec2::ONE, Vec2::new(0.5, 0.5), Vec2::new(2.0, 0.75), Vec2::new(-1.0, 1.5)];
/// many angles and scales of the second shape, placement by placement
fn spin(w: u8) {
    let a = choose(15) as f32 * 0.4375 - 3.0625;
    let s = SPUN[choose(4) as usize];
    let u = (choose(17) - 8) as f32 * 0.4375;
    let (x, y) = [(u, 0.25f32), (-0.75, u), (u, 2.375)][choose(3) as usize];
    spun(w, a, s, x, y);
}
/// the same, on whole lines
fn swing(w: u8) {
    let i = choose(15);
    let a = i as f32 * 0.4375 - 3.0625;
    let s = SPUN[(i % 4) as usize];
    let u = int(-60, 60) as f32 * 0.125;
    let (x, y) = [(u, 0.25f32), (-0.75, u), (u, 0.5 * u)][choose(3) as usize];
    spun(w, a, s, x, y);
}
fn spun(w: u8, a: f32, s: Vec2, x: f32, y: f32) {
    let r = Transform2d { pos: Vec2::new(x, y), rot: Rotor2d::from_angle(a), scale: s };
    let (c, n) = ((a as f64).cos(), (a as f64).sin());
    let q: Vec<P> = pts(QUAD)
        .iter()
        .map(|p| {
            let (x, y) = (s.x as f64 * p.x, s.y as f64 * p.y);
            pt(c * x - n * y, n * x + c * y)
        })
        .collect();
    let m = Md::new(&pts(PENT), &q);
    judge(w, &poly(PENT), &poly(QUAD), &Mo { m: &m, x: x as f64, y: y as f64 }, &r);
}
/// the same, placement by placement (a root of each support point otherwise nests in the next)
fn bbg(w: u8) {
    let k = choose(3);
    let (r, hx, hy) = [(1.0f32, 1.5f32, 0.5f32), (2.0, 0.25, 1.0), (0.25, 1.0, 1.0)][k as usize];
    let x = (choose(23) - 11) as f32 * 0.375 + 0.0625 * choose(2) as f32;
    let y = (choose(19) - 9) as f32 * 0.375;
    let (a, b) = (Ball::with_radius(r), Box2d::with_halfdims(hx, hy));
    judge(w, &a, &b, &Ro { hx: hx as f64, hy: hy as f64, r: r as f64, x: x as f64, y: y as f64 }, &Vec2::new(x, y));
}

harnesses! {
    fn c05_box_box() { bx(COL) }
    fn c05_box_tri() { bt(COL) }
    fn c05_tri_box() { tb(COL) }
    fn c05_tri_tri() { tt(COL) }
    fn c05_pent_quad() { pq(COL) }
    fn c05_hex_slim() { hs(COL) }
    fn c05_sizes() { bs(COL) }
    fn c05_small() { sc(COL, 0.125) }
    fn c05_fine_box() { fine(COL, false) }
    fn c05_fine_tri() { fine(COL, true) }
    fn c05_large() { sc(COL, 16.0) }
    fn c05_turned() { rot(COL) }
    fn c05_many() { many(COL) }
    fn c05_long() { lng(COL) }
    fn c05_sliver() { sliv(COL) }
    fn c05_scaled() { scaled(COL, false) }
    fn c05_scaled_turned() { scaled(COL, true) }
    fn c05_axis() { axis(COL) }
    fn c05_far() { far(COL) }
    fn c05_rough() { rough(COL) }
    fn c05_ring() { ring(COL) }
    fn c05_zoom() { zoom(COL) }
    fn c05_ratio() { ratio(COL, false) }
    fn c05_ratio_flip() { ratio(COL, true) }
    fn c05_spin() { spin(COL) }
    fn c05_swing() { swing(COL) }
    fn c05_ball_grid() { bbg(COL) }
    fn c05_flipped() { flip(COL) }
    fn c05_ball_box() { bb(COL) }

    fn c06_box_box() { bx(PEN) }
    fn c06_box_tri() { bt(PEN) }
    fn c06_tri_box() { tb(PEN) }
    fn c06_tri_tri() { tt(PEN) }
    fn c06_pent_quad() { pq(PEN) }
    fn c06_hex_slim() { hs(PEN) }
    fn c06_sizes() { bs(PEN) }
    fn c06_large() { sc(PEN, 16.0) }
    fn c06_ball_box() { bb(PEN) }
    fn c06_turned() { rot(PEN) }
    fn c06_oct() { oct(PEN) }
    fn c06_many() { many(PEN) }
    fn c06_long() { lng(PEN) }
    fn c06_sliver() { sliv(PEN) }
    fn c06_scaled() { scaled(PEN, false) }
    fn c06_scaled_turned() { scaled(PEN, true) }
    fn c06_axis() { axis(PEN) }
    fn c06_rough() { rough(PEN) }
    fn c06_ring() { ring(PEN) }
    fn c06_zoom() { zoom(PEN) }
    fn c06_ratio() { ratio(PEN, false) }
    fn c06_ratio_flip() { ratio(PEN, true) }
    fn c06_spin() { spin(PEN) }
    fn c06_swing() { swing(PEN) }
    fn c06_ball_grid() { bbg(PEN) }
    fn c06_flipped() { flip(PEN) }

    fn c07_box_box() { bx(DST) }
    fn c07_box_tri() { bt(DST) }
    fn c07_tri_box() { tb(DST) }
    fn c07_tri_tri() { tt(DST) }
    fn c07_pent_quad() { pq(DST) }
    fn c07_hex_slim() { hs(DST) }
    fn c07_sizes() { bs(DST) }
    fn c07_large() { sc(DST, 16.0) }
    fn c07_ball_box() { bb(DST) }
    fn c07_turned() { rot(DST) }
    fn c07_many() { many(DST) }
    fn c07_long() { lng(DST) }
    fn c07_sliver() { sliv(DST) }
    fn c07_scaled() { scaled(DST, false) }
    fn c07_scaled_turned() { scaled(DST, true) }
    fn c07_axis() { axis(DST) }
    fn c07_far() { far(DST) }
    fn c07_rough() { rough(DST) }
    fn c07_ring() { ring(DST) }
    fn c07_zoom() { zoom(DST) }
    fn c07_ratio() { ratio(DST, false) }
    fn c07_ratio_flip() { ratio(DST, true) }
    fn c07_spin() { spin(DST) }
    fn c07_swing() { swing(DST) }
    fn c07_ball_grid() { bbg(DST) }
    fn c07_flipped() { flip(DST) }

    fn c08_g_box_box() { bx(ALL) }
    fn c08_g_box_tri() { bt(ALL) }
    fn c08_g_pent_quad() { pq(ALL) }
    fn c08_g_oct() { oct(ALL) }
    fn c08_g_many() { many(ALL) }
    fn c08_g_long() { lng(ALL) }
    fn c08_g_sliver() { sliv(ALL) }
    fn c08_g_far() { far(ALL) }
    fn c08_g_scaled() { scaled(ALL, true) }
    fn c08_g_rough() { rough(ALL) }
    fn c08_g_ring() { ring(ALL) }
    fn c08_g_zoom() { zoom(ALL) }
    fn c08_g_ratio() { ratio(ALL, choose(2) == 0) }
    fn c08_g_spin() { spin(ALL) }
    fn c08_g_swing() { swing(ALL) }
    fn c08_g_ball_grid() { bbg(ALL) }
    fn c08_g_axis() { axis(ALL) }
    fn c08_g_sizes() { bs(ALL) }

    fn c09_g_box_box() { bx(SWAP) }
    fn c09_g_box_tri() { bt(SWAP) }
    fn c09_g_pent_quad() { pq(SWAP) }
    fn c09_g_zoom() { zoom(SWAP) }
    fn c09_g_ratio() { ratio(SWAP, false) }
    fn c09_g_tri_tri() { tt(SWAP) }
    fn c09_g_hex_slim() { hs(SWAP) }

    fn c11_g_box_box() { bx(FIN) }
    fn c11_g_box_tri() { bt(FIN) }
    fn c11_g_pent_quad() { pq(FIN) }
    fn c11_g_many() { many(FIN) }
    fn c11_g_long() { lng(FIN) }
    fn c11_g_sliver() { sliv(FIN) }
    fn c11_g_far() { far(FIN) }
    fn c11_g_scaled() { scaled(FIN, true) }
    fn c11_g_rough() { rough(FIN) }
    fn c11_g_ring() { ring(FIN) }
    fn c11_g_zoom() { zoom(FIN) }
    fn c11_g_ratio() { ratio(FIN, choose(2) == 0) }
    fn c11_g_spin() { spin(FIN) }
    fn c11_g_swing() { swing(FIN) }
    fn c11_g_ball_grid() { bbg(FIN) }
    fn c11_g_flat() { dg() }
}
