//! Oracle for ball / box / point pairs: every such pair is a point against a
//! box rounded by a radius.
use crate::sym::*;
use auburn::col2d::*;

/// Signed distance from (x,y) to the box (hx,hy) rounded by r.
pub fn sd(hx: f64, hy: f64, r: f64, x: f64, y: f64) -> f64 {
    let dx = if x < 0.0 { -x - hx } else { x - hx };
    let dy = if y < 0.0 { -y - hy } else { y - hy };
    if dx <= 0.0 {
        if dy <= 0.0 {
            (if dx > dy { dx } else { dy }) - r
        } else {
            dy - r
        }
    } else if dy <= 0.0 {
        dx - r
    } else {
        (dx * dx + dy * dy).sqrt() - r
    }
}
#[derive(Clone, Copy)]
pub struct Sit {
    pub hx: f64,
    pub hy: f64,
    pub r: f64,
    pub x: f64,
    pub y: f64,
    pub s: f64,
    pub tol: f64,
}
impl Sit {
    fn parts(&self) -> (f64, f64) {
        let dx = if self.x < 0.0 { -self.x - self.hx } else { self.x - self.hx };
        let dy = if self.y < 0.0 { -self.y - self.hy } else { self.y - self.hy };
        (dx, dy)
    }
    /// signed distance > t, without a root (r + t >= 0)
    pub fn above(&self, t: f64) -> bool {
        let (dx, dy) = self.parts();
        let k = self.r + t;
        if (dx > 0.0) & (dy > 0.0) {
            (k < 0.0) | (dx * dx + dy * dy > k * k)
        } else {
            (dx > k) | (dy > k)
        }
    }
    pub fn below(&self, t: f64) -> bool {
        let (dx, dy) = self.parts();
        let k = self.r + t;
        if (dx > 0.0) & (dy > 0.0) {
            (k > 0.0) & (dx * dx + dy * dy < k * k)
        } else {
            (dx < k) & (dy < k)
        }
    }
    /// the verdict, for placements whose own distance is another expression
    pub fn verdict(&self, c: bool, id: u32) {
        let (o, i) = (self.above(self.tol), self.below(-self.tol));
        check(!i | c, id);
        check(!o | !c, id + 1);
    }
    /// `v` leads to contact, the short way; without a root
    pub fn moved(&self, vx: f64, vy: f64, id: u32) {
        let n = Sit { x: self.x - vx, y: self.y - vy, ..*self };
        check(!n.above(self.tol), id);
        check(!n.below(-self.tol), id + 1);
        let l2 = vx * vx + vy * vy;
        let (dx, dy) = self.parts();
        if (dx > 0.0) & (dy > 0.0) {
            // along the line through the corner
            let ox = if self.x < 0.0 { -dx } else { dx };
            let oy = if self.y < 0.0 { -dy } else { dy };
            let c = vx * oy - vy * ox;
            check((c < 4.0 * self.tol) & (c > -4.0 * self.tol), id + 2);
            let a = dx * dx + dy * dy;
            let d = vx * ox + vy * oy;
            if a > self.r * self.r {
                check((d > 0.0) & (l2 <= a + self.tol), id + 3);
            } else {
                check(d < 0.0, id + 4);
            }
        } else {
            let m = if dx > dy { dx - self.r } else { dy - self.r };
            let k = (if m < 0.0 { -m } else { m }) + self.tol;
            check(l2 <= k * k, id + 5);
        }
    }
    pub fn scalar(&self, d: f32, id: u32) {
        let (dx, dy) = self.parts();
        let e = d as f64 + self.r;
        if (dx > 0.0) & (dy > 0.0) {
            let a = dx * dx + dy * dy;
            let (l, h) = (e - self.tol, e + self.tol);
            check(h >= 0.0, id);
            check(a <= h * h, id + 1);
            check((l <= 0.0) | (l * l <= a), id + 2);
        } else {
            let m = if dx > dy { dx } else { dy };
            check((e < m + self.tol) & (e > m - self.tol), id + 3);
        }
    }
}
pub fn sit(hx: f32, hy: f32, r: f64, x: f32, y: f32, tol: f64) -> Sit {
    let (hx, hy, x, y) = (hx as f64, hy as f64, x as f64, y as f64);
    Sit { hx, hy, r, x, y, s: sd(hx, hy, r, x, y), tol }
}
pub fn verdict(q: &Sit, c: bool, id: u32) {
    check((q.s > -q.tol) | c, id);
    check((q.s < q.tol) | !c, id + 1);
}
/// `v` moves the first shape, so the relative position by `-v`.
pub fn moved(q: &Sit, v: Vec2, id: u32) {
    moved64(q, v.x as f64, v.y as f64, id)
}
pub fn moved64(q: &Sit, vx: f64, vy: f64, id: u32) {
    let l2 = vx * vx + vy * vy;
    // length equals the distance (either sign)
    let (a, b) = (q.s - q.tol, q.s + q.tol);
    if q.s > 0.0 {
        check(((a < 0.0) | (l2 >= a * a)) & (l2 <= b * b), id);
    } else {
        check(((b > 0.0) | (l2 >= b * b)) & (l2 <= a * a), id);
    }
    // in contact afterwards
    let n = sd(q.hx, q.hy, q.r, q.x - vx, q.y - vy);
    check((n > -q.tol) & (n < q.tol), id + 1);
}
pub fn pen(q: &Sit, v: Option<Vec2>, id: u32) {
    check((q.s > -q.tol) | v.is_some(), id);
    check((q.s < q.tol) | v.is_none(), id + 1);
    if let Some(v) = v {
        if q.s < -32.0 * q.tol {
            moved(&Sit { tol: 8.0 * q.tol, ..*q }, v, id + 2);
        }
    }
}
pub fn dst(q: &Sit, v: Option<Vec2>, id: u32) {
    check((q.s < q.tol) | v.is_some(), id);
    check((q.s > -q.tol) | v.is_none(), id + 1);
    if let Some(v) = v {
        if q.s > 32.0 * q.tol {
            moved(&Sit { tol: 8.0 * q.tol, ..*q }, v, id + 2);
        }
    }
}
pub fn scalar(q: &Sit, d: f32, id: u32) {
    let d = d as f64;
    check((d > q.s - q.tol) & (d < q.s + q.tol), id);
}
pub fn finite(v: Vec2, id: u32) {
    check(v.x.is_finite(), id);
    check(v.y.is_finite(), id);
}
