//! Independent geometry used as the oracle. Everything here works on the
//! constant vertex lists of catalogue shapes; a symbolic position only enters
//! the final comparisons, which are written without branches.
#[derive(Clone, Copy)]
pub struct P {
    pub x: f64,
    pub y: f64,
}
pub fn pt(x: f64, y: f64) -> P {
    P { x, y }
}
pub const N: usize = 56;

/// Edges of the Minkowski difference {a - b}: outward normal and offset
/// (n . m <= h for all m in it), plus one edge segment for the distance.
pub struct Md {
    pub n: usize,
    pub nx: [f64; N],
    pub ny: [f64; N],
    pub h: [f64; N],
    pub a: [P; N], // edge end points
    pub b: [P; N],
}
/// length of a normal, on a coarse dyadic grid (keeps the formulas small)
fn len(x: f64, y: f64) -> f64 {
    ((x * x + y * y).sqrt() * 1024.0).ceil() / 1024.0
}
impl Md {
    /// vertices of `s` (any order), supports of `-o`; `sign` = 1 for edges of the
    /// first shape, -1 for edges of the second
    fn edges(&mut self, s: &[P], o: &[P], sign: f64) {
        let mut i = 0;
        while i < s.len() {
            let mut j = 0;
            while j < s.len() {
                if i != j {
                    // candidate outward normal for i -> j (counter-clockwise): right-hand side
                    let (ex, ey) = (s[j].x - s[i].x, s[j].y - s[i].y);
                    let (nx, ny) = (ey, -ex);
                    let c = nx * s[i].x + ny * s[i].y;
                    let mut ok = ex != 0.0 || ey != 0.0;
                    let mut k = 0;
                    while k < s.len() {
                        let d = nx * s[k].x + ny * s[k].y - c;
                        // all other vertices on the left, and no longer collinear edge
                        if d > 1e-9 {
                            ok = false;
                        }
                        if d.abs() <= 1e-9 {
                            let t = (s[k].x - s[i].x) * ex + (s[k].y - s[i].y) * ey;
                            if t < 0.0 || t > ex * ex + ey * ey {
                                ok = false;
                            }
                        }
                        k += 1;
                    }
                    if ok {
                        // all supports of the other shape facing this edge
                        let mut best = f64::INFINITY;
                        let mut k = 0;
                        while k < o.len() {
                            let d = nx * o[k].x + ny * o[k].y;
                            if d < best {
                                best = d;
                            }
                            k += 1;
                        }
                        let mut k = 0;
                        while k < o.len() {
                            let d = nx * o[k].x + ny * o[k].y;
                            if d <= best + 1e-9 {
                                assert!(self.n < N);
                                let m = self.n;
                                self.n += 1;
                                // {a - b} = -( {b - a} ) when the roles are swapped
                                self.nx[m] = sign * nx;
                                self.ny[m] = sign * ny;
                                self.h[m] = c - best;
                                self.a[m] = pt(sign * (s[i].x - o[k].x), sign * (s[i].y - o[k].y));
                                self.b[m] = pt(sign * (s[j].x - o[k].x), sign * (s[j].y - o[k].y));
                            }
                            k += 1;
                        }
                    }
                }
                j += 1;
            }
            i += 1;
        }
    }
    /// as `edges`, for corners in counter-clockwise order without collinear ones
    fn ordered_edges(&mut self, s: &[P], o: &[P], sign: f64) {
        for i in 0..s.len() {
            let q = s[(i + 1) % s.len()];
            let (nx, ny) = (q.y - s[i].y, s[i].x - q.x);
            let c = nx * s[i].x + ny * s[i].y;
            let mut best = f64::INFINITY;
            for v in o {
                best = best.min(nx * v.x + ny * v.y);
            }
            for v in o {
                if nx * v.x + ny * v.y <= best + 1e-9 {
                    assert!(self.n < N);
                    let m = self.n;
                    self.n += 1;
                    self.nx[m] = sign * nx;
                    self.ny[m] = sign * ny;
                    self.h[m] = c - best;
                    self.a[m] = pt(sign * (s[i].x - v.x), sign * (s[i].y - v.y));
                    self.b[m] = pt(sign * (q.x - v.x), sign * (q.y - v.y));
                }
            }
        }
    }
    pub fn ordered(a: &[P], b: &[P]) -> Md {
        let z = pt(0.0, 0.0);
        let mut m = Md { n: 0, nx: [0.0; N], ny: [0.0; N], h: [0.0; N], a: [z; N], b: [z; N] };
        m.ordered_edges(a, b, 1.0);
        m.ordered_edges(b, a, -1.0);
        m
    }
    pub fn new(a: &[P], b: &[P]) -> Md {
        let z = pt(0.0, 0.0);
        let mut m = Md { n: 0, nx: [0.0; N], ny: [0.0; N], h: [0.0; N], a: [z; N], b: [z; N] };
        m.edges(a, b, 1.0);
        m.edges(b, a, -1.0);
        m
    }
    /// Every edge separates by less than -`s` (lengths): deep overlap.
    pub fn inside(&self, x: f64, y: f64, s: f64) -> bool {
        let mut r = true;
        let mut i = 0;
        while i < self.n {
            let l = len(self.nx[i], self.ny[i]);
            r &= self.nx[i] * x + self.ny[i] * y - self.h[i] < s * l;
            i += 1;
        }
        r
    }
    /// |v|^2 is at most `k` times the squared distance from (x,y) to the set, plus `t`.
    /// Only meaningful for (x,y) outside.
    pub fn not_longer(&self, x: f64, y: f64, v2: f64, k: f64, t: f64) -> bool {
        let mut r = true;
        let mut i = 0;
        while i < self.n {
            let (nx, ny) = (self.nx[i], self.ny[i]);
            let l2 = nx * nx + ny * ny;
            let s = nx * x + ny * y - self.h[i];
            let (ax, ay) = (x - self.a[i].x, y - self.a[i].y);
            let (bx, by) = (x - self.b[i].x, y - self.b[i].y);
            r &= v2 <= k * (ax * ax + ay * ay) + t;
            let (ex, ey) = (self.b[i].x - self.a[i].x, self.b[i].y - self.a[i].y);
            let pa = ax * ex + ay * ey;
            let pb = bx * ex + by * ey;
            r &= (pa < 0.0) | (pb > 0.0) | (s < 0.0) | (v2 * l2 <= k * (s * s) + t * l2);
            i += 1;
        }
        r
    }
    /// |v| is at most `k` times the depth of (x,y) below every edge, plus `t`.
    pub fn not_deeper(&self, x: f64, y: f64, v2: f64, k: f64, t: f64) -> bool {
        let mut r = true;
        let mut i = 0;
        while i < self.n {
            let (nx, ny) = (self.nx[i], self.ny[i]);
            let l = len(nx, ny);
            let d = (self.h[i] - nx * x - ny * y) * k + t * l;
            r &= v2 * (nx * nx + ny * ny) <= d * d;
            i += 1;
        }
        r
    }
}
