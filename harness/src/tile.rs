//! Tile map: C19 C20 C21 C22 C23.
use crate::harnesses;
use crate::sym::*;
use auburn::col2d::*;
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;

type Pos = (i64, i64);
fn at(p: Pos) -> V2i32 {
    V2i32::from_xy(p.0 as i32, p.1 as i32)
}
fn tile() -> u8 {
    int(0, 255) as u8
}
/// around a chunk corner, on the chunk border in one direction
fn row() -> Pos {
    (int(-2, 1), -17)
}
fn col() -> Pos {
    (31, int(14, 17))
}
fn corner() -> Pos {
    let x = int(-1, 0);
    let y = int(15, 16);
    (x, y)
}
/// a window repeated in every chunk
fn far() -> Pos {
    let c = int(-(1 << 26), 1 << 26);
    let l = int(0, 1);
    (16 * c + 15 * l, 3)
}
/// the four end cells of one chunk
fn ends() -> Pos {
    let x = int(0, 1);
    let y = int(0, 1);
    (15 * x, 15 * y)
}
/// the same in a chunk with negative coordinates, and inner cells
fn inner() -> Pos {
    let x = int(0, 2);
    let y = int(0, 1);
    (7 * x - 16, 14 * y - 31)
}
/// two tiles of a chunk, one of them removed: `k` is anywhere in the chunk
fn other_stays(first: bool, other: Pos) {
    let mut m = Tilemap::default();
    let (x, y) = (int(-16, -1), int(16, 31));
    assume((x != other.0) | (y != other.1));
    let (a, b) = ((x, y), other);
    let (u, v) = (tile(), tile());
    assume((u != 0) & (v != 0));
    m.set_tile(at(a), u);
    m.set_tile(at(b), v);
    let (gone, kept, t) = if first { (a, b, v) } else { (b, a, u) };
    m.remove_tile(at(gone));
    check(m.get_tile(at(gone)) == 0, 1);
    check(m.get_tile(at(kept)) == t, 2);
    check(m.get_chunk(&chunk(kept)).is_some(), 3);
}
#[derive(Clone, Copy)]
struct Op {
    p: Pos,
    set: bool,
    t: u8,
}
fn op(at: fn() -> Pos) -> Op {
    let p = at();
    let set = choose(2) == 1;
    Op { p, set, t: if set { tile() } else { 0 } }
}
fn run(m: &mut Tilemap, o: Op) {
    if o.set {
        m.set_tile(at(o.p), o.t)
    } else {
        m.remove_tile(at(o.p))
    }
}
fn same(a: Pos, b: Pos) -> bool {
    (a.0 == b.0) & (a.1 == b.1)
}
/// what reading `q` must give after `ops`
fn expect(ops: &[Op], q: Pos) -> u8 {
    let mut r = 0;
    for o in ops {
        if same(o.p, q) {
            r = o.t;
        }
    }
    r
}
fn chunk(p: Pos) -> V2i32 {
    V2i32::from_xy(p.0.div_euclid(16) as i32, p.1.div_euclid(16) as i32)
}
fn history(w: fn() -> Pos, n: usize) {
    let mut m = Tilemap::default();
    let mut ops = vec![];
    for _ in 0..n {
        let o = op(w);
        run(&mut m, o);
        ops.push(o);
    }
    let q = w();
    let e = expect(&ops, q);
    let g = m.get_tile(at(q));
    check(g == e, 1);
    if g != 0 {
        check(m.get_chunk(&chunk(q)).is_some(), 2);
    }
}
/// The events recorded against what happened to the chunk of `q`.
fn ledger(w: fn() -> Pos, n: usize) {
    let mut m = Tilemap::default();
    let c = chunk(w());
    let mut present = false;
    let mut seen = 0;
    for _ in 0..n {
        let o = op(w);
        let old = m.get_tile(at(o.p));
        let had = m.get_chunk(&chunk(o.p)).is_some();
        run(&mut m, o);
        let now = m.get_tile(at(o.p));
        let has = m.get_chunk(&chunk(o.p)).is_some();
        let new = &m.events.events[seen..];
        seen = m.events.events.len();
        let oc = chunk(o.p);
        let mut changed = false;
        for e in new {
            match e {
                TilemapEvent::ChunkCreated(x) => {
                    check(*x == oc, 1);
                    if *x == c {
                        check(!present, 2);
                        present = true;
                    }
                }
                TilemapEvent::ChunkRemoved(x) => {
                    check(*x == oc, 3);
                    if *x == c {
                        check(present, 4);
                        present = false;
                    }
                }
                TilemapEvent::ChunkChanged(x) => {
                    check(*x == oc, 5);
                    if *x == c {
                        check(present, 6);
                    }
                    changed = true;
                }
            }
        }
        // as the map has it
        check(m.get_chunk(&c).is_some() == present, 7);
        if had & has {
            check(changed == (old != now), 8);
        }
        if (had == has) & (old == now) {
            check(new.is_empty(), 9);
        }
        if had != has {
            check(!new.is_empty(), 10);
        }
    }
}

/// Reads back the cells of an iteration, row by row, starting at the named corner.
fn walk(it: impl Iterator<Item = V2i32>, min: Pos, w: i64, h: i64, fx: bool, fy: bool, id: u32) {
    let mut n = 0;
    for c in it {
        let (i, j) = if w > 0 { (n % w, n / w) } else { (0, 0) };
        let x = if fx { min.0 + w - 1 - i } else { min.0 + i };
        let y = if fy { min.1 + h - 1 - j } else { min.1 + j };
        check((c.x() as i64 == x) & (c.y() as i64 == y), id);
        n += 1;
    }
    check(n == w * h, id + 1);
}
fn rect() -> (Rect2i32, Pos, i64, i64) {
    let n = 1 << 30;
    let x = int(-n, n);
    let y = int(-n, n);
    let (w, h) = (choose(4), choose(4));
    let r = Rect2i32::min_max(at((x, y)), at((x + w - 1, y + h - 1)));
    (r, (x, y), w, h)
}
fn wpos() -> (f32, f32) {
    let x = real(-1024.0, 1024.0);
    let y = real(-1024.0, 1024.0);
    (x, y)
}
/// tiles are unit squares around integer points: is (x, y) in the one of `t`?
fn near(x: f32, t: i32, e: f64) -> bool {
    let d = x as f64 - t as f64;
    (d <= 0.5 + e) & (d >= -0.5 - e)
}

const SPOTS: [Pos; 3] = [(0, 0), (3, -2), (-17, 16)];
/// signed distance of a mover (half-extents and radius) centred at (x, y) from the unit tile at the origin
fn gap(hx: f64, hy: f64, r: f64, x: f64, y: f64) -> f64 {
    crate::sd::sd(0.5 + hx, 0.5 + hy, r, x, y)
}
fn hint() -> Vec2 {
    let x = choose(2) as f32 - 0.5;
    let y = choose(2) as f32 - 0.5;
    Vec2::new(x, y)
}
fn judge(hx: f64, hy: f64, r: f64, x: f64, y: f64, p: Vec2, q: Vec2, t: Pos) {
    let s = gap(hx, hy, r, x, y);
    let tol = 1.0 / 64.0;
    if s > tol {
        check((p.x == q.x) & (p.y == q.y), 1);
    }
    if s < -tol {
        let (mx, my) = (q.x as f64 - p.x as f64, q.y as f64 - p.y as f64);
        let k = -s * 1.03125 + tol;
        check(mx * mx + my * my <= k * k, 2);
        let dx = (q.x as f64 - t.0 as f64).abs() - 0.5 - hx;
        let dy = (q.y as f64 - t.1 as f64).abs() - 0.5 - hy;
        let e = 2.0 * tol;
        if r == 0.0 {
            check((dx > -e) | (dy > -e), 3);
        } else {
            let m = (r - e) * (r - e);
            check((dx > r - e) | (dy > r - e) | ((dx > 0.0) & (dy > 0.0) & (dx * dx + dy * dy > m)), 3);
        }
    }
}
fn box_mover(hx: f32, hy: f32, t: Pos, n: i64, h: Vec2) {
    let mut m = Tilemap::default();
    let v = tile();
    assume(v != 0);
    m.set_tile(at(t), v);
    let x = int(-n, n) as f32 * 0.125;
    let y = int(-n, n) as f32 * 0.125;
    let p = Vec2::new(t.0 as f32 + x, t.1 as f32 + y);
    let q = m.simple_resolve_box(&Box2d::with_halfdims(hx, hy), p, &h);
    judge(hx as f64, hy as f64, 0.0, x as f64, y as f64, p, q, t);
}
fn ball_mover(r: f32, t: Pos, k: i64, h: Vec2) {
    let mut m = Tilemap::default();
    m.set_tile(at(t), 1);
    let u = int(-8, 8) as f32 * 0.25;
    let (x, y) = match k {
        0 => (u, 0.25),
        1 => (0.375, u),
        2 => (u, 0.75),
        _ => (u, 0.0),
    };
    let p = Vec2::new(t.0 as f32 + x, t.1 as f32 + y);
    let q = m.simple_resolve_ball(&Ball::with_radius(r), p, &h);
    judge(0.0, 0.0, r as f64, x as f64, y as f64, p, q, t);
}
/// placement by placement, with every hint
fn mover_grid(ball: bool) {
    let k = choose(4) as usize;
    let (hx, hy) = [(0.5f32, 0.5f32), (0.25, 0.75), (1.25, 1.0), (0.375, 0.125)][k];
    let t = SPOTS[k % 3];
    let mut m = Tilemap::default();
    m.set_tile(at(t), 3);
    let x = (choose(21) - 10) as f32 * 0.1875 + 0.03125;
    let y = (choose(17) - 8) as f32 * 0.21875;
    let p = Vec2::new(t.0 as f32 + x, t.1 as f32 + y);
    if ball {
        let q = m.simple_resolve_ball(&Ball::with_radius(hx), p, &hint());
        judge(0.0, 0.0, hx as f64, x as f64, y as f64, p, q, t);
    } else {
        let q = m.simple_resolve_box(&Box2d::with_halfdims(hx, hy), p, &hint());
        judge(hx as f64, hy as f64, 0.0, x as f64, y as f64, p, q, t);
    }
}
const OFFS: [f32; 12] = [0.0, -0.25, 0.25, 0.625, -0.625, 0.875, -0.875, -1.0, 1.125, 1.375, -1.375, 1.625];
/// anywhere in the world, for each of a few offsets from the tile
fn ball_far(r: f32, y: f32, n: i64, h: Vec2) {
    let mut m = Tilemap::default();
    let c = int(-32, 32);
    let t = (16 * c + choose(2) * 15, 5);
    m.set_tile(at(t), 1);
    let x = OFFS[choose(n) as usize];
    let p = Vec2::new(t.0 as f32 + x, t.1 as f32 + y);
    let q = m.simple_resolve_ball(&Ball::with_radius(r), p, &h);
    judge(0.0, 0.0, r as f64, x as f64, y as f64, p, q, t);
}
/// several tiles, the mover clear of all of them
fn clear_of(b: bool) {
    let mut m = Tilemap::default();
    let ts: [Pos; 4] = [(0, 0), (2, 0), (-1, 2), (15, 16)];
    for t in ts {
        m.set_tile(at(t), 7);
    }
    m.set_tile(at((1, 1)), 5);
    m.remove_tile(at((1, 1)));
    let x = int(-24, 32) as f32 * 0.125;
    let y = int(-24, 32) as f32 * 0.125;
    let p = Vec2::new(x, y);
    let (hx, hy) = if b { (0.375, 0.25) } else { (0.375, 0.375) };
    let mut free = true;
    for t in ts {
        let (dx, dy) = (x - t.0 as f32, y - t.1 as f32);
        free &= (dx > 0.5 + hx) | (dx < -0.5 - hx) | (dy > 0.5 + hy) | (dy < -0.5 - hy);
    }
    if free {
        let q = if b {
            m.simple_resolve_box(&Box2d::with_halfdims(hx, hy), p, &hint())
        } else {
            m.simple_resolve_ball(&Ball::with_radius(hx), p, &hint())
        };
        check((p.x == q.x) & (p.y == q.y), 1);
    }
}
fn point_query<T: Transformation2d>(mk: fn(Vec2) -> T) {
    let mut m = Tilemap::default();
    let t = SPOTS[choose(3) as usize];
    let v = tile();
    m.set_tile(at(t), v);
    let x = real(-1.5, 1.5);
    let y = real(-1.5, 1.5);
    let p = Vec2::new(t.0 as f32 + x, t.1 as f32 + y);
    let c = m.collides_rel(&Point, &mk(p));
    let (dx, dy) = (p.x as f64 - t.0 as f64, p.y as f64 - t.1 as f64);
    let e = 1.0 / 4096.0;
    if (dx < 0.5 - e) & (dx > e - 0.5) & (dy < 0.5 - e) & (dy > e - 0.5) {
        check(c == (v != 0), 1);
    }
    if (dx > 0.5 + e) | (dx < -0.5 - e) | (dy > 0.5 + e) | (dy < -0.5 - e) {
        check(!c, 2);
    }
}
harnesses! {
    fn c19_set_get() {
        let mut m = Tilemap::default();
        let n = (1 << 31) - 1;
        let (x, y) = (int(-n - 1, n), int(-n - 1, n));
        let t = tile();
        m.set_tile(at((x, y)), t);
        check(m.get_tile(at((x, y))) == t, 1);
    }
    fn c19_unset() {
        let m = Tilemap::default();
        let n = (1 << 31) - 1;
        let (x, y) = (int(-n - 1, n), int(-n - 1, n));
        check(m.get_tile(at((x, y))) == 0, 1);
        check(m.get_chunk(&chunk((x, y))).is_none(), 2);
    }
    fn c19_full() {
        // a whole chunk filled, then emptied again
        let mut m = Tilemap::default();
        let t = int(1, 255) as u8;
        let c = [0, -16, 32][choose(3) as usize];
        for k in 0..256 {
            m.set_tile(at((c + k % 16, k / 16 - 16)), t);
        }
        let (i, e) = ([0, 1, 15, 100, 254, 255][choose(6) as usize], tile());
        if choose(2) == 0 {
            m.remove_tile(at((c + i % 16, i / 16 - 16)));
            for k in 0..256 {
                check(m.get_tile(at((c + k % 16, k / 16 - 16))) == if k == i { 0 } else { t }, 1);
            }
            check(m.get_chunk(&chunk((c, -16))).is_some(), 2);
        } else {
            for k in 0..256 {
                if k != i {
                    m.remove_tile(at((c + k % 16, k / 16 - 16)));
                    check(m.get_chunk(&chunk((c, -16))).is_some(), 3);
                }
            }
            check(m.get_tile(at((c + i % 16, i / 16 - 16))) == t, 4);
            m.set_tile(at((c + i % 16, i / 16 - 16)), e);
            check(m.get_tile(at((c + i % 16, i / 16 - 16))) == e, 5);
            m.remove_tile(at((c + i % 16, i / 16 - 16)));
            check(m.get_chunk(&chunk((c, -16))).is_none(), 6);
        }
    }
    fn c19_many_chunks() {
        let mut m = Tilemap::default();
        let t = int(1, 255) as u8;
        let i = int(0, 39);
        for k in 0..40 {
            m.set_tile(at((16 * (k % 8) - 60, 16 * (k / 8) - 33)), t);
        }
        for k in 0..40 {
            if k % 3 == 1 {
                m.remove_tile(at((16 * (k % 8) - 60, 16 * (k / 8) - 33)));
            }
        }
        let p = (16 * (i % 8) - 60, 16 * (i / 8) - 33);
        let want = if i % 3 == 1 { 0 } else { t };
        check(m.get_tile(at(p)) == want, 1);
        check(m.get_chunk(&chunk(p)).is_some() == (want != 0), 2);
    }
    fn c19_others() {
        // one tile at a fixed local place of any chunk, read anywhere else
        let mut m = Tilemap::default();
        let c = int(-(1 << 26), 1 << 26);
        let p = (16 * c + 5, 16 * c + 9);
        m.set_tile(at(p), 200);
        let n = (1 << 31) - 1;
        let (x, y) = (int(-n - 1, n), 16 * c + choose(16));
        if x != p.0 {
            check(m.get_tile(at((x, y))) == 0, 1);
        }
    }
    fn c19_row_2() { history(row, 2) }
    fn c19_col_2() { history(col, 2) }
    fn c19_row_3() { history(row, 3) }
    fn c19_corner_3() { history(corner, 3) }
    fn c19_far_2() { history(far, 2) }
    fn c19_far_3() { history(far, 3) }
    fn c19_corner_4() { history(corner, 4) }
    fn c19_row_4() { history(row, 4) }
    fn c19_ends_3() { history(ends, 3) }
    fn c19_ends_4() { history(ends, 4) }
    fn c19_inner_3() { history(inner, 3) }
    fn c19_other_stays() { other_stays(true, (-9, 23)) }
    fn c19_any_stays() { other_stays(false, (-9, 23)) }
    fn c19_any_stays_first() { other_stays(false, (-16, 16)) }
    fn c19_any_remove() {
        let mut m = Tilemap::default();
        let n = 1 << 30;
        let x = int(-n, n);
        let p = (x, 7);
        m.set_tile(at(p), tile());
        m.remove_tile(at(p));
        check(m.get_tile(at(p)) == 0, 1);
        check(m.get_chunk(&chunk(p)).is_none(), 2);
    }

    fn c20_full() {
        let mut m = Tilemap::default();
        let t = int(1, 255) as u8;
        let c = [0, -16][choose(2) as usize];
        for r in 0..2 {
            for k in 0..256 {
                m.set_tile(at((c + k % 16, k / 16)), t);
                check(m.events.events.len() as i64 == if r == 0 { k + 1 } else { 256 }, 1);
            }
        }
        for k in 0..256 {
            m.remove_tile(at((c + k % 16, k / 16)));
            check(m.events.events.len() as i64 == 257 + k, 2);
        }
        for (k, e) in m.events.events.iter().enumerate() {
            match e {
                TilemapEvent::ChunkCreated(q) => check((k == 0) & (*q == chunk((c, 0))), 3),
                TilemapEvent::ChunkRemoved(q) => check((k == 511) & (*q == chunk((c, 0))), 4),
                TilemapEvent::ChunkChanged(q) => check((k != 0) & (k != 511) & (*q == chunk((c, 0))), 5),
            }
        }
    }
    fn c20_row_2() { ledger(row, 2) }
    fn c20_corner_2() { ledger(corner, 2) }
    fn c20_row_3() { ledger(row, 3) }
    fn c20_corner_3() { ledger(corner, 3) }
    fn c20_ends_3() { ledger(ends, 3) }
    fn c20_inner_3() { ledger(inner, 3) }
    fn c20_far_2() { ledger(far, 2) }
    fn c20_pair_3() { ledger(|| (int(15, 16), 0), 3) }
    fn c20_pair_4() { ledger(|| (int(15, 16), 0), 4) }
    fn c20_same_4() { ledger(|| (int(-2, -1), 0), 4) }
    fn c20_pair_5() { ledger(|| (int(15, 16), 0), 5) }

    fn c21_contains() {
        let (x, y) = wpos();
        let t = Tilemap::default().world_to_tile_pos(&Vec2::new(x, y));
        let e = 1.0 / 4096.0;
        check(near(x, t.x(), e) & near(y, t.y(), e), 1);
    }
    fn c21_contains_grid() {
        // half-integers included
        let x = int(-4096, 4096) as f32 * 0.25;
        let y = int(-4096, 4096) as f32 * 0.25;
        let t = Tilemap::default().world_to_tile_pos(&Vec2::new(x, y));
        check(near(x, t.x(), 0.0) & near(y, t.y(), 0.0), 1);
    }
    fn c21_contains_far() {
        // single precision still has quarters here
        let n = 1 << 21;
        let x = real(-(n as f32), n as f32);
        let y = int(-4 * n, 4 * n) as f32 * 0.25;
        let t = Tilemap::default().world_to_tile_pos(&Vec2::new(x, y));
        check(near(x, t.x(), 1.0 / 4096.0) & near(y, t.y(), 0.0), 1);
    }
    fn c21_quantize_far() {
        let n = 1 << 20;
        let x = int(-n, n) as f32 * 0.5;
        let y = int(-n, n) as f32 * 0.5;
        let hx = int(0, 2048) as f32 * 0.5;
        let hy = int(0, 2048) as f32 * 0.5;
        let r = Tilemap::default().quantize(&Box2d::with_halfdims(hx, hy), &Vec2::new(x, y));
        let tx = int(-n, n);
        let ty = int(-n, n);
        let (dx, dy) = ((tx as f64 - x as f64).abs() - hx as f64 - 0.5, (ty as f64 - y as f64).abs() - hy as f64 - 0.5);
        let inn = (tx >= r.min.x() as i64) & (tx <= r.max.x() as i64) & (ty >= r.min.y() as i64) & (ty <= r.max.y() as i64);
        if (dx < 0.0) & (dy < 0.0) {
            check(inn, 1);
        }
        if (dx > 0.0) | (dy > 0.0) {
            check(!inn, 2);
        }
    }
    fn c21_centre() {
        let n = 1 << 24;
        let (x, y) = (int(-n, n), int(-n, n));
        let m = Tilemap::default();
        let w = m.tile_to_world_pos(&at((x, y)));
        check((w.x as f64 == x as f64) & (w.y as f64 == y as f64), 1);
        let t = m.world_to_tile_pos(&w);
        check((t.x() as i64 == x) & (t.y() as i64 == y), 2);
    }
    fn c21_far_centres() {
        // odd tiles where single precision just holds them
        const N: [i64; 8] = [8388607, 8388609, 8388611, 12582913, 16777213, 16777215, 8388608, 4194305];
        let f = || { let n = N[choose(8) as usize]; if choose(2) == 0 { n } else { -n } };
        let (x, y) = (f(), f());
        let m = Tilemap::default();
        let w = m.tile_to_world_pos(&at((x, y)));
        check((w.x as f64 == x as f64) & (w.y as f64 == y as f64), 1);
        let t = m.world_to_tile_pos(&w);
        check((t.x() as i64 == x) & (t.y() as i64 == y), 2);
        let r = m.quantize(&Box2d::with_halfdims(0.25, 0.25), &w);
        check((r.min.x() as i64 <= x) & (r.max.x() as i64 >= x) & (r.min.y() as i64 <= y) & (r.max.y() as i64 >= y), 3);
    }
    fn c21_edges() {
        // one step of single precision on either side of a tile's border
        const N: [f32; 9] = [0.5, 1.5, 2.5, 15.5, 16.5, 127.5, 1023.5, 32767.5, 0.0];
        let f = || {
            let n = N[choose(9) as usize];
            let n = match choose(3) { 0 => n, 1 => f32::from_bits(n.to_bits() + 1), _ => f32::from_bits(n.to_bits().saturating_sub(1)) };
            if choose(2) == 0 { n } else { -n }
        };
        let (x, y) = (f(), f());
        let t = Tilemap::default().world_to_tile_pos(&Vec2::new(x, y));
        check(near(x, t.x(), 0.0) & near(y, t.y(), 0.0), 1);
    }
    fn c21_split() {
        let n = (1 << 31) - 1;
        let (x, y) = (int(-n - 1, n), int(-n - 1, n));
        let m = Tilemap::default();
        let (c, l) = m.tile_to_chunk_and_local_pos(&at((x, y)));
        check((l.x() >= 0) & (l.x() < 16) & (l.y() >= 0) & (l.y() < 16), 1);
        check((c.x() as i64 * 16 + l.x() as i64 == x) & (c.y() as i64 * 16 + l.y() as i64 == y), 2);
        let d = m.tile_to_chunk_pos(&at((x, y)));
        check((c.x() == d.x()) & (c.y() == d.y()), 3);
    }
    fn c21_quantize() {
        let x = real(-64.0, 64.0);
        let y = real(-64.0, 64.0);
        let hx = real(0.0, 8.0);
        let hy = real(0.0, 8.0);
        let r = Tilemap::default().quantize(&Box2d::with_halfdims(hx, hy), &Vec2::new(x, y));
        let tx = int(-80, 80);
        let ty = int(-80, 80);
        let (dx, dy) = ((tx as f64 - x as f64).abs() - hx as f64 - 0.5, (ty as f64 - y as f64).abs() - hy as f64 - 0.5);
        let e = 1.0 / 4096.0;
        let inn = (tx >= r.min.x() as i64) & (tx <= r.max.x() as i64) & (ty >= r.min.y() as i64) & (ty <= r.max.y() as i64);
        if (dx < -e) & (dy < -e) {
            check(inn, 1);
        }
        if (dx > e) | (dy > e) {
            check(!inn, 2);
        }
    }
    fn c21_quantize_grid() {
        let c = || int(-64, 64) as f32 * 0.25;
        let (x, y) = (c(), c());
        let h = || int(0, 16) as f32 * 0.25;
        let (hx, hy) = (h(), h());
        let r = Tilemap::default().quantize(&Box2d::with_halfdims(hx, hy), &Vec2::new(x, y));
        let tx = int(-24, 24);
        let ty = int(-24, 24);
        let (dx, dy) = ((tx as f64 - x as f64).abs() - hx as f64 - 0.5, (ty as f64 - y as f64).abs() - hy as f64 - 0.5);
        let inn = (tx >= r.min.x() as i64) & (tx <= r.max.x() as i64) & (ty >= r.min.y() as i64) & (ty <= r.max.y() as i64);
        if (dx < 0.0) & (dy < 0.0) {
            check(inn, 1);
        }
        if (dx > 0.0) | (dy > 0.0) {
            check(!inn, 2);
        }
    }

    fn c22_north_east() { let (r, m, w, h) = rect(); walk(r.iterate_north_east(), m, w, h, false, false, 1) }
    fn c22_south_east() { let (r, m, w, h) = rect(); walk(r.iterate_south_east(), m, w, h, false, true, 1) }
    fn c22_south_west() { let (r, m, w, h) = rect(); walk(r.iterate_south_west(), m, w, h, true, true, 1) }
    fn c22_north_west() { let (r, m, w, h) = rect(); walk(r.iterate_north_west(), m, w, h, true, false, 1) }
    fn c22_plain() { let (r, m, w, h) = rect(); walk(r.iterate(), m, w, h, false, false, 1) }
    fn c22_boxed() {
        let (r, m, w, h) = rect();
        let (fx, fy) = (choose(2) == 1, choose(2) == 1);
        walk(r.iterate_boxed(fx, fy), m, w, h, fx, fy, 1)
    }
    fn c22_directed() {
        let (r, m, w, h) = rect();
        let x = real(-2.0, 2.0);
        let y = real(-2.0, 2.0);
        walk(r.iterate_with_direction_f32(x, y), m, w, h, x < 0.0, y < 0.0, 1)
    }
    fn c22_ends() {
        // at the ends of the coordinate range
        let (w, h) = (1 + choose(3), 1 + choose(3));
        let f = |n: i64| match choose(4) {
            0 => i32::MIN as i64,
            1 => i32::MAX as i64 - n + 1,
            2 => i32::MAX as i64 - n,
            _ => -n + 1,
        };
        let (x, y) = (f(w), f(h));
        let r = Rect2i32::min_max(at((x, y)), at((x + w - 1, y + h - 1)));
        let (fx, fy) = (choose(2) == 1, choose(2) == 1);
        match choose(3) {
            0 => walk(r.iterate_boxed(fx, fy), (x, y), w, h, fx, fy, 1),
            1 => walk(r.iterate_with_direction_f32(if fx { -1.0 } else { 1.0 }, if fy { -1.0 } else { 1.0 }), (x, y), w, h, fx, fy, 1),
            _ => match (fx, fy) {
                (false, false) => walk(r.iterate_north_east(), (x, y), w, h, fx, fy, 1),
                (false, true) => walk(r.iterate_south_east(), (x, y), w, h, fx, fy, 1),
                (true, true) => walk(r.iterate_south_west(), (x, y), w, h, fx, fy, 1),
                (true, false) => walk(r.iterate_north_west(), (x, y), w, h, fx, fy, 1),
            },
        }
        walk(r.iterate(), (x, y), w, h, false, false, 5);
    }
    fn c22_wide() {
        // long rows and columns
        let n = 1 << 30;
        let x = int(-n, n);
        let y = int(-n, n);
        let (w, h) = [(17, 2), (40, 1), (1, 40), (2, 17), (9, 9), (130, 1), (1, 260)][choose(7) as usize];
        let r = Rect2i32::min_max(at((x, y)), at((x + w - 1, y + h - 1)));
        let (fx, fy) = (choose(2) == 1, choose(2) == 1);
        match choose(3) {
            0 => walk(r.iterate_boxed(fx, fy), (x, y), w, h, fx, fy, 1),
            1 => walk(r.iterate_with_direction_f32(if fx { -1.0 } else { 1.0 }, if fy { -1.0 } else { 1.0 }), (x, y), w, h, fx, fy, 1),
            _ => match (fx, fy) {
                (false, false) => walk(r.iterate_north_east(), (x, y), w, h, fx, fy, 1),
                (false, true) => walk(r.iterate_south_east(), (x, y), w, h, fx, fy, 1),
                (true, true) => walk(r.iterate_south_west(), (x, y), w, h, fx, fy, 1),
                (true, false) => walk(r.iterate_north_west(), (x, y), w, h, fx, fy, 1),
            },
        }
    }
    fn c22_pad() {
        let n = 1 << 28;
        let (x, y, w, h, p, q) = (int(-n, n), int(-n, n), int(-n, n), int(-n, n), int(-n, n), int(-n, n));
        let r = Rect2i32::min_max(at((x, y)), at((w, h))).pad(at((p, q)));
        check((r.min.x() as i64 == x - p) & (r.min.y() as i64 == y - q), 1);
        check((r.max.x() as i64 == w + p) & (r.max.y() as i64 == h + q), 2);
    }
    fn c22_member() {
        // a larger rectangle: any of its cells is visited exactly once
        let n = 1 << 30;
        let x = int(-n, n);
        let y = int(-n, n);
        let (i, j) = (int(0, 5), int(0, 3));
        let (fx, fy) = (choose(2) == 1, choose(2) == 1);
        let r = Rect2i32::min_max(at((x, y)), at((x + 5, y + 3)));
        let mut n = 0;
        for c in r.iterate_boxed(fx, fy) {
            if (c.x() as i64 == x + i) & (c.y() as i64 == y + j) {
                n += 1;
            }
        }
        check(n == 1, 1);
    }

    fn c23_box_unit() { box_mover(0.5, 0.5, SPOTS[0], 16, Vec2::new(1.0, 1.0)) }
    fn c23_box_flat() { box_mover(0.75, 0.25, SPOTS[1], 16, Vec2::new(1.0, -1.0)) }
    fn c23_box_tall() { box_mover(0.25, 1.0, SPOTS[2], 16, Vec2::new(-1.0, 0.5)) }
    fn c23_box_big() { box_mover(1.5, 1.5, SPOTS[1], 20, Vec2::new(-0.5, -1.0)) }
    fn c23_box_clear() { clear_of(true) }
    fn c23_ball_line() { ball_mover(0.5, SPOTS[0], 3, Vec2::new(1.0, 0.0)) }
    fn c23_ball_far_a() { ball_far(0.5, 0.25, 12, Vec2::new(1.0, 0.0)) }
    fn c23_ball_far_b() { ball_far(0.75, -0.75, 12, Vec2::new(-1.0, 1.0)) }
    fn c23_ball_far_c() { ball_far(1.25, 1.0, 12, Vec2::new(-1.0, -1.0)) }
    fn c23_ball_side() { ball_mover(0.5, SPOTS[0], 0, Vec2::new(0.0, 1.0)) }
    fn c23_ball_top() { ball_mover(0.5, SPOTS[0], 1, Vec2::new(-1.0, 1.0)) }
    fn c23_ball_corner() { ball_mover(0.75, SPOTS[0], 2, Vec2::new(1.0, -1.0)) }
    fn c23_box_grid() { mover_grid(false) }
    fn c23_ball_grid() { mover_grid(true) }
    fn c23_ball_clear() { clear_of(false) }
    fn c23_point_vec() { point_query(|p| p) }
    fn c23_point_axis() { point_query(|p| AxisTransform2d::new(p, 2.0)) }
    fn c23_point_translate() { point_query(Translate2d::new) }
}
