#!/usr/bin/env python3
"""Writes tools/plan.json (what each check runs) and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = {"_assumptions": [
    "the engine's reading of LLVM IR and the unoptimised lowering rustc gives it (no alias or undef exploitation)",
    "floating-point values are carried as exact reals plus a rigorous rounding-error bound; comparisons that rounding could flip are followed both ways and such a candidate becomes a report only when the natively compiled code fails on its inputs",
    "glam's scalar implementation stands for its SIMD one (same operations on each component)",
    "sqrt, floor, round, abs, min, max are modelled exactly up to rounding; sine and cosine of a symbolic angle as any point of the unit circle, of a concrete angle (and atan2) by the platform's libm; no other libm function is reached by the harnesses",
    "z3's answers; a query without an answer leaves its path counted as undecided",
]}
def c(pid, features, harnesses, bounds, assumptions=(), **k):
    PLAN[pid] = dict(features=features, harnesses=harnesses, bounds=bounds, assumptions=list(assumptions), **k)

GRIDX = "positions on a 1/8 grid, |x|,|y| <= 5 (7.5 or 8 for the larger polygons)"
CLOSED = ("real-valued sizes in [1/4,2] and coordinates in [-3,3] (also scaled by 2^-40, 1/1024, 4096 and 2^40, and sizes in [1/64,64] with coordinates in [-96,96]); "
          "grid versions: coordinates k/8 in [-4,4], sizes k/8 in [0,2] including zero")
c("C01", "closed", ["c01_*"], CLOSED + "; verdict asserted when |signed distance| > size/1024", quick=dict(time=20, total=90))
c("C02", "closed", ["c02_*"], CLOSED + "; vector asserted to size/128", quick=dict(time=12, total=75))
c("C03", "closed", ["c03_*"], CLOSED + "; vector asserted to size/128", quick=dict(time=12, total=75))
c("C04", "closed", ["c04_*"], CLOSED + "; value asserted to size/1024", quick=dict(time=20, total=75))
POLYS = "boxes 2x4, 3x1, triangle, quadrilateral, pentagon, hexagon, slim triangle, 12- and 16-gons, 64:1 boxes and slivers; polygons with unordered, repeated and collinear corners; box sizes k/4 in [1/4,2] where symbolic; " + GRIDX + "; scales 1/8, 1, 16, also placements as far as 20480 and shapes placed under scaled and turned transforms; second shape also turned by a half turn and by the 3-4-5 angle; 20-, 32- and 48-gons on lines; a pentagon against a quadrilateral at 15 angles and four scales (one mirrored), on lines and placement by placement; ball against box also placement by placement; a pentagon against a quadrilateral and a box against a triangle at scales 2^-18, 2^-13, 2^-8, 2^10 and 2^20 on three lines; a pentagon of size 64 against a triangle of size 1/8"
c("C05", "gjk", ["c05_fine*", "c05_box_box", "c05_box_tri", "c05_tri_*", "c05_pent*", "c05_hex*", "c05_small", "c05_large", "c05_long*", "c05_sliver*", "c05_far*", "c05_flip*", "c05_[!ms]*", "c05_*"], POLYS + "; verdict asserted beyond 1/1024 of contact (near-contact placements of shapes of size 1/8 on a 1/2048 grid: beyond 1/4096)", quick=dict(time=10, total=75))
c("C06", "gjk", ["c06_box_box", "c06_box_tri", "c06_tri_*", "c06_large", "c06_pent*", "c06_hex*", "c06_long*", "c06_sliver*", "c06_flip*", "c06_[!ms]*", "c06_*"], POLYS + "; separation asserted to 1/512, minimality to 3%", quick=dict(time=25, total=120))
c("C07", "gjk", ["c07_box_box", "c07_box_tri", "c07_tri_*", "c07_large", "c07_pent*", "c07_hex*", "c07_long*", "c07_sliver*", "c07_far*", "c07_flip*", "c07_[!ms]*", "c07_*"], POLYS + "; contact asserted to 1/512, length to 3%", quick=dict(time=12, total=90))
c("C08", "closed,gjk", ["c08_[!g]*", "c08_g_box*", "c08_g_pent*", "c08_g_long*", "c08_g_sliver*", "c08_g_far*", "c08_g_[!ms]*", "c08_*"], CLOSED + "; " + POLYS, quick=dict(time=15, total=120))
c("C09", "closed,gjk", ["c09_*"], CLOSED + "; " + POLYS, quick=dict(time=20, total=80), exclude=[])
c("C11", "closed,gjk", ["c11_*"], CLOSED + "; " + POLYS + "; flat boxes with half-sizes 0 or 1 at k/2 in [-2,2]", quick=dict(time=12, total=120))

TR = "positions in [-8,8] (also to 8192), scales of either sign with magnitude in [1/4,4] per axis (also 1/4096 to 4096), rotors from any non-zero vector in [-2,2]^2 (normalised) or the table of exact rotations; reals, single-precision rounding bounded"
c("C10", "world", ["c10_l_*", "c10_p_*", "c10_v_*", "c10_g_*", "c10_*"], "box/ball/point pairs placed by vectors, translations, uniform transforms and full transforms; " + TR + "; lines: both turned by different 3-4-5 and quarter angles, the second anywhere on one of 12 lines through the first one's frame, two sets of sizes; polygon pairs on a 1/8 grid; both turned by any of a table of angles and placed one placement at a time; closed pairs also at units 2^-20, 2^-8, 2^12, 2^20 and polygon pairs at 2^-16, 2^-8, 2^12, 2^20", quick=dict(time=5, total=85),
  exclude=["c10_[pdsv]_*ball*", "c10_sdf_*"])

c("C12", "trans", ["c12_*"], TR + "; the same at units 2^-40, 2^-20, 2^20 and 2^40; angles within 0.01 of every multiple of a quarter turn up to two turns, far from the origin", quick=dict(time=10, total=40))
c("C13", "trans", ["c13_*"], TR + "; the same at units 2^-40, 2^-20, 2^20 and 2^40", quick=dict(time=10, total=40), exclude=["c13_turn"])
c("C15", "bevy", ["c15_*"], "engine transforms with rotation about Z (seven exact unit quaternions, both signs; every angle in [-7,7] with sine and cosine as any point of the unit circle; 113 given angles; angles within 0.01 of every multiple of a quarter turn up to two turns, far from the origin; unit and other lengths), translations in [-8,8]^3, scales of either sign in [1/4,4]; placed queries at any two heights; the same at units 2^-40, 2^-20, 2^20 and 2^40", quick=dict(time=10, total=60), exclude=["c15_box_ball"],
  assumptions=["the bevy umbrella crate is replaced by one that re-exports the real bevy_transform 0.15 type and an empty component derive"])
c("C31", "bevy", ["c31_*"], "twelve unit quaternions about all axes, and every angle in [-7,7] about X, Y and Z (sine and cosine as any point of the unit circle); translations in [-8,8]^3 (also to 8192), scales of either sign with magnitude in [1/4,4] per axis, points in [-4,4]^3 (also to 1024); the relative transform with five scales of the outer one; the same at units 2^-40, 2^-20, 2^20 and 2^40; angles within 0.01 of every multiple of a quarter turn up to two turns, far from the origin", quick=dict(time=15, total=45),
  assumptions=["the bevy umbrella crate is replaced by one that re-exports the real bevy_transform 0.15 type and an empty component derive"])
c("C28", "support", ["c28_*"], "0 to 40, 64, 100, 128, 257, 360 and 1000 vertices, radius any real in [1,2] (also scaled by 1/64 and 1024, and at units 2^-40, 2^-20, 2^20 and 2^40), vertices asserted to radius/16384", quick=dict(time=10, total=40),
  assumptions=["sine and cosine of a concrete angle are those of the platform's libm, evaluated natively"])
c("C30", "support", ["c30_[!a]*", "c30_*"], "1 to 6 corners; any one corner of four catalogue polygons anywhere in [-4,4]^2 (reals), three polygons moved anywhere by up to 4, triangles with four whole coordinates in [-4,4], any two points, any three points (partial), one corner of a 9- to 60-gon moved in or out, regular polygons of 3 to 102 corners; the same at units 2^-40, 2^-20, 2^20 and 2^40; verdict asserted when every deciding quantity is 1/1024 or more from its limit", quick=dict(time=15, total=60))
c("C14", "trans", ["c14_*"], TR + "; rotors from every angle in [-7,7] (sine and cosine as any point of the unit circle) and from 113 given angles; the same at units 2^-40, 2^-20, 2^20 and 2^40; angles within 0.01 of every multiple of a quarter turn up to two turns, far from the origin", quick=dict(time=10, total=40))
c("C16", "support", ["c16_*"], "catalogue polygons, boxes with sizes in [1/4,2] and balls, 12- and 16-gons, 64 to 300 corners, under every transform kind; directions with real components in [-1,1]; the same at units 2^-40, 2^-20, 2^20 and 2^40; " + TR, quick=dict(time=8, total=45))
c("C17", "support", ["c17_*"], "polygons of 1 to 5 points (also 70 and 300) with real coordinates in [-2,2], boxes and balls with any real size in range, scales 2^-40 to 2^40", quick=dict(time=6, total=40))
c("C18", "support", ["c18_*"], "unions of a box or ball and a second shape; placed as in C10; all pairs also placement by placement", quick=dict(time=4, total=60), exclude=["c18_[pds]_*ball*"])
TILE = "histories of 2 to 5 operations with symbolic tile values 0..255 and positions in windows across chunk borders (corner: 4 cells of 4 chunks, row and column: 4 cells of 2 chunks, far: two cells of any of 2^27 chunks); single operations at every 32-bit position; a whole chunk filled and emptied; 40 chunks"
c("C19", "tile", ["c19_set_get", "c19_unset", "c19_others", "c19_any_remove", "c19_*_2", "c19_*"], TILE, quick=dict(time=6, total=50))
c("C20", "tile", ["c20_*_2", "c20_*"], TILE, quick=dict(time=6, total=45), max_steps=30000000)
c("C21", "tile", ["c21_*"], "world positions in [-1024,1024] (reals, every quarter, and one step of single precision beside tile borders), tile positions over 32 bits (centres to 2^24); world positions to 2^21 for the containing tile and boxes on half units to 2^20 with half-sizes to 1024, boxes of real size to half-size 8", quick=dict(time=15, total=45))
c("C22", "tile", ["c22_*"], "rectangles with any corner in +-2^30 and 0 to 3 cells per side, also at the ends of the 32-bit range (membership: 6x4; also seven sizes up to 130x1 and 1x260, anywhere), padding in +-2^28", quick=dict(time=15, total=45))
c("C23", "tile", ["c23_*"], "one tile of the map, box movers of four shapes on a 1/8 grid within 2 to 2.5 units, ball movers at 12 offsets beside a tile anywhere in 65 chunks; clear movers among four tiles; boxes and balls of four sizes also placement by placement with every direction; point queries within 1.5 units (reals)", quick=dict(time=8, total=75),
  thorough_harnesses=["c23_ball_*"], exclude=["c23_ball_line", "c23_ball_side", "c23_ball_top", "c23_ball_corner"])
c("C24", "util", ["c24_*"], "components in [-1,1] scaled by 2^-66 .. 2^120, tolerances in [1e-6,1/8]; verdicts asserted a factor two away from the tolerance (f32) or for single-component differences (vectors)", quick=dict(time=5, total=40))
c("C25", "util", ["c25_*"], "up to 200 events (list; also 5000 given ones), 5 events (set), 40 events of which any one is free (set), 97 different ones (set), up to 80 subscribers (also 300), 1000 events in a row, every order of 7 attach and notify operations with two kinds of subscriber; event values 0..2^40", quick=dict(time=10, total=30))
c("C26", "util", ["c26_*"], "values in [-n,n] for n = 1e-6, 1, 1e6, parameters in [0,1]", quick=dict(time=10, total=30))
c("C27", "save", ["c27_file_[!o]*", "c27_file_over", "c27_tokens_any_1", "c27_tokens_far_1", "c27_*"], "tokens (the serde implementations through a data format of the harness): 1 to 3 set or remove operations with every tile value at symbolic positions (a chunk corner, one cell of any of 2^27 chunks, one cell of any chunk of the 32-bit range, any cell of one chunk), up to 12 chunks; files (save and load with serde_json): every tile value at 8 positions incl. the ends of the 32-bit range, up to 17 chunks, over a longer file, no file, a full device", quick=dict(time=8, total=70), max_steps=30000000,
  assumptions=["the file system is modelled: files in memory, writes complete or fail with storage full"])

BEVY = ["the bevy umbrella crate is replaced by one that re-exports the real bevy_transform 0.15 type and an empty component derive"]
c("C29", "solid", ["c29_box", "c29_box_grid", "c29_ball*", "c29_*"], "box half-sizes and radii in [1/4,2] and points in [-4,4]^3 (reals), sizes 0 to 2 and points on a 1/4 grid, balls along six rays (either order) and on a 7x7x7 grid with the centre; twelve rotations; the same at units 2^-40, 2^-20, 2^20 and 2^40; contact and ties within 1/128 free", quick=dict(time=15, total=75), assumptions=BEVY)
c("C32", "solid", ["c32_*"], "twelve unit quaternions; translations in [-8,8]^3, scales of either sign with magnitude in [1/4,4] per axis, points in [-4,4]^3; angles within 0.01 of every multiple of a quarter turn about each axis with points to 256; compositions with three scales of the outer one (axis transforms: any); the same at units 2^-40, 2^-20, 2^20 and 2^40", quick=dict(time=15, total=45), assumptions=BEVY)
c("C33", "solid", ["c33_*"], "box half-sizes in [1/4,2], radii to 4, real directions (not shorter than 1/8 for balls; axes and diagonals at three lengths), any two covered points in [-4,4]^3; the same at units 2^-40, 2^-20, 2^20 and 2^40", quick=dict(time=15, total=45), assumptions=BEVY)

NA = {}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
for x in props:
    if x["id"] not in PLAN and x["id"] not in NA:
        NA[x["id"]] = "no check yet"
json.dump(PLAN, open(f"{V}/tools/plan.json", "w"), indent=1)
M = {"version": 1,
 "setup_cmd": "cd lirsym && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=../target/lirsym cargo build --release --offline -q",
 "checks": [{
   "property": x["id"],
   "quick_cmd": f"python3 tools/check.py {x['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {x['id']}",
   "evidence_file": f"evidence/{x['id']}.json",
   "technique": "symbolic execution of the crate's LLVM IR, path conditions and assertions discharged by z3 over exact reals/integers with rounding-error bounds; counterexamples replayed on the native build",
   "level": "model_checking",
   "level_note": "bounded: " + PLAN[x["id"]]["bounds"] + ". Every feasible path of the real code within these bounds is decided for all inputs on it, except those the evidence lists as undecided or unfinished within the time limit.",
 } for x in props if x["id"] in PLAN],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "Own engine: /verif/lirsym (LLVM IR symbolic executor in Rust, z3 back end). Harnesses: /verif/harness. See DESIGN.md."}
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1)
