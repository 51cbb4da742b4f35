#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays one
valid JSON object per line)."""
import json, os
S = "src/col2d/shape/"
D = "src/col2d/detection/"
T = "src/col2d/transformation2d/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Ball, box and point overlap verdicts are exact",
  "For a box against a point or ball, a ball against a point or ball, a point against a point, and the reversed point queries, the collision query answers true when the two placed shapes overlap and false when they are apart, for every size and position of moderate magnitude. Only exact contact (up to float rounding) may be answered either way.",
  ["inputs"], "all non-negative sizes and all relative positions (magnitudes whose squares neither overflow nor underflow)",
  "The tests sample a few dozen hand-picked positions; the verdict must hold on every side, corner region and sign quadrant.",
  [S+"box2d/v_point.rs", S+"box2d/v_ball.rs", S+"ball2d/v_point.rs", S+"ball2d/v_ball2d.rs", S+"rounded_box2d/v_point.rs", S+"point2d.rs", D+"collides.rs"],
  [("closed-form vector signed distance per pair", S+"*/v_*.rs"), ("reverse point queries", S+"point2d.rs")],
  ["collides_rel", "collides"])
p("C02", "Ball, box and point penetration is the shortest way out",
  "When a ball, box or point pair overlaps, the penetration query returns a vector such that moving the first shape by it leaves the pair in mere contact, and no shorter translation separates them. When they are apart it returns nothing.",
  ["inputs"], "all sizes and all overlapping relative positions, including concentric ones and centres lying exactly on a box face line",
  "Minimality is a statement about all other translations; the tests check specific vectors at specific positions.",
  [S+"box2d/v_point.rs", S+"box2d/v_ball.rs", S+"ball2d/v_point.rs", S+"ball2d/v_ball2d.rs", S+"rounded_box2d/v_point.rs", S+"point2d.rs", D+"penetrates.rs"],
  [("face choice by larger of the two signed face distances", S+"rounded_box2d/v_point.rs"), ("concentric fallback direction", S+"ball2d/v_ball2d.rs")],
  ["penetrates_rel", "penetrates"])
p("C03", "Ball, box and point distance vectors close the gap",
  "When a ball, box or point pair is apart, the distance query returns the shortest translation of the first shape that brings the two into contact. When they overlap it returns nothing.",
  ["inputs"], "all sizes and all separated relative positions, in face and corner regions",
  "Tests look at axis-aligned positions; the corner regions and the reversed queries are sampled once or not at all.",
  [S+"box2d/v_point.rs", S+"box2d/v_ball.rs", S+"ball2d/v_point.rs", S+"ball2d/v_ball2d.rs", S+"rounded_box2d/v_point.rs", S+"point2d.rs", D+"distance_to.rs"],
  [("closed-form vector signed distance per pair", S+"*/v_*.rs")],
  ["distance_to_rel", "distance_to"])
p("C04", "Scalar signed distance is the true signed distance",
  "For every pair that offers the scalar signed distance, its value is the Euclidean gap between the two shapes when they are apart and minus the penetration depth when they overlap. It therefore agrees in sign and magnitude with the vector form.",
  ["inputs"], "all sizes and relative positions of box/ball/point pairs that offer the scalar form",
  "The scalar form is tested at a handful of positions; inside, face and corner regions need separate formulas, each valid for a continuum of inputs.",
  [S+"box2d/v_point.rs", S+"box2d/v_ball.rs", S+"ball2d/v_point.rs", S+"ball2d/v_ball2d.rs", S+"point2d.rs", D+"sdf.rs"],
  [("region case split", S+"box2d/v_point.rs"), ("box/ball scalar form", S+"box2d/v_ball.rs")],
  ["sdf_rel", "sdf"])
p("C05", "Box and polygon overlap verdicts are exact",
  "For boxes and convex polygons (box/box, box/polygon, polygon/box, polygon/polygon, and ball/box through the general algorithm) the collision query answers true when the placed shapes overlap and false when they are apart. Only contact within a small relative tolerance may be answered either way.",
  ["inputs"], "all relative positions and orientations of convex shapes containing their origin, moderate sizes",
  "The iterative search takes a different path for each arrangement of support points; the tests sample around forty placements.",
  [S+"local_minkowski_diff/v.rs", S+"local_minkowski_diff/mod.rs", D+"sdfv_minkowski.rs", S+"poly2d/mod.rs", S+"box2d/mod.rs"],
  [("GJK simplex refinement", S+"local_minkowski_diff/mod.rs"), ("termination on support fitness", S+"local_minkowski_diff/v.rs")],
  ["collides_rel", "collides"])
p("C06", "Box and polygon penetration separates and is shortest",
  "When two boxes or convex polygons overlap, the penetration query returns a vector such that moving the first shape by it removes the overlap, and its length exceeds the smallest separating translation by at most the documented one percent. When they are apart it returns nothing.",
  ["inputs"], "all overlapping relative positions and orientations of boxes and convex polygons",
  "Minimality over every direction and every placement; the tests check a few placements whose answer is known.",
  [S+"local_minkowski_diff/v.rs", S+"local_minkowski_diff/mod.rs", D+"penetrates.rs"],
  [("polytope expansion from the closest edge", S+"local_minkowski_diff/mod.rs"), ("winding normalisation", S+"local_minkowski_diff/mod.rs")],
  ["penetrates_rel", "penetrates"])
p("C07", "Box and polygon distance vectors close the gap",
  "When two boxes or convex polygons are apart, the distance query returns a vector whose length is the gap between them (within the documented one percent) and which brings the first shape into contact with the second. When they overlap it returns nothing.",
  ["inputs"], "all separated relative positions and orientations of boxes and convex polygons",
  "Distance queries run a separate copy of the search; the tests reach it only with a few axis-aligned placements.",
  [S+"local_minkowski_diff/v.rs", S+"local_minkowski_diff/mod.rs", D+"distance_to.rs"],
  [("distance from the terminal simplex to the origin", S+"local_minkowski_diff/mod.rs")],
  ["distance_to_rel", "distance_to"])
p("C08", "The four query forms agree with each other",
  "For any pair and placement not in exact contact, the boolean collision query, the presence of a penetration vector, the absence of a distance vector and the flag of the combined query all state the same verdict. The combined query returns the same vector as whichever of the two specific queries answered.",
  ["inputs"], "all supported pairs and relative positions outside the contact tolerance",
  "The forms are separate instantiations of the algorithms and are tested separately; their agreement is a relation over all inputs.",
  [D+"sdfv_common.rs", D+"sdfv_minkowski.rs", S+"local_minkowski_diff/v.rs", S+"box2d/v_point.rs", S+"rounded_box2d/v_point.rs"],
  [("one common query with two compile-time switches", D+"sdfv_common.rs")],
  ["collides_rel", "penetrates_rel", "distance_to_rel", "sdfv_rel"])
p("C09", "Swapping the two shapes mirrors every answer",
  "Asking about (a, b) and about (b, a) with the inverse placement gives the same verdict outside contact, and vectors of equal length; for closed-form pairs the vectors are opposite to each other when expressed in the same frame.",
  ["inputs"], "all pairs available in both orders, all relative positions",
  "A relation between two runs over every input; no test swaps operands.",
  [S+"point2d.rs", S+"ball2d/v_ball2d.rs", S+"local_minkowski_diff/v.rs", "src/col/transform.rs"],
  [("reverse queries through the inverse placement", S+"point2d.rs")],
  ["collides_rel", "penetrates_rel", "distance_to_rel", "sdfv_rel"])
p("C10", "Placed colliders answer in world geometry",
  "Queries on two colliders placed by rigid transforms depend only on where the shapes are in the world: verdicts and lengths equal those of the world-space shapes, the combined query's vector is expressed in world axes, and the other vectors in the axes of the first collider. Moving both colliders by a common rigid motion changes neither verdicts nor lengths.",
  ["inputs"], "all rigid placements (translation and rotation) of both colliders",
  "Tests place almost every first collider at the origin without rotation.",
  ["src/col2d/collider2d.rs", "src/col/transform.rs", D+"collides.rs", D+"penetrates.rs", D+"distance_to.rs", D+"sdf.rs", D+"sdfv.rs", T+"transform2d.rs"],
  [("relative placement", "src/col/transform.rs"), ("rotation of the result", D+"sdfv.rs")],
  ["collides", "penetrates", "distance_to", "sdf", "sdfv"])
p("C11", "Every query on valid shapes terminates with finite data",
  "For valid shapes and finite placements of moderate size, including exactly touching, concentric, coincident and degenerate zero-size ones, no query panics, and every vector or scalar it returns is finite.",
  ["inputs"], "all sizes and placements, in particular the measure-zero contact configurations",
  "Exact contact and coincidence are isolated points no sampling hits by accident.",
  [S+"local_minkowski_diff/v.rs", S+"local_minkowski_diff/mod.rs", S+"box2d/v_point.rs", S+"box2d/v_ball.rs", S+"ball2d/v_ball2d.rs", S+"rounded_box2d/v_point.rs"],
  [("degenerate direction override", S+"local_minkowski_diff/v.rs"), ("iteration limit", S+"local_minkowski_diff/v.rs")],
  ["collides_rel", "penetrates_rel", "distance_to_rel", "sdfv_rel", "sdf_rel"])
p("C12", "Placing a point and un-placing it is the identity",
  "For every 2D transformation kind with non-zero scale, un-applying after applying (and the reverse) returns the original point up to rounding, applying to the zero vector equals the placed origin, and the inverse transformation maps exactly as un-applying does.",
  ["inputs"], "all translations, rotations, non-zero scales and points",
  "Algebraic laws over all parameters; tests use a handful of constants and no inverse of the scaled axis-aligned kind.",
  [T+"mod.rs", T+"translate2d.rs", T+"axis_transform2d.rs", T+"transform2d.rs", "src/col/transform.rs"],
  [("apply/unapply/inverse per kind", T+"*.rs")],
  ["apply", "unapply", "apply_origin", "inverse"])
p("C13", "Composition and relative placement are consistent",
  "For every 2D transformation kind with uniform scale, applying a composition equals applying the second then the first transformation, and the relative placement from one to another maps any point so that placing the result with the first equals placing the point with the second. The identity is neutral.",
  ["inputs"], "all pairs of transformations with uniform non-zero scale, all points",
  "Two transformations times one point, with rotation and scale interacting; the tests use pure translations or single rotations.",
  [T+"translate2d.rs", T+"axis_transform2d.rs", T+"transform2d.rs", "src/col/transform.rs"],
  [("compose", T+"transform2d.rs"), ("relative placement = inverse then compose", "src/col/transform.rs")],
  ["compose", "delta_transform"])
p("C14", "Rotations preserve lengths, compose and invert",
  "Placing a direction rotates it without translating or scaling it, un-placing undoes that, rotations preserve lengths and angles, multiplying two rotations equals rotating twice, and a rotation times its inverse is the identity. The reported angle of a rotation names that rotation. The reported scaling factor bounds how much the transformation enlarges any shape.",
  ["inputs"], "all unit rotations, all vectors",
  "Algebra over a continuum of angles; tests use multiples of a right angle.",
  [T+"mod.rs", T+"transform2d.rs", T+"axis_transform2d.rs", T+"translate2d.rs"],
  [("rotor product", T+"mod.rs"), ("apply_normal/unapply_normal", T+"transform2d.rs")],
  ["apply_normal", "unapply_normal", "scaling_factor", "Rotor2d"])
p("C15", "3D engine transforms act on 2D shapes by their planar part",
  "A 3D engine transform used on 2D shapes places points and directions exactly like the 2D transform with the same planar translation, planar scale and rotation about Z; composing or inverting such transforms in 3D and then reading the planar part agrees with doing it in 2D.",
  ["inputs"], "all planar translations, uniform scales, rotations about Z given by non-zero quaternions (any norm), points",
  "Tests check one translation and whole-degree rotations only.",
  [T+"bevy_transform.rs", "src/col/bevy_transform.rs", T+"mod.rs"],
  [("planar part of a quaternion", T+"mod.rs")],
  ["Rotor2d::from_quaternion", "Transform2d::from(Transform)"])
p("C16", "The extreme point is the farthest point of the shape",
  "For every shape, plain or placed by a transformation, the extreme point along a direction belongs to the shape and no other point of the shape lies farther along that direction.",
  ["inputs"], "all shapes, placements and non-zero directions",
  "A maximality statement over all points and directions; tests check box and triangle corners along axis directions.",
  [S+"box2d/mod.rs", S+"ball2d/mod.rs", S+"poly2d/mod.rs", S+"point2d.rs", S+"mod.rs", D+"extreme_point.rs", "src/col2d/collider2d.rs"],
  [("support functions", S+"*/mod.rs"), ("placed support through the local direction", D+"extreme_point.rs")],
  ["extreme_point", "extreme_point_t"])
p("C17", "Bounding boxes contain the shape and are tight",
  "The symmetric bounding box of a shape contains every point of it and no smaller origin-centred box does. Growing a box to cover a point makes it contain that point, keeps everything it contained and grows no more than needed.",
  ["inputs"], "all balls, boxes, points, polygons and covered points",
  "Tests check one ball; containment and tightness quantify over all points of the shape.",
  [S+"ball2d/mod.rs", S+"box2d/mod.rs", S+"poly2d/mod.rs", S+"point2d.rs", "src/col2d/mod.rs"],
  [("cover", S+"box2d/mod.rs"), ("fold over vertices", S+"poly2d/mod.rs")],
  ["symmetric_bounding_box", "Box2d::cover"])
p("C18", "The mixed-shape union behaves like the wrapped shape",
  "A mixed-shape value answers extreme-point, collision, penetration and distance queries as the wrapped ball, box or polygon does, for every combination of the variants, and a box converted to a polygon denotes the same set of points.",
  ["inputs"], "all combinations of wrapped shapes and relative positions",
  "Only ball/ball through the union is tested, at one position.",
  [S+"mod.rs", S+"poly2d/mod.rs", S+"local_minkowski_diff/v.rs"],
  [("dispatch by variant", S+"mod.rs"), ("box to polygon", S+"poly2d/mod.rs")],
  ["Shape2d", "Poly2d::from(Box2d)"])
p("C19", "The tile map is a total map from positions to tiles",
  "After any sequence of set and remove operations, reading a position returns the tile last set there, or empty if it was never set or was removed since; no operation changes what any other position reads, including positions with negative coordinates and in neighbouring chunks. A chunk is present whenever one of its tiles is non-empty.",
  ["histories", "inputs"], "all operation sequences and all positions",
  "History-dependent; the only test sets one tile and counts chunks after serialisation.",
  [S+"tilemap.rs"],
  [("chunk and local position decomposition", S+"tilemap.rs"), ("chunk creation on set and removal when empty", S+"tilemap.rs")],
  ["set_tile", "get_tile", "remove_tile", "get_chunk"])
p("C20", "The tile map's event ledger tells its chunk history",
  "Replaying the ledger's created and removed events yields exactly the chunks that are present, with no chunk created twice without removal or removed while absent. Every operation that changes what some position reads in a chunk that was and stays present records a changed event for it, and an operation that changes nothing records nothing.",
  ["histories"], "all operation sequences and positions",
  "History-dependent; no test looks at the events.",
  [S+"tilemap.rs", "src/utils/publisher.rs"],
  [("notify on creation, change and removal", S+"tilemap.rs"), ("append-only ledger", "src/utils/publisher.rs")],
  ["Tilemap::events"])
p("C21", "World, tile and chunk coordinates convert consistently",
  "A world position maps to the tile whose unit square around its centre contains it, tile centres map back to themselves, every tile position splits into exactly one chunk and one in-range local position that recombine to it, and the tile rectangle of a placed box contains every tile the box overlaps and none it clearly misses.",
  ["inputs"], "all 32-bit tile positions, all finite world positions and box sizes in tile range",
  "No test exercises the conversions; rounding at half-integers and negative coordinates are where they differ.",
  [S+"tilemap.rs"],
  [("round to nearest", S+"tilemap.rs"), ("euclidean chunk decomposition", S+"tilemap.rs")],
  ["world_to_tile_pos", "tile_to_world_pos", "tile_to_chunk_and_local_pos", "tile_to_chunk_pos", "quantize"])
p("C22", "Rectangle iteration visits each cell once, in order",
  "Each directional iteration over a tile rectangle yields every contained cell exactly once, ordered row by row in the named direction, in every boxed or direction-driven form; padding a rectangle extends it by the padding on all four sides.",
  ["inputs"], "all rectangles (including single-cell, empty and negative ones), directions and paddings",
  "There is no test of the rectangle type at all.",
  ["src/utils/rect2.rs"],
  [("nested ranges with optional reversal", "src/utils/rect2.rs"), ("pad", "src/utils/rect2.rs")],
  ["iterate_*", "iterate_boxed", "iterate_with_direction_f32", "pad"])
p("C23", "Tile resolution frees movers and leaves free movers alone",
  "A ball or box overlapping no solid tile is returned at its own position; one overlapping a single solid tile is moved by the shortest way out of that tile and ends up not overlapping it. A point query on the map is true exactly when the tile containing the point is solid.",
  ["inputs", "configurations"], "all mover sizes and positions around a solid tile, all tile positions and direction hints",
  "The only test constructs the arguments and asserts nothing.",
  [S+"tilemap.rs", "src/utils/rect2.rs", S+"box2d/v_ball.rs", S+"local_minkowski_diff/v.rs"],
  [("per-tile penetration push-out in direction order", S+"tilemap.rs")],
  ["simple_resolve_ball", "simple_resolve_box", "collides_rel(Point)"])
p("C24", "Approximate equality is a tolerance test",
  "Approximate equality accepts equal finite values, never accepts anything involving NaN, accepts pairs whose difference is well within the tolerance (relative to their magnitude) and rejects pairs whose difference is well outside it, and is symmetric away from the tolerance boundary, for numbers, 2D and 3D vectors.",
  ["inputs"], "all pairs of floats and vectors and all tolerances in (0, 1/8]",
  "It is the oracle the tests use and is itself untested; infinities, NaN, zero and huge values are special cases.",
  ["src/utils/approx.rs"],
  [("relative error against magnitude", "src/utils/approx.rs")],
  ["approx_eq", "approx_eq_tolerance"])
p("C25", "Publishers deliver each event once and in order",
  "The list ledger holds exactly the notified events in order, the set ledger exactly the distinct ones, and the callback publisher calls every attached subscriber once per event in attachment order with that event.",
  ["histories"], "all sequences of attach and notify",
  "History-dependent; there is no test of the publishers.",
  ["src/utils/publisher.rs"],
  [("notify", "src/utils/publisher.rs")],
  ["notify", "attach", "events"])
p("C26", "Interpolation hits both ends and stays between them",
  "Linear interpolation returns the first value at 0, the second at 1 up to rounding, stays between them for parameters in [0, 1], and is applied component-wise to vectors; squaring is the product with itself.",
  ["inputs"], "all finite endpoints of moderate magnitude and parameters in [0, 1]",
  "No test exercises it; monotone containment is a statement over all inputs.",
  ["src/lib.rs"],
  [("lerp", "src/lib.rs")],
  ["Lerp::lerp", "Square::square"])
p("C27", "A saved tile map loads back the same",
  "Saving a tile map to a file and loading it yields a map that reads the same at every position and has the same chunks present, also when the file replaces an older one. The same holds for any serde data format. A save that could not be written reports an error, and so does loading a file that does not exist.",
  ["histories", "inputs", "fault_sequences"], "all tile maps, all tile values, writable and full devices",
  "Tests round-trip one tile through memory and compare only the chunk count.",
  [S+"tilemap.rs"],
  [("serde of the chunk map as a list of pairs", S+"tilemap.rs")],
  ["save", "load"])
p("C28", "Regular polygons have evenly spaced vertices on a circle",
  "A regular polygon has the requested number of vertices, all at the requested radius and evenly spaced, counted from the right (or from the top for the upright form).",
  ["inputs"], "all side counts and radii",
  "No test checks vertex positions.",
  [S+"poly2d/mod.rs"],
  [("sine and cosine of equal angle steps", S+"poly2d/mod.rs")],
  ["Poly2d::regular", "Poly2d::regular_upright"])
p("C29", "3D box, ball and point queries match 3D geometry",
  "For a 3D box or ball against a point, and for a point against a box or ball, under translations and rotations: the collision query is exact outside contact; the penetration vector, present exactly when the shapes overlap, is the shortest motion of the first shape that ends the overlap; the scalar signed distance is the gap or minus the depth; the vector form is the shortest motion of the first shape into contact. The forms that take both placements agree with the relative one.",
  ["inputs"], "all sizes and placements of moderate magnitude",
  "The 3D module is not built by the test configuration, and its tests hold a few placements along the axes.",
  ["src/col3d/mod.rs", "src/col3d/default_impls.rs", "src/col3d/shape/box3d.rs", "src/col3d/shape/ball3d.rs", "src/col3d/detection/collides.rs", "src/col3d/detection/penetrates.rs"],
  [("queries of a box against a point", "src/col3d/shape/box3d.rs"), ("the reversed queries", "src/col3d/default_impls.rs")],
  ["CollidesRel3d", "PenetratesRel3d", "SdfRel3d", "SdfvRel3d", "Collides3d::collides", "Penetrates3d::penetrates"])
p("C30", "The strict polygon check accepts exactly the valid polygons",
  "The strict check of a polygon passes when the origin lies strictly inside the polygon and every corner is farther along its own direction than all other corners. It fails when the origin lies outside, when some other corner is farther along a corner's direction than the corner itself, and for fewer than three corners. Cases exactly on a limit may go either way.",
  ["inputs"], "all polygons",
  "One test checks that one triangle passes; none checks that anything fails.",
  [S+"poly2d/mod.rs"],
  [("validity of a polygon given as corners", S+"poly2d/mod.rs")],
  ["Poly2d::strict_check"])
p("C31", "Engine transforms place, un-place, compose and invert 3D points",
  "A 3D engine transform places a point by scaling each axis, then rotating, then translating; un-placing undoes placing at any non-zero scales. The inverse, the composition and the relative transform agree with un-placing and placing one after the other: the inverse for equal scales or without rotation, the composition and the relative transform when the outer one scales all axes alike. The identity transform moves nothing.",
  ["inputs"], "all unit quaternions, translations and non-zero scales, points",
  "No test exercises the 3D form of the engine transform in the built configuration.",
  ["src/col/bevy_transform.rs", "src/col/mod.rs", "src/col/transform.rs"],
  [("scale, rotate, translate and its reverse", "src/col/bevy_transform.rs"), ("relative transform through inverse and composition", "src/col/transform.rs")],
  ["Transformation3d", "Invertible", "Composable", "DeltaTransform", "IdentityTransform"])
p("C32", "3D transformations place, un-place, compose and invert",
  "Every 3D transformation of the crate (vectors, translations, axis, isotropic and full transforms) places a point by scaling, rotating and translating it in this order and un-places it back. The inverse acts as un-placing does (for equal scales), the composition as one after the other and the relative transform as placing then un-placing (when the outer one scales all axes alike). Conversion from and to the engine's transform keeps the placement.",
  ["inputs"], "all translations, non-zero scales, unit quaternions and points",
  "The 3D module is not built by the test configuration; its tests check a handful of points.",
  ["src/col3d/transformation3d/axis_transform3d.rs", "src/col3d/transformation3d/isotropic3d.rs", "src/col3d/transformation3d/transform3d.rs", "src/col3d/transformation3d/translate3d.rs"],
  [("scale, rotate, translate and its reverse", "src/col3d/transformation3d/transform3d.rs"), ("equal scales", "src/col3d/transformation3d/isotropic3d.rs")],
  ["Transformation3d", "Invertible", "Composable", "DeltaTransform"])
p("C33", "3D extreme points are farthest and covering boxes are tight",
  "The extreme point of a 3D box, ball or point along a direction belongs to the shape and no other point of the shape lies farther along it. Growing a 3D box to cover a point makes it contain the point, keeps what it contained and grows no more than needed.",
  ["inputs"], "all sizes, directions and covered points",
  "No test calls these in three dimensions.",
  ["src/col3d/shape/box3d.rs", "src/col3d/shape/ball3d.rs", "src/col3d/shape/point3d.rs"],
  [("corner by the signs of the direction", "src/col3d/shape/box3d.rs"), ("ball along the normalised direction", "src/col3d/shape/ball3d.rs")],
  ["ExtremePoint3d::extreme_point", "Box3d::cover"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
