"""single source for properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from table import TABLE
J = "jagua-rs/src/"
def m(*a): return [dict(name=n, where=w) for n, w in a]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=list(observe), hook_needed=None)))
CDE, QT, HPG = J + "collision_detection/cd_engine.rs", J + "collision_detection/quadtree/", J + "collision_detection/hpg/"
GEO, FF = J + "geometry/primitives/", J + "geometry/fail_fast/"
LAY, PR = J + "entities/layout.rs", J + "entities/problems/"
T0 = "The suite is eleven end-to-end optimizer runs that only assert that nothing panics; "

p("C01", "A collision query answers exactly the geometric question",
  "For every shape and placement, a collision query on a layout answers yes exactly when the shape leaves the bin or shares a point with a hole, a relevant quality zone or a placed item, whatever the quadtree depth and however the hazards straddle the quadtree's cells. Contact counts as a collision.",
  ["inputs", "configurations"], "every item shape, position, scene of hazards and quadtree depth",
  T0 + "a missed collision at one particular position is never looked for, and the positions at which cell borders, shared vertices and contained hazards matter are a vanishing part of the random samples.",
  [CDE, QT + "qt_node.rs", QT + "qt_hazard.rs", QT + "qt_partial_hazard.rs", QT + "qt_hazard_vec.rs", J + "collision_detection/hazard.rs"],
  m(("edge descent through the quadtree", QT + "qt_node.rs: QTNode::collides"), ("hazard constriction to quadrants", QT + "qt_hazard.rs: QTHazard::constrict"), ("containment by representative point", CDE + ": poly_collides / poly_or_hazard_are_contained")), ["CDEngine::poly_collides", "CDEngine::edge/point/circle queries"])
p("C02", "The fail-fast surrogate never rejects a feasible placement",
  "The surrogate of an item (its poles and piers) collides only where the item itself collides, so rejecting a placement on the surrogate never loses a feasible one. Checking the surrogate first and the shape afterwards gives the same verdict as checking the shape alone.",
  ["inputs", "configurations"], "every item, surrogate configuration, placement and scene",
  T0 + "a surrogate that sticks out of its shape silently shrinks the set of solutions found, which no test compares with anything.",
  [CDE, FF + "sp_surrogate.rs", FF + "poi.rs", FF + "piers.rs"],
  m(("surrogate collision check", CDE + ": surrogate_collides"), ("surrogate transformation", FF + "sp_surrogate.rs: transform/transform_from")), ["CDEngine::surrogate_collides"])
p("C03", "Collecting collisions returns exactly the colliding hazards",
  "Collecting the collisions of a shape yields every hazard that it collides with, and no other, each at most once, leaving out the hazards the caller declares irrelevant. Entries that the caller's buffer held beforehand stay in it and are not duplicated.",
  ["inputs", "configurations"], "every shape, placement, scene with overlapping hazards and initial buffer content",
  T0 + "the collecting query is not called by the optimizer at all.",
  [CDE, QT + "qt_node.rs", QT + "qt_hazard_vec.rs"],
  m(("collecting descent", QT + "qt_node.rs: collect_collisions"), ("containment collection", CDE + ": collect_poly_collisions")), ["CDEngine::collect_poly_collisions", "CDEngine::collect_poly_collisions_in_detector"])
p("C04", "Any history of layout changes behaves like a fresh layout",
  "After any sequence of placing, removing (committed or not), flushing, snapshotting, restoring, cloning and bin changes, a layout holds exactly the items that sequence describes and every collision query answers as on a layout built afresh with the same contents. Restoring a snapshot brings back the contents at the moment it was taken, and removed hazards never come back on their own.",
  ["histories", "inputs"], "every sequence of layout operations and every query after it",
  T0 + "the optimizer only ever places, so removal, deferred removal, re-registration and restoring are never exercised together.",
  [LAY, CDE, QT + "qt_node.rs", QT + "qt_hazard_vec.rs", J + "collision_detection/hazard.rs"],
  m(("register / deregister / commit", CDE + ": register_hazard, deregister_hazard, commit_deregisters"), ("snapshots", CDE + ": create_snapshot, restore"), ("layout snapshots", LAY + ": create_snapshot, restore, change_bin")), ["Layout", "CDEngine"])
p("C05", "Quality zones and hazard filters exclude exactly what they name",
  "A zone of inferior quality forbids exactly the items that demand more than its quality: an item whose minimum quality it meets may overlap it, an item with no stated minimum may overlap none. Hazard filters suppress exactly the hazards they describe and no query result changes because of a hazard that is suppressed.",
  ["inputs", "configurations"], "every zone quality, item base quality, filter and placement",
  T0 + "the test instances contain no item with a base quality.",
  [J + "collision_detection/hazard_filter.rs", J + "entities/quality_zone.rs", J + "entities/item.rs", J + "entities/bin.rs", CDE],
  m(("filters", J + "collision_detection/hazard_filter.rs"), ("per-item filter", J + "entities/item.rs: Item::new"), ("zones as hazards", J + "entities/bin.rs: Bin::new")), ["CDEngine::poly_collides with Item::hazard_filter", "hazard_filter::generate_irrelevant_hazards"])
p("C06", "A definite answer of the quick queries is right",
  "The cheap three-valued queries on points, edges and circles may answer that they do not know, but a definite yes is given only where a collision exists and a definite no only where there is none. Collisions with hazards the caller declares irrelevant never make the answer yes.",
  ["inputs", "configurations"], "every point, edge, circle and scene", T0 + "a wrong definite answer only biases which placements are found.",
  [CDE, QT + "qt_node.rs"], m(("definitely_collides", QT + "qt_node.rs"), ("bounded-depth queries", CDE)), ["CDEngine::point_definitely_collides_with, edge_definitely_collides, circle_definitely_collides"])
p("C07", "The hazard proximity grid is correct after any history",
  "After any sequence of layout changes and a flush, every cell of the hazard proximity grid reports the same proximities as a grid built afresh for the same contents; the proximity to placed items is the distance from the cell's centre to the nearest covered area and never overestimates the true distance to an item. A grid with pending changes refuses to be read; after a snapshot or a restore nothing is pending.",
  ["histories", "inputs"], "every sequence of layout operations, every cell", T0 + "stale cells make the sampler skip or waste positions without any test failing.",
  [HPG + "hazard_proximity_grid.rs", HPG + "hpg_cell.rs", HPG + "boundary_fill.rs", HPG + "grid.rs", HPG + "grid_generator.rs"],
  m(("boundary fill", HPG + "boundary_fill.rs"), ("cell updates", HPG + "hpg_cell.rs: update, deregister_hazards"), ("dirty marking", HPG + "hazard_proximity_grid.rs")), ["CDEngine::haz_prox_grid", "HPGCell"])
p("C08", "The proximity grid never excludes a feasible placement",
  "A cell of the hazard proximity grid that says an item cannot be accommodated in it is right: no placement of the item with its pole of inaccessibility inside that cell is free of collisions. This holds for every item, quality and rotation.",
  ["inputs", "histories"], "every item, cell, position inside the cell and scene", T0 + "excluding a feasible cell only loses solution quality.",
  [HPG + "hpg_cell.rs", HPG + "hazard_proximity_grid.rs", "lbf/src/samplers/hpg_sampler.rs"],
  m(("accommodation test", HPG + "hpg_cell.rs: could_accommodate_item"), ("grid covers the bin", HPG + "grid_generator.rs")), ["HPGCell::could_accommodate_item"])
p("C09", "Primitive overlap tests are exact and symmetric",
  "Two primitives (edges, axis-aligned rectangles, circles, points) are reported as overlapping exactly when their closed point sets intersect, and the answer does not depend on argument order or on the direction of an edge. Parallel edges are the one documented exception: they never count as crossing. The point at which two edges are said to cross lies on both.",
  ["inputs"], "every pair of primitives", T0 + "a primitive that is wrong on one contact configuration is invisible there.",
  [GEO + "edge.rs", GEO + "aa_rectangle.rs", GEO + "circle.rs", GEO + "point.rs"],
  m(("edge-edge", GEO + "edge.rs: edge_intersection"), ("edge-rectangle", GEO + "aa_rectangle.rs: collides_with<Edge>"), ("circle tests", GEO + "circle.rs")), ["CollidesWith"])
p("C10", "Point-in-polygon is right for every point off the border",
  "A point is reported inside a polygon exactly when it is in its interior, for convex and concave polygons, for points level with vertices or horizontal edges, and independently of the direction or start of the vertex list.",
  ["inputs"], "every simple polygon and every point not on its border", T0 + "points level with a vertex are rare in random sampling and are exactly where ray casting goes wrong.",
  [GEO + "simple_polygon.rs"], m(("ray casting", GEO + "simple_polygon.rs: collides_with<Point>")), ["SimplePolygon::collides_with"])
p("C11", "Distances are consistent with each other and with the geometry",
  "The distance from a point to a primitive or polygon is zero inside and the shortest Euclidean distance outside; the distance from the border is that to the nearest border point together with the right side. Squared and plain variants agree.",
  ["inputs"], "every primitive and point", T0 + "no test computes a distance.",
  [GEO + "edge.rs", GEO + "aa_rectangle.rs", GEO + "circle.rs", GEO + "point.rs", GEO + "simple_polygon.rs"],
  m(("DistanceFrom implementations", GEO)), ["DistanceFrom::{distance, sq_distance, distance_from_border, sq_distance_from_border}"])
p("C12", "Rectangle algebra partitions and relates correctly",
  "The relation reported between two axis-aligned rectangles, their intersection and their common bounding box agree with the point sets; quadrants tile the parent exactly, in the fixed order, and the neighbour table matches it. Growing to a square or scaling keeps the centre, and grid cells tile and cover their bounding box with the right indices and neighbours.",
  ["inputs", "configurations"], "every pair of rectangles and every grid size", T0 + "only the sizes of the sample instances occur.",
  [GEO + "aa_rectangle.rs", HPG + "grid.rs", HPG + "grid_generator.rs", GEO + "point.rs"],
  m(("relations", GEO + "aa_rectangle.rs: relation_to, from_intersection, bounding_rectangle"), ("quadrants", GEO + "aa_rectangle.rs: quadrants"), ("grid", HPG + "grid.rs")), ["AARectangle", "Grid"])
p("C13", "Transformations compose, invert and decompose as rigid motions",
  "Composing transformations applies them in the order given, the inverse undoes them, and decomposing and recomposing gives the same motion. Rotating turns about the origin counter-clockwise and a rotation followed by a translation is what a decomposed transformation denotes.",
  ["inputs"], "every sequence of rotations and translations", T0 + "a wrong order of composition shows only for items with both rotation and offset.",
  [J + "geometry/transformation.rs", J + "geometry/d_transformation.rs", GEO + "point.rs"],
  m(("matrix products", J + "geometry/transformation.rs"), ("decomposition", J + "geometry/d_transformation.rs")), ["Transformation", "DTransformation"])
p("C14", "Derived data of a polygon match its vertices under every motion",
  "For every simple polygon, whatever the direction of its vertex list, vertices end up counter-clockwise and area, bounding box, diameter and centroid are those of the vertex set. Moving a polygon, in place, as a copy or into a reused buffer, moves vertices, bounding box, inner circle and surrogate consistently and leaves area and diameter alone.",
  ["inputs"], "every simple polygon and rigid motion", T0 + "derived data that drift only change which branch a filter takes.",
  [GEO + "simple_polygon.rs", FF + "sp_surrogate.rs", GEO + "edge.rs", GEO + "circle.rs"],
  m(("construction", GEO + "simple_polygon.rs: new"), ("transform, transform_from", GEO + "simple_polygon.rs")), ["SimplePolygon", "Shape", "Transformable"])
p("C15", "Surrogate poles and the inner circle lie inside the shape",
  "The pole of inaccessibility and every further pole generated for a polygon lie inside it, the poles do not overlap each other, and the circle that bounds the poles contains all of them. Number and coverage of the poles respect the configuration, and the inner circle is as large as any that fits up to the search tolerance.",
  ["inputs", "configurations"], "every simple polygon and surrogate configuration", T0 + "a pole sticking out makes placements infeasible only where nothing else collides.",
  [FF + "poi.rs", FF + "sp_surrogate.rs", GEO + "circle.rs"],
  m(("pole generation", FF + "poi.rs"), ("bounding circle", GEO + "circle.rs: bounding_circle")), ["SPSurrogate", "poi::generate_next_pole", "Circle::bounding_circle"])
p("C16", "The convex hull is exactly the set of extreme points",
  "The convex hull of a point set or polygon is a convex, counter-clockwise polygon whose vertices are input points and that contains all of them. This also holds when several points share an extreme coordinate.",
  ["inputs"], "every point set", T0 + "hulls are used for statistics and diameter only, never compared.",
  [J + "geometry/convex_hull.rs"], m(("monotone chain", J + "geometry/convex_hull.rs")), ["convex_hull_from_points", "convex_hull_indices", "convex_hull_from_shapes"])
p("C17", "Simplification only ever errs on the safe side",
  "Simplifying an item's outline never removes any part of it and simplifying a bin's outline never adds to it, while holes and zones, like items, only grow. The result stays a simple polygon and its area changes by no more than the given tolerance.",
  ["inputs", "configurations"], "every polygon, mode and tolerance", T0 + "solutions are never checked against the original outlines.",
  [J + "util/polygon_simplification.rs", J + "io/parser.rs"],
  m(("corner replacement", J + "util/polygon_simplification.rs: simplify_shape"), ("mode per role", J + "io/parser.rs")), ["simplify_shape"])
p("C18", "Bin packing keeps demand and stock accounts exact",
  "After any sequence of placements and removals in a bin packing problem, placed plus missing quantities equal each item's demand, bins in use plus bins in stock equal the initial stock, every open layout holds at least one item, and total cost and usage follow from the open layouts. Opening a bin takes it from stock and emptying it gives it back.",
  ["histories"], "every sequence of placements, removals and restores", T0 + "the optimizer never removes items from a bin packing problem.",
  [PR + "bin_packing.rs", PR + "problem_generic.rs", J + "entities/instances/bin_packing.rs"],
  m(("quantities", PR + "bin_packing.rs: register_included_item, deregister_included_item"), ("layout lifecycle", PR + "bin_packing.rs: place_item, remove_item")), ["ProblemGeneric"])
p("C19", "Strip packing keeps demand accounts and strip width exact",
  "After any sequence of placements, removals and width changes in a strip packing problem, placed plus missing quantities equal each item's demand and the strip has the width last requested. A width change keeps every item that still fits where it is; the others are removed and are missing again. Fitting the strip yields the narrowest width that contains the placed items without invalidating any of them.",
  ["histories"], "every sequence of placements, removals and width changes", T0 + "the optimizer changes the width only at the end of a run.",
  [PR + "strip_packing.rs", PR + "problem_generic.rs"], m(("width changes", PR + "strip_packing.rs: modify_strip_in_back, fit_strip"), ("quantities", PR + "strip_packing.rs")), ["SPProblem", "ProblemGeneric"])
p("C20", "Restoring a solution brings the whole problem back",
  "Creating a solution and later restoring it, after any changes in between, brings back the same placed items, quantities, layouts, bins and collision behaviour as when it was created. A stored solution is never altered by later changes to the problem.",
  ["histories"], "every history before and after the stored solution", T0 + "no test restores a solution.",
  [PR + "bin_packing.rs", PR + "strip_packing.rs", J + "entities/solution.rs", LAY],
  m(("solutions", PR + "*: create_solution, restore_to_solution")), ["Problem::create_solution, restore_to_solution"])
p("C21", "Imported instances mean what their JSON says",
  "Importing an instance keeps, for every item and bin, the demand, stock, allowed rotations, base quality, cost, outline, holes and zones that the JSON states, up to the recorded centring motion. Rectangles and polygons with or without a repeated last vertex, in either direction, denote the same regions as written.",
  ["inputs", "configurations"], "every JSON instance and parser configuration", T0 + "nothing of the parsed instance is inspected.",
  [J + "io/parser.rs", J + "io/json_instance.rs"], m(("parser", J + "io/parser.rs: Parser::parse, parse_item, parse_bin")), ["Parser::parse"])
p("C22", "Exported solutions place the original shapes where they were",
  "The transformation exported for every placed item, applied to the outline as given in the JSON, yields the region the item occupies relative to the bin's outline as given. Importing an exported solution restores the same layouts, bins and item positions.",
  ["inputs", "histories"], "every solution, item and bin offset, rotation", T0 + "exported solutions are not read back.",
  [J + "io/parser.rs", J + "io/json_solution.rs"], m(("absolute and internal transformations", J + "io/parser.rs: internal_to_absolute_transform, absolute_to_internal_transform"), ("solution import", J + "io/parser.rs: build_solution_from_json")), ["compose_json_solution", "build_solution_from_json"])
p("C23", "Every placement the optimizer accepts is feasible",
  "Whatever the random numbers, every placement found by the left-bottom-fill search is free of collisions in the layout it is proposed for, uses an allowed rotation and has the claimed target layout; the finished solution never exceeds an item's demand or a bin's stock and no two items of it overlap. Among the samples of one search it never returns a feasible one that is worse than another feasible one it evaluated.",
  ["inputs", "schedules"], "every random number sequence and instance", "The tests run a handful of seeds and assert only inside debug assertions; a placement accepted wrongly for one rare sample passes.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/lbf_cost.rs", J + "entities/placing_option.rs"],
  m(("sampling search", "lbf/src/lbf_optimizer.rs: sample_layout, find_lbf_placement"), ("cost", "lbf/src/lbf_cost.rs")), ["LBFOptimizer::solve", "find_lbf_placement", "sample_layout"])
p("C24", "Samplers stay inside their domain",
  "Every sample drawn by the uniform, grid-based and local samplers uses an allowed rotation and stays within the sampler's region, whatever the random numbers; no part of the region and no allowed rotation is out of reach. The grid-based sampler proposes positions from exactly the cells that can accommodate the item and, when tightened, drops only cells that cannot beat the bound; the local sampler is centred on its reference and its spread shrinks as documented.",
  ["inputs"], "every random number sequence, item and region", T0 + "out-of-domain samples are merely rejected later.",
  ["lbf/src/samplers/uniform_rect_sampler.rs", "lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/rotation_distr.rs"],
  m(("samplers", "lbf/src/samplers/")), ["UniformAARectSampler", "HPGSampler", "LSSampler", "UniformRotDistr", "NormalRotDistr"])
p("C90", "A run is a function of instance, configuration and seed",
  "Two optimizer runs with the same instance, configuration and random seed produce the same solution, whatever the time, the process' entropy and runs before it. The same holds for a single search: the same layout, item and random numbers give the same placement.",
  ["schedules", "configurations"], "every instance, configuration and seed", "Determinism is a statement about pairs of whole runs.",
  ["lbf/src/main.rs", "lbf/src/lbf_optimizer.rs"], m(("seeded generator", "lbf/src/main.rs")), ["lbf main"])
p("C91", "The SVG export draws what the layout contains",
  "The drawing of a layout shows the bin, its holes and zones and every placed item at its position.",
  ["inputs"], "every layout and drawing option", "Nothing reads the drawings.", ["lbf/src/io/layout_to_svg.rs", "lbf/src/io/svg_util.rs"], m(("svg", "lbf/src/io/layout_to_svg.rs")), ["layout_to_svg"])

NA = {
 "C91": "the output is a text document produced by a formatting crate; an oracle would have to parse the SVG back, and symbolic numbers formatted to decimal text are not encodable, so no solver query decides it",
}
EXTRA = {}
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    ids = [q["id"] for q in P]
    checks, na = [], []
    for i in ids:
        if i in TABLE:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                technique="symbolic execution of the compiled LLVM IR of /repo with Z3, bounded; violations replayed natively", level="model_checking",
                level_note="All values within the bounds stated in DESIGN.md and the evidence file are covered by solver-decided paths; concrete shapes and scenes are fixed, positions / choices / operations / random draws are symbolic. Trusts rustc, the executor in symx/ (cross-checked against native runs on every check), Z3 and the integer oracles in harness/src/ora.rs."))
        else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the harness uses the public API only. One fix: commit per genuine defect, listed in known_findings.json."), open(V + "/MANIFEST.json", "w"), indent=1)
main()
