"""which harnesses decide which property, and their bounds"""
def h(fn, *reach, **k): return dict(fn=fn, reach=list(reach), **k)
TH = ("thorough",)
F12 = ["--frontier", "12"]
TABLE = {
    "C01": [h("col_exact", 1, 2, tiered=True), h("col_haz", tiered=True)],
    "C02": [h("surr", 1, 2, 3, tiered=True), h("surr_irr", 1, 2, 3), h("piers", 1, tiered=True, args=F12), h("piers_slit", 1, tiered=True, args=F12)],
    "C03": [h("collect_exact", 1, 2, tiered=True), h("collect_buf", 1, 2), h("collect_irr", 1, 2, 3), h("within", 1, 2)],
    "C04": [h("hist", 1, 2, tiered=True), h("hist_cde", 1, 2, tiered=True), h("hist_deep", 1, 2, tiered=True)],
    "C05": [h("qz", 1, 2), h("irr", 1, 2)],
    "C06": [h("def_point"), h("def_edge", 1, 2), h("def_circ", 0, 1, 2, tiered=True), h("def_edge_irr", 0, 1, 2), h("def_circ_irr", 0, 1, 2)],
    "C07": [h("hpg_hist", 1, 2, tiered=True), h("hpg_deep", 1, tiered=True), h("hpg_dist", 1, tiered=True), h("hpg_big", 1, tiered=True, args=F12), h("hpg_nook", 1, tiered=True, args=F12)],
    "C08": [h("accom", 1, 2, 3, tiered=True), h("accom_round", 1, 2, 3, tiered=True), h("accom_grid", 1)],
    "C09": [h("edge_dirs", 1, 2), h("edge_pt", 1, 2), h("rect_edge", 1, 2), h("rect_rect", 1, 2, 3), h("circ_misc", 1, 2, 3, 11, 12, 13), h("circ_edge", 1, 2), h("edge_edge", 1, 2, tiers=TH)],
    "C10": [h("pip", 1, 2)],
    "C11": [h("dist_rect", 1, 2), h("dist_rect_in", 1), h("dist_rect_rt", 1, 2), h("dist_edge", 1, 2, 3), h("dist_edge_rt", 1), h("dist_circ", 1, 2), h("dist_circ2", 1, 2), h("dist_poly", 1, 2)],
    "C12": [h("rect_rel", 1, 2, 3, 4), h("rect_alg", 1, 2, 3, 4, 5), h("grid_idx", 1, 2), h("grid_rng", 1)],
    "C13": [h("tf_lin", 1), h("tf_seq", 1), h("tf_inv", 1)],
    "C14": [h("poly_new", 1, 2), h("poly_sym", 1), h("poly_move", 1), h("poly_rot", 1), h("prim_misc", 1)],
    "C15": [h("poles", 1, 2, tiered=True, args=F12), h("bound_circ", 2, 3), h("poi_max", 1, args=["--frontier", "60"])],
    "C16": [h("hull_pts", 3, 4, 5, tiered=True), h("hull_xy", 3, 4), h("hull_shapes", 1)],
    "C17": [h("simpl_roles", 1), h("simpl_corner", 1, args=F12), h("simpl_jaw", 1, tiered=True, args=F12), h("simpl", 1, 2, tiered=True, args=F12)],
    "C18": [h("bp_hist", 3, 4, tiered=True, args=F12), h("bp_rot", 1, 2, args=F12)],
    "C19": [h("sp_hist", 1, 2, tiered=True, args=F12), h("sp_rot", 1, 2, args=F12)],
    "C20": [h("bp_restore", 1, 2, 3, tiered=True, args=F12), h("sp_restore", 1, 2, tiered=True, args=F12), h("bp_rot", 1, 2, args=F12), h("sp_rot", 1, 2, args=F12)],
    "C21": [h("imp_ring", 1, 2), h("imp_bin", 1, 2), h("imp_zone", 1, 2), h("imp_text", 1), h("imp_pretf", 1, 2, args=F12), h("imp_items", 1, 2, args=F12)],
    "C22": [h("exp_abs", 1), h("exp_bp", 1, 2, args=F12), h("exp_sp", 1, 2, args=F12)],
    "C23": [h("lbf_cost", 1, 2), h("lbf_find", 1, 2, 3, args=F12), h("lbf_ls", 1, 2, tiered=True, args=F12), h("lbf_ls2", 1, 2, 3, tiered=True, args=F12), h("lbf_best", 1, 2, tiered=True, args=F12), h("lbf_sample", 1, 2, tiered=True, args=F12), h("lbf_solve", 1, 2, args=F12)],
    "C24": [h("smp_uni", 1, args=F12), h("smp_rot", 1, 2, args=F12), h("smp_ls", 1, args=F12), h("smp_tight", 1, 2, args=F12), h("smp_hpg", 1, 2, args=F12)],
    "C90": [h("det_sample", 1, 2, args=F12), h("det_solve", 1, args=F12)],
}
BOUNDS = {
    "col_exact": "10 scenes (convex/concave bins, holes, zones, 0-3 placed items) x 9 item outlines x quadtree depths 1-5 (quick: a table of combinations, thorough: every scene x item), in units of 1 and of 2^-10; item position every integer (x,y) in [-80,280]^2 of those units",
    "col_haz": "2-8 hazard/item/depth combinations; position of the placed hazard every integer in [-20,130]^2, two query positions",
    "surr": "10 (quick) or 90 (thorough) scene x item combinations, generated poles and one given pier, 2-8 lines, every integer position in [-70,270] along the line",
    "piers": "6 outline families with 3 / 9 values of a free coordinate and 5 / 10 fixed outlines, 2 / 4 positions of the shape (centred or far away), 1-5 piers; every of 65 points of every pier; jagua-rs built with debug assertions, where 10 rays in 4 directions and a 10 x 10 point grid are used (release: 200 in 90 and 100 x 100, same code)",
    "piers_slit": "point-symmetric shapes with inner slits whose end vertices lie on a ray: slit width, opening, 3 / 5 end vertices, 1-4 piers; same build",
    "surr_irr": "one scene of 7 overlapping hazards, 10 sets of ignored hazards, 3 shapes with poles and a pier, 2 tree depths, 4 lines, every position in [-20,130]",
    "irr": "as surr_irr, poly_collides alone, 3 shapes, 3 tree depths, every integer position in [-10,130]^2",
    "def_edge_irr": "the same scene and ignored sets, 3 directions, 2 depths, every integer start in [-10,140]^2",
    "def_circ_irr": "a rectilinear scene of 7 hazards, the same ignored sets, radius 5, 2 depths, 6 lines, every position in [-10,140]",
    "collect_exact": "as col_exact, every integer position in [-80,280]^2 in units of 1 and, for a third of the combinations, of 2^-10; every hazard of the scene",
    "collect_buf": "one scene, every choice of ignored and pre-existing hazard, 2 shapes, x in [7,100], 2 lines",
    "collect_irr": "one scene of 7 overlapping hazards, 10 sets of ignored hazards x buffers already holding hazards, 2 shapes, every position on a line",
    "within": "CDEngine::hazards_within for edges: one scene, every ignored / pre-existing hazard, edges in and outside the tree, every integer start",
    "hist_deep": "every sequence of 5 (quick) or 7 (thorough) operations over each of 6 sets of 3 layout operations, from a layout of three items with or without a snapshot; then a query at every x in [40,104] on a line",
    "hpg_deep": "every sequence of 6 (quick) or 7 (thorough) operations over the same sets, every cell of the grid",
    "hist": "every sequence of 3 (quick) or 4 (thorough) of the layout operations after one of two prefixes, then a query at every x in [-4,132] on a line",
    "hist_cde": "every sequence of 3-4 engine operations (register, deregister with/without commit, commit, snapshot, restore), query x in [-4,132]",
    "qz": "zones of several qualities (three of one quality), three holes, two copies of one item; 2 tree depths, base quality 0..10 or none, 2 shapes, 3 lines, every position in [-4,128]; every hazard filter, including one for a single copy",
    "def_point": "6 scenes in units of 1 or 2^-10, depths 1,3,5, every integer point in [-60,300]^2 of those units, every hazard",
    "def_edge": "5 scenes, depths 2,4, 4 directions, every integer start in [-20,270]^2",
    "def_circ": "scene qz, 3 (quick) / 12 (thorough) depth x radius, every integer centre in [-10,140]^2",
    "hpg_hist": "every sequence of 3 (quick) / 4 (thorough) layout operations after one of two prefixes, every cell of the grid",
    "hpg_dist": "two bins, a placed item at every position in [20,40] (quick) / [20,90] on a line, every cell",
    "accom": "6 (quick) / 162 (thorough) scene x item x grid combinations, 3 base qualities, 3 lines, every position in [-10,256]",
    "hpg_nook": "an L-shaped and a triangular bin and one with a large defect, 60 cells, 0-2 items present; a small item at each of 49 x 49 (80 x 80) positions inside; every cell against the definition",
    "hpg_big": "a large concave item with up to 6 poles, two small ones; 49 positions of one of them, 2 orders, 5 ways of removing and restoring; every cell against the definition of its proximity",
    "accom_round": "a 12-gon (two sizes in the thorough tier) passing a point-like hole, zone or item at 5 places, 3 / 4 grids, 12 lines, every position in [-60,60]",
    "accom_grid": "one bin, hazard at every position in [12,116], 5 item positions",
    "edge_dirs": "16 x 16 segment directions, every relative integer position in bounds, all orders, units of 1, 2^-10 and 2^10",
    "edge_pt": "the crossing point of two segments: 16 x 16 directions, 9 relative placements (touching, crossing, apart), 3 units, up to rounding",
    "edge_edge": "all eight coordinates free in a small range (non-linear)",
    "rect_edge": "rectangle sides 0..12 on every side of the origin, all directions, every start, units of 1, 2^-10 and 2^10",
    "rect_rect": "all eight coordinates free", "circ_misc": "5 radii; circles, points, rectangles at every integer offset, units of 1, 2^-10 and 2^10", "circ_edge": "6 edges, radius 0..30, every integer centre, units of 1, 2^-10 and 2^10",
    "pip": "9 polygons (both orientations, shifted starts), every integer and half-integer point in [-20,80]^2, also in units of 2^-10 and 256",
    "dist_rect": "5 rectangles, every point in [-100,100]^2 (squared variants)", "dist_rect_in": "5 rectangles, every point in [-64,64]^2", "dist_rect_rt": "5 rectangles, 4 lines, x in [-70,70]",
    "dist_edge": "10 edges, every point in [-40,40]^2", "dist_edge_rt": "6 edges, 4 lines, x in [-40,40]", "dist_circ": "4 radii, 5 lines (one through the centre), x in [-60,60]", "dist_circ2": "3 radii, 3 lines, x in [-40,40]", "dist_poly": "4 polygons, 4 lines, x in [-40,70]",
    "rect_rel": "all coordinates of both rectangles free in [-200,200], units of 1 and 2^-10", "rect_alg": "all coordinates free; scale factors 2, 1/2, 3/2, 5", "grid_idx": "5 grid sizes, every index", "grid_rng": "3 grid sizes, every query interval in [-60,90]",
    "tf_lin": "sequences of 3 translation calls of 6 kinds, offsets in [-300,300]", "tf_seq": "sequences of 2-3 calls of 6 kinds, rotations k*pi/4 or generic, point x in [-40,40]", "tf_inv": "8 rotations, translation in [-60,60]",
    "poly_new": "10 outlines x orientation x start vertex, 19 offsets", "poly_sym": "3-5 vertices, all coordinates free in [-60,60]", "poly_move": "3 outlines with surrogate, every offset in [-300,300]^2, fresh and reused buffers", "poly_rot": "3 outlines, 7 rotations, offset in [-20,20]", "prim_misc": "edges, circles, rectangles at every offset in [-50,50]^2",
    "poles": "6 outline families with one vertex coordinate free (2 values quick, 10 thorough), 3 surrogate configurations, every of 65 points on every border edge", "poi_max": "6 outlines, every centre on a quarter-integer grid over the bounding box (non-linear)", "bound_circ": "2-3 circles, offset in [-12,12]",
    "hull_pts": "7 abscissa patterns with ties, 3-5 points, every ordinate in [-8,8], every other pattern in units of 2^-10", "hull_xy": "3-4 points anywhere on a 4x4 grid", "hull_shapes": "10 outlines alone, pairs at every offset in [-50,50]",
    "simpl": "outline families with a free coordinate, both modes, 3 tolerances, every other outline in units of 2^-10, containment of every vertex/edge", "simpl_corner": "one corner moved over a range, both modes", "simpl_roles": "items, bins, holes and zones through the parser",
    "bp_hist": "every sequence of 5 (quick) / 6 (thorough) operations on a two-bin-type instance", "sp_hist": "every sequence of 3 (quick) / 5 (thorough) placements, removals, width changes (4 widths), fits after one of two prefixes; then a query at every x in [-20,160]",
    "sp_rot": "two items of three shapes, turned by 10 pairs of 5 angles; back, front, centred change to one of 16 widths, or a fit; removal, re-insertion, restore", "bp_rot": "the same shapes and angles in two bins; removal of each item, re-insertion, second solution, restore",
    "bp_restore": "every short history before and after the stored solution", "sp_restore": "every short history before and after; then a query at every x in [-20,160]",
    "imp_items": "demand, quality, rotations, outline offset symbolic", "imp_ring": "open/closed rings, orientation, offset", "imp_bin": "stock, cost, holes, offset", "imp_zone": "zones of all qualities", "imp_text": "JSON text variants through serde", "imp_pretf": "an item or bin with hole and zone moved twice: 3 x 3 rotations, offset 4 x every y in [-12,12]",
    "exp_bp": "two bin types, offsets and positions symbolic, 4 rotations", "exp_sp": "strip, positions symbolic", "exp_abs": "absolute/internal motion round trips, every offset",
    "lbf_cost": "9 outlines, two positions in [-900,900]^2 each", "lbf_find": "two bin types, stock 0/1, optional open layout, six draws each one of four values", "lbf_ls": "3 scenes x 2 shapes x 3 rotation kinds, local draws free out of 4-5 values", "lbf_ls2": "3 scenes x 2 shapes x 4 / 6 uniform samples, four local draws out of 5 / 8 values, 1 to 3 local samples", "lbf_best": "3 scenes x 3 shapes x 2 grids, nine draws out of 2 (quick) / 4 (thorough) values", "lbf_sample": "4 scenes (one crowded), 2 shapes, 3 rotation kinds, qualities, six draws out of 3 / 4 values", "lbf_solve": "whole runs on tiny BP and SP instances, seed 0..3",
    "smp_uni": "4 rectangles, 4 rotation kinds, draws with 2^16 values", "smp_rot": "4 rotation kinds, three draws of 16 values", "smp_ls": "4 rotation kinds, three draws of 8 values, three stages of decay", "smp_tight": "3 scenes x 2 shapes, bound at every (4i,4j)", "smp_hpg": "3 scenes x 2 grids x 3 shapes x 4 rotation kinds x 2 qualities, four draws of 3 values",
    "det_sample": "3 scenes x 2 shapes x 3 rotation kinds, five draws of 4 values, two searches", "det_solve": "tiny BP and SP instances x 3 rotation kinds, seed 0..3, two runs with different entropy and a clock that runs at another pace (2 ms or 1 h per reading)",
}
