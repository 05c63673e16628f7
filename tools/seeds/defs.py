SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))
J = "jagua-rs/src/"
CDE = J + "collision_detection/cd_engine.rs"; QT = J + "collision_detection/quadtree/"; HPG = J + "collision_detection/hpg/"
GEO = J + "geometry/primitives/"; FF = J + "geometry/fail_fast/"; PR = J + "entities/problems/"; L = "lbf/src/"

S("b01", "C01", [(CDE, "let inclusion = s_omega.collides_with(&s_mu.poi.center);", "let inclusion = s_omega.collides_with(&s_mu.centroid());")],
  "a concave item fully inside a concave obstacle, such that the item's centroid lies in the obstacle's notch", "a placed item swallowing another one is not reported as a collision",
'''fn main() {
    // a thick U, and a thin U inside its material: the thin U's centroid lies in the notch
    let big = [(0., 0.), (100., 0.), (100., 100.), (80., 100.), (80., 20.), (20., 20.), (20., 100.), (0., 100.)];
    let thin = [(8., 8.), (92., 8.), (92., 92.), (88., 92.), (88., 12.), (12., 12.), (12., 92.), (8., 92.)];
    for depth in 0..5 {
        let mut l = Layout::new(0, bin(0, &bx(-50., -50., 200., 200.), &[], &[], cfg(depth, 0)));
        l.place_item(&item(0, &big, None), dt(0., 0.));
        expect(l.cde().poly_collides(&sp(&thin), &[]), "item inside another item must collide");
    }
}
''')
S("b02", "C02", [(CDE, "            let t_pier = pier.transform_clone(transform);\n            if self\n                .quadtree\n                .collides(&t_pier, irrelevant_hazards)", "            let t_pier = pier.transform_clone(transform);\n            if self\n                .quadtree\n                .collides(&t_pier, &[])")],
  "an item with piers over a quality zone that it may overlap", "the surrogate rejects a feasible placement",
'''fn main() {
    let l = Layout::new(0, bin(0, &bx(0., 0., 200., 200.), &[], &[(3, bx(90., 0., 20., 200.))], cfg(4, 0)));
    let mut it = sp(&bx(0., 0., 60., 6.));
    it.generate_surrogate(scfg(1, 0, 1));
    let mut s = it.surrogate().clone();
    s.n_ff_poles = 0;
    s.piers = vec![Edge::new(Point(2., 3.), Point(58., 3.))];
    it.surrogate = Some(s);
    let irr = generate_irrelevant_hazards(&QZHazardFilter(1), l.cde().all_hazards());
    expect(!l.cde().poly_collides(&it.transform_clone(&tr(70., 50.)), &irr), "feasible");
    expect(!l.cde().surrogate_collides(it.surrogate(), &tr(70., 50.), &irr), "surrogate must not reject it");
}
''')
S("b03", "C03", [(CDE, "            if !detected.contains(&h.entity) && self.poly_or_hazard_are_contained(shape, h) {", "            if !detected[n_init_detected..].contains(&h.entity)\n                && self.poly_or_hazard_are_contained(shape, h)\n            {")],
  "a buffer that already names a hazard that contains the shape", "the hazard is listed twice",
'''fn main() {
    let mut l = Layout::new(0, bin(0, &bx(0., 0., 200., 200.), &[], &[], cfg(3, 0)));
    let k = l.place_item(&item(0, &bx(0., 0., 80., 80.), None), dt(30., 30.));
    let h: HazardEntity = l.placed_items().get(k).unwrap().into();
    let mut v = vec![h];
    l.cde().collect_poly_collisions(&sp(&bx(60., 60., 10., 10.)), &[], &mut v);
    expect(v.len() == 1, "each hazard at most once");
}
''')
S("b04", "C04", [(QT + "qt_hazard_vec.rs", "                hazard.active = true;\n                self.add(hazard);", "                hazard.active = true;\n                self.hazards.insert(self.n_active, hazard);\n                self.n_active += 1;")],
  "an uncommitted removal followed by a re-placement of the same item next to another item", "the order of hazards in a node is lost and a node that is fully covered is treated as partially covered",
'''fn main() {
    let mut l = Layout::new(0, bin(0, &bx(0., 0., 128., 128.), &[], &[], cfg(5, 0)));
    let a = item(0, &bx(0., 0., 70., 70.), None);
    let b = item(1, &[(0., 0.), (30., 3.), (20., 30.)], None);
    // b overlaps nodes that a covers completely: a must come first again after the re-placement
    let k = l.place_item(&a, dt(10., 10.));
    l.place_item(&b, dt(20., 20.));
    l.remove_item(k, false);
    l.place_item(&a, dt(10., 10.));
    let mut f = Layout::new(0, l.bin.clone());
    f.place_item(&a, dt(10., 10.));
    f.place_item(&b, dt(20., 20.));
    for x in 0..240 { for y in 0..240 {
        let e = Edge::new(Point(x as f32 * 0.5, y as f32 * 0.5), Point(x as f32 * 0.5 + 1., y as f32 * 0.5 + 0.5));
        expect(l.cde().quadtree().collides(&e, &[]).is_some() == f.cde().quadtree().collides(&e, &[]).is_some(), "same answer as a fresh layout");
    } }
}
''')
S("b05", "C05", [(J + "collision_detection/hazard_filter.rs", "self.filters.iter().any(|f| f.is_irrelevant(entity))", "self.filters.iter().all(|f| f.is_irrelevant(entity))")],
  "a combination of two filters", "a hazard that one of the combined filters suppresses is reported",
'''fn main() {
    let l = Layout::new(0, bin(0, &bx(0., 0., 200., 200.), &[bx(20., 20., 30., 30.)], &[(4, bx(90., 0., 20., 200.))], cfg(3, 0)));
    let (a, b) = (QZHazardFilter(2), EntityHazardFilter(vec![HazardEntity::BinHole { id: 0 }]));
    let c = CombinedHazardFilter { filters: vec![Box::new(&a as &dyn HazardFilter), Box::new(&b as &dyn HazardFilter)] };
    expect(generate_irrelevant_hazards(&c, l.cde().all_hazards()).len() == 2, "both the zone and the hole are irrelevant");
}
''')
S("b06", "C06", [(QT + "qt_node.rs", "                            match child.definitely_collides(entity, irrelevant_hazards) {\n                                Tribool::True => return Tribool::True,\n                                Tribool::Indeterminate => result = Tribool::Indeterminate,\n                                Tribool::False => {}",
   "                            match child.definitely_collides(entity, irrelevant_hazards) {\n                                Tribool::True => return Tribool::True,\n                                other => result = other,")],
  "a query whose uncertain part lies in a quadrant visited before a free one", "a definite no where there is a collision",
'''fn main() {
    let mut l = Layout::new(0, bin(0, &bx(0., 0., 128., 128.), &[], &[], cfg(2, 0)));
    l.place_item(&item(0, &bx(0., 0., 20., 20.), None), dt(100., 100.));
    for x in 66..128 { for y in 66..128 { for r in [3., 8., 20., 40.] {
        let c = Circle::new(Point(x as f32, y as f32), r);
        if let tribool::Tribool::False = l.cde().circle_definitely_collides(&c, &[]) {
            let mut v = vec![];
            l.cde().hazards_within(&c, &[], &mut v);
            expect(v.is_empty(), "definitely no collision although there is one");
        }
    } } }
}
''')
S("b07", "C07", [(HPG + "hpg_cell.rs", "                            (GeoPosition::Interior, _) => (haz, Some(0.0)),", "                            (GeoPosition::Interior, dist) => (haz, Some(dist)),")],
  "removing an item that was the closest one of a cell deep inside the circle that bounds the poles of another item", "the cell forgets the other item",
'''fn main() {
    // a long L: the circle bounding its poles is large; a cell in its notch is deep inside that circle
    let ell = [(0., 0.), (120., 0.), (120., 20.), (20., 20.), (20., 120.), (0., 120.)];
    let mut bad = 0;
    for i in 0..14 { for j in 0..14 {
        let mut l = Layout::new(0, bin(0, &bx(0., 0., 200., 200.), &[bx(90., 90., 10., 10.)], &[], cfg(3, 400)));
        l.place_item(&item(0, &ell, None), dt(20., 20.));
        let k = l.place_item(&item(1, &bx(0., 0., 6., 6.), None), dt(42. + 7. * i as f32, 42. + 7. * j as f32));
        l.remove_item(k, true);
        let haz: Vec<&Hazard> = l.cde().dynamic_hazards().iter().collect();
        for c in l.cde().haz_prox_grid().unwrap().grid.cells.iter().flatten() {
            let mut want = c.static_uni_prox.0;
            for h in &haz { for p in &h.shape.surrogate().poles {
                let d = ((p.center.0 - c.centroid.0).powi(2) + (p.center.1 - c.centroid.1).powi(2)).sqrt() - p.radius;
                want = want.min(d.max(0.));
            } }
            if (want - c.uni_prox.0).abs() > 0.01 { bad += 1; }
        }
    } }
    expect(bad == 0, "stale cells");
}
''')
S("b08", "C08", [(HPG + "hpg_cell.rs", "let radius = bbox.diameter() / 2.0;", "let radius = fsize::max(bbox.width(), bbox.height()) / 2.0;")],
  "a round item that fits only with its centre near the corner of a cell, beside a pointed hazard", "a cell that holds a feasible position is excluded",
'''fn main() {
    for n in [36usize, 64, 120] { for s in 0..80 {
        let r = 8.0 + s as f32 * 0.5;
        let l = Layout::new(0, bin(0, &bx(0., 0., 200., 200.), &[vec![(100., 98.), (102., 100.), (100., 102.), (98., 100.)]], &[], cfg(3, n)));
        let pts: Vec<P> = (0..32).map(|i| { let a = i as f32 * std::f32::consts::TAU / 32.; (r * a.cos(), r * a.sin()) }).collect();
        let it = item(0, &pts, None);
        let p = it.shape.poi.center;
        for c in l.cde().haz_prox_grid().unwrap().grid.cells.iter().flatten() {
            if c.could_accommodate_item(&it) { continue; }
            for i in 0..=8 { for j in 0..=8 {
                let (x, y) = (c.bbox.x_min + c.bbox.width() * i as f32 / 8., c.bbox.y_min + c.bbox.height() * j as f32 / 8.);
                expect(l.cde().poly_collides(&it.shape.transform_clone(&tr(x - p.0, y - p.1)), &[]), "excluded cell contains a feasible position");
            } }
        }
    } }
}
''')
S("b09", "C09", [(GEO + "edge.rs", "if (0.0..=1.0).contains(&t) && (0.0..=1.0).contains(&u) {", "if (0.0..=1.0).contains(&t) && (0.0..1.0).contains(&u) {")],
  "two edges that touch in exactly one end point", "touching edges do not overlap when the touched end is the start",
'''fn main() {
    let e = |a: P, b: P| Edge::new(Point(a.0, a.1), Point(b.0, b.1));
    let (a, b) = (e((0., 0.), (10., 0.)), e((5., 0.), (5., 8.)));
    for (p, q) in [(&a, &b), (&b, &a)] { for r in 0..4 {
        let p = if r & 1 == 0 { p.clone() } else { p.clone().reverse() };
        let q = if r & 2 == 0 { q.clone() } else { q.clone().reverse() };
        expect(p.collides_with(&q), "touching edges overlap");
    } }
}
''')
S("b10", "C10", [(GEO + "simple_polygon.rs", "let point_outside = Point(self.bbox.x_max + self.bbox.width(), point.1);", "let point_outside = Point(self.bbox.x_max, point.1);")],
  "a point level with the rightmost abscissa of the polygon, but off its border", "the query panics",
'''fn main() {
    let d = sp(&[(0., -10.), (10., 0.), (0., 10.), (-10., 0.)]);
    expect(!d.collides_with(&Point(10., 5.)), "outside the diamond");
    expect(d.collides_with(&Point(9., 0.5)), "inside the diamond");
}
''')
S("b11", "C11", [(GEO + "circle.rs", "        let distance_to_center = e.distance(&self.center);\n        if distance_to_center < self.radius {", "        let distance_to_center = e.distance(&self.center);\n        if distance_to_center + self.radius < e.diameter() {")],
  "the signed distance of a circle from a long edge", "a circle far from an edge is reported at distance zero",
'''fn main() {
    let e = Edge::new(Point(0., 0.), Point(100., 0.));
    let c = Circle::new(Point(50., 20.), 5.0);
    expect((DistanceFrom::<Edge>::distance(&c, &e) - 15.0).abs() < 1e-3, "distance is 15");
    let c = Circle::new(Point(-3., 4.), 2.0);
    expect((DistanceFrom::<Edge>::distance(&c, &e) - 3.0).abs() < 1e-3, "distance is 3");
}
''')
S("b12", "C12", [(GEO + "aa_rectangle.rs", "                && self.y_max <= other.y_max\n            {\n                GeoRelation::Enclosed\n            } else {\n                GeoRelation::Intersecting\n            }\n        } else {\n            GeoRelation::Disjoint\n        }\n    }\n\n    /// Returns the relation between self and another AARectangle, with",
   "                && self.y_min <= other.y_max\n            {\n                GeoRelation::Enclosed\n            } else {\n                GeoRelation::Intersecting\n            }\n        } else {\n            GeoRelation::Disjoint\n        }\n    }\n\n    /// Returns the relation between self and another AARectangle, with")],
  "a rectangle sticking out at the top only", "it is called enclosed",
'''fn main() {
    let (a, b) = (AARectangle::new(2., 2., 5., 12.), AARectangle::new(0., 0., 10., 10.));
    expect(a.relation_to(&b) == GeoRelation::Intersecting, "sticks out at the top");
}
''')
S("b13", "C13", [(J + "geometry/transformation.rs", "[cos, -sin, h * cos - k * sin],", "[cos, -sin, h * cos + k * sin],")],
  "a translation followed by a rotation with a vertical offset", "the composed motion differs from the two motions one after the other",
'''fn main() {
    let t = Transformation::empty().translate_rotate((3., 5.), 0.5);
    let u = Transformation::empty().translate((3., 5.)).rotate(0.5);
    let (a, b) = (Point(1., 2.).transform_clone(&t), Point(1., 2.).transform_clone(&u));
    expect((a.0 - b.0).abs() < 1e-4 && (a.1 - b.1).abs() < 1e-4, "same motion");
}
''')
S("b14", "C14", [(FF + "sp_surrogate.rs", "        poles_bounding_circle.transform_from(&reference.poles_bounding_circle, t);\n", "        poles_bounding_circle.transform(t);\n")],
  "a reused buffer shape that is transformed more than once", "the circle that bounds the poles drifts away from them",
'''fn main() {
    let mut r = sp(&[(0., 0.), (40., 0.), (40., 12.), (12., 12.), (12., 40.), (0., 40.)]);
    r.generate_surrogate(scfg(4, 2, 0));
    let mut b = r.clone();
    for (x, y) in [(10., 0.), (-30., 7.), (4., 4.)] {
        b.transform_from(&r, &tr(x, y));
        let (c, want) = (&b.surrogate().poles_bounding_circle, &r.surrogate().poles_bounding_circle.transform_clone(&tr(x, y)));
        expect((c.center.0 - want.center.0).abs() < 1e-3 && (c.center.1 - want.center.1).abs() < 1e-3, "bounding circle follows the poles");
    }
}
''')
S("b15", "C15", [(FF + "poi.rs", "                .map(|c| c.distance_from_border(&bbox.centroid()).1);", "                .map(|c| c.center.distance(bbox.centroid()) - c.radius / 2.0);")],
  "a shape that needs several poles close to each other", "generated poles overlap",
'''fn main() {
    for w in [20., 60., 90.] {
        let mut s = sp(&[(0., 0.), (w, 0.), (w, 12.), (12., 12.), (12., 40.), (0., 40.)]);
        s.generate_surrogate(scfg(8, 4, 0));
        let p = &s.surrogate().poles;
        for i in 0..p.len() { for j in 0..i {
            expect(p[i].center.distance(p[j].center) > p[i].radius + p[j].radius - 1e-2, "poles do not overlap");
        } }
    }
}
''')
S("b16", "C16", [(J + "geometry/convex_hull.rs", "cross(&h[h.len() - 2], &h[h.len() - 1], np) <= 0.0 {", "cross(&h[h.len() - 2], &h[h.len() - 1], np) < 0.0 {")],
  "collinear points on the border of the hull", "points that are not extreme are listed as hull vertices",
'''fn main() {
    let h = convex_hull_from_points([(0., 0.), (4., 0.), (8., 0.), (8., 8.), (0., 8.)].iter().map(|p: &P| Point(p.0, p.1)).collect());
    expect(h.len() == 4, "four extreme points");
}
''')
S("b17", "C17", [(J + "util/polygon_simplification.rs", ".all(|l| !l.collides_with(&new_edge_1) && !l.collides_with(&new_edge_2))", ".all(|l| !l.collides_with(&new_edge_1))")],
  "a pair of convex corners whose extension runs into another part of the outline on one side only", "the simplified outline intersects itself",
'''fn cross_free(p: &SimplePolygon) -> bool {
    let e: Vec<Edge> = p.edge_iter().collect();
    for i in 0..e.len() { for j in 0..i {
        let adj = j + 1 == i || (j == 0 && i == e.len() - 1);
        if !adj && e[i].collides_with(&e[j]) { return false; }
    } }
    true
}
fn main() {
    // the blunt end of a finger, sharpened, runs into the jaw beside it
    for k in 0..40 { for f in [false, true] {
        let t = k as f32 * 0.5;
        let mut pts: Vec<P> = vec![(0., 0.), (100., 0.), (100., 40.), (30. + t, 34.), (30. + t, 40.), (100., 60.), (100., 100.), (0., 100.), (0., 72.), (22., 46.), (24., 45.), (24., 30.), (22., 29.), (0., 30.)];
        if f { pts = pts.iter().rev().map(|p| (p.0, 100. - p.1)).rev().collect(); }
        let s = SimplePolygon::new(pts.iter().map(|p| Point(p.0, p.1)).collect());
        for m in [PolySimplMode::Inflate, PolySimplMode::Deflate] { for tol in [0.001, 0.01, 0.05, 0.1] {
            expect(cross_free(&simplify_shape(&s, m, tol)), "result is a simple polygon");
        } }
    } }
}
''')
S("b18", "C18", [(PR + "bin_packing.rs", "                    .for_each(|pi| self.deregister_included_item(pi.item_id));\n                self.uncommitted_removed_layouts.push(layout);", "                    .map(|pi| pi.item_id)\n                    .unique()\n                    .for_each(|item_id| self.deregister_included_item(item_id));\n                self.uncommitted_removed_layouts.push(layout);")],
  "removing a whole layout that holds two copies of the same item", "one copy stays counted as placed",
'''fn main() {
    let its = vec![(item(0, &bx(0., 0., 10., 10.), None), 3)];
    let mut p = BPProblem::new(BPInstance::new(its, vec![(bin(0, &bx(0., 0., 64., 64.), &[], &[], cfg(3, 4)), 2)]));
    let (l, _) = p.place_item(PlacingOption { layout_idx: LayoutIndex::Template(0), item_id: 0, d_transf: dt(5., 5.) });
    p.place_item(PlacingOption { layout_idx: l, item_id: 0, d_transf: dt(25., 5.) });
    p.remove_layout(l);
    expect(p.missing_item_qtys()[0] == 3, "all copies are missing again");
}
''')
S("b19", "C19", [(PR + "strip_packing.rs", "                .filter(|h| h.entity != HazardEntity::BinExterior)\n                .map(|h| h.entity)", "                .filter(|h| h.entity != HazardEntity::BinExterior)\n                .map(|h| h.entity)\n                .take(1)")],
  "three items of which the third touches the second, then a width change", "an item that still fits is removed",
'''fn main() {
    let its = vec![(item(0, &bx(0., 0., 10., 10.), None), 3)];
    let mut p = SPProblem::new(SPInstance::new(its, 50.), 100., cfg(3, 4));
    for x in [2., 20., 30.] { p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: 0, d_transf: dt(x, 5.) }); }
    p.modify_strip_in_back(120.);
    expect(p.layout.placed_items().len() == 3, "nothing is removed when the strip grows");
}
''')
S("b20", "C20", [(PR + "bin_packing.rs", "                            if !self.unmodified_layout_ids.contains(&layout.id()) {\n                                layout.restore", "                            if !self.unmodified_layout_ids.contains(&layout.id())\n                                && layout.placed_items().len()\n                                    != solution.layout_snapshots[i].placed_items.len()\n                            {\n                                layout.restore")],
  "a removal and a placement in the same layout between storing and restoring", "the layout keeps the later placement",
'''fn main() {
    let its = vec![(item(0, &bx(0., 0., 10., 10.), None), 3)];
    let mut p = BPProblem::new(BPInstance::new(its, vec![(bin(0, &bx(0., 0., 64., 64.), &[], &[], cfg(3, 4)), 2)]));
    let o = |l, x| PlacingOption { layout_idx: l, item_id: 0, d_transf: dt(x, 5.) };
    let (l, _) = p.place_item(o(LayoutIndex::Template(0), 5.));
    let (_, k) = p.place_item(o(l, 20.));
    let s = p.create_solution(None);
    p.remove_item(l, k, true);
    p.place_item(o(l, 40.));
    p.restore_to_solution(&s);
    let xs: Vec<f32> = p.layouts[0].placed_items().values().map(|pi| pi.d_transf.translation().0).collect();
    expect(xs.contains(&20.) && !xs.contains(&40.), "the stored placement is back");
}
''')
S("b21", "C21", [(J + "io/parser.rs", "if a_o.is_empty() || (a_o.len() == 1 && a_o[0] == 0.0) {", "if a_o.is_empty() || a_o[0] == 0.0 && a_o.len() <= 2 {")],
  "an item with exactly two allowed orientations, the first being 0", "the second orientation is lost",
'''fn main() {
    let j: JsonInstance = serde_json::from_str(r#"{"Name":"x","Items":[{"Demand":1,"AllowedOrientations":[0.0,180.0],"Shape":{"Type":"Rectangle","Data":{"Width":3.0,"Height":4.0}}}],"Strip":{"Height":50.0}}"#).unwrap();
    let i = Parser::new(PolySimplConfig::Disabled, cfg(3, 4), true).parse(&j);
    match &i.item(0).allowed_rotation { AllowedRotation::Discrete(v) => expect(v.len() == 2, "two orientations"), _ => expect(false, "discrete orientations") }
}
''')
S("b22", "C22", [(J + "io/parser.rs", "        .transform(&bin_pretransf.clone().inverse())\n}", "        .translate({\n            let (x, y) = bin_pretransf.decompose().translation();\n            (-x, y)\n        })\n}")],
  "a bin whose recorded motion has a vertical component", "the exported position is off vertically",
'''fn main() {
    let (d, ip, bp) = (DTransformation::new(0.5, (3., 4.)), tr(-2., -1.), tr(-10., -20.));
    let a = internal_to_absolute_transform(&d, &ip, &bp).decompose();
    let r = absolute_to_internal_transform(&a, &ip, &bp).decompose();
    expect((r.translation().0 - 3.).abs() < 1e-3 && (r.translation().1 - 4.).abs() < 1e-3, "round trip");
}
''')
S("b23", "C23", [(L + "lbf_optimizer.rs", "(*best_opt, *best_cost) = (p_opt, cost);", "*best_opt = p_opt;")],
  "a local search in which a sample better than the start is followed by a worse one", "the search returns a placement that is worse than one it had found",
'''use lbf::{lbf_config::LBFConfig, lbf_cost::LBFPlacingCost, lbf_optimizer::*};
use rand::{rngs::SmallRng, RngCore, SeedableRng};
// with enough local samples the result is close to the best corner; a search that forgets its best stays far from it
fn main() {
    let c = CDEConfig { quadtree_depth: 4, hpg_n_cells: 50, item_surrogate_config: scfg(1, 1, 0) };
    let it = item(0, &bx(-5., -5., 10., 10.), None);
    let p: Problem = BPProblem::new(BPInstance::new(vec![(it.clone(), 1)], vec![(bin(0, &bx(0., 0., 100., 100.), &[], &[], c), 1)])).into();
    let mut worse = 0;
    for seed in 0..200 {
        // one uniform sample, then 40 local ones
        let k = LBFConfig { cde_config: c, poly_simpl_tolerance: None, prng_seed: Some(0), n_samples: 41, ls_frac: 40.5 / 41., ..LBFConfig::default() };
        let k1 = LBFConfig { n_samples: 1, ls_frac: 0., ..k };
        let cost = |o: &PlacingOption| LBFPlacingCost::from_shape(&it.shape.transform_clone(&o.d_transf.compose()));
        let (mut n, mut m) = (0, 0);
        let first = sample_layout(&p, LayoutIndex::Template(0), &it, &k1, &mut SmallRng::seed_from_u64(seed), &mut n);
        let last = sample_layout(&p, LayoutIndex::Template(0), &it, &k, &mut SmallRng::seed_from_u64(seed), &mut m);
        if let (Some(a), Some(b)) = (first, last) {
            // the shifts of the mean alone move an intact search left by several standard deviations
            let gain = (a.d_transf.translation().0 - b.d_transf.translation().0) / 1.0;
            if gain < 1.0 && a.d_transf.translation().0 > 20. { worse += 1; }
        }
    }
    eprintln!("searches without progress: {worse}");
    expect(worse <= 20, "the local search keeps its best");
}
''')
S("b24", "C24", [(L + "samplers/hpg_sampler.rs", "                    cell_sampler.bbox.x_min + poi_rad,\n                    cell_sampler.bbox.y_min + poi_rad,", "                    cell_sampler.bbox.x_min + poi_rad,\n                    cell_sampler.bbox.y_max + poi_rad,")],
  "tightening to a bound that lies between the cost of a cell's lower and upper end", "a cell that can still beat the bound is dropped",
'''use lbf::{lbf_cost::LBFPlacingCost, samplers::hpg_sampler::HPGSampler};
fn main() {
    let l = Layout::new(0, bin(0, &bx(0., 0., 100., 100.), &[], &[], cfg(3, 16)));
    let it = item(0, &bx(-2., -2., 4., 4.), None);
    let r = it.shape.poi.radius;
    for x in 1..20 { for y in 1..20 {
        let best = LBFPlacingCost::new(x as f32 * 5., y as f32 * 5.);
        let mut s = HPGSampler::new(&it, &l).unwrap();
        let want = s.cell_samplers.iter().filter(|c| LBFPlacingCost::new(c.bbox.x_min + r, c.bbox.y_min + r) < best).count();
        s.tighten(best);
        expect(s.cell_samplers.len() == want, "only hopeless cells are dropped");
    } }
}
''')
S("b90", "C90", [(L + "lbf_optimizer.rs", "let sorted_item_indices = (0..self.instance.items().len())\n", "let sorted_item_indices = (0..self.instance.items().len())\n            .collect::<std::collections::HashSet<usize>>()\n            .into_iter()\n")],
  "two item types of equal diameter", "two runs with the same seed place the items in different orders",
'''use lbf::{lbf_config::LBFConfig, lbf_optimizer::*};
use rand::{rngs::SmallRng, SeedableRng};
fn main() {
    let c = CDEConfig { quadtree_depth: 4, hpg_n_cells: 50, item_surrogate_config: scfg(1, 1, 0) };
    let its: Vec<(Item, usize)> = (0..4).map(|i| (item(i, &bx(-5., -5., 10., 10.), None), 1)).collect();
    let inst: Instance = BPInstance::new(its, vec![(bin(0, &bx(0., 0., 100., 100.), &[], &[], c), 1)]).into();
    let k = LBFConfig { cde_config: c, poly_simpl_tolerance: None, prng_seed: Some(0), n_samples: 20, ls_frac: 0.2, ..LBFConfig::default() };
    let run = || { let s = LBFOptimizer::new(inst.clone(), k, SmallRng::seed_from_u64(7)).solve(); s.layout_snapshots[0].placed_items.values().map(|p| (p.item_id, p.d_transf.translation())).collect::<Vec<_>>() };
    let a = run();
    for _ in 0..20 { expect(run() == a, "same seed, same solution"); }
}
''')
