//! C11 .. C16: distances, rectangle algebra, transformations, derived polygon data, poles, hulls
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::collision_detection::hpg::grid::Grid;
use jagua_rs::fsize;
use jagua_rs::geometry::convex_hull::*;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::*;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;

pub static LIST: &[(&str, fn())] = &[
    ("dist_rect", dist_rect), ("dist_rect_in", dist_rect_in), ("dist_rect_rt", dist_rect_rt), ("dist_edge", dist_edge), ("dist_edge_rt", dist_edge_rt), ("dist_circ", dist_circ), ("dist_circ2", dist_circ2), ("dist_poly", dist_poly),
    ("rect_rel", rect_rel), ("rect_alg", rect_alg), ("grid_idx", grid_idx), ("grid_rng", grid_rng),
    ("tf_lin", tf_lin), ("tf_seq", tf_seq), ("tf_inv", tf_inv),
    ("poly_new", poly_new), ("poly_sym", poly_sym), ("poly_move", poly_move), ("poly_rot", poly_rot), ("prim_misc", prim_misc),
    ("poles", poles), ("poi_max", poi_max), ("bound_circ", bound_circ),
    ("hull_pts", hull_pts), ("hull_xy", hull_xy), ("hull_shapes", hull_shapes),
];

pub fn f(x: i64) -> fsize { x as fsize }
fn nearp(p: Point, x: f64, y: f64) -> bool { (p.0 as f64 - x).abs() <= 2e-4 * (1.0 + x.abs() + y.abs()) && (p.1 as f64 - y).abs() <= 2e-4 * (1.0 + x.abs() + y.abs()) }
fn mk_rect(a: P, b: P) -> AARectangle { AARectangle::new(f(a.0), f(a.1), f(b.0), f(b.1)) }
static RECTS: [(P, P); 5] = [((0, 0), (32, 16)), ((-20, -8), (12, 40)), ((5, 5), (6, 30)), ((-64, -64), (64, 64)), ((-30, 10), (-11, 13))];
const IN: GeoPosition = GeoPosition::Interior;
const EX: GeoPosition = GeoPosition::Exterior;

// ---------------- C11 ----------------
#[no_mangle]
#[inline(never)]
pub fn dist_rect() {
    let (a, b) = RECTS[choose(5) as usize];
    let (x, y) = (sym(-100, 100), sym(-100, 100));
    let (r, p) = (mk_rect(a, b), pt(x, y));
    let s = r.sq_distance(&p);
    let dx = if x < a.0 { a.0 - x } else if x > b.0 { x - b.0 } else { 0 };
    let dy = if y < a.1 { a.1 - y } else if y > b.1 { y - b.1 } else { 0 };
    vassert(s == f(dx * dx + dy * dy), 1);
    let (pos, sb) = r.sq_distance_from_border(&p);
    if dx + dy > 0 {
        vreach(1);
        vassert(pos == EX, 2);
        vassert(sb == f(dx * dx + dy * dy), 3);
    } else { vreach(2) }
    done()
}
/// inside: nearest side
#[no_mangle]
#[inline(never)]
pub fn dist_rect_in() {
    let (a, b) = RECTS[choose(5) as usize];
    let (x, y) = (sym(-64, 64), sym(-64, 64));
    vassume(gt(x, a.0) & lt(x, b.0) & gt(y, a.1) & lt(y, b.1));
    let (r, p) = (mk_rect(a, b), pt(x, y));
    let (pos, sb) = r.sq_distance_from_border(&p);
    vassert(pos == IN, 1);
    let mx = if x - a.0 < b.0 - x { x - a.0 } else { b.0 - x };
    let my = if y - a.1 < b.1 - y { y - a.1 } else { b.1 - y };
    let m = if mx < my { mx } else { my };
    vassert(sb == f(m * m), 2);
    vreach(1);
    done()
}
/// the variants with roots (values enumerated along a line)
#[no_mangle]
#[inline(never)]
pub fn dist_rect_rt() {
    let (a, b) = RECTS[choose(5) as usize];
    let y = [-20, 3, 12, 11][choose(4) as usize];
    let x = sym(-70, 70);
    let (r, p) = (mk_rect(a, b), pt(x, y));
    let dx = if x < a.0 { a.0 - x } else if x > b.0 { x - b.0 } else { 0 };
    let dy = if y < a.1 { a.1 - y } else if y > b.1 { y - b.1 } else { 0 };
    vassert(near((r.distance(&p) as f64).powi(2), (dx * dx + dy * dy) as f64), 1);
    let (pos, d) = r.distance_from_border(&p);
    if dx + dy > 0 { vassert(pos == EX && near(d as f64, ((dx * dx + dy * dy) as f64).sqrt()), 2); vreach(1) }
    else {
        let m = (x - a.0).min(b.0 - x).min(y - a.1).min(b.1 - y);
        vassert((m == 0 || pos == IN) && near(d as f64, m as f64), 3); vreach(2)
    }
    done()
}
fn seg_d2(p: (f64, f64), a: P, b: P) -> f64 {
    let (a, b) = ((a.0 as f64, a.1 as f64), (b.0 as f64, b.1 as f64));
    let (vx, vy) = (b.0 - a.0, b.1 - a.1);
    let (wx, wy) = (p.0 - a.0, p.1 - a.1);
    let l = vx * vx + vy * vy;
    let t = wx * vx + wy * vy;
    if t <= 0.0 { wx * wx + wy * wy } else if t >= l { (p.0 - b.0).powi(2) + (p.1 - b.1).powi(2) } else { (vx * wy - vy * wx).powi(2) / l }
}
static VECS: [P; 10] = [(4, 4), (8, 0), (0, -8), (-4, 4), (16, 0), (8, 8), (-2, -2), (1, 0), (0, -1), (-1, 1)];
/// edges whose squared length is a power of two: exact for every point
#[no_mangle]
#[inline(never)]
pub fn dist_edge() {
    let v = VECS[choose(10) as usize];
    let (x, y) = (sym(-40, 40), sym(-40, 40));
    let e = Edge::new(pt(3, -5), pt(3 + v.0, -5 + v.1));
    let p = pt(x, y);
    let (w, l2) = ((x - 3, y + 5), v.0 * v.0 + v.1 * v.1);
    let s = e.sq_distance(&p);
    let t = dot(w, v);
    if t <= 0 { vassert(s == f(dot(w, w)), 1); vreach(1) }
    else if t >= l2 { let w2 = sub(w, v); vassert(s == f(dot(w2, w2)), 2); vreach(2) }
    else { let c = cross(v, w); vassert(s == f(c * c) / f(l2), 3); vreach(3) }
    let (pos, sb) = e.sq_distance_from_border(&p);
    vassert(pos == EX && sb == s, 4);
    done()
}
#[no_mangle]
#[inline(never)]
pub fn dist_edge_rt() {
    let v = [(7, 3), (-20, 1), (5, -11), (0, 13), (1, 0), (-2, 1)][choose(6) as usize];
    let y = [-9, 0, 4, -5][choose(4) as usize];
    let x = sym(-40, 40);
    let e = Edge::new(pt(3, -5), pt(3 + v.0, -5 + v.1));
    let p = pt(x, y);
    let d2 = seg_d2((x as f64, y as f64), (3, -5), (3 + v.0, -5 + v.1));
    vassert((e.sq_distance(&p) as f64 - d2).abs() < 1e-3 * (1.0 + d2), 1);
    vassert(near(e.distance(&p) as f64, d2.sqrt()), 2);
    vassert(near(e.distance_from_border(&p).1 as f64, d2.sqrt()), 3);
    let c = e.closest_point_on_edge(&p);
    vassert(((c.0 as f64 - x as f64).powi(2) + (c.1 as f64 - y as f64).powi(2) - d2).abs() < 1e-3 * (1.0 + d2), 4);
    vassert(seg_d2((c.0 as f64, c.1 as f64), (3, -5), (3 + v.0, -5 + v.1)) < 1e-6, 5);
    vassert(near(p.distance(e.start) as f64, (((x - 3) * (x - 3) + (y + 5) * (y + 5)) as f64).sqrt()), 6);
    vreach(1);
    done()
}
#[no_mangle]
#[inline(never)]
pub fn dist_circ() {
    let r = [1, 5, 13, 40][choose(4) as usize];
    let y = [-12, 0, 5, 24, -3][choose(5) as usize];
    let x = sym(-60, 60);
    let (cx, cy) = (2, -3);
    let c = Circle::new(pt(cx, cy), f(r));
    let p = pt(x, y);
    let d = (((x - cx) * (x - cx) + (y - cy) * (y - cy)) as f64).sqrt();
    let out = (d - r as f64).max(0.0);
    vassert(near(c.distance(&p) as f64, out), 1);
    vassert(near(c.sq_distance(&p) as f64, out * out), 2);
    let (pos, b) = c.distance_from_border(&p);
    vassert(near(b as f64, (d - r as f64).abs()), 3);
    if (d - r as f64).abs() > 1e-3 { vassert(pos == if d < r as f64 { IN } else { EX }, 4); }
    let (pos2, b2) = c.sq_distance_from_border(&p);
    vassert(pos2 == pos && (b2 as f64 - (d - r as f64).powi(2)).abs() < 1e-3 * (1.0 + d * d), 5);
    if d < r as f64 { vreach(1) } else { vreach(2) }
    done()
}
/// circle to circle and circle to edge
#[no_mangle]
#[inline(never)]
pub fn dist_circ2() {
    let r = [1, 5, 13][choose(3) as usize];
    let y = [-12, 0, 5][choose(3) as usize];
    let k = choose(4);
    let x = sym(-40, 40);
    let c = Circle::new(pt(x, y), f(r));
    let gap = if k < 2 {
        let q = [4, 9][k as usize];
        let o = Circle::new(pt(7, 1), f(q));
        let d = (((x - 7) * (x - 7) + (y - 1) * (y - 1)) as f64).sqrt() - (r + q) as f64;
        let (pos, b) = c.distance_from_border(&o);
        if d.abs() > 1e-3 { vassert(pos == if d < 0.0 { IN } else { EX }, 1); }
        vassert(near(b as f64, d.abs()), 2);
        vassert(near(c.distance(&o) as f64, d.max(0.0)), 3);
        vassert((c.sq_distance(&o) as f64 - d.max(0.0).powi(2)).abs() < 1e-3 * (1.0 + d * d), 4);
        vassert(near(o.distance(&c) as f64, d.max(0.0)), 5);
        vassert((c.sq_distance_from_border(&o).1 as f64 - d * d).abs() < 1e-3 * (1.0 + d * d), 6);
        d
    } else {
        let v = [(17, 6), (0, -20)][k as usize - 2];
        let e = Edge::new(pt(-4, 2), pt(-4 + v.0, 2 + v.1));
        let d = seg_d2((x as f64, y as f64), (-4, 2), (-4 + v.0, 2 + v.1)).sqrt() - r as f64;
        let (pos, b) = c.distance_from_border(&e);
        if d.abs() > 1e-3 { vassert(pos == if d < 0.0 { IN } else { EX }, 7); }
        vassert(near(b as f64, d.abs()), 8);
        vassert(near(c.distance(&e) as f64, d.max(0.0)), 9);
        vassert((c.sq_distance(&e) as f64 - d.max(0.0).powi(2)).abs() < 1e-3 * (1.0 + d * d), 10);
        vassert((c.sq_distance_from_border(&e).1 as f64 - d * d).abs() < 1e-3 * (1.0 + d * d), 11);
        d
    };
    if gap < 0.0 { vreach(1) } else { vreach(2) }
    done()
}
#[no_mangle]
#[inline(never)]
pub fn dist_poly() {
    let k = choose(4) as usize;
    let sh = [ell(), uu(), star(), sliver()][k].clone();
    let s = spoly(&sh);
    let y = [-5, 6, 12, 30][choose(4) as usize];
    let x = sym(-40, 70);
    let p = pt(x, y);
    let q = (x as f64, y as f64);
    let b2 = (0..sh.len()).map(|i| seg_d2(q, sh[i], sh[(i + 1) % sh.len()])).fold(f64::MAX, f64::min);
    let ins = inside((x, y), &sh, (0, 0));
    let on = on_border((x, y), &sh, (0, 0));
    let t = 1e-3 * (1.0 + b2);
    let o2 = if ins { 0.0 } else { b2 };
    vassert((s.sq_distance(&p) as f64 - o2).abs() < t, 1);
    vassert(near(s.distance(&p) as f64, o2.sqrt()), 2);
    let (pos, sb) = s.sq_distance_from_border(&p);
    vassert((sb as f64 - b2).abs() < t && (on || pos == if ins { IN } else { EX }), 3);
    let (pos, d) = s.distance_from_border(&p);
    vassert((d as f64 - b2.sqrt()).abs() < 2e-3 * (1.0 + b2.sqrt()) && (on || pos == if ins { IN } else { EX }), 4);
    if ins { vreach(1) } else { vreach(2) }
    done()
}

// ---------------- C12 ----------------
fn sym_rect(r: i64) -> (P, P) {
    let (a, b, c, d) = (sym(-r, r), sym(-r, r), sym(-r, r), sym(-r, r));
    vassume(lt(a, c) & lt(b, d));
    ((a, b), (c, d))
}
#[no_mangle]
#[inline(never)]
pub fn rect_rel() {
    let almost = choose(2) == 1;
    // with tolerance: one axis free, the other one of a few constellations (and the reverse)
    let (a, b) = if almost {
        let (c, d, e, g) = [(0, 10, 0, 10), (0, 10, 10, 20), (0, 10, 11, 20), (-5, 30, 0, 10), (0, 10, -5, 30), (3, 9, 3, 8), (3, 8, 4, 9)][choose(7) as usize];
        let (u, v, w, z) = (sym(-200, 200), sym(-200, 200), sym(-200, 200), sym(-200, 200));
        vassume(lt(u, v) & lt(w, z));
        if flip() { (((u, c), (v, d)), ((w, e), (z, g))) } else { (((c, u), (d, v)), ((e, w), (g, z))) }
    } else { (sym_rect(200), sym_rect(200)) };
    let un = [1.0, 1.0 / 1024.0][choose(2) as usize] as fsize;
    let su = |a: P, b: P| AARectangle::new(f(a.0) * un, f(a.1) * un, f(b.0) * un, f(b.1) * un);
    let (ra, rb) = (su(a.0, a.1), su(b.0, b.1));
    let sur = le(a.0.0, b.0.0) & le(a.0.1, b.0.1) & ge(a.1.0, b.1.0) & ge(a.1.1, b.1.1);
    let enc = ge(a.0.0, b.0.0) & ge(a.0.1, b.0.1) & le(a.1.0, b.1.0) & le(a.1.1, b.1.1);
    let hit = le(a.0.0, b.1.0) & le(b.0.0, a.1.0) & le(a.0.1, b.1.1) & le(b.0.1, a.1.1);
    let rel = if almost { ra.almost_relation_to(&rb) } else { ra.relation_to(&rb) };
    match rel {
        GeoRelation::Surrounding => { vassert(sur, 1); vreach(1) }
        GeoRelation::Enclosed => { vassert(enc & !sur, 2); vreach(2) }
        GeoRelation::Intersecting => { vassert(hit & !sur & !enc, 3); vreach(3) }
        GeoRelation::Disjoint => { vassert(!hit, 4); vreach(4) }
    }
    if almost { vassert(ra.almost_collides_with(&rb) == hit, 5); }
    done()
}
#[no_mangle]
#[inline(never)]
pub fn rect_alg() {
    let k = choose(4);
    let a = sym_rect(200);
    let ra = mk_rect(a.0, a.1);
    let same = |r: &AARectangle, x0: fsize, y0: fsize, x1: fsize, y1: fsize| (r.x_min == x0) & (r.y_min == y0) & (r.x_max == x1) & (r.y_max == y1);
    match k {
        0 => {
            let b = sym_rect(200);
            let rb = mk_rect(b.0, b.1);
            let mx = |u: i64, v: i64| if u > v { u } else { v };
            let (x0, y0, x1, y1) = (mx(a.0.0, b.0.0), mx(a.0.1, b.0.1), -mx(-a.1.0, -b.1.0), -mx(-a.1.1, -b.1.1));
            match AARectangle::from_intersection(&ra, &rb) {
                Some(r) => { vassert(lt(x0, x1) & lt(y0, y1), 1); vassert(same(&r, f(x0), f(y0), f(x1), f(y1)), 2); vreach(1) }
                None => { vassert(!(lt(x0, x1) & lt(y0, y1)), 3); vreach(2) }
            }
        }
        1 => {
            let b = sym_rect(200);
            let rb = mk_rect(b.0, b.1);
            let mx = |u: i64, v: i64| if u > v { u } else { v };
            let u = AARectangle::bounding_rectangle(&ra, &rb);
            vassert(same(&u, f(-mx(-a.0.0, -b.0.0)), f(-mx(-a.0.1, -b.0.1)), f(mx(a.1.0, b.1.0)), f(mx(a.1.1, b.1.1))), 4);
            vreach(3)
        }
        2 => {
            // twice the coordinates, to stay integral
            let (mx, my) = (f(a.0.0 + a.1.0) / 2.0, f(a.0.1 + a.1.1) / 2.0);
            let c = ra.centroid();
            vassert((c.0 == mx) & (c.1 == my), 5);
            let q = ra.quadrants();
            vassert(same(&q[0], mx, my, f(a.1.0), f(a.1.1)), 6);
            vassert(same(&q[1], f(a.0.0), my, mx, f(a.1.1)), 7);
            vassert(same(&q[2], f(a.0.0), f(a.0.1), mx, my), 8);
            vassert(same(&q[3], mx, f(a.0.1), f(a.1.0), my), 9);
            let co = ra.corners();
            vassert((co[0] == pt(a.1.0, a.1.1)) & (co[1] == pt(a.0.0, a.1.1)) & (co[2] == pt(a.0.0, a.0.1)) & (co[3] == pt(a.1.0, a.0.1)), 10);
            let e = ra.edges();
            for i in 0..4 { vassert((e[i].start == co[i]) & (e[i].end == co[(i + 1) % 4]), 11); }
            // neighbours share a side
            for i in 0..4 { for j in AARectangle::QUADRANT_NEIGHBOR_LAYOUT[i] { vassert(j != i && (i + j) % 2 == 1, 12); } vassert(AARectangle::QUADRANT_NEIGHBOR_LAYOUT[i][0] != AARectangle::QUADRANT_NEIGHBOR_LAYOUT[i][1], 13); }
            vassert((ra.width() == f(a.1.0 - a.0.0)) & (ra.height() == f(a.1.1 - a.0.1)) & (ra.area() == f((a.1.0 - a.0.0) * (a.1.1 - a.0.1))), 14);
            vreach(4)
        }
        _ => {
            let s = ra.inflate_to_square();
            let (w, h) = (a.1.0 - a.0.0, a.1.1 - a.0.1);
            let m = if w > h { w } else { h };
            vassert((s.x_min + s.x_max == f(a.0.0 + a.1.0)) & (s.y_min + s.y_max == f(a.0.1 + a.1.1)), 15);
            vassert((s.x_max - s.x_min == f(m)) & (s.y_max - s.y_min == f(m)), 16);
            let (k, d) = [(2, 1), (1, 2), (3, 2), (5, 1)][choose(4) as usize];
            let t = ra.clone().scale(f(k) / f(d));
            vassert((t.x_min + t.x_max == f(a.0.0 + a.1.0)) & (t.y_min + t.y_max == f(a.0.1 + a.1.1)), 17);
            vassert(((t.x_max - t.x_min) * f(d) == f(w * k)) & ((t.y_max - t.y_min) * f(d) == f(h * k)), 18);
            vreach(5)
        }
    }
    done()
}
fn mk_grid(nr: i64, nc: i64, skip: i64) -> Grid<i64> {
    let mut v = vec![];
    for c in (0..nc).rev() { for r in 0..nr { if (r * nc + c) != skip { v.push((r * 100 + c, pt(10 + 8 * c, -20 + 6 * r))); } } }
    Grid::new(v)
}
#[no_mangle]
#[inline(never)]
pub fn grid_idx() {
    let (nr, nc) = [(1, 1), (1, 5), (4, 1), (3, 4), (5, 2)][choose(5) as usize];
    let g = mk_grid(nr, nc, if nr > 1 && nc > 1 { 2 } else { -1 });
    vassert(g.n_rows == nr as usize && g.n_cols == nc as usize && g.cells.len() == (nr * nc) as usize, 1);
    let i = sym(0, 40);
    let (r, c) = (i / nc, i % nc);
    let rc = g.to_row_col(i as usize);
    vassert(rc.is_some() == (i < nr * nc), 2);
    if i < nr * nc {
        vreach(1);
        vassert(rc == Some((r as usize, c as usize)), 3);
        vassert(matches!(g.to_index(r as usize, c as usize), Ok(x) if x == i as usize), 4);
        vassert(g.to_index(nr as usize, c as usize).is_err() && g.to_index(r as usize, nc as usize).is_err(), 5);
        let cell = &g.cells[i as usize];
        vassert(*cell == if nr > 1 && nc > 1 && i == 2 { None } else { Some(r * 100 + c) }, 6);
        let nb = g.get_neighbors(i as usize);
        let mut want = [false; 64];
        for dr in -1..=1 { for dc in -1..=1 {
            let (a, b) = (r + dr, c + dc);
            if (dr != 0 || dc != 0) && a >= 0 && a < nr && b >= 0 && b < nc { want[(a * nc + b) as usize] = true; vassert(nb.contains(&((a * nc + b) as usize)), 7); }
        } }
        for n in nb { vassert(n == i as usize || (n < 64 && want[n]), 8); }
    } else { vreach(2) }
    done()
}
#[no_mangle]
#[inline(never)]
pub fn grid_rng() {
    let (nr, nc) = [(1, 1), (3, 4), (7, 5)][choose(3) as usize];
    let g = mk_grid(nr, nc, -1);
    let (lo, hi) = (sym(-60, 90), sym(-60, 90));
    vassume(le(lo, hi));
    let rr = g.rows_in_range(f(lo)..=f(hi));
    let cr = g.cols_in_range(f(lo)..=f(hi));
    vassert(*rr.end() < nr as usize && *cr.end() < nc as usize, 1);
    // every row / column whose band (half a pitch around its centre) meets the range is in it
    for r in 0..nr { let y = -20 + 6 * r; vassert(!(le(y - 3, hi) & ge(y + 3, lo)) | rr.contains(&(r as usize)), 2); }
    for c in 0..nc { let x = 10 + 8 * c; vassert(!(le(x - 4, hi) & ge(x + 4, lo)) | cr.contains(&(c as usize)), 3); }
    vreach(1);
    done()
}

// ---------------- C13 ----------------
/// translations only: exact for every offset and point
#[no_mangle]
#[inline(never)]
pub fn tf_lin() {
    let (x, y) = (sym(-500, 500), sym(-500, 500));
    let (mut ex, mut ey) = (x, y);
    let mut t = Transformation::empty();
    vassert(t.is_empty(), 1);
    for _ in 0..3 {
        let (dx, dy) = (sym(-300, 300), sym(-300, 300));
        t = match choose(6) {
            0 => t.translate((f(dx), f(dy))),
            1 => t.transform(&Transformation::from_translation((f(dx), f(dy)))),
            2 => t.transform_from_decomposed(&DTransformation::new(0.0, (f(dx), f(dy)))),
            3 => t.rotate_translate(0.0, (f(dx), f(dy))),
            4 => t.translate_rotate((f(dx), f(dy)), 0.0),
            _ => t.transform(&Transformation::from_dt(&DTransformation::new(0.0, (f(dx), f(dy))))),
        };
        ex += dx; ey += dy;
    }
    let p = pt(x, y);
    let mut q = p;
    q.transform(&t);
    vassert((q.0 == f(ex)) & (q.1 == f(ey)), 2);
    vassert(p.transform_clone(&t) == q, 3);
    let mut z = pt(7, 7);
    z.transform_from(&p, &t);
    vassert(z == q, 4);
    let d = t.decompose();
    vassert((d.rotation() == 0.0) & (d.translation().0 == f(ex - x)) & (d.translation().1 == f(ey - y)), 5);
    vassert(t.is_empty() == (eq(ex, x) & eq(ey, y)), 6);
    let i = t.inverse();
    q.transform(&i);
    vassert((q.0 == f(x)) & (q.1 == f(y)), 7);
    vreach(1);
    done()
}
static ANG: [f64; 8] = [0.0, 90.0, 180.0, 270.0, -90.0, 37.0, 200.5, -123.0];
fn rot(p: (f64, f64), deg: f64) -> (f64, f64) { let (s, c) = deg.to_radians().sin_cos(); (c * p.0 - s * p.1, s * p.0 + c * p.1) }
fn ang(k: i64) -> fsize { ANG[k as usize].to_radians() as fsize }
/// sequences of rotations and translations, in the order given
#[no_mangle]
#[inline(never)]
pub fn tf_seq() {
    let mut t = Transformation::empty();
    let px = sym(-40, 40);
    let p = pt(px, 9);
    let mut e = (px as f64, 9.0);
    let offs = [(13i64, -4i64), (-30, 55)];
    for n in 0..2 {
        let (dx, dy) = offs[n];
        let (fd, df) = ((f(dx), f(dy)), (dx as f64, dy as f64));
        let k = if n == 0 { 1 + choose(4) } else { [6, 1, 5][choose(3) as usize] };
        let a = ang(k);
        match choose(6) {
            0 => { t = t.rotate(a); e = rot(e, ANG[k as usize]); }
            1 => { t = t.translate(fd); e = (e.0 + df.0, e.1 + df.1); }
            2 => { t = t.rotate_translate(a, fd); e = rot(e, ANG[k as usize]); e = (e.0 + df.0, e.1 + df.1); }
            3 => { t = t.translate_rotate(fd, a); e = rot((e.0 + df.0, e.1 + df.1), ANG[k as usize]); }
            4 => { t = t.transform(&Transformation::from_rotation(a).translate(fd)); e = rot(e, ANG[k as usize]); e = (e.0 + df.0, e.1 + df.1); }
            _ => { t = t.transform_from_decomposed(&DTransformation::new(a, fd)); e = rot(e, ANG[k as usize]); e = (e.0 + df.0, e.1 + df.1); }
        }
    }
    let q = p.transform_clone(&t);
    vassert(nearp(q, e.0, e.1), 1);
    // decompose and compose again
    let d = t.decompose();
    vassert(nearp(p.transform_clone(&d.compose()), e.0, e.1), 2);
    vassert(nearp(p.transform_clone(&Transformation::from(&d)), e.0, e.1), 3);
    let back = q.transform_clone(&t.clone().inverse());
    vassert(nearp(back, px as f64, 9.0), 4);
    vreach(1);
    done()
}
/// inverse of rotation and translation
#[no_mangle]
#[inline(never)]
pub fn tf_inv() {
    let k = choose(8);
    let tx = sym(-60, 60);
    let d = DTransformation::new(ang(k), (f(tx), 21.0));
    vassert(d.rotation() == ang(k) && d.translation() == (f(tx), 21.0), 1);
    let t = d.compose();
    let (p, q) = (pt(30, -17), pt(-8, 44));
    for s in [p, q] {
        let e = rot((s.0 as f64, s.1 as f64), ANG[k as usize]);
        let m = s.transform_clone(&t);
        vassert(nearp(m, e.0 + tx as f64, e.1 + 21.0), 2);
        vassert(nearp(m.transform_clone(&t.clone().inverse()), s.0 as f64, s.1 as f64), 3);
        vassert(nearp(s.transform_clone(&t.clone().transform(&t.clone().inverse())), s.0 as f64, s.1 as f64), 4);
    }
    let d2 = DTransformation::from(&t);
    let da = (d2.rotation() as f64 - ANG[k as usize].to_radians()).rem_euclid(2.0 * std::f64::consts::PI);
    vassert(da < 1e-4 || da > 2.0 * std::f64::consts::PI - 1e-4, 5);
    vassert(near(d2.translation().0 as f64, tx as f64) && near(d2.translation().1 as f64, 21.0), 6);
    vassert(!t.is_empty(), 7);
    vassert(DTransformation::empty().compose().is_empty() && Transformation::empty().is_empty(), 8);
    vreach(1);
    done()
}

// ---------------- C14 ----------------
fn diam2(p: &[P]) -> i64 { let mut m = 0; for a in p { for b in p { let d = sub(*a, *b); m = m.max(dot(d, d)); } } m }
/// construction: orientation, start vertex and position do not matter
#[no_mangle]
#[inline(never)]
pub fn poly_new() {
    let mut o = outline(choose(10));
    let rev = flip();
    if rev { o.reverse(); }
    let r = choose(3) as usize * 2 % o.len();
    o.rotate_left(r);
    let dx = sym(-9, 9) * 16;
    let o = shifted(&o, dx, -7);
    let s = spoly(&o);
    vassert(s.points.len() == o.len(), 1);
    for p in &o { vassert(s.points.iter().filter(|q| **q == pt(p.0, p.1)).count() == 1, 2); }
    let a2 = area2(&o).abs();
    let sp: Vec<P> = s.points.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    vassert(area2(&sp) == a2, 3);
    // the cyclic order is that of the input or its reverse
    let i0 = sp.iter().position(|p| *p == o[0]).unwrap();
    let n = o.len();
    let ccw = area2(&o) > 0;
    for i in 0..n { vassert(sp[if ccw { (i0 + i) % n } else { (i0 + n - i) % n }] == o[i], 4); }
    vassert((s.area * 2.0 == f(a2)) & (s.area() == s.area), 5);
    let (x0, x1) = (o.iter().map(|p| p.0).min().unwrap(), o.iter().map(|p| p.0).max().unwrap());
    let (y0, y1) = (o.iter().map(|p| p.1).min().unwrap(), o.iter().map(|p| p.1).max().unwrap());
    let b = s.bbox();
    vassert((b.x_min == f(x0)) & (b.x_max == f(x1)) & (b.y_min == f(y0)) & (b.y_max == f(y1)), 6);
    vassert(near(s.diameter() as f64, (diam2(&o) as f64).sqrt()), 7);
    let (mut cx, mut cy) = (0, 0);
    for i in 0..n { let (p, q) = (sp[i], sp[(i + 1) % n]); let c = cross(p, q); cx += (p.0 + q.0) * c; cy += (p.1 + q.1) * c; }
    let (cx, cy) = (cx as f64 / (3 * a2) as f64, cy as f64 / (3 * a2) as f64);
    let c = s.centroid();
    vassert((c.0 as f64 - cx).abs() < 0.02 && (c.1 as f64 - cy).abs() < 0.02, 8);
    let (ctr, t) = s.clone().center_around_centroid();
    vassert(nearp(Point(0.0, 0.0).transform_clone(&t), -c.0 as f64, -c.1 as f64), 9);
    let c2 = ctr.centroid();
    vassert(c2.0.abs() < 0.05 && c2.1.abs() < 0.05, 10);
    for i in 0..n { let e = s.get_edge(i); vassert(e.start == s.points[i] && e.end == s.points[(i + 1) % n], 11); }
    vassert(s.edge_iter().count() == n && s.number_of_points() == n, 12);
    // inner circle: inside
    let (px, py) = (s.poi.center.0 as f64, s.poi.center.1 as f64);
    let d2 = (0..n).map(|i| seg_d2((px, py), o[i], o[(i + 1) % n])).fold(f64::MAX, f64::min);
    vassert(s.collides_with(&s.poi.center) && (s.poi.radius as f64).powi(2) <= d2 * 1.001 + 1e-3 && s.poi.radius > 0.0, 13);
    if rev { vreach(1) } else { vreach(2) }
    done()
}
/// area, bounding box of symbolic vertex lists
#[no_mangle]
#[inline(never)]
pub fn poly_sym() {
    let n = 3 + choose(3);
    let pts: Vec<P> = (0..n).map(|_| (sym(-60, 60), sym(-60, 60))).collect();
    let fp: Vec<Point> = pts.iter().map(|p| pt(p.0, p.1)).collect();
    vassert(SimplePolygon::calculate_area(&fp) * 2.0 == f(area2(&pts)), 1);
    if n < 5 {
        let b = SimplePolygon::generate_bounding_box(&fp);
        let (mut x0, mut x1, mut y0, mut y1) = (false, false, false, false);
        for (p, q) in pts.iter().zip(&fp) {
            vassert((b.x_min <= q.0) & (b.x_max >= q.0) & (b.y_min <= q.1) & (b.y_max >= q.1), 2);
            let _ = p;
            x0 |= b.x_min == q.0; x1 |= b.x_max == q.0; y0 |= b.y_min == q.1; y1 |= b.y_max == q.1;
        }
        vassert(x0 & x1 & y0 & y1, 3);
    }
    vreach(1);
    done()
}
fn same_poly(a: &SimplePolygon, b: &SimplePolygon) -> bool {
    let mut r = (a.points.len() == b.points.len()) & (a.bbox == b.bbox) & (a.area == b.area) & (a.diameter == b.diameter) & (a.poi == b.poi);
    for i in 0..a.points.len() { r &= a.points[i] == b.points[i]; }
    match (&a.surrogate, &b.surrogate) {
        (Some(x), Some(y)) => {
            r &= (x.poles.len() == y.poles.len()) & (x.piers.len() == y.piers.len()) & (x.convex_hull_indices == y.convex_hull_indices) & (x.n_ff_poles == y.n_ff_poles) & (x.convex_hull_area == y.convex_hull_area) & (x.poles_bounding_circle == y.poles_bounding_circle);
            for i in 0..x.poles.len() { r &= x.poles[i] == y.poles[i]; }
            for i in 0..x.piers.len() { r &= x.piers[i] == y.piers[i]; }
        }
        (None, None) => {}
        _ => r = false,
    }
    r
}
fn surr_shape(k: i64) -> (Vec<P>, SimplePolygon) {
    let o = [ell(), star(), tri()][k as usize].clone();
    let mut s = spoly(&o);
    s.generate_surrogate(scfg(3, 2, 0));
    s.surrogate.as_mut().unwrap().piers = vec![Edge::new(s.points[0], s.points[1]), Edge::new(s.points[2], s.points[0])];
    (o, s)
}
/// moving: in place = copy = into a reused buffer, and everything moves together
#[no_mangle]
#[inline(never)]
pub fn poly_move() {
    let ((o, s), other) = (surr_shape(choose(3)), choose(2));
    let (dx, dy) = (sym(-300, 300), sym(-300, 300));
    let t = tr(dx, dy);
    let mut m = s.clone();
    m.transform(&t);
    let c = s.transform_clone(&t);
    let mut r = s.clone();
    if other == 1 { r.transform(&tr(40, -77)); }
    r.transform_from(&s, &t);
    vassert(same_poly(&m, &c), 1);
    vassert(same_poly(&m, &r), 2);
    let n = s.points.len();
    for i in 0..n { vassert((m.points[i].0 == s.points[i].0 + f(dx)) & (m.points[i].1 == s.points[i].1 + f(dy)), 3); }
    let (x0, x1) = (o.iter().map(|p| p.0).min().unwrap(), o.iter().map(|p| p.0).max().unwrap());
    let (y0, y1) = (o.iter().map(|p| p.1).min().unwrap(), o.iter().map(|p| p.1).max().unwrap());
    vassert((m.bbox.x_min == f(x0 + dx)) & (m.bbox.x_max == f(x1 + dx)) & (m.bbox.y_min == f(y0 + dy)) & (m.bbox.y_max == f(y1 + dy)), 4);
    vassert((m.area == s.area) & (m.diameter == s.diameter) & (m.poi.radius == s.poi.radius), 5);
    vassert((m.poi.center.0 == s.poi.center.0 + f(dx)) & (m.poi.center.1 == s.poi.center.1 + f(dy)), 6);
    let (a, b) = (m.surrogate(), s.surrogate());
    vassert(a.poles.len() == b.poles.len() && a.piers.len() == b.piers.len() && a.n_ff_poles == b.n_ff_poles && a.convex_hull_indices == b.convex_hull_indices && a.ff_poles().len() == b.ff_poles().len(), 7);
    for i in 0..a.poles.len() { vassert((a.poles[i].center.0 == b.poles[i].center.0 + f(dx)) & (a.poles[i].center.1 == b.poles[i].center.1 + f(dy)) & (a.poles[i].radius == b.poles[i].radius), 8); }
    for i in 0..a.piers.len() { vassert((a.piers[i].start.0 == b.piers[i].start.0 + f(dx)) & (a.piers[i].end.1 == b.piers[i].end.1 + f(dy)) & (a.piers[i].start.1 == b.piers[i].start.1 + f(dy)) & (a.piers[i].end.0 == b.piers[i].end.0 + f(dx)), 9); }
    vreach(1);
    done()
}
/// rotations
#[no_mangle]
#[inline(never)]
pub fn poly_rot() {
    let (o, s) = surr_shape(choose(3));
    let k = 1 + choose(7);
    let tx = sym(-20, 20);
    let t = DTransformation::new(ang(k), (f(tx), 5.0)).compose();
    let m = s.transform_clone(&t);
    let mut r = s.transform_clone(&tr(99, 1));
    r.transform_from(&s, &t);
    vassert(same_poly(&m, &r), 1);
    let mv = |x: f64, y: f64| { let e = rot((x, y), ANG[k as usize]); (e.0 + tx as f64, e.1 + 5.0) };
    let (mut x0, mut x1, mut y0, mut y1) = (f64::MAX, f64::MIN, f64::MAX, f64::MIN);
    for i in 0..o.len() {
        let e = mv(s.points[i].0 as f64, s.points[i].1 as f64);
        vassert(nearp(m.points[i], e.0, e.1), 2);
        x0 = x0.min(e.0); x1 = x1.max(e.0); y0 = y0.min(e.1); y1 = y1.max(e.1);
    }
    vassert(near(m.bbox.x_min as f64, x0) && near(m.bbox.x_max as f64, x1) && near(m.bbox.y_min as f64, y0) && near(m.bbox.y_max as f64, y1), 3);
    vassert(m.points.iter().all(|p| p.0 >= m.bbox.x_min && p.0 <= m.bbox.x_max && p.1 >= m.bbox.y_min && p.1 <= m.bbox.y_max), 4);
    let chk = |a: Point, b: Point| { let e = mv(b.0 as f64, b.1 as f64); nearp(a, e.0, e.1) };
    vassert(chk(m.poi.center, s.poi.center) && m.poi.radius == s.poi.radius && m.area == s.area && m.diameter == s.diameter, 5);
    let (a, b) = (m.surrogate(), s.surrogate());
    for i in 0..a.poles.len() { vassert(chk(a.poles[i].center, b.poles[i].center) && a.poles[i].radius == b.poles[i].radius, 6); }
    for i in 0..a.piers.len() { vassert(chk(a.piers[i].start, b.piers[i].start) && chk(a.piers[i].end, b.piers[i].end), 7); }
    vassert(chk(a.poles_bounding_circle.center, b.poles_bounding_circle.center) && a.poles_bounding_circle.radius == b.poles_bounding_circle.radius, 8);
    vreach(1);
    done()
}
/// edges, circles and rectangles as shapes; edge editing
#[no_mangle]
#[inline(never)]
pub fn prim_misc() {
    let k = choose(4);
    let (x, y) = (sym(-50, 50), sym(-50, 50));
    match k {
        0 => {
            let v = VECS[choose(10) as usize];
            let e = Edge::new(pt(x, y), pt(x + v.0, y + v.1));
            let c = e.centroid();
            vassert((c.0 * 2.0 == f(2 * x + v.0)) & (c.1 * 2.0 == f(2 * y + v.1)) & (e.area() == 0.0), 1);
            let r = e.clone().reverse();
            vassert((r.start == e.end) & (r.end == e.start), 2);
            let s = e.clone().scale(3.0);
            vassert((s.start == pt(x - v.0, y - v.1)) & (s.end == pt(x + 2 * v.0, y + 2 * v.1)), 3);
            vassert((e.x_min() == f(x + v.0.min(0))) & (e.x_max() == f(x + v.0.max(0))) & (e.y_min() == f(y + v.1.min(0))) & (e.y_max() == f(y + v.1.max(0))), 4);
            let t = tr(17, -9);
            let m = e.transform_clone(&t);
            vassert((m.start == pt(x + 17, y - 9)) & (m.end == pt(x + v.0 + 17, y + v.1 - 9)), 5);
        }
        1 => {
            let r = sym(1, 40);
            let c = Circle::new(pt(x, y), f(r));
            let b = c.bbox();
            vassert((b.x_min == f(x - r)) & (b.x_max == f(x + r)) & (b.y_min == f(y - r)) & (b.y_max == f(y + r)) & (c.diameter() == f(2 * r)) & (c.centroid() == pt(x, y)), 6);
            let m = c.transform_clone(&tr(3, 4));
            vassert((m.center == pt(x + 3, y + 4)) & (m.radius == f(r)), 7);
        }
        2 => {
            // extending along an axis
            let d = sym(0, 30);
            let (ax, ay) = [(16, 0), (0, 8), (-4, 0), (0, -32)][choose(4) as usize];
            let e = Edge::new(pt(x, y), pt(x + ax, y + ay));
            let (ux, uy) = (ax.signum(), ay.signum());
            let a = e.clone().extend_at_front(f(d));
            let b = e.clone().extend_at_back(f(d));
            vassert((a.end == e.end) & (a.start == pt(x - ux * d, y - uy * d)), 8);
            vassert((b.start == e.start) & (b.end == pt(x + ax + ux * d, y + ay + uy * d)), 9);
        }
        _ => {
            let r = mk_rect((1, 2), (9, 17));
            let s = SimplePolygon::from(&r);
            vassert(s.area() == 120.0 && s.bbox() == r && s.points.len() == 4, 10);
            vassert(near(Circle::new(pt(0, 0), 3.0).area() as f64, 9.0 * std::f64::consts::PI) && near(r.diameter() as f64, 17.0), 11);
        }
    }
    vreach(1);
    done()
}

// ---------------- C15 ----------------
const SC: i64 = 1024;
/// every pole inside the shape for every point of the border; poles disjoint; bounding circle; configuration respected
#[no_mangle]
#[inline(never)]
pub fn poles() {
    let th = tier();
    let k = choose(6);
    let t = if th { sym(0, 9) } else { sym(0, 1) * 7 + 1 };
    let (mp, ffp, cov) = [(4, 2, 0.9), (1, 1, 0.5), (6, 9, 0.99)][if th { choose(3) as usize } else { (k % 3) as usize }];
    let o = flex(k, t);
    let mut s = spoly(&o);
    s.generate_surrogate(jagua_rs::util::config::SPSurrogateConfig { pole_coverage_goal: cov, max_poles: mp, n_ff_poles: ffp, n_ff_piers: 0 });
    let g = s.surrogate().clone();
    vassert(!g.poles.is_empty() && g.poles.len() <= mp, 1);
    vassert(g.poles[0] == s.poi, 2);
    vassert(g.n_ff_poles == ffp.min(g.poles.len()) && g.ff_poles().len() == g.n_ff_poles, 3);
    let cover: f64 = g.poles.iter().map(|p| std::f64::consts::PI * (p.radius as f64).powi(2)).sum();
    vassert(g.poles.len() == mp || cover >= s.area as f64 * cov as f64 * 0.999, 4);
    let n = g.poles.len();
    for i in 0..n {
        let (ci, ri) = (g.poles[i].center, g.poles[i].radius as f64);
        vassert(ri > 0.0 && inside((ci.0 as f64 * SC as f64, ci.1 as f64 * SC as f64).toi(), &scaled(&o, SC), (0, 0)), 5);
        for j in 0..i { let cj = g.poles[j].center; vassert(((ci.0 - cj.0) as f64).hypot((ci.1 - cj.1) as f64) >= (ri + g.poles[j].radius as f64) * 0.999 - 1e-3, 6); }
        let b = &g.poles_bounding_circle;
        vassert(((ci.0 - b.center.0) as f64).hypot((ci.1 - b.center.1) as f64) + ri <= b.radius as f64 * 1.0001 + 1e-3, 7);
    }
    vassert(near(g.convex_hull_area as f64, hull_area2(&o) as f64 / 2.0), 8);
    vobs(n as i64);
    // no point of any border edge in the open interior of a pole
    let e = choose(o.len() as i64) as usize;
    let (a, v) = (o[e], sub(o[(e + 1) % o.len()], o[e]));
    let u = sym(0, 64);
    let q = (a.0 * SC + v.0 * (SC / 64) * u, a.1 * SC + v.1 * (SC / 64) * u);
    for p in &g.poles {
        let c = (p.center.0 as f64 * SC as f64, p.center.1 as f64 * SC as f64).toi();
        let r = (p.radius as f64 * SC as f64) as i64 - 2;
        let w = sub(q, c);
        vassert(r <= 0 || ge(dot(w, w), r * r), 9);
    }
    vreach(if n > 1 { 1 } else { 2 });
    done()
}
trait ToI { fn toi(self) -> P; }
impl ToI for (f64, f64) { fn toi(self) -> P { (self.0.round() as i64, self.1.round() as i64) } }
fn hull_area2(p: &[P]) -> i64 {
    // gift wrapping on integers
    let mut start = 0;
    for i in 0..p.len() { if (p[i].0, p[i].1) < (p[start].0, p[start].1) { start = i; } }
    let (mut cur, mut a2) = (start, 0);
    loop {
        let mut nx = (cur + 1) % p.len();
        for j in 0..p.len() {
            if j == cur { continue; }
            let c = cross(sub(p[nx], p[cur]), sub(p[j], p[cur]));
            let (dn, dj) = (sub(p[nx], p[cur]), sub(p[j], p[cur]));
            if c < 0 || (c == 0 && dot(dj, dj) > dot(dn, dn)) { nx = j; }
        }
        a2 += cross(p[cur], p[nx]);
        cur = nx;
        if cur == start { return a2; }
    }
}
/// no inner circle noticeably larger than the pole of inaccessibility: for every centre
#[no_mangle]
#[inline(never)]
pub fn poi_max() {
    let k = choose(6);
    let o = flex(k, 3);
    let s = spoly(&o);
    let r = s.poi.radius as f64 + s.bbox.diameter() as f64 / 1024.0;
    // in units of 1/4: a circle of radius r (rounded up) around any grid point inside meets the border
    let o4 = scaled(&o, 4);
    let ri = (r * 4.0).ceil() as i64;
    let (y0, y1) = (o4.iter().map(|p| p.1).min().unwrap(), o4.iter().map(|p| p.1).max().unwrap());
    let w = (y1 - y0) / 16 + 1;
    let b = (0..16i64).collect::<Vec<_>>()[choose(16) as usize];
    let (x, y) = (sym(-40 * 4, 100 * 4), sym(0, w - 1) + (b * w + y0));
    vassert(!inside((x, y), &o4, (0, 0)) | disc_border((x, y), ri, &o4), 1);
    vreach(1);
    done()
}
/// the bounding circle of circles contains every one of them
#[no_mangle]
#[inline(never)]
pub fn bound_circ() {
    let n = 2 + choose(2);
    let x = sym(-12, 12);
    let r = [1, 4, 9][choose(3) as usize];
    let y = [0, 5][choose(2) as usize];
    let c3 = [(pt(2, 1), 2.0), (pt(-20, 6), 5.0), (pt(1, 0), 30.0)];
    let mut v = vec![Circle::new(pt(0, 0), 3.0), Circle::new(pt(x, y), f(r))];
    if n == 3 { let (c, q) = c3[choose(3) as usize]; v.push(Circle::new(c, q)); }
    let b = Circle::bounding_circle(&v);
    for c in &v { vassert(((c.center.0 - b.center.0) as f64).hypot((c.center.1 - b.center.1) as f64) + c.radius as f64 <= b.radius as f64 * 1.0001 + 1e-3, 1); }
    // two circles: not larger than needed
    if n == 2 {
        let d = (x as f64).hypot(y as f64);
        vassert(near(b.radius as f64, ((d + 3.0 + r as f64) / 2.0).max(3.0).max(r as f64)), 2);
    }
    vreach(n);
    done()
}

// ---------------- C16 ----------------
fn check_hull(h: &[Point], hp: &[P], pts: &[P]) {
    // hull vertices are inputs (identified through hp), counter-clockwise and strictly convex, all points inside
    vassert(h.len() >= 3, 1);
    let n = hp.len();
    for i in 0..n {
        let (a, b, c) = (hp[i], hp[(i + 1) % n], hp[(i + 2) % n]);
        vassert(gt(cross(sub(b, a), sub(c, a)), 0), 2);
        for p in pts { vassert(ge(cross(sub(b, a), sub(*p, a)), 0), 3); }
    }
}
static XS: [[i64; 6]; 7] = [[6, 0, 0, 0, 6, 6], [2, 6, 0, 3, 6, 0], [5, 0, 2, 4, 6, 8], [0, 5, 5, 5, 0, 9], [0, 7, 7, 7, 7, 0], [2, 9, 4, 4, 4, 1], [3, 0, 0, 0, 0, 3]];
/// given abscissae (with ties), every ordinate
#[no_mangle]
#[inline(never)]
pub fn hull_pts() {
    let t = tier();
    let xi = choose(7);
    let xs = XS[xi as usize];
    let m = if t { 6 } else { 5 };
    let mut pts: Vec<P> = vec![];
    for i in 0..m { pts.push((xs[i + 6 - m], sym(-8, 8))); }
    // not all on one line, no duplicates
    let mut flat = true;
    for i in 2..m { flat &= eq(cross(sub(pts[1], pts[0]), sub(pts[i], pts[0])), 0); }
    vassume(!flat);
    for i in 0..m { for j in 0..i { vassume(!(eq(pts[i].0, pts[j].0) & eq(pts[i].1, pts[j].1))); } }
    // every other arrangement in tiny units
    let un: fsize = if xi % 2 == 1 { 1.0 / 1024.0 } else { 1.0 };
    let h = convex_hull_from_points(pts.iter().map(|p| jagua_rs::geometry::primitives::point::Point(f(p.0) * un, f(p.1) * un)).collect());
    // the hull coordinates as integers again
    let hp: Vec<P> = h.iter().map(|p| ((p.0 / un) as i64, (p.1 / un) as i64)).collect();
    for p in &hp { let mut s = false; for q in &pts { s |= eq(p.0, q.0) & eq(p.1, q.1); } vassert(s, 4); }
    check_hull(&h, &hp, &pts);
    vobs(h.len() as i64);
    vreach(h.len() as i64);
    done()
}
/// everything free on a small grid
#[no_mangle]
#[inline(never)]
pub fn hull_xy() {
    let m = 4;
    let mut pts: Vec<P> = vec![];
    for _ in 0..m { pts.push((sym(0, 3), sym(0, 3))); }
    let mut flat = true;
    for i in 2..m { flat &= eq(cross(sub(pts[1], pts[0]), sub(pts[i], pts[0])), 0); }
    vassume(!flat);
    vassume(!(eq(pts[0].0, pts[1].0) & eq(pts[0].1, pts[1].1)));
    let h = convex_hull_from_points(pts.iter().map(|p| pt(p.0, p.1)).collect());
    let hp: Vec<P> = h.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    for p in &hp { let mut s = false; for q in &pts { s |= eq(p.0, q.0) & eq(p.1, q.1); } vassert(s, 4); }
    check_hull(&h, &hp, &pts);
    vreach(h.len() as i64);
    done()
}
/// hulls of polygons, alone and of several at free offsets
#[no_mangle]
#[inline(never)]
pub fn hull_shapes() {
    let k = choose(10);
    let o = outline(k);
    let mut s = spoly(&o);
    let idx = convex_hull_indices(&s);
    let sp: Vec<P> = s.points.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    let hp: Vec<P> = idx.iter().map(|&i| sp[i]).collect();
    vassert(idx.len() >= 3, 5);
    check_hull(&s.points, &hp, &sp);
    vassert(area2(&hp) == hull_area2(&o), 6);
    if k % 2 == 0 { s.generate_surrogate(scfg(1, 1, 0)); vassert(s.surrogate().convex_hull_indices == idx, 7); }
    let b = spoly(&[ell(), diamond(6)][choose(2) as usize]);
    let (dx, dy) = (sym(-50, 50), [0, 13][choose(2) as usize]);
    let b2 = b.transform_clone(&tr(dx, dy));
    let h = convex_hull_from_shapes([&s, &b2]);
    let hp: Vec<P> = h.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    let mut pts = sp.clone();
    for p in &b.points { pts.push((p.0 as i64 + dx, p.1 as i64 + dy)); }
    for p in &hp { let mut s = false; for q in &pts { s |= eq(p.0, q.0) & eq(p.1, q.1); } vassert(s, 8); }
    check_hull(&h, &hp, &pts);
    vreach(1);
    done()
}
