//! C17 (simplification), C21 (import), C22 (export / re-import)
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::collision_detection::hazard_filter;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::*;
use jagua_rs::io::json_solution::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::io::parser::{self, pretransform_bin, pretransform_item, Parser};
use jagua_rs::util::config::CDEConfig;
use jagua_rs::util::polygon_simplification::*;

pub static LIST: &[(&str, fn())] = &[("simpl", simpl), ("simpl_corner", simpl_corner), ("simpl_jaw", simpl_jaw), ("simpl_roles", simpl_roles), ("imp_items", imp_items), ("imp_pretf", imp_pretf), ("imp_ring", imp_ring), ("imp_bin", imp_bin), ("imp_zone", imp_zone), ("imp_text", imp_text), ("exp_bp", exp_bp), ("exp_sp", exp_sp), ("exp_abs", exp_abs)];

// ---------------- C17 ----------------
const K: i64 = 8; // the outlines are scaled so that the integer query grid is fine
const F: i64 = 4096;
fn fpts(s: &SimplePolygon, un: f64) -> Vec<P> { s.points.iter().map(|p| ((p.0 as f64 / un * F as f64).round() as i64, (p.1 as f64 / un * F as f64).round() as i64)).collect() }
fn upoly(o: &[P], un: f64) -> SimplePolygon { SimplePolygon::new(o.iter().map(|p| jagua_rs::geometry::primitives::point::Point((p.0 as f64 * un) as fsize, (p.1 as f64 * un) as fsize)).collect()) }
/// everything in small units for every other outline
fn small(i: i64) -> f64 { if i % 2 == 1 { 1.0 / 1024.0 } else { 1.0 } }
fn simple(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            let (v, w) = (sub(p[(i + 1) % n], p[i]), sub(p[(j + 1) % n], p[j]));
            if v == (0, 0) { return false; }
            if j == i + 1 || (i == 0 && j == n - 1) {
                // neighbours: may not fold back
                let (a, b) = if j == i + 1 { (v, w) } else { (w, v) };
                if cross(a, b) == 0 && dot(a, b) < 0 { return false; }
                continue;
            }
            if seg_touch(p[i], v, p[j], w) { return false; }
        }
    }
    true
}
/// the three claims about one simplified outline
fn simplified(o: &[P], r: &SimplePolygon, inflate: bool, tol: f64, un: f64) {
    let fp = fpts(r, un);
    vassert(simple(&fp), 1);
    let (a, b) = (area2(o).abs() as f64 / 2.0, r.area as f64 / un / un);
    vassert((b - a).abs() / a <= tol + 1e-4, 2);
    vassert(if inflate { b >= a * 0.9999 } else { b <= a * 1.0001 }, 3);
    vassert(r.points.len() <= o.len(), 4);
    let (x0, x1) = (o.iter().map(|p| p.0).min().unwrap() - 2, o.iter().map(|p| p.0).max().unwrap() + 2);
    let (y0, y1) = (o.iter().map(|p| p.1).min().unwrap() - 2, o.iter().map(|p| p.1).max().unwrap() + 2);
    let q = (sym(x0, x1), sym(y0, y1));
    let org = inside(q, o, (0, 0)) & !on_border(q, o, (0, 0));
    let res = inside((q.0 * F, q.1 * F), &fp, (0, 0));
    if inflate { vassert(!org | res, 5) } else { vassert(!res | org | on_border(q, o, (0, 0)), 6) }
}
fn gallery(k: i64, t: i64) -> Vec<P> {
    match k {
        0..=5 => flex(k, t),
        6..=15 => { let mut o = outline(k - 6); let n = o.len(); if t > 0 { o[(t as usize) % n].0 += 1; } o }
        // two arms that nearly meet in front of each other
        16 => vec![(0, 0), (50, 0), (50, 30), (30 + t, 30), (30 + t, 20), (40, 10), (10, 10), (20 - t, 20), (20 - t, 30), (0, 30)],
        // collinear runs, tiny steps
        17 => vec![(0, 0), (10, 0), (20, 0), (30, 1), (40, 0), (40, 20), (41, 30), (40, 40), (20, 40), (10, 40 + t % 3), (0, 40), (0, 20), (1, 10)],
        // a spiral
        _ => vec![(0, 0), (60, 0), (60, 50), (10, 50), (10, 20), (40, 20), (40, 34 - t), (30, 34 - t), (30, 28), (18, 28), (18, 44), (52, 44), (52, 8), (0, 8)],
    }
}
const TOLS: [f64; 5] = [0.001, 0.02, 0.1, 0.35, 1.0];
#[no_mangle]
#[inline(never)]
pub fn simpl() {
    let th = tier();
    let k = choose(19);
    let t = choose(if th { 10 } else { 4 });
    let inflate = flip();
    let tol = TOLS[if th { choose(5) } else { [1, 3, 4][choose(3) as usize] } as usize];
    let o = gallery(k, t);
    vassume(simple(&o));
    let mut o = scaled(&o, K);
    let rot = (t * 3) as usize % o.len();
    o.rotate_left(rot);
    if t % 2 == 1 { o.reverse(); }
    let un = small(k + t);
    let s = upoly(&o, un);
    let r = simplify_shape(&s, if inflate { PolySimplMode::Inflate } else { PolySimplMode::Deflate }, tol as fsize);
    vobs(r.points.len() as i64);
    if r.points.len() < o.len() { vreach(1) } else { vreach(2) }
    simplified(&o, &r, inflate, tol, un);
    done()
}
/// one vertex of the outline anywhere on a line through an arrangement of obstacles
#[no_mangle]
#[inline(never)]
pub fn simpl_corner() {
    let k = choose(3);
    let t = choose(40);
    let inflate = flip();
    let o = match k {
        0 => vec![(0, 0), (60, 0), (60, 40), (40, 40), (t + 10, 12), (20, 40), (18, 39), (0, 40)],
        1 => vec![(0, 0), (60, 0), (60, 60), (34, 60), (34, 2 * t - 10), (30, 16), (26, 30), (26, 60), (0, 60)],
        _ => vec![(0, 0), (60, 0), (60, 60), (50, 60), (45, 20), (30, t), (15, 20), (10, 60), (0, 60)],
    };
    vassume(simple(&o));
    let o = scaled(&o, K);
    let un = small(t);
    let r = simplify_shape(&upoly(&o, un), if inflate { PolySimplMode::Inflate } else { PolySimplMode::Deflate }, 0.5);
    vobs(r.points.len() as i64);
    if r.points.len() < o.len() { vreach(1) }
    simplified(&o, &r, inflate, 0.5, un);
    done()
}
/// two recesses (or two fingers) whose blunt ends, sharpened, would run into each other; in all eight orientations
#[no_mangle]
#[inline(never)]
pub fn simpl_jaw() {
    let th = tier();
    let fam = choose(2);
    let t = if th { choose(24) } else { [0, 2, 5, 9, 14, 20][choose(6) as usize] };
    let (fx, fy, tp) = (flip(), flip(), flip());
    let inflate = flip();
    let tol = if th { TOLS[choose(4) as usize] } else { [0.01, 0.1][choose(2) as usize] };
    let a = 60 + t;
    let o: Vec<P> = if fam == 0 {
        vec![(0, 0), (200, 0), (200, 80), (a, 68), (a, 80), (200, 120), (200, 200), (0, 200), (0, 144), (44, 92), (48, 90), (48, 60), (44, 58), (0, 60)]
    } else {
        vec![(-40, -40), (80, -40), (80, 0), (0, 0), (0, 60), (44, 58), (48, 60), (48, 90), (44, 92), (0, 144), (0, 200), (200, 200), (200, 120), (a, 80), (a, 68), (200, 80), (200, 0), (90, 0), (90, -40), (240, -40), (240, 240), (-40, 240)]
    };
    let o: Vec<P> = o.iter().map(|p| { let (x, y) = (if fx { 200 - p.0 } else { p.0 }, if fy { 200 - p.1 } else { p.1 }); if tp { (y, x) } else { (x, y) } }).collect();
    vassume(simple(&o));
    let un = small((fx as i64) + (fy as i64) + (tp as i64));
    let r = simplify_shape(&upoly(&o, un), if inflate { PolySimplMode::Inflate } else { PolySimplMode::Deflate }, tol as fsize);
    vobs(r.points.len() as i64);
    if r.points.len() < o.len() { vreach(1) }
    simplified(&o, &r, inflate, tol, un);
    done()
}
fn js(o: &[P]) -> JsonSimplePoly { JsonSimplePoly(o.iter().map(|p| (p.0 as fsize, p.1 as fsize)).collect()) }
fn jitem(shape: JsonShape) -> JsonItem { JsonItem { demand: 1, allowed_orientations: None, shape, value: None, base_quality: None } }
fn jbin(shape: JsonShape) -> JsonBin { JsonBin { cost: 1, stock: Some(1), shape, zones: vec![] } }
fn bp(i: &Instance) -> &BPInstance { match i { Instance::BP(b) => b, _ => unreachable!() } }
/// the parser simplifies each outline in the direction its role demands
#[no_mangle]
#[inline(never)]
pub fn simpl_roles() {
    let tol = [0.05, 0.4][choose(2) as usize];
    let role = choose(5);
    // a concave and a convex shape inside a large outline; each is simplified in its own role
    let big = scaled(&vec![(0, 0), (30, -4), (60, 0), (63, 30), (60, 60), (44, 62), (30, 52), (20, 60), (0, 60), (-3, 40), (4, 20)], 24);
    let small = shifted(&scaled(&outline([5, 6][choose(2) as usize]), 4), 600, 600);
    let mut b = match role { 0 | 1 => jbin(JsonShape::SimplePolygon(js(&big))), _ => jbin(JsonShape::Polygon(JsonPoly { outer: js(&big), inner: if role == 3 { vec![js(&small)] } else { vec![] } })) };
    if role == 4 { b.zones = vec![JsonQualityZone { quality: 4, shape: JsonShape::SimplePolygon(js(&small)) }]; }
    let ji = JsonInstance { name: String::new(), items: vec![jitem(JsonShape::SimplePolygon(js(&small)))], bins: Some(vec![b]), strip: None };
    let inst = Parser::new(PolySimplConfig::Enabled { tolerance: tol as fsize }, cfg(1, 0), false).parse(&ji);
    let (item, bin) = (&bp(&inst).items[0].0, &bp(&inst).bins[0].0);
    let (o, r, inflate): (&Vec<P>, &SimplePolygon, bool) = match role {
        0 => (&small, &item.shape, true),
        1 | 2 => (&big, &bin.outer, false),
        3 => (&small, &bin.holes[0], true),
        _ => (&small, &bin.quality_zones[4].as_ref().unwrap().zones[0], true),
    };
    vobs(r.points.len() as i64);
    if r.points.len() < o.len() { vreach(1) }
    simplified(o, r, inflate, tol, 1.0);
    done()
}

// ---------------- C21 ----------------
/// the polygon is the outline moved by (dx, dy), up to start and direction of the vertex list
fn same_ring(s: &SimplePolygon, o: &[P], d: (f64, f64), eps: f64) -> bool {
    let n = o.len();
    if s.points.len() != n { return false; }
    let hit = |i: usize, p: P| (s.points[i].0 as f64 - p.0 as f64 - d.0).abs() <= eps && (s.points[i].1 as f64 - p.1 as f64 - d.1).abs() <= eps;
    (0..n).any(|st| (0..n).all(|i| hit((st + i) % n, o[i]))) || (0..n).any(|st| (0..n).all(|i| hit((st + n - i) % n, o[i])))
}
fn fcentroid(o: &[P]) -> (f64, f64) {
    let n = o.len();
    let (mut x, mut y, mut a) = (0.0, 0.0, 0.0);
    for i in 0..n {
        let (p, q) = (o[i], o[(i + 1) % n]);
        let c = cross(p, q) as f64;
        x += (p.0 + q.0) as f64 * c; y += (p.1 + q.1) as f64 * c; a += c;
    }
    (x / (3.0 * a), y / (3.0 * a))
}
fn pre_ok(t: &Transformation, o: &[P], center: bool) -> (f64, f64) {
    let d = t.decompose();
    let (x, y): (f64, f64) = (d.translation().0 as f64, d.translation().1 as f64);
    vassert(d.rotation() == 0.0, 60);
    if center { let c = fcentroid(o); vassert((x + c.0).abs() < 1e-2 && (y + c.1).abs() < 1e-2, 61) } else { vassert(x == 0.0 && y == 0.0, 62) }
    (x, y)
}
/// (json shape, outline it denotes)
fn jshape(k: i64) -> (JsonShape, Vec<P>) {
    match k {
        0 => (JsonShape::Rectangle { width: 30.0, height: 12.0 }, rect(30, 12)),
        1 => (JsonShape::SimplePolygon(js(&ell())), ell()),
        2 => { let mut o = ell(); o.push(o[0]); (JsonShape::SimplePolygon(js(&o)), ell()) }
        3 => { let mut o = shifted(&tri(), -40, 17); o.reverse(); (JsonShape::SimplePolygon(js(&o)), shifted(&tri(), -40, 17)) }
        4 => { let mut o = shifted(&uu(), 5, 9); o.reverse(); o.push(o[0]); (JsonShape::SimplePolygon(js(&o)), shifted(&uu(), 5, 9)) }
        // the last vertex shares one coordinate with the first
        5 => { let o = vec![(0, 0), (20, 5), (0, 16)]; (JsonShape::SimplePolygon(js(&o)), o) }
        6 => { let o = vec![(7, 3), (27, 18), (19, 3)]; (JsonShape::SimplePolygon(js(&o)), o) }
        _ => { let o = star(); (JsonShape::SimplePolygon(js(&o)), o) }
    }
}
const N_SHAPES: i64 = 8;
const ORI: [&[f64]; 6] = [&[], &[0.0], &[90.0], &[0.0, 180.0], &[0.0, 90.0, 180.0, 270.0], &[45.0, -30.0, 0.0, 450.0, 360.0]];
/// items: outline, demand, value, quality, orientations
#[no_mangle]
#[inline(never)]
pub fn imp_items() {
    let center = flip();
    let k = choose(N_SHAPES);
    let (sh, out) = jshape(k);
    let ori = (k + choose(2) * 3) % 7;
    let bq = if (k + ori) % 2 == 0 { Some([0, 4, 9][choose(3) as usize]) } else { None };
    let sp = (k + ori / 2) % 2 == 0;
    let (d0, d1, v) = (sym(0, 90), sym(0, 70), sym(0, 1_000_000));
    let it = JsonItem { demand: d0 as u64, allowed_orientations: if ori == 6 { None } else { Some(ORI[ori as usize].iter().map(|a| *a as fsize).collect()) }, shape: sh, value: if ori % 2 == 1 { None } else { Some(v as u64) }, base_quality: bq };
    let mut it2 = jitem(JsonShape::Rectangle { width: 8.0, height: 6.0 });
    it2.demand = d1 as u64;
    it2.value = Some(3);
    let ji = JsonInstance { name: "x".into(), items: vec![it2.clone(), it, it2], bins: if sp { None } else { Some(vec![jbin(JsonShape::Rectangle { width: 99.0, height: 77.0 })]) }, strip: if sp { Some(JsonStrip { height: 77.0 }) } else { None } };
    let c = CDEConfig { item_surrogate_config: scfg(1, 1, 0), ..cfg(1, 0) };
    let inst = Parser::new(PolySimplConfig::Disabled, c, center).parse(&ji);
    vassert(matches!(inst, Instance::SP(_)) == sp, 1);
    if let Instance::SP(s) = &inst { vassert(s.strip_height == 77.0, 2) }
    vassert(inst.items().len() == 3, 3);
    vassert((inst.item_qty(0) == d1 as usize) & (inst.item_qty(1) == d0 as usize) & (inst.item_qty(2) == d1 as usize), 4);
    vassert(inst.total_item_qty() == (d0 + 2 * d1) as usize, 5);
    for i in 0..3 { vassert(inst.item(i).id == i, 6); }
    let x = inst.item(1);
    vassert(x.value == if ori % 2 == 1 { 0 } else { v as u64 }, 7);
    vassert(x.base_quality == bq && x.hazard_filter.as_ref().map(|f| f.0) == bq, 8);
    let rot_ok = match (&x.allowed_rotation, ori) {
        (AllowedRotation::Continuous, 6) => true,
        (AllowedRotation::None, 0) | (AllowedRotation::None, 1) => true,
        (AllowedRotation::Discrete(v), 2..=5) => v.len() == ORI[ori as usize].len() && v.iter().zip(ORI[ori as usize]).all(|(a, b)| (*a as f64 - b * std::f64::consts::PI / 180.0).abs() < 1e-5),
        _ => false,
    };
    vassert(rot_ok, 9);
    vassert(x.surrogate_config.max_poles == 1 && x.shape.surrogate.is_some(), 10);
    let d = pre_ok(&x.pretransform, &out, center);
    vassert(same_ring(&x.shape, &out, d, if center { 2e-3 } else { 0.0 }), 11);
    vassert(near(x.shape.area as f64, area2(&out).abs() as f64 / 2.0), 12);
    let y = inst.item(2);
    vassert(y.value == 3 && y.base_quality.is_none() && y.hazard_filter.is_none(), 13);
    vassert(same_ring(&y.shape, &rect(8, 6), pre_ok(&y.pretransform, &rect(8, 6), center), 2e-3), 14);
    if center { vreach(1) } else {
        vassert(inst.item_area() == (area2(&out).abs() * d0) as fsize / 2.0 + (96 * d1) as fsize, 15);
        vreach(2)
    }
    done()
}
/// moving an item or bin once more adds to what was done to it before
#[no_mangle]
#[inline(never)]
pub fn imp_pretf() {
    let base = [0.0, 0.5, -2.0][choose(3) as usize] as fsize;
    let second = [0.0, 1.0, 3.0][choose(3) as usize] as fsize;
    let rs = scfg(1, 1, 0);
    let m = |r: fsize, x: f64, y: f64| DTransformation::new(r, (x as fsize, y as fsize)).compose();
    let (x, y) = (choose(4) * 16 - 20, sym(-12, 12));
    let (t1, t2) = (m(base, 7.0, -3.0), m(second, x as f64, y as f64));
    let sh = shifted(&ell(), 5, 9);
    let (hole, zone) = (shifted(&diamond(3), 12, 14), shifted(&square(4), 8, 30));
    let move2 = |p: &P| {
        let f = |(x, y): (f64, f64), r: f64, d: (f64, f64)| { let (s, c) = r.sin_cos(); (c * x - s * y + d.0, s * x + c * y + d.1) };
        f(f((p.0 as f64, p.1 as f64), base as f64, (7.0, -3.0)), second as f64, (x as f64, y as f64))
    };
    let same = |s: &jagua_rs::geometry::primitives::simple_polygon::SimplePolygon, w: &[P]| s.points.len() == w.len() && s.points.iter().zip(w).all(|(a, b)| { let q = move2(b); (a.0 as f64 - q.0).abs() < 1e-3 && (a.1 as f64 - q.1).abs() < 1e-3 });
    // the recorded motion takes the outline as given to the outline in use
    let rec = |t: &Transformation, w: &[P]| w.iter().all(|b| { let a = pt(b.0, b.1).transform_clone(t); let q = move2(b); (a.0 as f64 - q.0).abs() < 1e-3 && (a.1 as f64 - q.1).abs() < 1e-3 });
    if choose(2) == 0 {
        let it = Item::new(3, spoly(&sh), AllowedRotation::Discrete(vec![0.25]), Some(2), 5, Transformation::empty(), rs);
        let it = pretransform_item(&pretransform_item(&it, &t1), &t2);
        vassert(it.id == 3 && it.base_quality == Some(2) && it.value == 5 && matches!(&it.allowed_rotation, AllowedRotation::Discrete(v) if *v == [0.25]), 1);
        vassert(same(&it.shape, &sh) && rec(&it.pretransform, &sh), 2);
        vreach(1)
    } else {
        let c = cfg(1, 0);
        let b = Bin::new(4, spoly(&sh), 11, Transformation::empty(), vec![spoly(&hole)], vec![InferiorQualityZone::new(6, vec![spoly(&zone)])], c);
        let b = pretransform_bin(&pretransform_bin(&b, &t1), &t2);
        vassert(b.id == 4 && b.value == 11 && b.base_cde.config() == c && b.holes.len() == 1 && b.quality_zones.iter().flatten().count() == 1, 3);
        vassert(same(&b.outer, &sh) && rec(&b.pretransform, &sh) && same(&b.holes[0], &hole), 4);
        vassert(b.quality_zones[6].as_ref().map_or(false, |z| z.quality == 6 && z.zones.len() == 1 && same(&z.zones[0], &zone)), 5);
        vreach(2)
    }
    done()
}
/// a ring is closed by repeating its first vertex; anything else is a vertex
#[no_mangle]
#[inline(never)]
pub fn imp_ring() {
    let rev = flip();
    // the last vertex anywhere near the first one
    let (x, y) = (choose(5) - 2, choose(5) - 2);
    let mut o = vec![(0, 0), (40, 4), (44, 30), (2, 28), (x, y)];
    let same = x == 0 && y == 0;
    vassume(same || simple(&o));
    if rev { o.reverse(); }
    let want: Vec<P> = if same { vec![(0, 0), (40, 4), (44, 30), (2, 28)] } else { o.clone() };
    let kind = choose(3);
    let ji = JsonInstance {
        name: String::new(),
        items: vec![jitem(if kind == 0 { JsonShape::SimplePolygon(js(&o)) } else { JsonShape::Rectangle { width: 5.0, height: 5.0 } })],
        bins: Some(vec![if kind == 1 { jbin(JsonShape::SimplePolygon(js(&o))) } else { jbin(JsonShape::Polygon(JsonPoly { outer: js(&shifted(&square(200), -20, -20)), inner: if kind == 2 { vec![js(&o)] } else { vec![] } })) }]),
        strip: None,
    };
    let inst = Parser::new(PolySimplConfig::Disabled, cfg(1, 0), false).parse(&ji);
    let b = &bp(&inst).bins[0].0;
    let s: &SimplePolygon = match kind { 0 => &inst.item(0).shape, 1 => &b.outer, _ => &b.holes[0] };
    vassert(same_ring(s, &want, (0.0, 0.0), 0.0), 1);
    if same { vreach(1) } else { vreach(2) }
    done()
}
/// bins: outline, holes, zones, stock, cost
#[no_mangle]
#[inline(never)]
pub fn imp_bin() {
    let center = flip();
    let k = choose(4);
    let (q1, q2) = (choose(10) as usize, choose(4) as usize * 3);
    let outer: Vec<P> = shifted(&square(120), 0, 0);
    let poly = vec![(-10, 0), (140, 5), (130, 120), (60, 140), (0, 110)];
    let (h1, h2) = (shifted(&tri(), 40, 40), shifted(&square(9), 80, 20));
    let (z1, z2, z3) = (shifted(&ell(), 20, 60), shifted(&square(7), 100, 80), shifted(&diamond(5), 70, 90));
    let (shape, out, holes): (JsonShape, &Vec<P>, Vec<&Vec<P>>) = match k {
        0 => (JsonShape::Rectangle { width: 120.0, height: 120.0 }, &outer, vec![]),
        1 => (JsonShape::SimplePolygon(js(&poly)), &poly, vec![]),
        2 => (JsonShape::Polygon(JsonPoly { outer: js(&poly), inner: vec![js(&h1), js(&h2)] }), &poly, vec![&h1, &h2]),
        _ => (JsonShape::Polygon(JsonPoly { outer: js(&outer), inner: vec![] }), &outer, vec![]),
    };
    let (cost, stock) = (sym(0, 1_000_000), sym(0, 5000));
    let b = JsonBin { cost: cost as u64, stock: if k % 2 == 0 { Some(stock as u64) } else { None }, shape, zones: vec![
        JsonQualityZone { quality: q1, shape: JsonShape::SimplePolygon(js(&z1)) },
        JsonQualityZone { quality: q2, shape: JsonShape::SimplePolygon(js(&z2)) },
        JsonQualityZone { quality: q1, shape: JsonShape::SimplePolygon(js(&z3)) }] };
    let ji = JsonInstance { name: "x".into(), items: vec![jitem(JsonShape::Rectangle { width: 8.0, height: 6.0 })], bins: Some(vec![jbin(JsonShape::Rectangle { width: 50.0, height: 40.0 }), b]), strip: None };
    let c = cfg(2, 0);
    let inst = Parser::new(PolySimplConfig::Disabled, c, center).parse(&ji);
    let bi = bp(&inst);
    vassert(bi.bins.len() == 2 && bi.bins[0].0.id == 0 && bi.bins[1].0.id == 1 && bi.bins[0].1 == 1, 1);
    let (x, st) = (&bi.bins[1].0, bi.bins[1].1);
    vassert(if k % 2 == 0 { st == stock as usize } else { st as u64 == u64::MAX }, 2);
    vassert(x.value == cost as u64, 3);
    let eps = if center { 2e-3 } else { 0.0 };
    let d = pre_ok(&x.pretransform, out, center);
    vassert(same_ring(&x.outer, out, d, eps), 4);
    vassert(x.holes.len() == holes.len(), 5);
    for (h, w) in x.holes.iter().zip(&holes) { vassert(same_ring(h, w, d, eps), 6); }
    for q in 0..10 {
        let mut want: Vec<&Vec<P>> = vec![];
        if q == q1 { want.push(&z1); }
        if q == q2 { want.push(&z2); }
        if q == q1 { want.push(&z3); }
        let got = x.quality_zones[q].as_ref().map_or(0, |z| z.zones.len());
        vassert(got == want.len(), 7);
        if let Some(z) = &x.quality_zones[q] {
            vassert(z.quality == q, 8);
            for w in want { vassert(z.zones.iter().filter(|s| same_ring(s, w, d, eps)).count() == 1, 9); }
        }
    }
    vassert(near(x.area as f64, (area2(out).abs() - holes.iter().map(|h| area2(h).abs()).sum::<i64>()) as f64 / 2.0), 10);
    if center { vreach(1) } else { vreach(2) }
    done()
}
/// end to end: what an imported item may overlap in an imported bin
#[no_mangle]
#[inline(never)]
pub fn imp_zone() {
    let (zq, zq2) = (choose(10) as usize, 5);
    let iq = choose(11) as usize;
    let center = flip();
    // outline with an integer centroid, so that centring is exact
    let sc = Scene { bin: rect(128, 64), holes: vec![shifted(&diamond(6), 100, 40)], zones: vec![(zq, vec![shifted(&square(20), 30, 20)]), (zq2, vec![shifted(&tri(), 64, 8)])], items: vec![] };
    let mut b = jbin(JsonShape::Polygon(JsonPoly { outer: js(&sc.bin), inner: sc.holes.iter().map(|h| js(h)).collect() }));
    b.zones = sc.zones.iter().map(|(q, z)| JsonQualityZone { quality: *q, shape: JsonShape::SimplePolygon(js(&z[0])) }).collect();
    let mut it = jitem(JsonShape::SimplePolygon(js(&shifted(&diamond(4), 5, 5))));
    it.base_quality = if iq == 10 { None } else { Some(iq) };
    let ji = JsonInstance { name: "x".into(), items: vec![it], bins: Some(vec![b]), strip: None };
    let inst = Parser::new(PolySimplConfig::Disabled, cfg(2, 0), center).parse(&ji);
    let l = Layout::new(0, bp(&inst).bins[0].0.clone());
    let item = inst.item(0);
    let ign = match &item.hazard_filter { None => vec![], Some(f) => hazard_filter::generate_irrelevant_hazards(f, l.cde().all_hazards()) };
    let (x, y) = (sym(-10, 130), 28);
    // absolute position of the centre of the diamond is (x + 5, y + 5); the internal one is relative to the centred bin
    let (ix, iy) = if center { (x + 5 - 64, y + 5 - 32) } else { (x, y) };
    let r = l.cde().poly_collides(&item.shape.transform_clone(&tr(ix, iy)), &ign);
    vobs(r as i64);
    vassert(r == must_collide(&sc, &shifted(&diamond(4), 5, 5), (x, y), iq), 1);
    if r { vreach(1) } else { vreach(2) }
    done()
}
/// from the text: names, types and defaults of the fields, with symbolic digits
#[no_mangle]
#[inline(never)]
pub fn imp_text() {
    let v = choose(3);
    let text: &[u8] = match v {
        0 => br#"{"Name":"a","Items":[{"Demand":@1,"AllowedOrientations":[0.0,90.0],"Shape":{"Type":"SimplePolygon","Data":[[0,0],[30,0],[1#,20],[0,0]]},"Value":5%,"BaseQuality":3}],"Objects":[{"Cost":6$,"Stock":%7,"Shape":{"Type":"Polygon","Data":{"Outer":[[0,0],[90,0],[90,8#],[0,80]],"Inner":[[[10,10],[20,10],[20,30]]]}},"Zones":[{"Quality":@,"Shape":{"Type":"SimplePolygon","Data":[[40,40],[50,40],[50,50]]}}]}]}"#,
        1 => br#"{"Name":"a","Items":[{"Demand":@1,"Shape":{"Type":"Rectangle","Data":{"Width":2#,"Height":12}}}],"Strip":{"Height":7$}}"#,
        _ => br#"{"Name":"a","Items":[{"Demand":@1,"AllowedOrientations":[],"Shape":{"Type":"SimplePolygon","Data":[[0,0],[30,0],[1#,20]]},"Value":null}],"Objects":[{"Cost":6$,"Stock":null,"Shape":{"Type":"Rectangle","Data":{"Width":90,"Height":8#}}}]}"#,
    };
    let (d, h) = (sym(1, 9), sym(0, 4) * 2);
    let (p, c) = (10 - d, 9 - h);
    let t: Vec<u8> = text.iter().map(|b| match b { b'@' => b'0' + d as u8, b'#' => b'0' + h as u8, b'%' => b'0' + p as u8, b'$' => b'0' + c as u8, x => *x }).collect();
    let ji: JsonInstance = serde_json::from_slice(&t).unwrap();
    let inst = Parser::new(PolySimplConfig::Disabled, cfg(1, 0), false).parse(&ji);
    vassert(inst.item_qty(0) == (10 * d + 1) as usize, 1);
    let it = inst.item(0);
    match v {
        0 => {
            vassert(it.value == (50 + p) as u64 && it.base_quality == Some(3), 2);
            vassert(matches!(&it.allowed_rotation, AllowedRotation::Discrete(r) if r.len() == 2 && r[0] == 0.0 && (r[1] as f64 - std::f64::consts::FRAC_PI_2).abs() < 1e-5), 3);
            vassert(same_ring(&it.shape, &[(0, 0), (30, 0), (10 + h, 20)], (0.0, 0.0), 0.0), 4);
            let (b, s) = (&bp(&inst).bins[0].0, bp(&inst).bins[0].1);
            vassert(s == (10 * p + 7) as usize && b.value == (60 + c) as u64, 5);
            vassert(same_ring(&b.outer, &[(0, 0), (90, 0), (90, 80 + h), (0, 80)], (0.0, 0.0), 0.0), 6);
            vassert(b.holes.len() == 1 && same_ring(&b.holes[0], &[(10, 10), (20, 10), (20, 30)], (0.0, 0.0), 0.0), 7);
            let z: usize = b.quality_zones.iter().flatten().map(|z| z.zones.len() * if z.zones.is_empty() { 0 } else { 1 + 10 * z.quality }).sum();
            vassert(z == (1 + 10 * d) as usize, 8);
        }
        1 => {
            vassert(it.value == 0 && it.base_quality.is_none() && matches!(it.allowed_rotation, AllowedRotation::Continuous), 9);
            vassert(same_ring(&it.shape, &rect(20 + h, 12), (0.0, 0.0), 0.0), 10);
            vassert(match &inst { Instance::SP(s) => s.strip_height == (70 + c) as fsize, _ => false }, 11);
        }
        _ => {
            vassert(it.value == 0 && matches!(it.allowed_rotation, AllowedRotation::None), 12);
            let (b, s) = (&bp(&inst).bins[0].0, bp(&inst).bins[0].1);
            vassert(s as u64 == u64::MAX && b.value == (60 + c) as u64 && b.holes.is_empty() && b.quality_zones.iter().flatten().all(|z| z.zones.is_empty()), 13);
            vassert(same_ring(&b.outer, &rect(90, 80 + h), (0.0, 0.0), 0.0), 14);
        }
    }
    vreach(1);
    done()
}

// ---------------- C22 ----------------
const ROTS: [f64; 6] = [0.0, 1.5707964, 3.1415927, -0.75, 2.5, 5.5];
fn applied(t: &JsonTransformation, p: P) -> (f64, f64) {
    let (s, c) = (t.rotation as f64).sin_cos();
    (c * p.0 as f64 - s * p.1 as f64 + t.translation.0 as f64, s * p.0 as f64 + c * p.1 as f64 + t.translation.1 as f64)
}
/// the exported motion of the outline in the file gives the placed shape, shifted by the bin's own offset
fn exported(ji: &[P], placed: &SimplePolygon, bin: (f64, f64), t: &JsonTransformation) -> bool {
    let n = ji.len();
    let ccw = area2(ji) > 0;
    let o: Vec<P> = if ccw { ji.to_vec() } else { ji.iter().rev().cloned().collect() };
    placed.points.len() == n && (0..n).any(|st| (0..n).all(|i| {
        let q = applied(t, o[(st + i) % n]);
        (placed.points[i].0 as f64 - bin.0 - q.0).abs() < 5e-3 && (placed.points[i].1 as f64 - bin.1 - q.1).abs() < 5e-3
    }))
}
fn same_sol(a: &Solution, b: &Solution, dx: f64) {
    vassert(a.layout_snapshots.len() == b.layout_snapshots.len(), 30);
    for (l, m) in a.layout_snapshots.iter().zip(&b.layout_snapshots) {
        vassert(l.bin.id == m.bin.id && l.placed_items.len() == m.placed_items.len(), 31);
        for p in l.placed_items.values() {
            let n = m.placed_items.values().filter(|q| q.item_id == p.item_id && p.shape.points.iter().zip(&q.shape.points).all(|(u, v)| (u.0 as f64 - v.0 as f64 - dx).abs() < 1e-2 && (u.1 as f64 - v.1 as f64).abs() < 1e-2)).count();
            vassert(n == 1, 32);
        }
        vassert(near(l.usage as f64, m.usage as f64), 33);
    }
    vassert(a.placed_item_qtys == b.placed_item_qtys && a.target_item_qtys == b.target_item_qtys && a.bin_qtys == b.bin_qtys, 34);
}
#[no_mangle]
#[inline(never)]
pub fn exp_bp() {
    let center = flip();
    let off = choose(3);
    let r0 = choose(6) as usize;
    let shapes: Vec<Vec<P>> = vec![shifted(&square(20), [0, 35, -7][off as usize], [0, -9, 4][off as usize]), shifted(&tri(), 11 * off, 3), { let mut e = ell(); e.reverse(); e }];
    let bins: Vec<Vec<P>> = vec![shifted(&square(200), -30 * off, 15 * off), vec![(0, 0), (220, 10), (200, 190), (100, 230), (-20, 160)]];
    let ji = JsonInstance {
        name: "x".into(),
        items: shapes.iter().map(|s| { let mut i = jitem(JsonShape::SimplePolygon(js(s))); i.demand = 4; i }).collect(),
        bins: Some(bins.iter().map(|b| { let mut j = jbin(JsonShape::SimplePolygon(js(b))); j.stock = Some(2); j }).collect()),
        strip: None,
    };
    let c = cfg(1, 0);
    let inst = Parser::new(PolySimplConfig::Disabled, c, center).parse(&ji);
    let mut p = BPProblem::new(bp(&inst).clone());
    // internal coordinates: around the centre of the bin if centred
    let base = |b: usize| -> (f64, f64) { if center { (0.0, 0.0) } else { fcentroid(&bins[b]) } };
    let mut put = |l: LayoutIndex, b: usize, i: usize, x: f64, y: f64, r: usize| {
        let o = base(b);
        // items that are not centred turn around the origin of the file: bring them near the middle of the bin first
        let (s, cc) = ROTS[r].sin_cos();
        let ic = if center { (0.0, 0.0) } else { fcentroid(&shapes[i]) };
        let (tx, ty) = (o.0 + x - (cc * ic.0 - s * ic.1), o.1 + y - (s * ic.0 + cc * ic.1));
        p.place_item(PlacingOption { layout_idx: l, item_id: i, d_transf: DTransformation::new(ROTS[r] as fsize, (tx as fsize, ty as fsize)) }).0
    };
    let x = sym(-20, 20) as f64;
    let l1 = put(LayoutIndex::Template(1), 1, 0, x, 5.0, r0);
    put(l1, 1, 1, 50.0, -40.25, (r0 + 3) % 6);
    let l0 = put(LayoutIndex::Template(0), 0, 2, 3.5, 2.0 * x, (r0 + 1) % 6);
    put(l0, 0, 0, -60.0, 40.0, 0);
    put(l0, 0, 1, 50.0, -60.5, r0);
    put(l0, 0, 0, -55.0, -50.0, (r0 + 2) % 6);
    put(l0, 0, 2, 60.0, 52.0, (r0 + 4) % 6);
    let l2 = put(LayoutIndex::Template(1), 1, 2, 0.0, 0.0, 2);
    let sol = p.create_solution(None);
    let out = parser::compose_json_solution(&sol, &inst, sol.time_stamp);
    vassert(out.layouts.len() == 3, 1);
    let _ = l2;
    for (jl, ls) in out.layouts.iter().zip(&sol.layout_snapshots) {
        let b = match jl.container { JsonContainer::Bin { index } => index, _ => 99 };
        vassert(b == ls.bin.id && b < 2, 2);
        let shift: (f64, f64) = if center { let c = fcentroid(&bins[b]); (-c.0, -c.1) } else { (0.0, 0.0) };
        vassert(jl.placed_items.len() == ls.placed_items.len(), 3);
        vassert(jl.statistics.usage == ls.usage, 4);
        for (jp, pi) in jl.placed_items.iter().zip(ls.placed_items.values()) {
            vassert(jp.index == pi.item_id, 5);
            vassert(exported(&shapes[jp.index], &pi.shape, shift, &jp.transformation), 6);
        }
    }
    vassert(out.usage == sol.usage, 7);
    let back = parser::build_solution_from_json(&inst, &out.layouts, c);
    same_sol(&sol, &back, 0.0);
    if center { vreach(1) } else { vreach(2) }
    done()
}
#[no_mangle]
#[inline(never)]
pub fn exp_sp() {
    let center = flip();
    let off = choose(3);
    let ch = choose(5);
    let r0 = choose(3) as usize;
    let shapes: Vec<Vec<P>> = vec![shifted(&square(20), [0, 35, -7][off as usize], [0, -9, 4][off as usize]), shifted(&tri(), 11 * off, 3)];
    let ji = JsonInstance { name: "x".into(), items: shapes.iter().map(|s| { let mut i = jitem(JsonShape::SimplePolygon(js(s))); i.demand = 4; i }).collect(), bins: None, strip: Some(JsonStrip { height: 100.0 }) };
    let c = cfg(1, 0);
    let inst = Parser::new(PolySimplConfig::Disabled, c, center).parse(&ji);
    let si = match &inst { Instance::SP(s) => s.clone(), _ => unreachable!() };
    let mut p = SPProblem::new(si, 260.0, c);
    let mut put = |p: &mut SPProblem, i: usize, x: f64, y: f64, r: usize| {
        let (s, cc) = ROTS[r].sin_cos();
        let ic = if center { (0.0, 0.0) } else { fcentroid(&shapes[i]) };
        let (tx, ty) = (x - (cc * ic.0 - s * ic.1), y - (s * ic.0 + cc * ic.1));
        p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: i, d_transf: DTransformation::new(ROTS[r] as fsize, (tx as fsize, ty as fsize)) });
    };
    let x = (sym(-3, 3) * 3) as f64;
    put(&mut p, 0, 130.0 + x, 40.0, r0);
    put(&mut p, 1, 160.0, 70.5, (r0 + 3) % 6);
    put(&mut p, 0, 100.0, 25.0 + x, 4);
    match ch { 0 => {} 1 => p.fit_strip(), 2 => p.modify_strip_at_front(200.0), 3 => p.modify_strip_centered(333.0), _ => p.modify_strip_in_back(211.5) }
    put(&mut p, 1, 130.0, 15.0, 0);
    let sol = p.create_solution(None);
    let out = parser::compose_json_solution(&sol, &inst, sol.time_stamp);
    vassert(out.layouts.len() == 1 && sol.layout_snapshots[0].placed_items.len() == 4, 1);
    let (jl, ls) = (&out.layouts[0], &sol.layout_snapshots[0]);
    let bb = ls.bin.outer.bbox();
    let (w, h) = match jl.container { JsonContainer::Strip { width, height } => (width, height), _ => (0.0, 0.0) };
    vassert(h == 100.0 && near(w as f64, (bb.x_max - bb.x_min) as f64), 2);
    for (jp, pi) in jl.placed_items.iter().zip(ls.placed_items.values()) {
        vassert(jp.index == pi.item_id && exported(&shapes[jp.index], &pi.shape, (bb.x_min as f64, bb.y_min as f64), &jp.transformation), 3);
    }
    let back = parser::build_solution_from_json(&inst, &out.layouts, c);
    same_sol(&sol, &back, bb.x_min as f64);
    let nb = back.layout_snapshots[0].bin.outer.bbox();
    vassert(nb.x_min == 0.0 && near(nb.x_max as f64, w as f64) && nb.y_min == 0.0 && nb.y_max == 100.0, 4);
    if ch == 0 { vreach(1) } else { vreach(2) }
    done()
}
/// the two conversions are inverse to each other and mean: item offset, then placement, then the bin offset undone
#[no_mangle]
#[inline(never)]
pub fn exp_abs() {
    let (a, b) = ((sym(-400, 400), sym(-400, 400)), (sym(-400, 400), sym(-400, 400)));
    let (x, y) = (sym(-400, 400), sym(-400, 400));
    let (ip, bpre) = (tr(a.0, a.1), tr(b.0, b.1));
    let d = dt(x, y);
    let abs = parser::internal_to_absolute_transform(&d, &ip, &bpre);
    let p = pt(0, 0).transform_clone(&abs);
    vassert((p.0 == (a.0 + x - b.0) as fsize) & (p.1 == (a.1 + y - b.1) as fsize), 1);
    let back = parser::absolute_to_internal_transform(&DTransformation::new(0.0, (p.0.into(), p.1.into())), &ip, &bpre);
    let q = pt(0, 0).transform_clone(&back);
    vassert((q.0 == x as fsize) & (q.1 == y as fsize), 2);
    vreach(1);
    done()
}
