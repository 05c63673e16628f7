//! Scenes: a bin with holes, quality zones and placed items, described with integer vertices.
use crate::intr::*;
use crate::ora::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::*;

/// a symbolic choice out of n, made concrete by branching
pub fn choose(n: i64) -> i64 {
    let c = sym(0, n - 1);
    for i in 0..n - 1 { if c == i { return i; } }
    n - 1
}
/// first input of a tiered harness: 0 = quick table, 1 = thorough table
pub fn tier() -> bool { choose(2) == 1 }
pub fn flip() -> bool { choose(2) == 1 }

pub struct Scene {
    pub bin: Vec<P>,
    pub holes: Vec<Vec<P>>,
    pub zones: Vec<(usize, Vec<Vec<P>>)>,
    pub items: Vec<(Vec<P>, P)>,
}
pub fn cfg(depth: u8, hpg: usize) -> CDEConfig { CDEConfig { quadtree_depth: depth, hpg_n_cells: hpg, item_surrogate_config: SPSurrogateConfig::none() } }
pub fn scfg(poles: usize, ffp: usize, piers: usize) -> SPSurrogateConfig { SPSurrogateConfig { pole_coverage_goal: 0.9, max_poles: poles, n_ff_poles: ffp, n_ff_piers: piers } }
pub fn mk_item(id: usize, shape: &[P], bq: Option<usize>, s: SPSurrogateConfig) -> Item {
    Item::new(id, spoly(shape), AllowedRotation::None, bq, 1, Transformation::empty(), s)
}
pub fn mk_bin(s: &Scene, c: CDEConfig) -> Bin {
    Bin::new(0, spoly(&s.bin), 1, Transformation::empty(), s.holes.iter().map(|h| spoly(h)).collect(),
        s.zones.iter().map(|(q, z)| InferiorQualityZone::new(*q, z.iter().map(|p| spoly(p)).collect())).collect(), c)
}
pub fn dt(x: i64, y: i64) -> DTransformation { DTransformation::new(0.0, (len(x), len(y))) }
pub fn tr(x: i64, y: i64) -> Transformation { Transformation::from_translation((len(x), len(y))) }
pub fn mk_layout(s: &Scene, c: CDEConfig) -> Layout {
    let mut l = Layout::new(0, mk_bin(s, c));
    for (i, (sh, o)) in s.items.iter().enumerate() { l.place_item(&mk_item(i, sh, None, SPSurrogateConfig::none()), dt(o.0, o.1)); }
    l
}
/// the specification: does the shape at offset o leave the bin, or meet a hole / zone below `q` / placed item?
pub fn must_collide(s: &Scene, it: &[P], o: P, q: usize) -> bool {
    let z = (0, 0);
    let mut r = leaves(it, o, &s.bin, z);
    for h in &s.holes { r |= regions_meet(it, o, h, z); }
    for (k, zs) in &s.zones { if *k < q { for h in zs { r |= regions_meet(it, o, h, z); } } }
    for (sh, io) in &s.items { r |= regions_meet(it, o, sh, *io); }
    r
}

// ---- shape gallery (all with integer vertices) ----
pub fn tri() -> Vec<P> { vec![(0, 0), (24, 4), (8, 20)] }
pub fn ell() -> Vec<P> { vec![(0, 0), (40, 0), (40, 12), (12, 12), (12, 40), (0, 40)] }
pub fn uu() -> Vec<P> { vec![(0, 0), (64, 0), (64, 64), (48, 64), (48, 16), (16, 16), (16, 64), (0, 64)] }
pub fn diamond(r: i64) -> Vec<P> { vec![(0, -r), (r, 0), (0, r), (-r, 0)] }
pub fn sliver() -> Vec<P> { vec![(0, 0), (60, 34), (61, 36), (1, 3)] }
pub fn star() -> Vec<P> { vec![(0, -32), (8, -10), (30, -24), (14, -4), (34, 6), (12, 8), (18, 32), (0, 14), (-18, 32), (-12, 8), (-34, 6), (-14, -4), (-30, -24), (-8, -10)] }
pub fn gon12() -> Vec<P> { vec![(16, 0), (32, 0), (44, 8), (52, 20), (52, 36), (44, 48), (32, 56), (16, 56), (4, 48), (-4, 36), (-4, 20), (4, 8)] }
pub fn comb() -> Vec<P> { vec![(0, 0), (56, 0), (56, 40), (48, 40), (48, 8), (40, 8), (40, 32), (32, 32), (32, 8), (24, 8), (24, 40), (16, 40), (16, 8), (8, 8), (8, 36), (0, 36)] }
pub fn item_shape(k: i64) -> Vec<P> {
    match k { 0 => square(16), 1 => tri(), 2 => ell(), 3 => uu(), 4 => sliver(), 5 => diamond(6), 6 => shifted(&star(), 34, 32), 7 => shifted(&gon12(), 4, 0), _ => comb() }
}
pub fn scene(k: i64) -> Scene {
    let none = || vec![];
    match k {
        // empty square bin
        0 => Scene { bin: square(256), holes: vec![], zones: vec![], items: none() },
        // wide bin, one star-shaped hole (14 edges) straddling many nodes, one far triangle hole
        1 => Scene { bin: rect(256, 144), holes: vec![shifted(&star(), 96, 72), shifted(&tri(), 200, 100)], zones: vec![], items: none() },
        // tall bin, placed items with many edges and concavities
        2 => Scene { bin: rect(160, 256), holes: vec![], zones: vec![], items: vec![(comb(), (16, 24)), (uu(), (60, 120)), (gon12(), (84, 40))] },
        // concave bin
        3 => Scene { bin: vec![(0, 0), (256, 0), (256, 256), (160, 256), (160, 96), (96, 96), (96, 200), (0, 200)], holes: vec![shifted(&diamond(20), 40, 60)], zones: vec![], items: vec![(square(32), (200, 150))] },
        // diamond-like bin, with everything
        4 => Scene { bin: vec![(128, 0), (240, 60), (256, 150), (140, 256), (20, 220), (0, 90)], holes: vec![shifted(&tri(), 60, 90)], zones: vec![], items: vec![(ell(), (120, 60)), (diamond(12), (130, 170)), (tri(), (180, 120))] },
        // bin with many edges (>= 10 relevant edges in the exterior hazard) and an offset origin
        5 => Scene { bin: shifted(&scaled(&gon12(), 4), -40, 16), holes: vec![], zones: vec![], items: vec![(star(), (60, 120)), (square(40), (20, 40))] },
        // hazards nested in each other's concavities
        6 => Scene { bin: square(200), holes: vec![shifted(&uu(), 60, 60)], zones: vec![], items: vec![(square(20), (82, 90)), (tri(), (10, 150)), (sliver(), (120, 10))] },
        // overlapping hazards: a hole under a zone under items
        8 => Scene { bin: square(128), holes: vec![vec![(32, 32), (96, 40), (90, 100), (30, 90)]], zones: vec![(1, vec![vec![(40, 36), (120, 30), (110, 110), (44, 80)], shifted(&square(20), 8, 8)])], items: vec![(square(48), (20, 50)), (gon12(), (50, 44)), (tri(), (60, 60))] },
        // solid hazards small enough to lie in a notch of the query
        9 => Scene { bin: square(128), holes: vec![shifted(&square(24), 24, 72)], zones: vec![], items: vec![(square(24), (72, 24)), (vec![(0, 0), (28, 0), (28, 30), (2, 30)], (70, 74))] },
        // tiny hazards in a large bin
        _ => Scene { bin: rect(240, 200), holes: vec![shifted(&diamond(2), 120, 100), shifted(&square(3), 30, 30)], zones: vec![], items: vec![(diamond(1), (200, 60))] },
    }
}
pub fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 2e-4 * (1.0 + a.abs().max(b.abs())) }
pub fn outline(k: i64) -> Vec<P> {
    match k { 0 => square(20), 1 => tri(), 2 => ell(), 3 => uu(), 4 => sliver(), 5 => star(), 6 => gon12(), 7 => comb(), 8 => vec![(0, 0), (0, 30), (-1, 30), (-30, 12), (-30, 3)], _ => vec![(5, 5), (5, 9), (5, 40), (-20, 40), (-20, 0), (0, 0), (0, 5)] }
}
/// shapes with one free vertex coordinate
pub fn flex(k: i64, t: i64) -> Vec<P> {
    match k {
        0 => vec![(0, 0), (40, 0), (t * 4, 30)],
        1 => vec![(0, 0), (48, 0), (48, 40), (24, 40 - t * 3), (0, 40)],
        2 => vec![(0, 0), (60, 0), (60, 10 + t), (12, 10 + t), (12, 44), (0, 44)],
        3 => { let mut s = star(); s[4].0 += t; s[6].1 += 2 * t; s }
        4 => vec![(0, 0), (90, 0), (90, 6), (4, 6), (4, 60 + t), (0, 60 + t)],
        _ => { let mut s = comb(); for p in s.iter_mut() { if p.1 > 20 { p.1 += t * 2; } } s }
    }
}
