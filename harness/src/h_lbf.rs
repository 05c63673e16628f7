//! C23 (search), C24 (samplers): the random number generator is symbolic
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::collision_detection::hazard_filter;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric};
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::CDEConfig;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_cost::LBFPlacingCost;
use lbf::lbf_optimizer::{find_lbf_placement, sample_layout, LBFOptimizer};
use lbf::samplers::hpg_sampler::HPGSampler;
use lbf::samplers::ls_sampler::LSSampler;
use lbf::samplers::rotation_distr::{NormalRotDistr, UniformRotDistr};
use lbf::samplers::uniform_rect_sampler::UniformAARectSampler;
use rand::rngs::SmallRng;
use rand::{RngCore, SeedableRng};

pub static LIST: &[(&str, fn())] = &[("smp_uni", smp_uni), ("smp_rot", smp_rot), ("smp_ls", smp_ls), ("smp_hpg", smp_hpg), ("smp_tight", smp_tight), ("lbf_cost", lbf_cost), ("lbf_sample", lbf_sample), ("lbf_best", lbf_best), ("lbf_ls", lbf_ls), ("lbf_ls2", lbf_ls2), ("lbf_find", lbf_find), ("lbf_solve", lbf_solve), ("det_solve", det_solve), ("det_sample", det_sample)];

/// every draw is a fresh symbolic multiple of 1/base of the range, the extremes 0 and all ones included; after `n` draws a fixed sequence
#[derive(Clone)]
pub struct SymRng { base: u64, n: usize, log: Vec<u64>, pos: usize }
impl SymRng {
    pub fn new(base: u64, n: usize) -> Self { SymRng { base, n, log: vec![], pos: 0 } }
    /// the same numbers once more
    fn again(&self) -> Self { SymRng { pos: 0, ..self.clone() } }
    fn draw(&mut self) -> u64 {
        if self.pos < self.log.len() { self.pos += 1; return self.log[self.pos - 1]; }
        let v = if self.log.len() < self.n { choose(self.base as i64) as u64 * (u64::MAX / (self.base - 1)) } else { (self.log.len() as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29).wrapping_mul(0xbf58_476d_1ce4_e5b9) };
        self.log.push(v);
        self.pos += 1;
        v
    }
}
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 { (self.draw() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.draw() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.draw() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
/// the given numbers (16 bits each, at the top), then a fixed sequence
struct Lin(Vec<i64>, usize);
impl Lin {
    fn draw(&mut self) -> u64 {
        self.1 += 1;
        if self.1 <= self.0.len() { (self.0[self.1 - 1] as u64) << 48 } else { (self.1 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29).wrapping_mul(0xbf58_476d_1ce4_e5b9) }
    }
}
impl RngCore for Lin {
    fn next_u32(&mut self) -> u32 { (self.draw() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.draw() }
    fn fill_bytes(&mut self, _: &mut [u8]) { unreachable!() }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> { unreachable!() }
}
fn rots(k: i64) -> AllowedRotation {
    match k { 0 => AllowedRotation::None, 1 => AllowedRotation::Continuous, 2 => AllowedRotation::Discrete(vec![0.0, 1.5707964, 3.1415927]), _ => AllowedRotation::Discrete(vec![0.7, -1.25]) }
}
fn allowed(a: &AllowedRotation, r: fsize, wide: bool) -> bool {
    match a {
        AllowedRotation::None => r == 0.0,
        AllowedRotation::Continuous => wide || (r >= 0.0 && r <= 6.2831856),
        AllowedRotation::Discrete(v) => v.iter().any(|x| *x == r),
    }
}
/// rotations read back from a composed motion
fn allowed_mod(a: &AllowedRotation, r: fsize) -> bool {
    let same = |x: f64, y: f64| { let d = (x - y).rem_euclid(std::f64::consts::TAU); d < 1e-3 || d > std::f64::consts::TAU - 1e-3 };
    match a { AllowedRotation::None => same(r as f64, 0.0), AllowedRotation::Continuous => true, AllowedRotation::Discrete(v) => v.iter().any(|x| same(*x as f64, r as f64)) }
}
fn item(id: usize, s: &[P], a: AllowedRotation, bq: Option<usize>) -> Item { Item::new(id, spoly(s), a, bq, 1, Transformation::empty(), scfg(2, 1, 0)) }

/// the uniform sampler covers its rectangle and does not leave it
#[no_mangle]
#[inline(never)]
pub fn smp_uni() {
    let k = choose(4);
    let it = item(0, &square(8), rots(k), None);
    let b = [(0, 0, 32, 16), (0, -64, 128, 0), (-16, -8, 0, 8), (0, 0, 64, 64)][choose(4) as usize];
    let s = UniformAARectSampler::new(AARectangle::new(b.0 as fsize, b.1 as fsize, b.2 as fsize, b.3 as fsize), &it);
    // no part of the rectangle is out of reach
    let mut g = SymRng::new(2, 0);
    let (mut lx, mut hx, mut ly, mut hy) = (1f64, 0f64, 1f64, 0f64);
    for _ in 0..256 {
        let (x, y) = s.sample(&mut g).translation();
        let (u, v) = ((x as f64 - b.0 as f64) / (b.2 - b.0) as f64, (y as f64 - b.1 as f64) / (b.3 - b.1) as f64);
        lx = lx.min(u); hx = hx.max(u); ly = ly.min(v); hy = hy.max(v);
    }
    vassert(lx < 0.06 && hx > 0.94 && ly < 0.06 && hy > 0.94, 3);
    let mut rng = Lin(vec![sym(0, 65535), sym(0, 65535), sym(0, 65535)], 0);
    if k == 1 { rng.0[0] = choose(9) * 8191; }
    if k >= 2 { rng.0[0] = choose(6) * 13107; }
    let d = s.sample(&mut rng);
    let (x, y) = d.translation();
    vassert((x >= b.0 as fsize) & (x <= b.2 as fsize) & (y >= b.1 as fsize) & (y <= b.3 as fsize), 1);
    vassert(allowed(&it.allowed_rotation, d.rotation(), false), 2);
    vreach(1);
    done()
}
/// rotations of every distribution are allowed ones, and all allowed ones occur
#[no_mangle]
#[inline(never)]
pub fn smp_rot() {
    let k = choose(4);
    let it = item(0, &square(8), rots(k), None);
    let u = UniformRotDistr::from_item(&it);
    let mut rng = SymRng::new(16, 3);
    let r = u.sample(&mut rng);
    vassert(allowed(&it.allowed_rotation, r, false), 1);
    // every member of a discrete set is drawn for some number
    if let AllowedRotation::Discrete(v) = &it.allowed_rotation {
        let mut seen = vec![false; v.len()];
        let mut g = SymRng::new(2, 0);
        for _ in 0..64 { let r = u.sample(&mut g); for (s, x) in seen.iter_mut().zip(v) { *s |= *x == r; } }
        vassert(seen.iter().all(|x| *x), 2);
    }
    // and the whole circle is in reach when rotation is free
    if k == 1 {
        let mut g = SymRng::new(2, 0);
        let (mut lo, mut hi) = (9.0, 0.0);
        for _ in 0..128 { let r = u.sample(&mut g) as f64 / std::f64::consts::TAU; if r < lo { lo = r } if r > hi { hi = r } }
        vassert(lo < 0.08 && hi > 0.92, 6);
    }
    // local: stays on the reference unless rotation is free
    let r0 = match &it.allowed_rotation { AllowedRotation::None => 0.0, AllowedRotation::Continuous => 1.0, AllowedRotation::Discrete(v) => v[choose(v.len() as i64) as usize] };
    let n = NormalRotDistr::from_item(&it, r0, 0.05);
    let q = n.sample(&mut SymRng::new(8, 2));
    vassert(allowed(&it.allowed_rotation, q, true), 3);
    if k != 1 { vassert(q == r0, 4) } else { vassert((q - r0).abs() < 1.0, 5); if q != r0 { vreach(2) } }
    vreach(1);
    done()
}
/// the local sampler: centred on its reference, the spread shrinks from the first to the second bound
#[no_mangle]
#[inline(never)]
pub fn smp_ls() {
    let k = choose(4);
    let it = item(0, &square(8), rots(k), None);
    let r0: fsize = match &it.allowed_rotation { AllowedRotation::None => 0.0, AllowedRotation::Continuous => 1.25, AllowedRotation::Discrete(v) => v[1] };
    let bb = AARectangle::new(0.0, 0.0, 100.0, 400.0);
    let rd = DTransformation::new(r0, (30.0, 70.0));
    let rng = SymRng::new(8, 3);
    let mut s = LSSampler::from_defaults(&it, &rd, &bb);
    let mut g = rng.clone();
    let a = s.sample(&mut g);
    let mut again = || g.again();
    vassert(allowed(&it.allowed_rotation, a.rotation(), true), 1);
    // one percent of the larger side of the box, two degrees
    let (zx, zy) = ((a.translation().0 as f64 - 30.0) / 4.0, (a.translation().1 as f64 - 70.0) / 4.0);
    vassert(zx.abs() < 12.0 && zy.abs() < 12.0, 2);
    let zr = if k == 1 { (a.rotation() as f64 - 1.25) / (2.0 * std::f64::consts::PI / 180.0) } else { 0.0 };
    vassert(zr.abs() < 12.0, 3);
    // the same numbers after moving the reference and shrinking the spread
    let r1: fsize = if k == 1 { 3.0 } else { r0 };
    s.shift_mean(&DTransformation::new(r1, (-12.0, 5.0)));
    let pct = [0.0, 0.5, 1.0][choose(3) as usize];
    s.decay_stddev(pct as fsize);
    let b = s.sample(&mut again());
    let sd = 4.0 * (0.05f64).powf(pct);
    let sr = (2.0 * std::f64::consts::PI / 180.0) * (0.25f64).powf(pct);
    vassert((b.translation().0 as f64 + 12.0 - zx * sd).abs() < 2e-3 && (b.translation().1 as f64 - 5.0 - zy * sd).abs() < 2e-3, 4);
    vassert(if k == 1 { (b.rotation() as f64 - 3.0 - zr * sr).abs() < 1e-4 } else { b.rotation() == r0 }, 5);
    // moving the reference alone leaves the spread as it is
    s.shift_mean(&DTransformation::new(r1, (40.0, -7.0)));
    let b = s.sample(&mut again());
    vassert((b.translation().0 as f64 - 40.0 - zx * sd).abs() < 2e-3 && (b.translation().1 as f64 + 7.0 - zy * sd).abs() < 2e-3, 7);
    vassert(if k == 1 { (b.rotation() as f64 - 3.0 - zr * sr).abs() < 1e-4 } else { b.rotation() == r0 }, 8);
    s.shift_mean(&DTransformation::new(r1, (-12.0, 5.0)));
    // no spread: the reference itself
    s.set_stddev(0.0, 0.0);
    let c = s.sample(&mut again());
    vassert(c.translation() == (-12.0, 5.0) && c.rotation() == r1, 6);
    vreach(1);
    done()
}
fn hscene(k: i64) -> Scene {
    match k {
        0 => Scene { bin: square(64), holes: vec![shifted(&diamond(6), 40, 40)], zones: vec![], items: vec![] },
        1 => Scene { bin: rect(96, 40), holes: vec![], zones: vec![(2, vec![shifted(&square(12), 60, 20)])], items: vec![(square(20), (2, 3))] },
        3 => Scene { bin: square(64), holes: vec![], zones: vec![], items: vec![(square(12), (1, 1)), (square(12), (30, 2)), (diamond(6), (55, 55)), (square(12), (4, 45)), (diamond(6), (24, 30)), (square(9), (50, 20))] },
        _ => Scene { bin: vec![(-20, -10), (50, 0), (60, 50), (0, 60)], holes: vec![], zones: vec![], items: vec![(diamond(7), (20, 40))] },
    }
}
fn hlayout(s: &Scene, cells: usize) -> Layout {
    let mut l = Layout::new(0, mk_bin(s, cfg(2, cells)));
    for (i, (sh, o)) in s.items.iter().enumerate() { l.place_item(&item(90 + i, sh, AllowedRotation::None, None), dt(o.0, o.1)); }
    l
}
/// the grid sampler: one region per cell that can take the item, clipped to the bin; samples put the pole into such a region
#[no_mangle]
#[inline(never)]
pub fn smp_hpg() {
    let k = choose(3);
    let s = hscene(k);
    let cells = [9, 36][choose(2) as usize];
    let l = hlayout(&s, cells);
    let sh = [square(16), shifted(&tri(), 30, -9), square(60)][choose(3) as usize].clone();
    let it = item(0, &sh, rots(choose(4)), [None, Some(1)][choose(2) as usize]);
    let bb = l.bin.bbox();
    let g = l.cde().haz_prox_grid().unwrap();
    let mut want = vec![];
    for c in g.grid.cells.iter().flatten() {
        let (x0, y0, x1, y1) = (c.bbox.x_min.max(bb.x_min), c.bbox.y_min.max(bb.y_min), c.bbox.x_max.min(bb.x_max), c.bbox.y_max.min(bb.y_max));
        if c.could_accommodate_item(&it) && x0 < x1 && y0 < y1 { want.push((x0, y0, x1, y1)); }
    }
    match HPGSampler::new(&it, &l) {
        None => { vassert(want.is_empty(), 1); vreach(2) }
        Some(mut h) => {
            vassert(!want.is_empty() && h.cell_samplers.len() == want.len(), 2);
            for w in &want { vassert(h.cell_samplers.iter().any(|c| (c.bbox.x_min, c.bbox.y_min, c.bbox.x_max, c.bbox.y_max) == *w), 3); }
            let area: f64 = want.iter().map(|w| (w.2 - w.0) as f64 * (w.3 - w.1) as f64).sum();
            vassert(near(h.coverage_area as f64, area) && near(h.bin_bbox_area as f64, bb.area() as f64), 4);
            let mut rng = SymRng::new(3, 4);
            let t = h.sample(&mut rng);
            vassert(h.n_samples == 1, 5);
            let p = it.shape.poi.center.transform_clone(&t);
            let e = 1e-3;
            vassert(want.iter().any(|w| p.0 >= w.0 - e && p.0 <= w.2 + e && p.1 >= w.1 - e && p.1 <= w.3 + e), 6);
            vassert(allowed_mod(&it.allowed_rotation, t.decompose().rotation()), 7);
            vreach(1)
        }
    }
    done()
}
/// tightening drops only cells in which no placement can beat the bound, and keeps none that cannot
#[no_mangle]
#[inline(never)]
pub fn smp_tight() {
    let s = hscene(choose(3));
    let l = hlayout(&s, 16);
    let k = choose(2);
    let it = item(0, &[square(16), diamond(9)][k as usize], AllowedRotation::None, None);
    let mut h = HPGSampler::new(&it, &l).unwrap();
    let before: Vec<AARectangle> = h.cell_samplers.iter().map(|c| c.bbox.clone()).collect();
    let (bx, by) = (choose(16) * 4, sym(-4, 15) * 4);
    let best = LBFPlacingCost::new(bx as fsize, by as fsize);
    h.tighten(best);
    let mut kept = 0;
    let r = it.shape.poi.radius as f64;
    for b in &before {
        let still = h.cell_samplers.iter().any(|c| c.bbox == *b);
        // lowest cost of any shape around the pole in this cell
        let lo = 10.0 * (b.x_min as f64 + r) + b.y_min as f64 + r;
        let bound = 10.0 * bx as f64 + by as f64;
        if !still { vassert(lo >= bound - 1e-2, 1) } else { kept += 1; }
        // the real cost of this item at the best corner of the cell
        let q = it.shape.transform_clone(&Transformation::from_translation((b.x_min - it.shape.poi.center.0, b.y_min - it.shape.poi.center.1)));
        if !still { vassert(LBFPlacingCost::from_shape(&q) >= LBFPlacingCost::new(bx as fsize, by as fsize - 0.01), 2) }
    }
    vassert(h.cell_samplers.len() == kept, 3);
    if kept < before.len() { vreach(1) } else { vreach(2) }
    done()
}
/// the cost: ten times the right end plus the top
#[no_mangle]
#[inline(never)]
pub fn lbf_cost() {
    let s = spoly(&item_shape(choose(9)));
    let o: Vec<P> = s.points.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    let (a, b) = ((sym(-900, 900), sym(-900, 900)), (sym(-900, 900), sym(-900, 900)));
    let (mx, my) = (o.iter().map(|p| p.0).max().unwrap(), o.iter().map(|p| p.1).max().unwrap());
    let (ca, cb) = (LBFPlacingCost::from_shape(&s.transform_clone(&tr(a.0, a.1))), LBFPlacingCost::from_shape(&s.transform_clone(&tr(b.0, b.1))));
    let (ea, eb) = (10 * (a.0 + mx) + a.1 + my, 10 * (b.0 + mx) + b.1 + my);
    let l = ca < cb;
    vassert(l == lt(ea, eb), 1);
    vassert((ca == cb) == eq(ea, eb), 2);
    if l { vreach(1) } else { vreach(2) }
    done()
}
const FS: i64 = 256;
/// does the placed shape (shrunk a little against rounding) overlap anything it may not overlap?
fn clash(s: &Scene, sh: &[P], d: &DTransformation, q: usize) -> bool {
    let (sn, cs) = (d.rotation() as f64).sin_cos();
    let pts: Vec<(f64, f64)> = sh.iter().map(|p| (cs * p.0 as f64 - sn * p.1 as f64 + d.translation().0 as f64, sn * p.0 as f64 + cs * p.1 as f64 + d.translation().1 as f64)).collect();
    // every vertex is pulled towards the mean: enough for convex shapes
    let n = pts.len() as f64;
    let (mx, my) = (pts.iter().map(|p| p.0).sum::<f64>() / n, pts.iter().map(|p| p.1).sum::<f64>() / n);
    let it: Vec<P> = pts.iter().map(|p| (((mx + (p.0 - mx) * 0.995) * FS as f64).round() as i64, ((my + (p.1 - my) * 0.995) * FS as f64).round() as i64)).collect();
    let sc = Scene { bin: scaled(&s.bin, FS), holes: s.holes.iter().map(|h| scaled(h, FS)).collect(), zones: s.zones.iter().map(|(q, z)| (*q, z.iter().map(|h| scaled(h, FS)).collect())).collect(), items: s.items.iter().map(|(h, o)| (scaled(h, FS), (o.0 * FS, o.1 * FS))).collect() };
    must_collide(&sc, &it, (0, 0), q)
}
fn conf(n: usize, ls: f32, c: CDEConfig) -> LBFConfig { LBFConfig { n_samples: n, ls_frac: ls, cde_config: c, ..LBFConfig::default() } }
fn problem(s: &Scene, cells: usize, its: &[Item]) -> Problem {
    let c = cfg(2, cells);
    let b = mk_bin(s, c);
    let mut all: Vec<(Item, usize)> = its.iter().map(|i| (i.clone(), 3)).collect();
    let base = all.len();
    for (i, (sh, _)) in s.items.iter().enumerate() { all.push((item(base + i, sh, AllowedRotation::None, None), 3)); }
    let mut p = BPProblem::new(BPInstance::new(all, vec![(b, 2)]));
    let mut idx = LayoutIndex::Template(0);
    for (i, (_, o)) in s.items.iter().enumerate() { idx = p.place_item(PlacingOption { layout_idx: idx, item_id: base + i, d_transf: dt(o.0, o.1) }).0; }
    Problem::BP(p)
}
fn cost(sh: &[P], d: &DTransformation) -> f64 {
    let (sn, cs) = (d.rotation() as f64).sin_cos();
    let x = sh.iter().map(|p| cs * p.0 as f64 - sn * p.1 as f64).fold(f64::MIN, f64::max) + d.translation().0 as f64;
    let y = sh.iter().map(|p| sn * p.0 as f64 + cs * p.1 as f64).fold(f64::MIN, f64::max) + d.translation().1 as f64;
    10.0 * x + y
}
/// an accepted sample is feasible, allowed and labelled with its layout
#[no_mangle]
#[inline(never)]
pub fn lbf_sample() {
    let t = tier();
    let k = choose(4);
    let s = hscene(k);
    let sh = [square(16), tri()][choose(2) as usize].clone();
    let bq = [None, Some(2), Some(3)][if k == 1 { choose(3) as usize } else if k == 3 { choose(2) as usize } else { 0 }];
    let a = if t { choose(4) } else { [0, 2, 1][choose(3) as usize] };
    let it = item(0, &sh, rots(a), bq);
    let p = problem(&s, 16, &[it.clone()]);
    let idx = if s.items.is_empty() { LayoutIndex::Template(0) } else { LayoutIndex::Real(0) };
    let (base, n) = if t { (4, 2) } else { (3, 2) };
    let mut rng = SymRng::new(base, if a == 0 { 3 } else { 4 } * n - if a == 0 { 0 } else { 2 });
    let mut cnt = 5;
    let r = sample_layout(&p, idx, &it, &conf(n, 0.0, cfg(2, 16)), &mut rng, &mut cnt);
    vassert(cnt <= 5 + n, 1);
    match r {
        None => vreach(2),
        Some(o) => {
            vassert(o.layout_idx == idx && o.item_id == 0, 2);
            vassert(allowed_mod(&it.allowed_rotation, o.d_transf.rotation()), 3);
            vassert(!clash(&s, &sh, &o.d_transf, bq.unwrap_or(10)), 4);
            let l = p.get_layout(idx);
            let ign = match &it.hazard_filter { None => vec![], Some(f) => hazard_filter::generate_irrelevant_hazards(f, l.cde().all_hazards()) };
            vassert(!l.cde().poly_collides(&it.shape.transform_clone(&o.d_transf.compose()), &ign), 5);
            vreach(1)
        }
    }
    done()
}
/// with more samples (the same numbers first) the result is never worse; the first feasible sample is never beaten downwards
#[no_mangle]
#[inline(never)]
pub fn lbf_best() {
    let t = tier();
    let s = hscene(choose(3));
    let sh = [square(16), diamond(8), tri()][choose(3) as usize].clone();
    let it = item(0, &sh, AllowedRotation::None, None);
    let p = problem(&s, [16, 4][choose(2) as usize], &[it.clone()]);
    let idx = if s.items.is_empty() { LayoutIndex::Template(0) } else { LayoutIndex::Real(0) };
    let n = 3;
    let mut rng = SymRng::new(if t { 4 } else { 2 }, 3 * n);
    let cfg_ = |n| conf(n, 0.0, cfg(2, 16));
    let mut cnt = 0;
    let full = sample_layout(&p, idx, &it, &cfg_(n), &mut rng, &mut cnt);
    // the first sample, drawn the same way
    let first = HPGSampler::new(&it, p.get_layout(idx)).map(|mut h| h.sample(&mut rng.again()).decompose());
    if let Some(f) = first {
        if !p.get_layout(idx).cde().poly_collides(&it.shape.transform_clone(&f.compose()), &[]) {
            vassert(full.is_some() && cost(&sh, &full.unwrap().d_transf) <= cost(&sh, &f) + 1e-2, 1);
            vreach(1);
        }
    }
    let mut last: Option<f64> = None;
    for m in 1..=n {
        let mut c = 0;
        let r = sample_layout(&p, idx, &it, &cfg_(m), &mut rng.again(), &mut c);
        let now = r.map(|o| cost(&sh, &o.d_transf));
        if let Some(l) = last { vassert(now.is_some() && now.unwrap() <= l + 1e-2, 2); vreach(2); }
        last = now;
    }
    vassert(last.is_some() == full.is_some(), 3);
    done()
}
/// local search only improves, and what it accepts is feasible
#[no_mangle]
#[inline(never)]
pub fn lbf_ls() {
    let t = tier();
    let s = hscene(choose(3));
    let a = choose(3);
    let sh = [square(16), tri()][choose(2) as usize].clone();
    let it = item(0, &sh, rots(a), None);
    let p = problem(&s, 16, &[it.clone()]);
    let idx = if s.items.is_empty() { LayoutIndex::Template(0) } else { LayoutIndex::Real(0) };
    let uni = if a == 0 { 3 } else { 4 };
    // the uniform part is fixed to a few sequences, the local part is free
    let mut rng = SymRng::new(if t { 5 } else { 4 }, uni + 3);
    let u = choose(6);
    rng.log = (0..uni).map(|i| (u64::MAX / 7) * ((u as u64 * 3 + i as u64 * 2) % 7)).collect();
    let mut cnt = 0;
    let one = sample_layout(&p, idx, &it, &conf(1, 0.0, cfg(2, 16)), &mut rng, &mut cnt);
    let mut cnt = 0;
    let mut rng = rng.again();
    let r = sample_layout(&p, idx, &it, &conf(2, 0.5, cfg(2, 16)), &mut rng, &mut cnt);
    vassert(one.is_some() == r.is_some(), 1);
    if let (Some(o), Some(r)) = (one, r) {
        vassert(cnt == 2, 2);
        vassert(cost(&sh, &r.d_transf) <= cost(&sh, &o.d_transf) + 1e-2, 3);
        vassert(r.layout_idx == idx && r.item_id == 0 && allowed_mod(&it.allowed_rotation, r.d_transf.rotation()), 4);
        vassert(!clash(&s, &sh, &r.d_transf, 10), 5);
        vreach(1);
        if r.d_transf != o.d_transf { vreach(2) }
    }
    done()
}
/// a longer local search that begins with the same samples never ends up worse
#[no_mangle]
#[inline(never)]
pub fn lbf_ls2() {
    let t = tier();
    let s = hscene(choose(3));
    let sh = [square(16), tri()][choose(2) as usize].clone();
    let it = item(0, &sh, AllowedRotation::None, None);
    let p = problem(&s, 16, &[it.clone()]);
    let idx = if s.items.is_empty() { LayoutIndex::Template(0) } else { LayoutIndex::Real(0) };
    let mut rng = SymRng::new(if t { 8 } else { 5 }, 7);
    let u = choose(if t { 6 } else { 4 });
    rng.log = (0..3).map(|i| (u64::MAX / 7) * ((u as u64 * 3 + i as u64 * 2) % 7)).collect();
    let mut last: Option<f64> = None;
    // one uniform sample, then one, two, three local ones
    for (n, f) in [(1, 0.0), (2, 0.5), (3, 0.67), (4, 0.76)] {
        let mut cnt = 0;
        let mut g = rng.again();
        let r = sample_layout(&p, idx, &it, &conf(n, f, cfg(2, 16)), &mut g, &mut cnt);
        rng = g;
        match r {
            None => { vassert(last.is_none(), 1); vreach(1); done() }
            Some(r) => {
                vassert(n == 1 || last.is_some(), 2);
                vassert(!clash(&s, &sh, &r.d_transf, 10), 3);
                let c = cost(&sh, &r.d_transf);
                if let Some(l) = last { vassert(c <= l + 1e-3, 4); if c < l { vreach(n as i64) } }
                last = Some(c);
            }
        }
    }
    done()
}
/// the search over layouts: open layouts in order, then bins in stock
#[no_mangle]
#[inline(never)]
pub fn lbf_find() {
    let c = cfg(1, 9);
    let sq = |i| item(i, &square(14), AllowedRotation::None, None);
    let stock = (choose(2) as usize, choose(2) as usize);
    let small = Scene { bin: square(32), holes: vec![], zones: vec![], items: vec![] };
    let big = Scene { bin: rect(64, 40), holes: vec![], zones: vec![], items: vec![] };
    let bins = vec![(Bin::new(0, spoly(&small.bin), 1, Transformation::empty(), vec![], vec![], c), stock.0), (Bin::new(1, spoly(&big.bin), 1, Transformation::empty(), vec![], vec![], c), stock.1)];
    let mut p = BPProblem::new(BPInstance::new(vec![(sq(0), 4)], bins));
    // possibly one open layout of either kind
    let pre = choose(3);
    let mut open = vec![];
    if pre == 1 && stock.0 > 0 { p.place_item(PlacingOption { layout_idx: LayoutIndex::Template(0), item_id: 0, d_transf: dt(17, 17) }); open.push((0, (17, 17))); }
    if pre == 2 && stock.1 > 0 { p.place_item(PlacingOption { layout_idx: LayoutIndex::Template(1), item_id: 0, d_transf: dt(44, 20) }); open.push((1, (44, 20))); }
    let left = (stock.0 - open.iter().filter(|x| x.0 == 0).count(), stock.1 - open.iter().filter(|x| x.0 == 1).count());
    let pr = Problem::BP(p);
    let it = sq(0);
    let mut rng = SymRng::new(4, 6);
    let mut cnt = 0;
    let r = find_lbf_placement(&pr, &it, &conf(1, 0.0, c), &mut rng, &mut cnt);
    match r {
        None => vreach(2),
        Some(o) => {
            let (b, here) = match o.layout_idx {
                LayoutIndex::Real(i) => { vassert(i < open.len(), 1); (open[0].0, vec![(square(14), open[0].1)]) }
                LayoutIndex::Template(i) => { vassert(i < 2 && [left.0, left.1][i] > 0, 2); (i, vec![]) }
            };
            let s = Scene { bin: if b == 0 { small.bin.clone() } else { big.bin.clone() }, holes: vec![], zones: vec![], items: here };
            vassert(!clash(&s, &square(14), &o.d_transf, 10), 3);
            if matches!(o.layout_idx, LayoutIndex::Real(_)) { vreach(3) } else { vreach(1) }
        }
    }
    if left == (0, 0) && open.is_empty() { vassert(r.is_none(), 4) }
    // what an open layout can take goes there; else the first bin in stock that has a place; None only when none has
    let mut g = rng.again();
    let mut first = None;
    let order = open.iter().map(|_| LayoutIndex::Real(0)).chain((0..2).filter(|i| [left.0, left.1][*i] > 0).map(LayoutIndex::Template));
    for l in order {
        let mut c2 = 0;
        if first.is_none() { first = sample_layout(&pr, l, &it, &conf(1, 0.0, c), &mut g, &mut c2); }
    }
    vassert(r.map(|o| o.layout_idx) == first.map(|o| o.layout_idx), 5);
    done()
}
/// whole runs on a tiny instance: quantities, stock, overlaps, order of the layouts' items
#[no_mangle]
#[inline(never)]
pub fn lbf_solve() {
    let kind = choose(2);
    let rot = choose(2);
    let c = CDEConfig { item_surrogate_config: scfg(2, 1, 0), ..cfg(1, 4) };
    let dem = if kind == 0 { [3usize, 2] } else { [2, 1] };
    let a = || if rot == 0 { AllowedRotation::None } else { rots(2) };
    let shapes = [square(18), vec![(0, 0), (26, 0), (0, 12)]];
    let items = vec![(item(0, &shapes[0], a(), None), dem[0]), (item(1, &shapes[1], a(), None), dem[1])];
    let b = Scene { bin: rect(48, 40), holes: vec![], zones: vec![], items: vec![] };
    let inst = if kind == 0 { Instance::BP(BPInstance::new(items, vec![(mk_bin(&b, c), 2)])) } else { Instance::SP(SPInstance::new(items, 40.0)) };
    let seed = sym(0, 3);
    let mut o = LBFOptimizer::new(inst.clone(), conf(16, 0.25, c), SmallRng::seed_from_u64(seed as u64));
    let sol = o.solve();
    vassert(sol.layout_snapshots.len() <= if kind == 0 { 2 } else { 1 }, 1);
    let mut placed = [0usize; 2];
    for l in &sol.layout_snapshots {
        let bb = l.bin.outer.bbox();
        let bin = vec![(bb.x_min, bb.y_min), (bb.x_max, bb.y_min), (bb.x_max, bb.y_max), (bb.x_min, bb.y_max)];
        let f = |v: f64| (v * FS as f64).round() as i64;
        let bin: Vec<P> = bin.iter().map(|p| (f(p.0 as f64), f(p.1 as f64))).collect();
        let polys: Vec<Vec<P>> = l.placed_items.values().map(|p| {
            placed[p.item_id] += 1;
            vassert(allowed_mod(&a(), p.d_transf.rotation()), 2);
            let (sn, cs) = (p.d_transf.rotation() as f64).sin_cos();
            let v: Vec<(f64, f64)> = shapes[p.item_id].iter().map(|q| (cs * q.0 as f64 - sn * q.1 as f64 + p.d_transf.translation().0 as f64, sn * q.0 as f64 + cs * q.1 as f64 + p.d_transf.translation().1 as f64)).collect();
            let (mx, my) = (v.iter().map(|q| q.0).sum::<f64>() / v.len() as f64, v.iter().map(|q| q.1).sum::<f64>() / v.len() as f64);
            v.iter().map(|q| (f(mx + (q.0 - mx) * 0.99), f(my + (q.1 - my) * 0.99))).collect()
        }).collect();
        for (i, x) in polys.iter().enumerate() {
            vassert(!leaves(x, (0, 0), &bin, (0, 0)), 3);
            for y in &polys[..i] { vassert(!regions_meet(x, (0, 0), y, (0, 0)), 4); }
        }
    }
    for i in 0..2 { vassert(placed[i] <= dem[i] && sol.placed_item_qtys[i] == placed[i], 5); }
    if kind == 1 { vassert(placed == dem, 6); }
    if placed == dem { vreach(1) }
    vreach(2);
    done()
}

// ---------------- C90 ----------------
static mut CLOCK: (i64, i64) = (1_000_000_000_000, 0);
/// the clock of this program (symbolic run and replay alike): moves on by a fixed step whenever it is read
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
    CLOCK.0 += CLOCK.1;
    *t = [CLOCK.0 / 1_000_000_000, CLOCK.0 % 1_000_000_000];
    0
}
/// reads of the clock are this many nanoseconds apart from now on
fn pace(ns: i64) { unsafe { CLOCK.1 = ns } }
/// one run on a machine whose clock stands (almost) still, one on a slower machine
fn slower() -> i64 { [2_000_000, 3_600_000_000_000][choose(2) as usize] }
fn tiny(kind: i64, rot: i64) -> (Instance, LBFConfig) {
    let c = CDEConfig { item_surrogate_config: scfg(2, 1, 0), ..cfg(1, 4) };
    let a = || if rot == 0 { AllowedRotation::None } else { rots(rot) };
    let items = vec![(item(0, &square(18), a(), None), 2), (item(1, &[(0, 0), (26, 0), (0, 12)], a(), None), 1), (item(2, &square(18), a(), None), 1)];
    let b = Scene { bin: rect(48, 40), holes: vec![], zones: vec![], items: vec![] };
    (if kind == 0 { Instance::BP(BPInstance::new(items, vec![(mk_bin(&b, c), 2)])) } else { Instance::SP(SPInstance::new(items, 40.0)) }, conf(12, 0.25, c))
}
fn same_solution(a: &jagua_rs::entities::solution::Solution, b: &jagua_rs::entities::solution::Solution) -> bool {
    a.layout_snapshots.len() == b.layout_snapshots.len() && a.usage == b.usage && a.placed_item_qtys == b.placed_item_qtys && a.target_item_qtys == b.target_item_qtys && a.bin_qtys == b.bin_qtys
        && a.layout_snapshots.iter().zip(&b.layout_snapshots).all(|(x, y)| x.bin.id == y.bin.id && x.bin.outer.bbox() == y.bin.outer.bbox() && x.usage == y.usage
            && x.placed_items.values().map(|p| (p.item_id, p.d_transf)).eq(y.placed_items.values().map(|p| (p.item_id, p.d_transf))))
}
/// two runs with the same seed
#[no_mangle]
#[inline(never)]
pub fn det_solve() {
    let (kind, rot) = (choose(2), choose(3));
    let (inst, cf) = tiny(kind, rot);
    let seed = sym(0, 3) as u64;
    let slow = slower();
    pace(1);
    // an unrelated run in between must not matter
    let mut o1 = LBFOptimizer::new(inst.clone(), cf, SmallRng::seed_from_u64(seed));
    let a = o1.solve();
    pace(slow);
    let mut o2 = LBFOptimizer::new(inst.clone(), cf, SmallRng::seed_from_u64(seed));
    let b = o2.solve();
    vassert(same_solution(&a, &b), 1);
    vassert(o1.sample_counter == o2.sample_counter, 2);
    vreach(1);
    done()
}
/// two searches of a layout with the same numbers
#[no_mangle]
#[inline(never)]
pub fn det_sample() {
    let s = hscene(choose(3));
    let sh = [square(16), tri()][choose(2) as usize].clone();
    let it = item(0, &sh, rots(choose(3)), None);
    let p = problem(&s, 16, &[it.clone()]);
    let mut rng = SymRng::new(4, 5);
    let (mut c1, mut c2) = (0, 0);
    let slow = slower();
    pace(1);
    let a = find_lbf_placement(&p, &it, &conf(4, 0.5, cfg(2, 16)), &mut rng, &mut c1);
    pace(slow);
    let b = find_lbf_placement(&p.clone(), &it.clone(), &conf(4, 0.5, cfg(2, 16)), &mut rng.again(), &mut c2);
    vassert(c1 == c2, 1);
    vassert(match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.layout_idx == b.layout_idx && a.item_id == b.item_id && a.d_transf == b.d_transf, _ => false }, 2);
    if a.is_some() { vreach(1) } else { vreach(2) }
    done()
}
