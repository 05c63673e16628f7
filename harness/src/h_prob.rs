//! C18 .. C20: bin packing and strip packing problems as abstract data types
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::solution::Solution;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::SPSurrogateConfig;

pub static LIST: &[(&str, fn())] = &[("bp_hist", bp_hist), ("bp_restore", bp_restore), ("sp_hist", sp_hist), ("sp_restore", sp_restore), ("sp_rot", sp_rot), ("bp_rot", bp_rot)];

const DEMAND: [usize; 3] = [2, 1, 3];
const STOCK: [usize; 2] = [2, 1];
const COST: [u64; 2] = [700, 55];
fn shp(i: usize) -> Vec<P> { match i { 0 => square(10), 1 => vec![(0, 0), (16, 0), (0, 12)], _ => vec![(0, 0), (20, 0), (20, 6), (12, 6), (10, 2), (8, 6), (0, 6)] } }
fn items() -> Vec<(jagua_rs::entities::item::Item, usize)> { (0..3).map(|i| (mk_item(i, &shp(i), None, SPSurrogateConfig::none()), DEMAND[i])).collect() }
fn bin_shape(b: usize) -> Vec<P> { if b == 0 { rect(128, 64) } else { square(100) } }
fn instance() -> BPInstance {
    let c = cfg(1, 0);
    let bins = (0..2).map(|b| {
        let holes = if b == 1 { vec![spoly(&shifted(&square(8), 80, 80))] } else { vec![] };
        (Bin::new(b, spoly(&bin_shape(b)), COST[b], Transformation::empty(), holes, vec![], c), STOCK[b])
    }).collect();
    BPInstance::new(items(), bins)
}
/// abstract state: per layout id its bin and its (item, x, y)
#[derive(Clone, Default)]
struct M { l: Vec<(usize, usize, Vec<(usize, i64, i64)>)> }
impl M {
    fn placed(&self, i: usize) -> usize { self.l.iter().map(|(_, _, v)| v.iter().filter(|x| x.0 == i).count()).sum() }
}
struct Bp { p: BPProblem, m: M, n: i64, last: Option<PlacingOption> }
fn slot(n: i64) -> P { (2 + 21 * (n % 6), 3 + 13 * (n / 6)) }
impl Bp {
    fn new() -> Self { Bp { p: BPProblem::new(instance()), m: M::default(), n: 0, last: None } }
    fn place(&mut self, idx: LayoutIndex, item: usize, at: P) {
        let before: Vec<usize> = self.p.layouts().iter().map(|l| l.id()).collect();
        let (r, k) = self.p.place_item(PlacingOption { layout_idx: idx, item_id: item, d_transf: dt(at.0, at.1) });
        let l = self.p.get_layout(r);
        let pi = &l.placed_items()[k];
        vassert(matches!(r, LayoutIndex::Real(_)), 1);
        vassert(pi.item_id == item && pi.d_transf == dt(at.0, at.1), 2);
        let id = l.id();
        match idx {
            LayoutIndex::Real(i) => { vassert(r == idx && before[i] == id, 3); self.m.l.iter_mut().find(|x| x.0 == id).unwrap().2.push((item, at.0, at.1)); }
            LayoutIndex::Template(b) => { vassert(!before.contains(&id) && l.placed_items().len() == 1 && l.bin.id == b, 4); self.m.l.push((id, b, vec![(item, at.0, at.1)])); }
        }
    }
    fn key(&self, l: usize, last: bool) -> PItemKey { let l = &self.p.layouts()[l]; if last { l.placed_items().keys().last().unwrap() } else { l.placed_items().keys().next().unwrap() } }
    fn remove(&mut self, l: usize, last: bool, commit: bool) {
        let k = self.key(l, last);
        let (id, pi) = (self.p.layouts()[l].id(), self.p.layouts()[l].placed_items()[k].clone());
        let o = self.p.remove_item(LayoutIndex::Real(l), k, commit);
        vassert(o.item_id == pi.item_id && o.d_transf == pi.d_transf, 5);
        let e = self.m.l.iter_mut().find(|x| x.0 == id).unwrap();
        let j = e.2.iter().position(|x| x.0 == pi.item_id && dt(x.1, x.2) == pi.d_transf).unwrap();
        e.2.remove(j);
        let bin = e.1;
        if e.2.is_empty() { self.m.l.retain(|x| x.0 != id); }
        // the option puts the item back in the same configuration
        match o.layout_idx {
            LayoutIndex::Real(i) => vassert(i < self.p.layouts().len() && self.p.layouts()[i].id() == id, 6),
            LayoutIndex::Template(i) => vassert(i < self.p.template_layouts().len() && self.p.template_layouts()[i].bin.id == bin && !self.m.l.iter().any(|x| x.0 == id), 7),
        }
        self.last = Some(o);
    }
    fn next(&mut self) -> P { self.n += 1; slot(self.n) }
    fn has_stock(&self, b: usize) -> bool { self.m.l.iter().filter(|x| x.1 == b).count() < STOCK[b] }
    fn op(&mut self, o: i64) {
        let nl = self.m.l.len();
        match o {
            0 => if self.has_stock(0) { let a = self.next(); self.place(LayoutIndex::Template(0), 0, a) },
            1 => if self.has_stock(1) { let a = self.next(); self.place(LayoutIndex::Template(1), 2, a) },
            2 => if nl > 0 { let a = self.next(); self.place(LayoutIndex::Real(nl - 1), 1, a) },
            3 => if nl > 0 { let a = self.next(); self.place(LayoutIndex::Real(0), 2, a) },
            4 => if nl > 0 { self.remove(0, false, true) },
            5 => if nl > 0 { self.remove(nl - 1, true, false) },
            6 => if nl > 0 {
                let id = self.p.layouts()[0].id();
                self.p.remove_layout(LayoutIndex::Real(0));
                self.m.l.retain(|x| x.0 != id);
                self.last = None;
            },
            _ => if let Some(o) = self.last.take() {
                let ok = match o.layout_idx { LayoutIndex::Real(_) => true, LayoutIndex::Template(b) => self.has_stock(b) };
                if ok { self.place(o.layout_idx, o.item_id, (o.d_transf.translation().0 as i64, o.d_transf.translation().1 as i64)) }
            }
        }
        if o != 4 && o != 5 { self.last = None; }
    }
    fn check(&mut self) {
        let m = self.m.clone();
        same_layouts(self.p.layouts(), &m);
        let inst = self.p.instance.clone();
        for i in 0..3 {
            vassert(self.p.missing_item_qtys()[i] == DEMAND[i] as isize - m.placed(i) as isize, 10);
        }
        let q: Vec<usize> = self.p.placed_item_qtys().collect();
        for i in 0..3 { vassert(q[i] == m.placed(i), 11); }
        for b in 0..2 { vassert(self.p.bin_qtys()[b] + m.l.iter().filter(|x| x.1 == b).count() == STOCK[b], 12); }
        vassert(self.p.used_bin_cost() == m.l.iter().map(|x| COST[x.1]).sum::<u64>(), 13);
        let (mut ia, mut ba) = (0.0, 0.0);
        for (_, b, v) in &m.l { ba += inst.bins[*b].0.area as f64; for (i, _, _) in v { ia += area2(&shp(*i)) as f64 / 2.0; } }
        let u = self.p.usage() as f64;
        vassert(if m.l.is_empty() { u == 0.0 } else { near(u, ia / ba) }, 14);
        let st: Vec<usize> = self.p.template_layout_indices_with_stock().map(|i| i.into()).collect();
        for b in 0..2 { vassert(st.contains(&b) == self.has_stock(b), 15); }
        vassert(self.p.layout_indices().count() == m.l.len(), 16);
        for t in self.p.template_layouts() { vassert(t.is_empty(), 17); }
    }
}
fn same_layouts(ls: &[Layout], m: &M) {
    vassert(ls.len() == m.l.len(), 20);
    for (id, b, v) in &m.l {
        let n = ls.iter().filter(|l| l.id() == *id).count();
        vassert(n == 1, 21);
        let l = ls.iter().find(|l| l.id() == *id).unwrap();
        vassert(l.bin.id == *b && !v.is_empty() && l.placed_items().len() == v.len() && l.cde().dynamic_hazards().len() == v.len(), 22);
        for (i, x, y) in v { vassert(l.placed_items().values().filter(|p| p.item_id == *i && p.d_transf == dt(*x, *y)).count() == v.iter().filter(|e| **e == (*i, *x, *y)).count(), 23); }
    }
}
/// a symbolic probe in one of the layouts
fn probe(l: &Layout, b: usize, v: &[(usize, i64, i64)]) {
    let pr = spoly(&diamond(4));
    let (x, y) = (sym(0, 120), 14);
    let sc = Scene { bin: bin_shape(b), holes: if b == 1 { vec![shifted(&square(8), 80, 80)] } else { vec![] }, zones: vec![], items: v.iter().map(|(i, x, y)| (shp(*i), (*x, *y))).collect() };
    let r = l.cde().poly_collides(&pr.transform_clone(&tr(x, y)), &[]);
    vobs(r as i64);
    vassert(r == must_collide(&sc, &diamond(4), (x, y), 10), 30);
    if r { vreach(1) } else { vreach(2) }
}
#[no_mangle]
#[inline(never)]
pub fn bp_hist() {
    let t = tier();
    let mut s = Bp::new();
    let pre = choose(2);
    if pre == 1 { for o in [0, 1, 2] { s.op(o); } }
    for _ in 0..(if t { 6 } else { 5 }) { let o = choose(8); s.op(o); }
    s.check();
    if s.m.l.is_empty() { vreach(3) } else { vreach(4) }
    done()
}
/// saving and restoring
#[no_mangle]
#[inline(never)]
pub fn bp_restore() {
    let t = tier();
    let mut s = Bp::new();
    if choose(2) == 0 { for o in [0, 1, 2] { s.op(o); } }
    let mut sols: [Option<(Solution, M)>; 2] = [None, None];
    let mut reference: Option<usize> = None; // which of the stored solutions was created / restored last
    let mut restored = false;
    for step in 0..(if t { 5 } else { 4 }) {
        let o = if step == 0 { [6, 7][choose(2) as usize] } else { choose(9) };
        match o {
            0 => s.op(0),
            1 => s.op(3),
            2 => s.op(4),
            3 => s.op(5),
            4 => s.op(6),
            5 => s.op(1),
            6 => { sols[0] = Some((s.p.create_solution(None), s.m.clone())); reference = Some(0); }
            7 => {
                // incremental where possible
                let old = reference.and_then(|r| sols[r].as_ref().map(|x| x.0.clone()));
                sols[1] = Some((s.p.create_solution(old.as_ref()), s.m.clone()));
                reference = Some(1);
            }
            _ => {
                let k = if sols[0].is_some() { 0 } else { 1 };
                let (sol, m) = sols[k].clone().unwrap();
                s.p.restore_to_solution(&sol);
                s.m = m; s.last = None; reference = Some(k); restored = true;
            }
        }
    }
    // finally restore the other one as well
    if let Some((sol, m)) = sols[1].clone() { s.p.restore_to_solution(&sol); s.m = m; restored = true; }
    s.check();
    // the stored solutions are what they were
    for x in sols.iter().flatten() {
        let (sol, m) = x;
        vassert(sol.layout_snapshots.len() == m.l.len(), 40);
        for (id, b, v) in &m.l {
            let ls = sol.layout_snapshots.iter().find(|l| l.id == *id);
            vassert(ls.is_some(), 41);
            let ls = ls.unwrap();
            vassert(ls.bin.id == *b && ls.placed_items.len() == v.len(), 42);
            for (i, x, y) in v { vassert(ls.placed_items.values().any(|p| p.item_id == *i && p.d_transf == dt(*x, *y)), 43); }
            let a: i64 = v.iter().map(|e| area2(&shp(e.0))).sum();
            vassert(near(ls.usage as f64, a as f64 / 2.0 / ls.bin.area as f64), 44);
        }
        for i in 0..3 { vassert(sol.placed_item_qtys[i] == m.placed(i) && sol.target_item_qtys[i] == DEMAND[i], 45); }
        for b in 0..2 { vassert(sol.bin_qtys[b] + m.l.iter().filter(|x| x.1 == b).count() == STOCK[b], 46); }
        vassert(sol.n_items_placed() == (0..3).map(|i| m.placed(i)).sum::<usize>(), 47);
        vassert(sol.is_complete(&s.p.instance) == (0..3).all(|i| m.placed(i) >= DEMAND[i]), 48);
        let inst = jagua_rs::entities::instances::instance::Instance::BP(s.p.instance.clone());
        let mi = sol.missing_item_qtys(&inst);
        for i in 0..3 { vassert(mi[i] == DEMAND[i] as isize - m.placed(i) as isize, 49); }
        let (ia, ba): (f64, f64) = (m.l.iter().flat_map(|x| x.2.iter()).map(|e| area2(&shp(e.0)) as f64 / 2.0).sum(), m.l.iter().map(|x| s.p.instance.bins[x.1].0.area as f64).sum());
        vassert(near(sol.completeness(&inst) as f64, ia / (0..3).map(|i| DEMAND[i] as f64 * area2(&shp(i)) as f64 / 2.0).sum::<f64>()), 50);
        vassert(if m.l.is_empty() { sol.usage == 0.0 } else { near(sol.usage as f64, ia / ba) }, 51);
    }
    if restored { vreach(3) }
    if !s.m.l.is_empty() {
        // one of the layouts (each of them over the histories)
        let (id, b, v) = s.m.l[s.n as usize % s.m.l.len()].clone();
        let l = s.p.layouts().iter().find(|l| l.id() == id).unwrap();
        probe(l, b, &v);
    }
    done()
}

// ---------------- strip packing ----------------
#[derive(Clone)]
struct Sm { x0: f64, x1: f64, items: Vec<(usize, i64, i64)>, exact: bool }
struct Sp { p: Problem, m: Sm, n: i64 }
const H: i64 = 50;
fn wof(i: usize) -> i64 { [10, 16, 20][i] }
impl Sp {
    fn new(w: i64) -> Self {
        Sp { p: Problem::SP(SPProblem::new(SPInstance::new(items(), H as fsize), w as fsize, cfg(1, 0))), m: Sm { x0: 0.0, x1: w as f64, items: vec![], exact: true }, n: 0 }
    }
    fn sp(&mut self) -> &mut SPProblem { match &mut self.p { Problem::SP(s) => s, _ => unreachable!() } }
    fn place(&mut self, i: usize) {
        // next free slot in the current strip
        // some of the slots touch or overlap
        let (x, y) = ([3, 27, 43, 60, 99][(self.n % 5) as usize], [2, 18, 34][(self.n / 5 % 3) as usize]);
        self.n += 1;
        if (x as f64) <= self.m.x0 || ((x + wof(i)) as f64) >= self.m.x1 { return; }
        let (r, k) = self.p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: i, d_transf: dt(x, y) });
        vassert(r == STRIP_LAYOUT_IDX && self.p.get_layout(r).placed_items()[k].item_id == i, 1);
        self.m.items.push((i, x, y));
    }
    fn remove(&mut self, last: bool, commit: bool) {
        if self.m.items.is_empty() { return; }
        let l = self.p.get_layout(STRIP_LAYOUT_IDX);
        let k = if last { l.placed_items().keys().last().unwrap() } else { l.placed_items().keys().next().unwrap() };
        let o = self.p.remove_item(STRIP_LAYOUT_IDX, k, commit);
        let j = self.m.items.iter().position(|x| x.0 == o.item_id && dt(x.1, x.2) == o.d_transf);
        vassert(j.is_some() && o.layout_idx == STRIP_LAYOUT_IDX, 2);
        self.m.items.remove(j.unwrap());
    }
    fn range(&self) -> (f64, f64) {
        if self.m.items.is_empty() { return (0.0, 0.0); }
        (self.m.items.iter().map(|x| x.1).min().unwrap() as f64, self.m.items.iter().map(|x| x.1 + wof(x.0)).max().unwrap() as f64)
    }
    fn resized(&mut self, x0: f64, x1: f64) {
        self.m.x0 = x0; self.m.x1 = x1;
        self.m.items.retain(|(i, x, _)| *x as f64 > x0 && ((x + wof(*i)) as f64) < x1);
    }
    fn op(&mut self, o: i64) {
        match o {
            0 => self.place(0),
            1 => self.place(1),
            2 => self.remove(false, true),
            3 => self.remove(true, false),
            4 => { self.sp().modify_strip_in_back(60.0); let (a, _) = (self.m.x0, 0); self.resized(a, a + 60.0) }
            5 => { self.sp().modify_strip_in_back(150.0); let a = self.m.x0; self.resized(a, a + 150.0) }
            6 => { self.sp().modify_strip_at_front(101.0); let b = self.m.x1; self.resized(b - 101.0, b) }
            7 => { self.sp().modify_strip_centered(120.0); let (a, b) = self.range(); let d = (120.0 - (b - a)) / 2.0; self.resized(a - d, b + d) }
            _ => {
                let (a, b) = self.range();
                let n = self.m.items.len();
                self.sp().fit_strip();
                if n > 0 {
                    let (x0, x1) = { let bb = self.sp().layout.bin.outer.bbox(); (bb.x_min as f64, bb.x_max as f64) };
                    vassert(x0 <= a && x1 >= b && x1 - x0 <= (b - a) * 1.002 + 1e-3, 3);
                    self.resized(x0, x1);
                    self.m.exact = false;
                    vassert(self.m.items.len() == n, 4);
                }
            }
        }
    }
    fn check(&mut self) {
        let m = self.m.clone();
        let (x0, x1, y0, y1) = { let b = self.sp().layout.bin.outer.bbox(); (b.x_min as f64, b.x_max as f64, b.y_min as f64, b.y_max as f64) };
        vassert((x0 - m.x0).abs() < 1e-2 && (x1 - m.x1).abs() < 1e-2 && y0 == 0.0 && y1 == H as f64, 10);
        vassert(self.sp().layout.bin.base_cde.config() == cfg(1, 0), 20);
        let (w, h, ow) = { let s = self.sp(); (s.strip_width() as f64, s.strip_height() as f64, s.occupied_width() as f64) };
        vassert((w - (m.x1 - m.x0)).abs() < 2e-2 && h == H as f64, 11);
        let r = self.range();
        vassert(ow == r.1 - r.0 && self.sp().occupied_range().map(|q| (q.0 as f64, q.1 as f64)) == if m.items.is_empty() { None } else { Some(r) }, 12);
        let l = self.p.get_layout(STRIP_LAYOUT_IDX);
        vassert(l.placed_items().len() == m.items.len() && l.cde().dynamic_hazards().len() == m.items.len(), 13);
        for (i, x, y) in &m.items { vassert(l.placed_items().values().any(|p| p.item_id == *i && p.d_transf == dt(*x, *y)), 14); }
        for p in l.placed_items().values() { 
            // nothing but the other items is in the way
            let me = jagua_rs::collision_detection::hazard::HazardEntity::from(p);
            let at = |d: &jagua_rs::geometry::d_transformation::DTransformation| (d.translation().0 as i64, d.translation().1 as i64);
            let near = l.placed_items().values().filter(|q| q.item_id != p.item_id || q.d_transf != p.d_transf).any(|q| regions_meet(&shp(p.item_id), at(&p.d_transf), &shp(q.item_id), at(&q.d_transf)));
            vassert(l.cde().poly_collides(&p.shape, &[me]) == near, 15);
            let all: Vec<_> = l.placed_items().values().map(|q| jagua_rs::collision_detection::hazard::HazardEntity::from(q)).collect();
            vassert(!l.cde().poly_collides(&p.shape, &all), 19);
        }
        for i in 0..3 {
            let n = m.items.iter().filter(|x| x.0 == i).count();
            vassert(self.p.missing_item_qtys()[i] == DEMAND[i] as isize - n as isize && self.p.placed_item_qtys().nth(i) == Some(n), 16);
        }
        let a: i64 = m.items.iter().map(|x| area2(&shp(x.0))).sum();
        vassert((self.p.usage() as f64 - a as f64 / 2.0 / ((m.x1 - m.x0) * H as f64)).abs() < 2e-3, 17);
    }
    fn probe(&mut self) {
        let m = self.m.clone();
        let (x0, x1) = { let b = self.sp().layout.bin.outer.bbox(); (b.x_min as f64, b.x_max as f64) };
        let pr = spoly(&diamond(4));
        let (x, y) = (sym(-20, 160), 12);
        let r = self.p.get_layout(STRIP_LAYOUT_IDX).cde().poly_collides(&pr.transform_clone(&tr(x, y)), &[]);
        vobs(r as i64);
        // the ends of the strip in thousandths
        let (e0, e1) = ((x0 * 1000.0).round() as i64, (x1 * 1000.0).round() as i64);
        let mut want = le((x - 4) * 1000, e0) | ge((x + 4) * 1000, e1);
        for (i, ix, iy) in &m.items { want |= regions_meet(&diamond(4), (x, y), &shp(*i), (*ix, *iy)); }
        vassert(r == want, 18);
        if r { vreach(1) } else { vreach(2) }
    }
}
#[no_mangle]
#[inline(never)]
pub fn sp_hist() {
    let t = tier();
    let mut s = Sp::new(130);
    let pre = choose(2);
    if pre == 1 { for o in [0, 1, 0] { s.op(o); } }
    for _ in 0..(if t { 5 } else { 3 }) { let o = choose(9); s.op(o); }
    s.check();
    s.probe();
    done()
}
#[no_mangle]
#[inline(never)]
pub fn sp_restore() {
    let t = tier();
    let mut s = Sp::new(130);
    for o in [0, 1, 0] { s.op(o); }
    for _ in 0..(if t { 2 } else { 1 }) { let o = choose(9); s.op(o); }
    let sol = s.p.create_solution(None);
    let m = s.m.clone();
    for _ in 0..(if t { 3 } else { 2 }) { let o = choose(9); s.op(o); }
    let again = choose(2) == 1;
    if again { s.p.restore_to_solution(&sol); s.m = m.clone(); s.op(1); s.op(4); let _ = s.p.create_solution(Some(&sol)); }
    s.p.restore_to_solution(&sol);
    s.m = m.clone();
    s.check();
    vassert(sol.layout_snapshots.len() == 1 && sol.layout_snapshots[0].placed_items.len() == m.items.len(), 30);
    for i in 0..3 { vassert(sol.placed_item_qtys[i] == m.items.iter().filter(|x| x.0 == i).count() && sol.target_item_qtys[i] == DEMAND[i], 31); }
    for (i, x, y) in &m.items { vassert(sol.layout_snapshots[0].placed_items.values().any(|p| p.item_id == *i && p.d_transf == dt(*x, *y)), 32); }
    let inst = jagua_rs::entities::instances::instance::Instance::SP(s.sp().instance.clone());
    let q = |i: usize| m.items.iter().filter(|x| x.0 == i).count();
    vassert(sol.n_items_placed() == m.items.len() && sol.is_complete(&inst) == (0..3).all(|i| q(i) >= DEMAND[i]), 33);
    let mi = sol.missing_item_qtys(&inst);
    for i in 0..3 { vassert(mi[i] == DEMAND[i] as isize - q(i) as isize, 34); }
    let a: f64 = m.items.iter().map(|x| area2(&shp(x.0)) as f64 / 2.0).sum();
    vassert((sol.usage as f64 - a / ((m.x1 - m.x0) * H as f64)).abs() < 2e-3, 35);
    s.probe();
    done()
}

// ---------------- rotated items ----------------
type DT = jagua_rs::geometry::d_transformation::DTransformation;
const ROTS: [f64; 5] = [std::f64::consts::FRAC_PI_2, std::f64::consts::PI, -std::f64::consts::FRAC_PI_2, 0.5, -2.0];
fn lay(i: usize) -> Vec<P> { match i { 0 => ell(), 1 => vec![(0, 0), (44, 0), (44, 10), (0, 14)], _ => tri() } }
fn litems() -> Vec<(jagua_rs::entities::item::Item, usize)> { (0..3).map(|i| (mk_item(i, &lay(i), None, SPSurrogateConfig::none()), DEMAND[i])).collect() }
fn turned(i: usize, d: &DT) -> Vec<(f64, f64)> {
    let (s, c) = (d.rotation() as f64).sin_cos();
    let (x, y) = d.translation();
    lay(i).iter().map(|p| (c * p.0 as f64 - s * p.1 as f64 + x as f64, s * p.0 as f64 + c * p.1 as f64 + y as f64)).collect()
}
fn lies(l: &Layout, want: &[(usize, DT)]) -> bool {
    l.placed_items().len() == want.len()
        && want.iter().all(|(i, d)| l.placed_items().values().any(|p| {
            let w = turned(*i, d);
            p.item_id == *i && p.d_transf == *d && p.shape.points.len() == w.len() && p.shape.points.iter().zip(&w).all(|(a, b)| (a.0 as f64 - b.0).abs() < 1e-3 && (a.1 as f64 - b.1).abs() < 1e-3)
        }))
        // and that is where the engine has them
        && want.iter().all(|(i, d)| {
            let w = turned(*i, d);
            // a point just inside the second vertex
            let (a, b, c) = (w[0], w[1], w[2]);
            let (x, y) = (b.0 + (a.0 - b.0) * 0.2 + (c.0 - b.0) * 0.2, b.1 + (a.1 - b.1) * 0.2 + (c.1 - b.1) * 0.2);
            let q = |dx: f64, dy: f64| jagua_rs::geometry::primitives::point::Point((x + dx) as fsize, (y + dy) as fsize);
            let q = jagua_rs::geometry::primitives::simple_polygon::SimplePolygon::new(vec![q(0.0, 0.0), q(0.25, 0.0), q(0.0, 0.25)]);
            let mut v = vec![];
            l.cde().collect_poly_collisions(&q, &[], &mut v);
            v.iter().any(|h| matches!(h, jagua_rs::collision_detection::hazard::HazardEntity::PlacedItem { id, dt, .. } if id == i && dt == d))
        })
}
fn rdt(k: i64, x: f64, y: f64) -> DT { DT::new(ROTS[k as usize] as fsize, (x as fsize, y as fsize)) }
/// C19, C20: rotated items keep rotation and place over width changes, a fit and a restore
#[no_mangle]
#[inline(never)]
pub fn sp_rot() {
    let (ra, i) = (choose(5), choose(3) as usize);
    let rb = (ra + 1 + 2 * choose(2)) % 5;
    let mut p = SPProblem::new(SPInstance::new(litems(), 140.0), 240.0, cfg(3, 0));
    let v: Vec<(usize, DT)> = vec![(i, rdt(ra, 70.25, 60.5)), (2, rdt(rb, 150.75, 71.25))];
    for (i, d) in &v { p.place_item(PlacingOption { layout_idx: STRIP_LAYOUT_IDX, item_id: *i, d_transf: *d }); }
    vassert(lies(&p.layout, &v), 1);
    let sol = p.create_solution(None);
    let ext: Vec<(f64, f64)> = v.iter().map(|(i, d)| turned(*i, d).iter().fold((1e9, -1e9), |a: (f64, f64), q| (a.0.min(q.0), a.1.max(q.0)))).collect();
    let (o, commit) = (choose(4), flip());
    let w = if o < 3 { choose(16) * 15 + 17 } else { 0 };
    let (mut x0, mut x1) = (0.0, 240.0);
    let (a, b) = (ext[0].0.min(ext[1].0), ext[0].1.max(ext[1].1));
    match o {
        0 => { p.modify_strip_in_back(w as fsize); x1 = w as f64 }
        1 => { p.modify_strip_at_front(w as fsize); x0 = 240.0 - w as f64 }
        2 => { p.modify_strip_centered(w as fsize); x0 = (a + b - w as f64) / 2.0; x1 = (a + b + w as f64) / 2.0 }
        _ => { p.fit_strip(); let bb = p.layout.bin.outer.bbox(); x0 = bb.x_min as f64; x1 = bb.x_max as f64; vassert(x0 <= a + 1e-3 && x1 >= b - 1e-3 && x1 - x0 < (b - a) * 1.002, 2) }
    }
    let bb = p.layout.bin.outer.bbox();
    vassert((bb.x_min as f64 - x0).abs() < 1e-2 && (bb.x_max as f64 - x1).abs() < 1e-2, 3);
    // too close to call by rounding, except for the fit, which keeps everything
    let close = ext.iter().any(|e| (e.0 - x0).abs() < 1e-2 || (e.1 - x1).abs() < 1e-2);
    if o == 3 || !close {
        let keep: Vec<(usize, DT)> = v.iter().zip(&ext).filter(|(_, e)| o == 3 || (e.0 > x0 && e.1 < x1)).map(|(x, _)| *x).collect();
        vassert(lies(&p.layout, &keep), 4);
        for j in 0..3 { vassert(p.missing_item_qtys()[j] == DEMAND[j] as isize - keep.iter().filter(|x| x.0 == j).count() as isize, 5); }
        if keep.len() == 2 { vreach(1) } else { vreach(2) }
        for (k, pi) in p.layout.placed_items().clone().iter() {
            let back = p.remove_item(STRIP_LAYOUT_IDX, k, commit);
            vassert(back.item_id == pi.item_id && back.d_transf == pi.d_transf, 6);
            p.place_item(back);
        }
        vassert(lies(&p.layout, &keep), 7);
    }
    p.restore_to_solution(&sol);
    vassert(lies(&p.layout, &v) && p.strip_width() == 240.0, 8);
    done()
}
/// C18, C20: the same in bins, over removal, re-insertion and a restore
#[no_mangle]
#[inline(never)]
pub fn bp_rot() {
    let (ra, rb, i) = (choose(5), choose(5), choose(3) as usize);
    let c = cfg(3, 0);
    let bins = (0..2).map(|b| (Bin::new(b, spoly(&rect(240, 140 + 10 * b as i64)), COST[b], Transformation::empty(), vec![], vec![], c), STOCK[b])).collect();
    let mut p = BPProblem::new(BPInstance::new(litems(), bins));
    let v: Vec<(usize, DT)> = vec![(i, rdt(ra, 70.25, 60.5)), (2, rdt(rb, 150.75, 71.25)), (1, rdt(ra, 80.5, 70.5))];
    let put = |p: &mut BPProblem, l, j: usize| p.place_item(PlacingOption { layout_idx: l, item_id: v[j].0, d_transf: v[j].1 });
    let (l0, k0) = put(&mut p, LayoutIndex::Template(0), 0);
    let (_, k1) = put(&mut p, l0, 1);
    let (l1, k2) = put(&mut p, LayoutIndex::Template(1), 2);
    vassert(lies(&p.layouts()[0], &v[..2]) && lies(&p.layouts()[1], &v[2..]), 1);
    let sol = p.create_solution(None);
    let which = choose(3) as usize;
    let back = p.remove_item([l0, l0, l1][which], [k0, k1, k2][which], flip());
    vassert(back.item_id == v[which].0 && back.d_transf == v[which].1, 2);
    if flip() {
        p.place_item(back);
        vassert(lies(&p.layouts()[0], &v[..2]) && lies(&p.layouts()[1], &v[2..]), 3);
        vreach(1)
    }
    if flip() { let s2 = p.create_solution(Some(&sol)); p.restore_to_solution(&s2); vreach(2) }
    p.restore_to_solution(&sol);
    let at = |b: usize| p.layouts().iter().find(|l| l.bin.id == b).unwrap();
    vassert(p.layouts().len() == 2 && lies(at(0), &v[..2]) && lies(at(1), &v[2..]), 4);
    done()
}
