//! C04 / C07 / C08: histories of layout operations, the hazard proximity grid
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::collision_detection::cd_engine::CDESnapshot;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use std::sync::Arc;

pub static LIST: &[(&str, fn())] = &[("hist", hist), ("hist_cde", hist_cde), ("hist_deep", hist_deep), ("hpg_deep", hpg_deep), ("hpg_hist", hpg_hist), ("hpg_dist", hpg_dist), ("hpg_big", hpg_big), ("hpg_nook", hpg_nook), ("accom", accom), ("accom_round", accom_round), ("accom_grid", accom_grid)];

struct World { items: Vec<Item>, at: Vec<P>, shapes: Vec<Vec<P>>, bins: Vec<Scene>, cfgs: jagua_rs::util::config::CDEConfig }
fn world(hpg: usize, depth: u8) -> World {
    // the fourth is a second copy of the first item
    let shapes = vec![square(24), ell(), gon12(), square(24)];
    // the first two overlap: nodes lie entirely in the one and partially in the other
    let at = vec![(58, 14), (60, 10), (62, 60), (20, 80)];
    let items = shapes.iter().enumerate().map(|(i, s)| mk_item(i % 3, s, None, scfg(if hpg > 0 { [1, 3, 1, 1][i] } else { 1 }, 0, 0))).collect();
    let b0 = Scene { bin: square(128), holes: vec![shifted(&diamond(7), 50, 64)], zones: vec![], items: vec![] };
    let b1 = Scene { bin: rect(160, 120), holes: vec![], zones: vec![(2, vec![shifted(&square(16), 2, 60)])], items: vec![] };
    World { items, at, shapes, bins: vec![b0, b1], cfgs: cfg(depth, hpg) }
}
/// the layout under test with its abstract counterpart
struct Sut<'a> {
    w: &'a World, l: Layout, keys: [Option<PItemKey>; 4], bin: usize,
    snap: Option<(LayoutSnapshot, [Option<PItemKey>; 4], usize)>,
}
const N_OPS: i64 = 10;
impl<'a> Sut<'a> {
    fn new(w: &'a World) -> Self { Sut { w, l: Layout::new(3, mk_bin(&w.bins[0], w.cfgs)), keys: [None; 4], bin: 0, snap: None } }
    fn toggle(&mut self, i: usize, commit: bool) {
        match self.keys[i].take() {
            Some(k) => {
                let p = self.l.remove_item(k, commit);
                vassert(p.item_id == i % 3, 20);
                // a grid with pending changes refuses to be read
                if !commit && self.w.cfgs.hpg_n_cells > 0 { vassert(self.l.cde().haz_prox_grid().is_err(), 21); }
            }
            None => { self.keys[i] = Some(self.l.place_item(&self.w.items[i], dt(self.w.at[i].0, self.w.at[i].1))); }
        }
    }
    fn op(&mut self, o: i64) {
        match o {
            0 => self.toggle(0, false),
            1 => self.toggle(1, false),
            2 => self.toggle(0, true),
            3 => self.toggle(2, true),
            4 => { self.snap = Some((self.l.create_snapshot(), self.keys, self.bin)); self.clean() }
            5 => if let Some((s, k, b)) = &self.snap { self.l.restore(s); self.keys = *k; self.bin = *b; self.clean() },
            6 => self.l.flush_changes(),
            7 => { self.bin = 1 - self.bin; self.l.change_bin(mk_bin(&self.w.bins[self.bin], self.w.cfgs)); }
            // a layout built from a snapshot stands in for the original
            8 if self.present() % 2 == 1 => { let c = self.l.create_snapshot(); let mut old = std::mem::replace(&mut self.l, Layout::from_snapshot(&c)); self.clean(); for k in self.keys.iter().flatten() { old.remove_item(*k, false); } }
            8 => { let c = self.l.clone_with_id(3); let mut old = std::mem::replace(&mut self.l, c); for k in self.keys.iter().flatten() { old.remove_item(*k, true); } }
            _ => self.toggle(3, false),
        }
    }
    /// a snapshot has nothing pending, nor has a layout that was just restored
    fn clean(&self) { if self.w.cfgs.hpg_n_cells > 0 { vassert(self.l.cde().haz_prox_grid().is_ok(), 22); } }
    fn scene(&self) -> Scene {
        let b = &self.w.bins[self.bin];
        Scene { bin: b.bin.clone(), holes: b.holes.clone(), zones: b.zones.clone(), items: (0..4).filter(|i| self.keys[*i].is_some()).map(|i| (self.w.shapes[i].clone(), self.w.at[i])).collect() }
    }
    fn present(&self) -> usize { self.keys.iter().flatten().count() }
}
/// the smaller queries (segments, circles, definite answers) agree with those of a layout built afresh
fn as_fresh(s: &Sut) -> bool {
    let mut f = Layout::new(9, mk_bin(&s.w.bins[s.bin], s.w.cfgs));
    for i in (0..4).rev() { if s.keys[i].is_some() { f.place_item(&s.w.items[i], dt(s.w.at[i].0, s.w.at[i].1)); } }
    let same = |a: &[HazardEntity], b: &[HazardEntity]| a.len() == b.len() && a.iter().all(|e| b.contains(e));
    for (x, y) in [(29, 88), (40, 90), (60, 20), (64, 27), (66, 70), (70, 12), (72, 72), (75, 33), (80, 26), (84, 68)] {
        let (c, e) = (Circle::new(pt(x, y), 2.5), Edge::new(pt(x, y), pt(x + 3, y - 4)));
        let (mut a, mut b) = (vec![], vec![]);
        s.l.cde().hazards_within(&c, &[], &mut a);
        f.cde().hazards_within(&c, &[], &mut b);
        if !same(&a, &b) { return false; }
        a.clear();
        b.clear();
        s.l.cde().hazards_within(&e, &[], &mut a);
        f.cde().hazards_within(&e, &[], &mut b);
        if !same(&a, &b) { return false; }
        if s.l.cde().circle_definitely_collides(&c, &[]) != f.cde().circle_definitely_collides(&c, &[]) { return false; }
        if s.l.cde().edge_definitely_collides(&e, &[]) != f.cde().edge_definitely_collides(&e, &[]) { return false; }
        // also for items that are gone
        for i in 0..4 {
            let h = HazardEntity::PlacedItem { id: i % 3, dt: dt(s.w.at[i].0, s.w.at[i].1) };
            if s.l.cde().point_definitely_collides_with(&pt(x, y), h) != f.cde().point_definitely_collides_with(&pt(x, y), h) { return false; }
        }
    }
    true
}
/// C04: after any short history of place / remove / commit / snapshot / restore / bin change / clone, collision answers
/// equal those of the scene the history describes
#[no_mangle]
#[inline(never)]
pub fn hist() {
    let t = tier();
    let w = world(0, 3);
    let probe = spoly(&diamond(5));
    let mut s = Sut::new(&w);
    let pre = choose(2);
    if pre == 1 { s.toggle(0, false); s.toggle(1, false); s.toggle(2, false); }
    let n = if t { 4 } else if pre == 1 { 3 } else { 2 };
    let mut sum = pre;
    for _ in 0..n { let o = choose(N_OPS); s.op(o); sum += o; }
    // contents
    vassert(s.l.placed_items().len() == s.present(), 1);
    let ents: Vec<HazardEntity> = s.l.cde().dynamic_hazards().iter().map(|h| h.entity).collect();
    vassert(ents.len() == s.present(), 2);
    for i in 0..4 { if let Some(k) = s.keys[i] { let p = &s.l.placed_items()[k]; vassert(p.item_id == i % 3 && ents.contains(&HazardEntity::from(p)), 3); vassert(s.l.hazard_to_p_item_key(&HazardEntity::from(p)) == Some(k), 8); } }
    let a: i64 = (0..4).filter(|i| s.keys[*i].is_some()).map(|i| area2(&w.shapes[i])).sum();
    vassert(near(s.l.usage() as f64, a as f64 / 2.0 / s.l.bin.area as f64) && s.l.id() == 3 && s.l.is_empty() == (s.present() == 0), 9);
    vassert(as_fresh(&s), 10);
    let sc = s.scene();
    let (x, y) = (sym(-4, 132), [24, 70][if t { choose(2) } else { sum % 2 } as usize]);
    let q = probe.transform_clone(&tr(x, y));
    let r = s.l.cde().poly_collides(&q, &[]);
    vobs(r as i64);
    vassert(r == must_collide(&sc, &diamond(5), (x, y), 10), 4);
    // with one of the placed items ignored
    let left: Vec<usize> = (0..4).filter(|i| s.keys[*i].is_some()).collect();
    if !left.is_empty() {
        let i = left[sum as usize / 2 % left.len()];
        let e = HazardEntity::from(&s.l.placed_items()[s.keys[i].unwrap()]);
        let mut sc = sc;
        sc.items.remove(sum as usize / 2 % left.len());
        vassert(s.l.cde().poly_collides(&q, &[e]) == must_collide(&sc, &diamond(5), (x, y), 10), 7);
    }
    let mut v = vec![];
    s.l.cde().collect_poly_collisions(&q, &[], &mut v);
    for i in 0..4 {
        if let Some(k) = s.keys[i] { vassert(v.contains(&HazardEntity::from(&s.l.placed_items()[k])) == regions_meet(&diamond(5), (x, y), &w.shapes[i], w.at[i]), 5); }
    }
    vassert(v.iter().filter(|e| matches!(e, HazardEntity::PlacedItem { .. })).all(|e| ents.contains(e)), 6);
    if r { vreach(1) } else { vreach(2) }
    done()
}
/// long histories over small sets of operations: every item in the layout at the start, a snapshot of that state taken
const ALPHA: [[i64; 3]; 6] = [[0, 4, 5], [0, 1, 4], [1, 2, 5], [0, 3, 8], [0, 7, 5], [9, 1, 5]];
fn deep<'a>(w: &'a World, n: i64) -> (Sut<'a>, i64) {
    let k = choose(6);
    let mut s = Sut::new(w);
    for i in 0..3 { s.toggle(i, false); }
    if k >= 2 { s.op(4); }
    let mut sum = k;
    for _ in 0..n { let o = choose(3); s.op(ALPHA[k as usize][o as usize]); sum += o; }
    (s, sum)
}
#[no_mangle]
#[inline(never)]
pub fn hist_deep() {
    let t = tier();
    let w = world(0, 4);
    let probe = spoly(&diamond(5));
    let (s, sum) = deep(&w, if t { 7 } else { 5 });
    vassert(s.l.placed_items().len() == s.present() && s.l.cde().dynamic_hazards().len() == s.present(), 1);
    vassert(as_fresh(&s), 10);
    let sc = s.scene();
    let (x, y) = (sym(40, 104), [24, 70][if t { choose(2) } else { sum % 2 } as usize]);
    let q = probe.transform_clone(&tr(x, y));
    let r = s.l.cde().poly_collides(&q, &[]);
    vobs(r as i64);
    vassert(r == must_collide(&sc, &diamond(5), (x, y), 10), 4);
    let mut v = vec![];
    s.l.cde().collect_poly_collisions(&q, &[], &mut v);
    for i in 0..4 {
        if let Some(k) = s.keys[i] { vassert(v.contains(&HazardEntity::from(&s.l.placed_items()[k])) == regions_meet(&diamond(5), (x, y), &w.shapes[i], w.at[i]), 5); }
    }
    vassert(v.iter().filter(|e| matches!(e, HazardEntity::PlacedItem { .. })).count() <= s.present(), 6);
    if r { vreach(1) } else { vreach(2) }
    done()
}
/// C07 after the same long histories
#[no_mangle]
#[inline(never)]
pub fn hpg_deep() {
    let t = tier();
    let w = world(if t { 60 } else { 24 }, 1);
    let (s, _) = deep(&w, if t { 7 } else { 6 });
    let mut l = s.l.clone();
    l.flush_changes();
    vassert(l.cde().haz_prox_grid().is_ok(), 1);
    let mut n = 0;
    for c in l.cde().haz_prox_grid().unwrap().grid.cells.iter().flatten() {
        n += 1;
        vassert(close(c.uni_prox.0, direct(c, &l)), 7);
        vassert(!matches!(c.uni_prox.1, HazardEntity::PlacedItem { .. }) || s.keys.iter().flatten().any(|k| HazardEntity::from(&l.placed_items()[*k]) == c.uni_prox.1), 6);
    }
    vobs(n);
    if s.present() > 0 { vreach(1) } else { vreach(2) }
    done()
}
/// C04 on the engine itself: register / deregister with and without commit, explicit commit, snapshot, restore
#[no_mangle]
#[inline(never)]
pub fn hist_cde() {
    let t = tier();
    let w = world(0, 4);
    let probe = spoly(&diamond(5));
    let hz: Vec<Hazard> = (0..4).map(|i| Hazard::new(HazardEntity::PlacedItem { id: i % 3, dt: dt(w.at[i].0, w.at[i].1) }, Arc::new(w.items[i].shape.transform_clone(&tr(w.at[i].0, w.at[i].1))))).collect();
    let mut c = mk_bin(&w.bins[0], w.cfgs).base_cde.as_ref().clone();
    let mut on = [false; 4];
    let mut snap: Option<(CDESnapshot, [bool; 4])> = None;
    for i in 0..3 { c.register_hazard(hz[i].clone()); on[i] = true; }
    for _ in 0..(if t { 5 } else { 3 }) {
        let o = choose(9);
        match o {
            0 | 1 | 2 => { let i = o as usize; if on[i] { c.deregister_hazard(hz[i].entity, false) } else { c.register_hazard(hz[i].clone()) }; on[i] = !on[i]; }
            3 | 4 => { let i = o as usize - 2; if on[i] { c.deregister_hazard(hz[i].entity, true) } else { c.register_hazard(hz[i].clone()) }; on[i] = !on[i]; }
            5 => c.commit_deregisters(),
            6 => snap = Some((c.create_snapshot(), on)),
            7 => if let Some((s, v)) = &snap { c.restore(s); on = *v; },
            _ => { let i = 3; if on[i] { c.deregister_hazard(hz[i].entity, true) } else { c.register_hazard(hz[i].clone()) }; on[i] = !on[i]; }
        }
    }
    let n = on.iter().filter(|x| **x).count();
    vassert(c.dynamic_hazards().len() == n, 1);
    for i in 0..4 { vassert(c.dynamic_hazards().iter().any(|h| h.entity == hz[i].entity) == on[i], 2); }
    let b = &w.bins[0];
    let sc = Scene { bin: b.bin.clone(), holes: b.holes.clone(), zones: vec![], items: (0..4).filter(|i| on[*i]).map(|i| (w.shapes[i].clone(), w.at[i])).collect() };
    let (x, y) = (sym(-4, 132), [24, 70][choose(2) as usize]);
    let q = probe.transform_clone(&tr(x, y));
    let r = c.poly_collides(&q, &[]);
    vobs(r as i64);
    vassert(r == must_collide(&sc, &diamond(5), (x, y), 10), 3);
    if r { vreach(1) } else { vreach(2) }
    done()
}

fn close(a: fsize, b: fsize) -> bool { (a - b).abs() <= 1e-3 * (1.0 + a.abs()) }
/// the proximity of a cell from the definition: static hazards, or the nearest pole of an item in the layout
fn direct(c: &jagua_rs::collision_detection::hpg::hpg_cell::HPGCell, l: &Layout) -> fsize {
    let mut d = c.static_uni_prox.0 as f64;
    for p in l.placed_items().values() {
        for k in &p.shape.surrogate().poles {
            let (x, y) = (k.center.0 as f64 - c.centroid.0 as f64, k.center.1 as f64 - c.centroid.1 as f64);
            d = d.min(((x * x + y * y).sqrt() - k.radius as f64).max(0.0));
        }
    }
    d as fsize
}
/// C07: small items in the notch of a large one come and go; the circle around the poles of the large one covers the notch
#[no_mangle]
#[inline(never)]
pub fn hpg_big() {
    let t = tier();
    let s = Scene { bin: square(200), holes: vec![shifted(&square(10), 90, 90)], zones: vec![], items: vec![] };
    let mut l = Layout::new(0, mk_bin(&s, cfg(1, if t { 120 } else { 64 })));
    let big = mk_item(0, &[(0, 0), (120, 0), (120, 20), (20, 20), (20, 120), (0, 120)], None, scfg(6, 0, 0));
    let small = mk_item(1, &square(6), None, scfg(1, 0, 0));
    let mid = mk_item(2, &diamond(9), None, scfg(1, 0, 0));
    let order = choose(2);
    let kb = if order == 0 { Some(l.place_item(&big, dt(20, 20))) } else { None };
    let at = if t { (42 + 7 * choose(14), 42 + 7 * choose(14)) } else { (42 + 14 * choose(7), 42 + 14 * choose(7)) };
    let a = l.place_item(&small, dt(at.0, at.1));
    let b = l.place_item(&mid, dt(150, 60));
    let kb = kb.unwrap_or_else(|| l.place_item(&big, dt(20, 20)));
    // which are taken away, and how
    match choose(5) {
        0 => { l.remove_item(a, true); }
        1 => { l.remove_item(a, false); l.remove_item(b, false); }
        2 => { l.remove_item(b, true); l.remove_item(kb, false); }
        3 => { let s = l.create_snapshot(); l.remove_item(kb, true); l.remove_item(b, false); l.restore(&s); l.remove_item(a, false); }
        _ => { l.remove_item(kb, false); l.place_item(&big, dt(60, 70)); }
    }
    l.flush_changes();
    let g = l.cde().haz_prox_grid().unwrap();
    let mut n = 0;
    for c in g.grid.cells.iter().flatten() {
        vassert(close(c.uni_prox.0, direct(c, &l)), 1);
        n += 1;
    }
    vobs(n);
    vreach(1);
    done()
}
/// C07: small items next to corners that stick into the bin, where cells of the grid are missing, and between two others
#[no_mangle]
#[inline(never)]
pub fn hpg_nook() {
    let t = tier();
    let s = match choose(3) {
        // two corridors
        0 => Scene { bin: vec![(0, 0), (200, 0), (200, 60), (60, 60), (60, 200), (0, 200)], holes: vec![], zones: vec![], items: vec![] },
        // a slanted edge
        1 => Scene { bin: vec![(0, 0), (200, 0), (0, 200)], holes: vec![], zones: vec![], items: vec![] },
        // a large defect in the middle
        _ => Scene { bin: square(200), holes: vec![shifted(&square(80), 60, 60)], zones: vec![], items: vec![] },
    };
    let mut l = Layout::new(0, mk_bin(&s, cfg(1, 60)));
    let small = mk_item(0, &square(2), None, scfg(1, 0, 0));
    let o = choose(3);
    if o > 0 { l.place_item(&small, dt(20, 40)); }
    if o > 1 { l.place_item(&small, dt(40, 20)); }
    let n = if t { 80 } else { 49 };
    let step = 197 / n; // at most 196 + 2 = 198
    let at = (1 + step * choose(n), 1 + step * choose(n));
    let inb = s.bin.iter().len() > 0 && square(2).iter().all(|c| { let p = (c.0 + at.0, c.1 + at.1); let (i, d) = fdist((p.0 as f64, p.1 as f64), &s.bin); (i | (d < 1e-9)) & s.holes.iter().all(|h| { let (i, d) = fdist((p.0 as f64, p.1 as f64), h); !i | (d < 1e-9) }) });
    if inb {
        l.place_item(&small, dt(at.0, at.1));
        let g = l.cde().haz_prox_grid().unwrap();
        let mut n = 0;
        for c in g.grid.cells.iter().flatten() { vassert(close(c.uni_prox.0, direct(c, &l)), 1); n += 1; }
        vobs(n);
        vreach(1);
    }
    done()
}
/// C07: the proximity grid after any short history equals the grid of a fresh layout with the same contents
#[no_mangle]
#[inline(never)]
pub fn hpg_hist() {
    let t = tier();
    let w = world(if t { 60 } else { 24 }, 1);
    let mut s = Sut::new(&w);
    let pre = choose(2);
    if pre == 1 { s.toggle(0, false); s.toggle(1, false); s.toggle(2, false); }
    let n = if t { 4 } else { 3 };
    for _ in 0..n { let o = choose(N_OPS); s.op(o); }
    // a dirty grid may not be read
    let mut l = s.l.clone();
    l.flush_changes();
    let mut fresh = Layout::new(9, mk_bin(&w.bins[s.bin], w.cfgs));
    for i in (0..4).rev() { if s.keys[i].is_some() { fresh.place_item(&w.items[i], dt(w.at[i].0, w.at[i].1)); } }
    vassert(l.cde().haz_prox_grid().is_ok(), 1);
    let (a, b) = (l.cde().haz_prox_grid().unwrap(), fresh.cde().haz_prox_grid().unwrap());
    vassert(a.grid.cells.len() == b.grid.cells.len(), 2);
    let mut n = 0;
    for (c, d) in a.grid.cells.iter().zip(b.grid.cells.iter()) {
        vassert(c.is_some() == d.is_some(), 3);
        if let (Some(c), Some(d)) = (c, d) {
            n += 1;
            vassert(close(c.uni_prox.0, d.uni_prox.0), 4);
            vassert(close(c.uni_prox.0, direct(c, &l)), 7);
            vassert(c.static_uni_prox.0 == d.static_uni_prox.0 && c.qz_prox == d.qz_prox, 5);
            // the reported nearest hazard is present
            vassert(!matches!(c.uni_prox.1, HazardEntity::PlacedItem { .. }) || s.keys.iter().flatten().any(|k| HazardEntity::from(&l.placed_items()[*k]) == c.uni_prox.1), 6);
        }
    }
    vobs(n);
    if s.present() > 0 { vreach(1) } else { vreach(2) }
    if a.is_dirty() { vreach(3) }
    done()
}

/// distance of a point to a shape given by integer vertices, in f64, independent of the library
fn fdist(p: (f64, f64), poly: &[P]) -> (bool, f64) {
    let mut best = f64::MAX;
    let mut ins = false;
    let n = poly.len();
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        let (ax, ay, bx, by) = (a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64);
        let l2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay);
        let mut t = ((p.0 - ax) * (bx - ax) + (p.1 - ay) * (by - ay)) / l2;
        if t < 0.0 { t = 0.0 }
        if t > 1.0 { t = 1.0 }
        let (cx, cy) = (ax + t * (bx - ax), ay + t * (by - ay));
        let d = ((p.0 - cx) * (p.0 - cx) + (p.1 - cy) * (p.1 - cy)).sqrt();
        if d < best { best = d }
        if (ay > p.1) != (by > p.1) { let x = ax + (p.1 - ay) / (by - ay) * (bx - ax); if p.0 < x { ins = !ins } }
    }
    (ins, best)
}
/// C07: proximities of a grid cell are the distances to the nearest hazard of each kind; the placed item moves symbolically
#[no_mangle]
#[inline(never)]
pub fn hpg_dist() {
    let t = tier();
    let k = choose(3);
    let s = if k == 2 {
        // defects that touch the border and each other, some larger than a cell
        Scene { bin: square(128), holes: vec![shifted(&square(26), 1, 60), shifted(&square(12), 60, 112), shifted(&square(15), 108, 108)], zones: vec![(2, vec![shifted(&square(40), 60, 60)]), (4, vec![shifted(&square(30), 66, 66)])], items: vec![] }
    } else if k == 0 {
        Scene { bin: square(128), holes: vec![shifted(&diamond(7), 50, 64)], zones: vec![(0, vec![shifted(&square(10), 90, 90)]), (3, vec![shifted(&tri(), 20, 100), shifted(&square(8), 110, 10)])], items: vec![] }
    } else {
        Scene { bin: vec![(0, 0), (120, 10), (128, 90), (60, 128), (0, 80)], holes: vec![], zones: vec![(9, vec![shifted(&square(10), 30, 50)])], items: vec![] }
    };
    let mut l = Layout::new(0, mk_bin(&s, cfg(1, if t { 80 } else { 30 })));
    let it = mk_item(0, &square(16), None, scfg(1, 0, 0));
    let other = mk_item(1, &diamond(9), None, scfg(1, 0, 0));
    // placed in either order
    let first = choose(2);
    let m = sym(20, if t { 90 } else { 40 });
    if first == 0 { l.place_item(&other, dt(100, 50)); }
    l.place_item(&it, dt(m, 40));
    if first == 1 { l.place_item(&other, dt(100, 50)); }
    let poles: Vec<_> = [(&it, (m, 40)), (&other, (100, 50))].iter().flat_map(|(i, o)| i.shape.surrogate().poles.iter().map(|p| ((p.center.0 as f64 + o.0 as f64, p.center.1 as f64 + o.1 as f64), p.radius as f64)).collect::<Vec<_>>()).collect();
    let g = l.cde().haz_prox_grid().unwrap();
    let mut n = 0;
    for c in g.grid.cells.iter().flatten() {
        let p = (c.centroid.0 as f64, c.centroid.1 as f64);
        let (ins, d) = fdist(p, &s.bin);
        let mut st = if ins { d } else { 0.0 };
        for h in &s.holes { let (i, d) = fdist(p, h); st = st.min(if i { 0.0 } else { d }); }
        let mut un = st;
        for (q, r) in &poles { let d = (((p.0 - q.0) * (p.0 - q.0) + (p.1 - q.1) * (p.1 - q.1)).sqrt() - r).max(0.0); un = un.min(d); }
        vassert(close(c.static_uni_prox.0, st as fsize), 1);
        vassert(close(c.uni_prox.0, un as fsize), 2);
        // per quality
        let mut best = un;
        for q in 0..=10usize {
            vassert(close(c.hazard_proximity(Some(q)), best as fsize), 3);
            for (z, zs) in &s.zones { if *z == q { for h in zs { let (i, d) = fdist(p, h); best = best.min(if i { 0.0 } else { d }); } } }
        }
        vassert(close(c.hazard_proximity(None), best as fsize), 4);
        n += 1;
    }
    vobs(n);
    vreach(1);
    done()
}

/// C08: no cell that contains the pole of inaccessibility of a feasible placement is excluded
#[no_mangle]
#[inline(never)]
pub fn accom() {
    let t = tier();
    let (k, i, n) = if t { (choose(9), choose(9), [30, 120][choose(2) as usize]) } else { [(2, 0, 40), (4, 1, 30), (8, 5, 60), (3, 2, 25), (6, 0, 80), (5, 7, 40)][choose(6) as usize] };
    let s = scene(k);
    let mut l = Layout::new(0, mk_bin(&s, cfg(2, n)));
    for (j, (sh, o)) in s.items.iter().enumerate() { l.place_item(&mk_item(j, sh, None, scfg(3, 0, 0)), dt(o.0, o.1)); }
    let it = item_shape(i);
    let bq = [None, Some(0), Some(2)][choose(3) as usize];
    let item = mk_item(50, &it, bq, scfg(1, 0, 0));
    let g = l.cde().haz_prox_grid().unwrap();
    let ok: Vec<bool> = g.grid.cells.iter().map(|c| c.as_ref().map_or(false, |c| c.could_accommodate_item(&item))).collect();
    let vert = flip();
    let line = [31, 60, 100][choose(3) as usize];
    let m = sym(-10, 256);
    let o = if vert { (line, m) } else { (m, line) };
    let c = item.shape.poi.center;
    let p = jagua_rs::geometry::primitives::point::Point(c.0 + o.0 as fsize, c.1 + o.1 as fsize);
    let mut covered = false;
    for (c, ok) in g.grid.cells.iter().zip(&ok) { if let Some(c) = c { if *ok && c.bbox.collides_with(&p) { covered = true; break; } } }
    let bad = must_collide(&s, &it, o, bq.unwrap_or(10));
    vassert(covered | bad, 1);
    vobs(covered as i64);
    if covered { vreach(1) } else { vreach(2) }
    if ok.iter().any(|x| !x) { vreach(3) }
    done()
}
/// C08: a round item whose inner circle is larger than the cells, moving past a point-like hazard
#[no_mangle]
#[inline(never)]
pub fn accom_round() {
    let t = tier();
    let h = [(108, 108), (92, 91), (100, 100), (106, 112), (117, 96)][choose(5) as usize];
    let n = [36, 100, 64, 200][choose(if t { 4 } else { 3 }) as usize];
    let it = if t && flip() { scaled(&gon12(), 2) } else { gon12() };
    let kind = choose(3);
    // a hole, a zone or a placed item
    let (mut s, hz) = (Scene { bin: square(200), holes: vec![], zones: vec![], items: vec![] }, shifted(&diamond(2), h.0, h.1));
    match kind { 0 => s.holes.push(hz), 1 => s.zones.push((1, vec![hz])), _ => s.items.push((diamond(2), h)) }
    let mut l = Layout::new(0, mk_bin(&s, cfg(1, n)));
    for (j, (sh, o)) in s.items.iter().enumerate() { l.place_item(&mk_item(j, sh, None, scfg(1, 0, 0)), dt(o.0, o.1)); }
    let item = mk_item(50, &it, Some(2), scfg(1, 0, 0));
    let g = l.cde().haz_prox_grid().unwrap();
    let ok: Vec<bool> = g.grid.cells.iter().map(|c| c.as_ref().map_or(false, |c| c.could_accommodate_item(&item))).collect();
    // the item's centre passes the hazard along a line
    let c = item.shape.poi.center;
    let (dx, dy) = [(1, 1), (1, -1), (1, 0), (0, 1)][choose(4) as usize];
    let off = [0, 5, -5][choose(3) as usize];
    let m = sym(-60, 60);
    let o = (h.0 - 24 + m * dx + off * dy, h.1 - 28 + m * dy - off * dx);
    let p = jagua_rs::geometry::primitives::point::Point(c.0 + o.0 as fsize, c.1 + o.1 as fsize);
    let mut covered = false;
    for (c, ok) in g.grid.cells.iter().zip(&ok) { if let Some(c) = c { if *ok && c.bbox.collides_with(&p) { covered = true; break; } } }
    vassert(covered | must_collide(&s, &it, o, 2), 1);
    vobs(covered as i64);
    if covered { vreach(1) } else { vreach(2) }
    if ok.iter().any(|x| !x) { vreach(3) }
    done()
}
/// C08: exclusion itself is symbolic: the hazard moves
#[no_mangle]
#[inline(never)]
pub fn accom_grid() {
    let s = Scene { bin: square(128), holes: vec![], zones: vec![], items: vec![(diamond(12), (0, 0))] };
    let bin = mk_bin(&s, cfg(1, 36));
    let haz = mk_item(0, &diamond(12), None, scfg(1, 0, 0));
    let item = mk_item(1, &square(24), None, scfg(1, 0, 0));
    let m = sym(12, 116);
    let mut l = Layout::new(0, bin);
    l.place_item(&haz, dt(m, 60));
    // candidate positions of the item: a lattice
    let g = l.cde().haz_prox_grid().unwrap();
    let o = [(10, 50), (40, 40), (52, 50), (76, 70), (100, 20)][choose(5) as usize];
    let c = item.shape.poi.center;
    let p = jagua_rs::geometry::primitives::point::Point(c.0 + o.0 as fsize, c.1 + o.1 as fsize);
    let mut covered = false;
    for c in g.grid.cells.iter().flatten() { if c.bbox.collides_with(&p) && c.could_accommodate_item(&item) { covered = true; break; } }
    let bad = regions_meet(&square(24), o, &diamond(12), (m, 60));
    vassert(covered | bad, 1);
    vobs(covered as i64);
    if covered { vreach(1) } else { vreach(2) }
    done()
}
