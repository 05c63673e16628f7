//! Collision detection engine: exactness, fail-fast, collection, filters, definite queries
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use tribool::Tribool;

pub static LIST: &[(&str, fn())] = &[
    ("col_exact", col_exact), ("col_haz", col_haz), ("surr", surr), ("surr_irr", surr_irr), ("irr", irr), ("def_edge_irr", def_edge_irr), ("def_circ_irr", def_circ_irr), ("collect_exact", collect_exact), ("collect_buf", collect_buf), ("collect_irr", collect_irr), ("within", within), ("qz", qz), ("def_point", def_point), ("def_edge", def_edge), ("def_circ", def_circ),
];
/// quick table: scene, item, tree depth
static CASES: [(i64, i64, u8); 15] = [
    (9, 3, 4), (0, 0, 3), (0, 6, 0), (1, 1, 4), (1, 7, 3), (2, 2, 4), (2, 5, 6), (3, 0, 3), (3, 4, 4), (4, 1, 3), (5, 5, 4), (6, 0, 4), (6, 5, 1), (7, 3, 4), (7, 2, 1),
];
/// thorough: every scene x item, with a tree depth spread over the table
fn case(cases: &[(i64, i64, u8)]) -> (i64, i64, u8) {
    if tier() {
        let k = choose(10);
        let i = choose(9);
        (k, i, [0, 1, 3, 4, 6][((k * 3 + i * 2) % 5) as usize])
    } else {
        cases[choose(cases.len() as i64) as usize]
    }
}

/// C01: poly_collides is exact, for every scene x item x tree depth x integer position
#[no_mangle]
#[inline(never)]
pub fn col_exact() {
    let (k, i, d) = case(&CASES);
    // as is, or everything in tiny units
    if flip() { set_unit(1.0 / 1024.0) }
    let s = scene(k);
    let l = mk_layout(&s, cfg(d, 0));
    let it = item_shape(i);
    let ip = spoly(&it);
    let x = sym(-80, 280);
    let y = sym(-80, 280);
    let q = ip.transform_clone(&tr(x, y));
    let r = l.cde().poly_collides(&q, &[]);
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    vassert(r == must_collide(&s, &it, (x, y), 10), 1);
    done()
}

/// C01: the hazard moves, the item stays: every integer position of the placed item
#[no_mangle]
#[inline(never)]
pub fn col_haz() {
    let t = tier();
    let n = if t { 8 } else { 4 };
    let (hk, ik, d): (i64, i64, u8) = [(1, 0, 3), (5, 5, 5), (2, 1, 2), (0, 3, 1), (4, 2, 3), (3, 0, 2), (7, 5, 3), (6, 1, 2)][choose(n) as usize];
    let mut s = Scene { bin: square(128), holes: vec![], zones: vec![], items: vec![] };
    if t { s.holes.push(shifted(&diamond(6), 30, 90)); }
    let (hx, hy) = (sym(-20, 130), sym(-20, 130));
    s.items.push((item_shape(hk), (hx, hy)));
    let l = mk_layout(&s, cfg(d, 0));
    let it = item_shape(ik);
    let o = [(40, 44), (72, 33)][choose(2) as usize];
    let q = spoly(&it).transform_clone(&tr(o.0, o.1));
    let r = l.cde().poly_collides(&q, &[]);
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    vassert(r == must_collide(&s, &it, o, 10), 1);
    done()
}

/// a reference shape with generated poles and a hand-picked pier (pier generation is far too long to interpret; see C15)
fn surr_poly(i: i64, poles: usize, ff: usize) -> SimplePolygon {
    let mut p = spoly(&item_shape(i));
    p.generate_surrogate(scfg(poles, ff, 0));
    let ((a, b), (c, d)): (P, P) = [((2, 2), (14, 13)), ((3, 3), (14, 10)), ((2, 6), (38, 6)), ((4, 8), (60, 8)), ((10, 7), (50, 29)), ((-3, -1), (3, 2)), ((26, 32), (42, 34)), ((10, 20), (46, 30)), ((4, 4), (52, 4))][i as usize];
    p.surrogate.as_mut().unwrap().piers.push(Edge::new(pt(a, b), pt(c, d)));
    p
}
static SURR: [(i64, i64, u8); 10] = [(0, 0, 3), (1, 0, 3), (2, 1, 4), (6, 0, 4), (3, 5, 3), (5, 2, 3), (0, 7, 4), (7, 5, 4), (2, 8, 2), (4, 4, 3)];
/// C02: the surrogate check never rejects a feasible placement, and the combined check equals the exact one
#[no_mangle]
#[inline(never)]
pub fn surr() {
    let t = tier();
    let (k, i, d) = if t { (choose(9), choose(9), 4) } else { SURR[choose(10) as usize] };
    let s = scene(k);
    let l = mk_layout(&s, cfg(d, 0));
    let it = item_shape(i);
    let shape = surr_poly(i, [3, 1, 5][(i % 3) as usize], [2, 1, 0][(i % 3) as usize]);
    // the surrogate's circles have irrational radii: one coordinate symbolic, the other over a few lines
    let vert = flip();
    let line = if t { [9, 31, 64, 77, 90, 118, 150, 201][choose(8) as usize] } else { [31, 90][choose(2) as usize] };
    let m = sym(-70, 270);
    let (x, y) = if vert { (line, m) } else { (m, line) };
    let want = must_collide(&s, &it, (x, y), 10);
    let sc = l.cde().surrogate_collides(shape.surrogate(), &tr(x, y), &[]);
    vassert(!sc | want, 1);
    // the buffer still holds an earlier placement
    let mut buf = shape.transform_clone(&tr(31, -7));
    let both = l.cde().surrogate_or_poly_collides(&shape, &tr(x, y), &mut buf, &[]);
    vassert(both == want, 2);
    vobs(sc as i64 + 2 * both as i64);
    if sc { vreach(1) }
    if both && !sc { vreach(2) }
    if !both { vreach(3) }
    done()
}

static COLL: [(i64, i64, u8); 12] = [(9, 3, 4), (8, 0, 3), (8, 1, 6), (8, 5, 1), (8, 2, 4), (2, 2, 3), (4, 0, 3), (6, 0, 4), (1, 5, 4), (3, 1, 2), (7, 0, 5), (5, 5, 3)];
/// C03: collecting collisions returns exactly the colliding hazards
#[no_mangle]
#[inline(never)]
pub fn collect_exact() {
    let (k, i, d) = case(&COLL);
    if (k + i + d as i64) % 3 == 0 { set_unit(1.0 / 1024.0) }
    let s = scene(k);
    let l = mk_layout(&s, cfg(d, 0));
    let it = item_shape(i);
    let ip = spoly(&it);
    let x = sym(-80, 280);
    let y = sym(-80, 280);
    let q = ip.transform_clone(&tr(x, y));
    let mut v = vec![];
    l.cde().collect_poly_collisions(&q, &[], &mut v);
    let o = (x, y);
    let mut ok = true;
    let z = (0, 0);
    let has = |e: HazardEntity| v.contains(&e);
    ok &= has(HazardEntity::BinExterior) == leaves(&it, o, &s.bin, z);
    for (j, h) in s.holes.iter().enumerate() { ok &= has(HazardEntity::BinHole { id: j }) == regions_meet(&it, o, h, z); }
    for (_, pi) in l.placed_items().iter() {
        let (sh, io) = &s.items[pi.item_id];
        ok &= has(HazardEntity::from(pi)) == regions_meet(&it, o, sh, *io);
    }
    for (q, zs) in s.zones.iter() { for (j, h) in zs.iter().enumerate() { ok &= has(HazardEntity::InferiorQualityZone { quality: *q, id: j }) == regions_meet(&it, o, h, z); } }
    vobs(v.len() as i64);
    vassert(ok & !dups(&v), 1);
    if v.is_empty() { vreach(1) }
    if v.len() > 1 { vreach(2) }
    done()
}
fn dups(v: &[HazardEntity]) -> bool {
    let mut dup = false;
    for a in 0..v.len() { for b in 0..a { dup |= v[a] == v[b]; } }
    dup
}
/// C03: ignored hazards, a buffer with earlier content, surrogate collection and rectangle/edge/circle collection
#[no_mangle]
#[inline(never)]
pub fn collect_buf() {
    let s = scene(8);
    let l = mk_layout(&s, cfg(4, 0));
    let all: Vec<HazardEntity> = l.cde().all_hazards().map(|h| h.entity).collect();
    let n = all.len() as i64; // exterior, hole, 2 zones, 3 items
    vassert(n == 7, 9);
    let ign = all[choose(n) as usize];
    let pre = all[((all.iter().position(|e| *e == ign).unwrap() as i64 + 1 + choose(2) * 3) % n) as usize];
    let k = choose(2);
    let shape = surr_poly([0, 5][k as usize], 3, 2);
    let it = item_shape([0, 5][k as usize]);
    let (x, y) = (sym(7, 100), [20, 50][choose(2) as usize]);
    let q = spoly(&it).transform_clone(&tr(x, y));
    // reference: nothing ignored, nothing in the buffer
    let mut base = vec![];
    l.cde().collect_poly_collisions(&q, &[], &mut base);
    let mut v = vec![pre];
    l.cde().collect_poly_collisions(&q, &[ign], &mut v);
    vassert(v[0] == pre && !dups(&v) && !v.contains(&ign), 1);
    for e in &all { if *e != ign && *e != pre { vassert(v.contains(e) == base.contains(e), 2); } }
    vassert(l.cde().poly_collides(&q, &[ign]) == base.iter().any(|e| *e != ign), 3);
    vassert(!l.cde().poly_collides(&q, &all), 4);
    // the surrogate reports a subset of the colliding hazards
    let mut w = vec![pre];
    l.cde().collect_surrogate_collisions(shape.surrogate(), &tr(x, y), &[ign], &mut w);
    vassert(w[0] == pre && !dups(&w) && !w.contains(&ign), 5);
    for e in &w[1..] { vassert(base.contains(e), 6); }
    vobs(v.len() as i64);
    vobs(w.len() as i64);
    if v.len() > 3 { vreach(1) }
    if w.len() > 2 { vreach(2) }
    done()
}

/// the hazards of scene 8 that a shape (region test `f`) meets, in the order of `IGN`
fn scene8(s: &Scene, ext: bool, f: &dyn Fn(&[P], P) -> bool) -> [bool; 7] {
    let z = (0, 0);
    [ext, f(&s.holes[0], z), f(&s.zones[0].1[0], z), f(&s.zones[0].1[1], z), f(&s.items[0].0, s.items[0].1), f(&s.items[1].0, s.items[1].1), f(&s.items[2].0, s.items[2].1)]
}
fn at8(e: &HazardEntity) -> usize {
    match e { HazardEntity::BinExterior => 0, HazardEntity::BinHole { .. } => 1, HazardEntity::InferiorQualityZone { id, .. } => 2 + id, HazardEntity::PlacedItem { id, .. } => 4 + id }
}
/// what a buffer held before the call: entries, some of them ignored as well
static PRE: [[u8; 7]; 4] = [[0, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 1, 0], [1, 0, 0, 1, 1, 0, 1], [0, 1, 1, 0, 1, 0, 1]];
/// C03: collecting with sets of ignored hazards and buffers holding several entries
#[no_mangle]
#[inline(never)]
pub fn collect_irr() {
    let s = scene(8);
    let k = choose(3) as usize;
    let l = mk_layout(&s, cfg([3, 5, 2][k], 0));
    let i = [0, 5, 2][k];
    let it = item_shape(i);
    let shape = surr_poly(i, 3, 2);
    let im = choose(10) as usize;
    let m = &IGN[im];
    let pre = &PRE[(im + 2 * choose(2) as usize + k) % 4];
    let ign = ign_of(m, &l);
    let held = ign_of(pre, &l);
    let vert = flip();
    let q = sym(-20, 130);
    let o = if vert { (62, q) } else { (q, 22) };
    let q = spoly(&it).transform_clone(&tr(o.0, o.1));
    let meets = scene8(&s, leaves(&it, o, &s.bin, (0, 0)), &|h, a| regions_meet(&it, o, h, a));
    let mut v = held.clone();
    l.cde().collect_poly_collisions(&q, &ign, &mut v);
    let mut w = held.clone();
    l.cde().collect_surrogate_collisions(shape.surrogate(), &tr(o.0, o.1), &ign, &mut w);
    vobs(v.len() as i64);
    vobs(w.len() as i64);
    vassert(v.len() >= held.len() && w.len() >= held.len() && (0..held.len()).all(|j| v[j] == held[j] && w[j] == held[j]), 1);
    vassert(!dups(&v) && !dups(&w), 2);
    let (nv, nw) = (&v[held.len()..], &w[held.len()..]);
    let (mut ok, mut sub) = (true, true);
    for h in l.cde().all_hazards() {
        let j = at8(&h.entity);
        if pre[j] == 1 { continue; }
        ok &= nv.contains(&h.entity) == (meets[j] & (m[j] == 0));
        sub &= !nw.contains(&h.entity) | (meets[j] & (m[j] == 0));
    }
    vassert(ok, 3);
    vassert(sub, 4);
    if nv.len() > 1 { vreach(1) }
    if nw.len() > 1 { vreach(2) }
    if nv.is_empty() { vreach(3) }
    done()
}
/// C03: hazards touched by a segment, with ignored hazards and a buffer in use
#[no_mangle]
#[inline(never)]
pub fn within() {
    let s = scene(8);
    let l = mk_layout(&s, cfg([2, 4][choose(2) as usize], 0));
    let m = &IGN[choose(10) as usize];
    let pre = &PRE[choose(4) as usize];
    let ign = ign_of(m, &l);
    let held = ign_of(pre, &l);
    let v = [(20, 0), (3, -9), (-13, 30)][choose(3) as usize];
    let vert = flip();
    let line = [-12, 22, 62][choose(3) as usize];
    let k = sym(-30, 150);
    let p = if vert { (line, k) } else { (k, line) };
    let e = Edge::new(pt(p.0, p.1), pt(p.0 + v.0, p.1 + v.1));
    let mut r = held.clone();
    l.cde().hazards_within(&e, &ign, &mut r);
    vobs(r.len() as i64);
    vassert(r.len() >= held.len() && (0..held.len()).all(|j| r[j] == held[j]) && !dups(&r), 1);
    let n = &r[held.len()..];
    // every hazard returned is met, every one whose border is crossed is returned
    let z = (0, 0);
    let meets = scene8(&s, seg_leaves(p, v, &s.bin, z), &|h, a| seg_meets(p, v, h, a));
    // (parallel edges are the documented exception: they never count as crossing)
    let cross = |h: &[P], a: P| {
        let mut r = false;
        for i in 0..h.len() {
            let (q, w) = (h[i], sub(h[(i + 1) % h.len()], h[i]));
            if cross(v, w) != 0 { r |= seg_touch(p, v, add(q, a), w); }
        }
        r
    };
    let out = (lt(p.0, 0) & lt(p.0 + v.0, 0)) | (gt(p.0, 128) & gt(p.0 + v.0, 128)) | (lt(p.1, 0) & lt(p.1 + v.1, 0)) | (gt(p.1, 128) & gt(p.1 + v.1, 128));
    let border = scene8(&s, out | cross(&s.bin, z), &cross);
    let (mut sound, mut complete) = (true, true);
    for h in l.cde().all_hazards() {
        let j = at8(&h.entity);
        if m[j] == 1 { sound &= !n.contains(&h.entity); continue; }
        if pre[j] == 1 { continue; }
        sound &= !n.contains(&h.entity) | meets[j];
        complete &= n.contains(&h.entity) | !border[j];
    }
    vassert(sound, 2);
    vassert(complete, 3);
    if n.len() > 1 { vreach(1) }
    if n.is_empty() { vreach(2) }
    done()
}

/// C05: only zones of inferior quality bind an item; filters remove exactly what they say
#[no_mangle]
#[inline(never)]
pub fn qz() {
    let s = Scene {
        bin: square(128), holes: vec![shifted(&diamond(8), 100, 100), shifted(&square(5), 2, 60), shifted(&square(5), 64, 112)],
        zones: vec![(0, vec![shifted(&square(20), 8, 8)]), (1, vec![shifted(&tri(), 50, 16), shifted(&diamond(10), 20, 90), shifted(&square(9), 90, 70)]), (3, vec![shifted(&ell(), 70, 40)]), (9, vec![shifted(&square(16), 100, 4)])],
        items: vec![(square(24), (30, 50))],
    };
    let mut l = mk_layout(&s, cfg([2, 4][choose(2) as usize], 0));
    // the same item once more
    l.place_item(&mk_item(0, &s.items[0].0, None, scfg(1, 1, 0)), dt(60, 84));
    let mut s = s;
    s.items.push((square(24), (60, 84)));
    // every hazard can be told apart from the others, and is where it belongs
    let all: Vec<_> = l.cde().all_hazards().map(|h| h.entity).collect();
    vassert(all.len() == 12 && (0..12).all(|i| (0..i).all(|j| all[i] != all[j])), 6);
    for h in l.cde().all_hazards() {
        let w = match h.entity {
            HazardEntity::BinExterior => s.bin.clone(),
            HazardEntity::BinHole { id } => s.holes[id].clone(),
            HazardEntity::InferiorQualityZone { quality, id } => s.zones.iter().find(|z| z.0 == quality).unwrap().1[id].clone(),
            HazardEntity::PlacedItem { dt: d, .. } => { let i = if d == dt(60, 84) { 1 } else { 0 }; shifted(&s.items[i].0, s.items[i].1.0, s.items[i].1.1) }
        };
        vassert(w.len() == h.shape.points.len() && w.iter().all(|p| h.shape.points.contains(&pt(p.0, p.1))), 7);
    }
    let q = choose(12); // 11: no base quality: every zone binds
    let it = item_shape([5, 1][choose(2) as usize]);
    let vert = flip();
    let line = [20, 56, 100][choose(3) as usize];
    let m = sym(-4, 128);
    let o = if vert { (line, m) } else { (m, line) };
    let bq = if q == 11 { None } else { Some(q as usize) };
    let item = mk_item(5, &it, bq, scfg(2, 1, 0));
    // the filter of the item as applied by the library
    let irr = match &item.hazard_filter { None => vec![], Some(f) => generate_irrelevant_hazards(f, l.cde().all_hazards()) };
    let p = item.shape.transform_clone(&tr(o.0, o.1));
    let r = l.cde().poly_collides(&p, &irr);
    vassert(r == must_collide(&s, &it, o, if q == 11 { 10 } else { q as usize }), 1);
    vassert(!l.cde().surrogate_collides(item.shape.surrogate(), &tr(o.0, o.1), &irr) | r, 2);
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    // bin filter: only the items remain; entity filter; combination
    let bf = generate_irrelevant_hazards(&BinHazardFilter, l.cde().all_hazards());
    vassert(l.cde().poly_collides(&p, &bf) == (regions_meet(&it, o, &s.items[0].0, s.items[0].1) | regions_meet(&it, o, &s.items[1].0, s.items[1].1) | outside_cde(&it, o)), 3);
    let ent = EntityHazardFilter(l.placed_items().values().filter(|p| p.d_transf == dt(60, 84)).map(|p| HazardEntity::from(p)).collect());
    let ef = generate_irrelevant_hazards(&ent, l.cde().all_hazards());
    vassert(ef.len() == 1 && ef == ent.0, 4);
    let qf = QZHazardFilter(q as usize);
    let comb = CombinedHazardFilter { filters: vec![Box::new(&ent), Box::new(&qf)] };
    let cf = generate_irrelevant_hazards(&comb, l.cde().all_hazards());
    for h in l.cde().all_hazards() {
        let zone = match h.entity { HazardEntity::InferiorQualityZone { quality, .. } => quality >= q as usize, _ => false };
        vassert(cf.contains(&h.entity) == (zone || ef.contains(&h.entity)), 5);
    }
    done()
}
/// not completely inside the area the engine covers (scene `qz`: the bin itself)
fn outside_cde(it: &[P], o: P) -> bool {
    let (x0, x1) = (it.iter().map(|p| p.0).min().unwrap(), it.iter().map(|p| p.0).max().unwrap());
    let (y0, y1) = (it.iter().map(|p| p.1).min().unwrap(), it.iter().map(|p| p.1).max().unwrap());
    lt(o.0 + x0, 0) | gt(o.0 + x1, 128) | lt(o.1 + y0, 0) | gt(o.1 + y1, 128)
}

/// scene 8 with some of its hazards ignored: [exterior, hole, zone 0, zone 1, item 0, item 1, item 2]
static IGN: [[u8; 7]; 10] = [
    [0, 0, 0, 0, 0, 1, 0], [0, 1, 1, 0, 0, 1, 0], [1, 1, 1, 1, 1, 1, 0], [1, 1, 1, 1, 1, 1, 1], [1, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 1, 1, 0, 0], [0, 0, 1, 1, 0, 0, 0], [0, 0, 0, 0, 1, 1, 1], [0, 1, 0, 0, 1, 1, 0], [1, 0, 1, 0, 0, 1, 1],
];
fn ign_of(m: &[u8; 7], l: &jagua_rs::entities::layout::Layout) -> Vec<HazardEntity> {
    let mut v: Vec<HazardEntity> = l.cde().all_hazards().map(|h| h.entity).filter(|e| m[match e {
        HazardEntity::BinExterior => 0,
        HazardEntity::BinHole { .. } => 1,
        HazardEntity::InferiorQualityZone { id, .. } => 2 + id,
        HazardEntity::PlacedItem { id, .. } => 4 + id,
    }] == 1).collect();
    v.reverse();
    v
}
/// the scene that remains; without its exterior only the area covered by the engine bounds the item
fn remains(m: &[u8; 7]) -> Scene {
    let mut s = scene(8);
    if m[1] == 1 { s.holes.clear(); }
    let z: Vec<_> = s.zones[0].1.iter().enumerate().filter(|(i, _)| m[2 + i] == 0).map(|(_, z)| z.clone()).collect();
    s.zones = vec![(1, z)];
    s.items = s.items.into_iter().enumerate().filter(|(i, _)| m[4 + i] == 0).map(|(_, z)| z).collect();
    if m[0] == 1 { s.bin = shifted(&square(100_000), -50_000, -50_000); }
    s
}
/// C02: with ignored hazards the surrogate rejects only what the remaining hazards reject
#[no_mangle]
#[inline(never)]
pub fn surr_irr() {
    let s = scene(8);
    let l = mk_layout(&s, cfg([2, 4][choose(2) as usize], 0));
    let i = [0, 5, 1][choose(3) as usize];
    let it = item_shape(i);
    let shape = surr_poly(i, 3, [2, 1, 0][(i % 3) as usize]);
    let m = &IGN[choose(10) as usize];
    let ign = ign_of(m, &l);
    let rest = remains(m);
    let vert = flip();
    let line = [22, 70][choose(2) as usize];
    let k = sym(-20, 130);
    let (x, y) = if vert { (line, k) } else { (k, line) };
    let mut want = must_collide(&rest, &it, (x, y), 10);
    if m[0] == 1 { want |= outside_cde(&it, (x, y)); }
    let sc = l.cde().surrogate_collides(shape.surrogate(), &tr(x, y), &ign);
    vassert(!sc | want, 1);
    let mut buf = shape.clone();
    let both = l.cde().surrogate_or_poly_collides(&shape, &tr(x, y), &mut buf, &ign);
    vassert(both == want, 2);
    vobs(sc as i64 + 2 * both as i64);
    if sc { vreach(1) }
    if both && !sc { vreach(2) }
    if !both { vreach(3) }
    done()
}
/// C05: with ignored hazards every query answers as if they were not there
#[no_mangle]
#[inline(never)]
pub fn irr() {
    let s = scene(8);
    let l = mk_layout(&s, cfg([1, 3, 5][choose(3) as usize], 0));
    let it = item_shape([5, 0, 2][choose(3) as usize]);
    let m = &IGN[choose(10) as usize];
    let ign = ign_of(m, &l);
    let rest = remains(m);
    let o = (sym(-10, 130), sym(-10, 130));
    let q = spoly(&it).transform_clone(&tr(o.0, o.1));
    let mut want = must_collide(&rest, &it, o, 10);
    if m[0] == 1 { want |= outside_cde(&it, o); }
    let r = l.cde().poly_collides(&q, &ign);
    vobs(r as i64);
    vassert(r == want, 1);
    if r { vreach(1) } else { vreach(2) }
    done()
}
/// C06: definite answers about a segment when hazards are ignored
#[no_mangle]
#[inline(never)]
pub fn def_edge_irr() {
    let s = scene(8);
    let l = mk_layout(&s, cfg([2, 4][choose(2) as usize], 0));
    let m = &IGN[choose(10) as usize];
    let ign = ign_of(m, &l);
    let rest = remains(m);
    let v = [(20, 0), (3, -9), (-13, 30)][choose(3) as usize];
    let p = (sym(-10, 140), sym(-10, 140));
    let e = Edge::new(pt(p.0, p.1), pt(p.0 + v.0, p.1 + v.1));
    let a = tri_of(l.cde().edge_definitely_collides(&e, &ign));
    vobs(a);
    vreach(a);
    if a == 2 { done() }
    let mut c = seg_collides(&rest, p, v);
    if m[0] == 1 { c |= outside_cde(&[(0, 0), v], p); }
    vassert(c == (a == 1), 1);
    done()
}
/// C06: definite answers about a disc when hazards are ignored
#[no_mangle]
#[inline(never)]
pub fn def_circ_irr() {
    let s = Scene { bin: square(128), holes: vec![shifted(&square(40), 16, 16)], zones: vec![(1, vec![shifted(&square(48), 40, 40), shifted(&rect(30, 16), 8, 90)])], items: vec![(rect(40, 60), (72, 24)), (square(60), (30, 50)), (square(8), (100, 100))] };
    let l = mk_layout(&s, cfg([2, 4][choose(2) as usize], 0));
    let m = &IGN[choose(10) as usize];
    let ign = ign_of(m, &l);
    let r = 5;
    let vert = flip();
    let line = [20, 62, 104][choose(3) as usize];
    let k = sym(-10, 140);
    let c = if vert { (line, k) } else { (k, line) };
    let a = tri_of(l.cde().circle_definitely_collides(&Circle::new(pt(c.0, c.1), r as fsize), &ign));
    vobs(a);
    vreach(a);
    if a == 2 { done() }
    let z = (0, 0);
    // without the exterior: the centre leaves the area covered by the engine
    let mut w = if m[0] == 1 { outside_cde(&[(0, 0)], c) } else { disc_border(c, r, &s.bin) | !inside(c, &s.bin, z) };
    let mut hz = vec![];
    if m[1] == 0 { hz.push(s.holes[0].clone()) }
    for j in 0..2 { if m[2 + j] == 0 { hz.push(s.zones[0].1[j].clone()) } }
    for j in 0..3 { if m[4 + j] == 0 { hz.push(shifted(&s.items[j].0, s.items[j].1.0, s.items[j].1.1)) } }
    for h in &hz { w |= disc_border(c, r, h) | inside(c, h, z); }
    vassert(w == (a == 1), 1);
    done()
}

fn tri_of(t: Tribool) -> i64 { match t { Tribool::True => 1, Tribool::False => 0, Tribool::Indeterminate => 2 } }
/// C06: definite answers about a point and one hazard
#[no_mangle]
#[inline(never)]
pub fn def_point() {
    let k = [8, 3, 1, 6, 5, 2][choose(6) as usize];
    let s = scene(k);
    let d = [1, 3, 5][choose(3) as usize];
    if flip() { set_unit(1.0 / 1024.0) }
    let l = mk_layout(&s, cfg(d, 0));
    let p = (sym(-60, 300), sym(-60, 300));
    let z = (0, 0);
    let mut any = 0;
    for h in l.cde().all_hazards() {
        let a = tri_of(l.cde().point_definitely_collides_with(&pt(p.0, p.1), h.entity));
        vobs(a);
        if a == 2 { any |= 4; continue; }
        any |= 1 << a;
        let (closed, open) = match h.entity {
            HazardEntity::BinExterior => { let (i, b) = (inside(p, &s.bin, z), on_border(p, &s.bin, z)); (!i | b, !i & !b) }
            HazardEntity::BinHole { id } => { let (i, b) = (inside(p, &s.holes[id], z), on_border(p, &s.holes[id], z)); (i | b, i & !b) }
            HazardEntity::InferiorQualityZone { id, .. } => { let y = &s.zones[0].1[id]; let (i, b) = (inside(p, y, z), on_border(p, y, z)); (i | b, i & !b) }
            HazardEntity::PlacedItem { id, .. } => { let (y, o) = &s.items[id]; let (i, b) = (inside(p, y, *o), on_border(p, y, *o)); (i | b, i & !b) }
        };
        vassert(if a == 1 { closed } else { !open }, 1);
    }
    vreach(any);
    done()
}
fn seg_collides(s: &Scene, p: P, v: P) -> bool {
    let z = (0, 0);
    let mut r = seg_leaves(p, v, &s.bin, z);
    for h in &s.holes { r |= seg_meets(p, v, h, z); }
    for (_, zs) in &s.zones { for h in zs { r |= seg_meets(p, v, h, z); } }
    for (h, o) in &s.items { r |= seg_meets(p, v, h, *o); }
    r
}
/// C06: definite answers about a segment
#[no_mangle]
#[inline(never)]
pub fn def_edge() {
    let k = [8, 3, 1, 7, 4][choose(5) as usize];
    let s = scene(k);
    let d = [2, 4][choose(2) as usize];
    let l = mk_layout(&s, cfg(d, 0));
    let p = (sym(-20, 270), sym(-20, 270));
    let v = [(30, 0), (0, -9), (13, 40), (-50, 22)][choose(4) as usize];
    let e = Edge::new(pt(p.0, p.1), pt(p.0 + v.0, p.1 + v.1));
    let a = tri_of(l.cde().edge_definitely_collides(&e, &[]));
    vobs(a);
    vreach(a);
    if a == 2 { done() }
    let c = seg_collides(&s, p, v);
    vassert(c == (a == 1), 1);
    done()
}
/// C06: definite answers about a disc
#[no_mangle]
#[inline(never)]
pub fn def_circ() {
    // straight and diagonal borders only: distances stay exact
    let s = Scene { bin: square(128), holes: vec![shifted(&square(32), 16, 16), shifted(&diamond(16), 88, 88)], zones: vec![], items: vec![(rect(40, 8), (72, 24))] };
    let t = tier();
    let (d, r) = if t { ([2, 3, 5][choose(3) as usize], [1, 4, 11, 20][choose(4) as usize]) } else { [(2, 11), (3, 4), (2, 3)][choose(3) as usize] };
    let l = mk_layout(&s, cfg(d, 0));
    let c = (sym(-10, 140), sym(-10, 140));
    let circ = Circle::new(pt(c.0, c.1), r as fsize);
    let a = tri_of(l.cde().circle_definitely_collides(&circ, &[]));
    vobs(a);
    vreach(a);
    if a == 2 { done() }
    let z = (0, 0);
    let mut w = disc_border(c, r, &s.bin) | !inside(c, &s.bin, z);
    for h in &s.holes { w |= disc_border(c, r, h) | inside(c, h, z); }
    let it = shifted(&s.items[0].0, 72, 24);
    w |= disc_border(c, r, &it) | inside(c, &it, z);
    vassert(w == (a == 1), 1);
    done()
}
