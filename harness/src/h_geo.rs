//! C09 / C10: primitive collision predicates against exact integer definitions
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_enums::*;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;

pub static LIST: &[(&str, fn())] = &[
    ("edge_edge", edge_edge), ("edge_dirs", edge_dirs), ("edge_pt", edge_pt), ("rect_edge", rect_edge), ("rect_rect", rect_rect), ("circ_misc", circ_misc), ("circ_edge", circ_edge), ("pip", pip), ("pip_sym", pip_sym),
];

fn symp(r: i64) -> P { (sym(-r, r), sym(-r, r)) }
fn mk_edge(a: P, b: P) -> Edge { vassume(!(eq(a.0, b.0) & eq(a.1, b.1))); Edge::new(pt(a.0, a.1), pt(b.0, b.1)) }
fn mk_rect(a: P, b: P) -> AARectangle { AARectangle::new(a.0 as fsize, a.1 as fsize, b.0 as fsize, b.1 as fsize) }
/// units: everything tiny, as is, or huge (powers of two: exact)
static UNITS: [fsize; 3] = [1.0, 1.0 / 1024.0, 1024.0];
fn unit() -> fsize { UNITS[choose(3) as usize] }
fn spt(p: P, u: fsize) -> jagua_rs::geometry::primitives::point::Point { jagua_rs::geometry::primitives::point::Point(p.0 as fsize * u, p.1 as fsize * u) }
fn s_edge(a: P, b: P, u: fsize) -> Edge { vassume(!(eq(a.0, b.0) & eq(a.1, b.1))); Edge::new(spt(a, u), spt(b, u)) }
fn s_rect(a: P, b: P, u: fsize) -> AARectangle { AARectangle::new(a.0 as fsize * u, a.1 as fsize * u, b.0 as fsize * u, b.1 as fsize * u) }
fn max2(a: i64, b: i64, m: i64) -> bool { le(a, m) & le(b, m) }

/// share a point and are not parallel
fn seg_meet(a: P, b: P, c: P, d: P) -> bool {
    let (v, w, ca) = (sub(b, a), sub(d, c), sub(c, a));
    let den = cross(v, w);
    let (t, u) = (cross(ca, w), cross(ca, v));
    // (implied: the bounding boxes overlap; stated to keep the solver's job linear)
    let ov = |a: i64, b: i64, c: i64, d: i64| !((gt(a, c) & gt(a, d) & gt(b, c) & gt(b, d)) | (lt(a, c) & lt(a, d) & lt(b, c) & lt(b, d)));
    let bb = ov(a.0, b.0, c.0, d.0) & ov(a.1, b.1, c.1, d.1);
    let pos = gt(den, 0) & ge(t, 0) & le(t, den) & ge(u, 0) & le(u, den);
    let neg = lt(den, 0) & le(t, 0) & ge(t, den) & le(u, 0) & ge(u, den);
    bb & (pos | neg)
}

/// segment directions: axis-parallel, diagonal, flat, steep, both orientations
static DIRS: [P; 16] = [(1, 0), (0, 1), (17, 0), (0, -23), (-9, 0), (8, 8), (-13, 13), (7, -7), (-5, -5), (11, 3), (-11, 4), (2, 19), (3, -20), (30, 1), (-1, -30), (-14, -9)];
/// concrete directions, symbolic positions
#[no_mangle]
#[inline(never)]
pub fn edge_dirs() {
    let v = DIRS[choose(16) as usize];
    let w = DIRS[choose(16) as usize];
    let un = unit();
    let (a, c) = (symp(100), symp(100));
    let e = s_edge(a, add(a, v), un);
    let f = s_edge(c, add(c, w), un);
    let r = e.collides_with(&f);
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    let par = cross(v, w) == 0;
    let want = !par & seg_touch(a, v, c, w);
    vassert(r == want, 1);
    vassert(e.collides_at(&f).is_some() == r, 2);
    done()
}
/// where two edges meet: a point of both
#[no_mangle]
#[inline(never)]
pub fn edge_pt() {
    let v = DIRS[choose(16) as usize];
    let w = DIRS[choose(16) as usize];
    let un = unit();
    let (a, o): (P, P) = ((-7, 5), [(0, 0), v, sub((0, 0), w), sub(v, w), (3, -2), (-4, 1), (v.0 / 2 - w.0 / 2, v.1 / 2 - w.1 / 2), (v.0 / 2 - w.0, v.1 / 2 - w.1), (v.0 - w.0 / 2, v.1 - w.1 / 2)][choose(9) as usize]);
    let c = add(a, o);
    let (e, f) = (s_edge(a, add(a, v), un), s_edge(c, add(c, w), un));
    let (p, q) = (e.collides_at(&f), f.collides_at(&e));
    vassert(p.is_some() == q.is_some() && p.is_some() == (cross(v, w) != 0 && seg_touch(a, v, c, w)), 1);
    if let (Some(p), Some(q)) = (p, q) {
        let off = |x: f64, y: f64, a: P, v: P| {
            let (x, y) = (x / un as f64 - a.0 as f64, y / un as f64 - a.1 as f64);
            let l = (v.0 * v.0 + v.1 * v.1) as f64;
            let t = (x * v.0 as f64 + y * v.1 as f64) / l;
            let d = (x * v.1 as f64 - y * v.0 as f64).abs() / l.sqrt();
            d > 1e-4 || t < -1e-4 || t > 1.0 + 1e-4
        };
        for z in [p, q] { vassert(!off(z.0 as f64, z.1 as f64, a, v) && !off(z.0 as f64, z.1 as f64, c, w), 2); }
        vreach(1)
    } else { vreach(2) }
    done()
}
#[no_mangle]
#[inline(never)]
pub fn edge_edge() {
    let (a, b, c, d) = (symp(2), symp(2), symp(2), symp(2));
    let e = mk_edge(a, b);
    let f = mk_edge(c, d);
    let r = e.collides_with(&f);
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    vassert(r == seg_meet(a, b, c, d), 1);
    done()
}
/// closed rectangle [p, q] and closed segment a-b share a point: separating axes
fn rect_seg(p: P, q: P, a: P, b: P) -> bool {
    let sepx = (lt(a.0, p.0) & lt(b.0, p.0)) | (gt(a.0, q.0) & gt(b.0, q.0));
    let sepy = (lt(a.1, p.1) & lt(b.1, p.1)) | (gt(a.1, q.1) & gt(b.1, q.1));
    let v = sub(b, a);
    let mut pos = true;
    let mut neg = true;
    for c in [(p.0, p.1), (q.0, p.1), (p.0, q.1), (q.0, q.1)] {
        let s = cross(v, sub(c, a));
        pos &= gt(s, 0);
        neg &= lt(s, 0);
    }
    !(sepx | sepy | pos | neg)
}
#[no_mangle]
#[inline(never)]
pub fn rect_edge() {
    let p = (-sym(0, 12), -sym(0, 12));
    let q = (sym(1, 12), sym(1, 12));
    let v = DIRS[choose(DIRS.len() as i64) as usize];
    let un = unit();
    let a = symp(40);
    let b = add(a, v);
    let e = s_edge(a, b, un);
    let r = s_rect(p, q, un);
    let x = r.collides_with(&e);
    vobs(x as i64);
    if x { vreach(1) } else { vreach(2) }
    vassert(x == rect_seg(p, q, a, b), 1);
    done()
}
#[no_mangle]
#[inline(never)]
pub fn rect_rect() {
    let (a, b, c, d) = (symp(500), symp(500), symp(500), symp(500));
    vassume(lt(a.0, b.0) & lt(a.1, b.1) & lt(c.0, d.0) & lt(c.1, d.1));
    let (r, s) = (mk_rect(a, b), mk_rect(c, d));
    let meet = le(a.0, d.0) & le(c.0, b.0) & le(a.1, d.1) & le(c.1, b.1);
    let x = r.collides_with(&s);
    vobs(x as i64);
    vassert(x == meet, 1);
    vassert(s.collides_with(&r) == meet, 2);
    let z = r.collides_with(&pt(c.0, d.1));
    vassert(z == (le(a.0, c.0) & le(c.0, b.0) & le(a.1, d.1) & le(d.1, b.1)), 3);
    vassert(pt(c.0, d.1).collides_with(&r) == z, 4);
    // the tolerant variants never miss a collision, and agree when coordinates are clearly apart
    vassert(!meet | r.almost_collides_with(&s), 5);
    if x { vreach(1) } else { vreach(2) }
    if z { vreach(3) }
    done()
}
#[no_mangle]
#[inline(never)]
pub fn circ_misc() {
    let un = unit();
    let c = symp(60);
    let r = [1, 2, 5, 13, 40][choose(5) as usize];
    let circ = Circle::new(spt(c, un), r as fsize * un);
    let k = choose(3);
    let (x, want) = if k == 0 {
        let d = symp(60);
        let s = [1, 3, 12, 25][choose(4) as usize];
        let o = Circle::new(spt(d, un), s as fsize * un);
        let x = circ.collides_with(&o);
        vassert(o.collides_with(&circ) == x, 2);
        let v = sub(c, d);
        (x, le(dot(v, v), (r + s) * (r + s)))
    } else if k == 1 {
        let d = symp(60);
        let x = circ.collides_with(&spt(d, un));
        let v = sub(c, d);
        (x, le(dot(v, v), r * r))
    } else {
        let p: P = [(-20, -7), (3, 0), (-64, 11)][choose(3) as usize];
        let q = add(p, [(1, 1), (30, 2), (7, 40), (64, 64)][choose(4) as usize]);
        let x = circ.collides_with(&s_rect(p, q, un));
        // clamp distance, case by case
        let (lx, hx) = (lt(c.0, p.0), gt(c.0, q.0));
        let (ly, hy) = (lt(c.1, p.1), gt(c.1, q.1));
        let (dl, dh) = (p.0 - c.0, c.0 - q.0);
        let (el, eh) = (p.1 - c.1, c.1 - q.1);
        let rr = r * r;
        let mx = !lx & !hx;
        let my = !ly & !hy;
        let w = (mx & my) | (mx & ly & le(el * el, rr)) | (mx & hy & le(eh * eh, rr)) | (lx & my & le(dl * dl, rr)) | (hx & my & le(dh * dh, rr))
            | (lx & ly & le(dl * dl + el * el, rr)) | (lx & hy & le(dl * dl + eh * eh, rr)) | (hx & ly & le(dh * dh + el * el, rr)) | (hx & hy & le(dh * dh + eh * eh, rr));
        (x, w)
    };
    vobs(x as i64);
    if x { vreach(1 + k) } else { vreach(11 + k) }
    vassert(x == want, 1);
    done()
}
/// concrete edges (exactly representable projections), symbolic circle
#[no_mangle]
#[inline(never)]
pub fn circ_edge() {
    let k = choose(6);
    let (a, v): (P, P) = [((-8, -8), (16, 0)), ((3, -16), (0, 32)), ((-4, -4), (8, 8)), ((5, 5), (-16, 16)), ((2, 1), (-32, -32)), ((0, 0), (0, -1))][k as usize];
    let un = unit();
    let c = symp(40);
    let r = sym(0, 30);
    let e = Edge::new(spt(a, un), spt(add(a, v), un));
    let circ = Circle::new(spt(c, un), r as fsize * un);
    let x = circ.collides_with(&e);
    let l2 = dot(v, v);
    let w = sub(c, a);
    let w2 = sub(w, v);
    let t = dot(w, v);
    let cr = cross(v, w);
    let want = (le(t, 0) & le(dot(w, w), r * r)) | (ge(t, l2) & le(dot(w2, w2), r * r)) | (gt(t, 0) & lt(t, l2) & le(cr * cr, r * r * l2));
    vobs(x as i64);
    if x { vreach(1) } else { vreach(2) }
    vassert(x == want, 1);
    done()
}
/// C10: point in polygon: interior yes, exterior no (points on the border may be either)
#[no_mangle]
#[inline(never)]
pub fn pip() {
    let k = choose(9);
    let half = choose(4);
    let s = item_shape(k);
    let m = if half == 1 { 2 } else { 1 }; // integer or half-integer positions
    let un = [1.0, 1.0, 1.0 / 1024.0, 256.0][half as usize];
    let p = jagua_rs::geometry::primitives::simple_polygon::SimplePolygon::new(s.iter().map(|p| spt(*p, un)).collect());
    let (x, y) = (sym(-20 * m, 80 * m), sym(-20 * m, 80 * m));
    let q = jagua_rs::geometry::primitives::point::Point(x as fsize / m as fsize * un, y as fsize / m as fsize * un);
    let r = p.collides_with(&q);
    let sm = scaled(&s, m);
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    let b = on_border((x, y), &sm, (0, 0));
    vassert(b | (r == inside((x, y), &sm, (0, 0))), 1);
    done()
}
/// symbolic quadrilaterals/triangles: translation of shapes and the point, both symbolic
#[no_mangle]
#[inline(never)]
pub fn pip_sym() {
    let k = choose(5);
    let s = item_shape([1, 2, 3, 4, 5][k as usize]);
    let p = spoly(&s);
    let o = (sym(-300, 300), sym(-300, 300));
    let q = p.transform_clone(&tr(o.0, o.1));
    let w = (sym(-300, 300), sym(-300, 300));
    let r = q.collides_with(&pt(w.0, w.1));
    vobs(r as i64);
    if r { vreach(1) } else { vreach(2) }
    vassert(on_border(w, &s, o) | (r == inside(w, &s, o)), 1);
    done()
}
