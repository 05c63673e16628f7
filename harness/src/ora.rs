//! Independent exact oracles over integer coordinates. Branch-free (`&`, `|`, `^` on bools) so that a
//! symbolic path of the code under test ends in one solver query.
use crate::intr::*;
use jagua_rs::fsize;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;

pub type P = (i64, i64);

pub fn sub(a: P, b: P) -> P { (a.0 - b.0, a.1 - b.1) }
pub fn add(a: P, b: P) -> P { (a.0 + b.0, a.1 + b.1) }
pub fn cross(a: P, b: P) -> i64 { a.0 * b.1 - a.1 * b.0 }
pub fn dot(a: P, b: P) -> i64 { a.0 * b.0 + a.1 * b.1 }
/// point p on the closed segment a-b
pub fn on_seg(p: P, a: P, b: P) -> bool {
    eq(cross(sub(b, a), sub(p, a)), 0) & ge(p.0, a.0.min(b.0)) & le(p.0, a.0.max(b.0)) & ge(p.1, a.1.min(b.1)) & le(p.1, a.1.max(b.1))
}
/// closed segments a-b and c-d share a point (collinear overlap included).
/// a-b is given as base point + concrete vector so that concrete geometry stays linear.
pub fn seg_touch(a: P, v: P, c: P, w: P) -> bool {
    // a + t v = c + u w ; den = v x w
    let den = cross(v, w);
    let ca = sub(c, a);
    if den != 0 {
        let s = if den > 0 { 1 } else { -1 };
        let t = cross(ca, w) * s;
        let u = cross(ca, v) * s;
        let d = den * s;
        ge(t, 0) & le(t, d) & ge(u, 0) & le(u, d)
    } else {
        // parallel: collinear and overlapping projections
        let col = eq(cross(ca, v), 0);
        let (vx0, vx1) = (v.0.min(0), v.0.max(0));
        let (vy0, vy1) = (v.1.min(0), v.1.max(0));
        let (wx0, wx1) = (w.0.min(0), w.0.max(0));
        let (wy0, wy1) = (w.1.min(0), w.1.max(0));
        col & le(ca.0 + wx0, vx1) & ge(ca.0 + wx1, vx0) & le(ca.1 + wy0, vy1) & ge(ca.1 + wy1, vy0)
    }
}
/// strict crossing-number membership; only meaningful when p is not on the border.
/// `poly` concrete vertices displaced by `off` (possibly symbolic), p possibly symbolic.
pub fn inside(p: P, poly: &[P], off: P) -> bool {
    let mut r = false;
    let n = poly.len();
    let q = sub(p, off);
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if a.1 == b.1 { continue; }
        let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
        // half-open in y, q strictly left of the upward edge
        let c = gt(cross(sub(hi, lo), sub(q, lo)), 0);
        r ^= ge(q.1, lo.1) & lt(q.1, hi.1) & c;
    }
    r
}
pub fn on_border(p: P, poly: &[P], off: P) -> bool {
    let q = sub(p, off);
    let n = poly.len();
    let mut r = false;
    for i in 0..n { r |= on_seg(q, poly[i], poly[(i + 1) % n]); }
    r
}
/// borders of two displaced concrete polygons share a point
pub fn borders_touch(a: &[P], oa: P, b: &[P], ob: P) -> bool {
    let mut r = false;
    for i in 0..a.len() {
        let (p, v) = (a[i], sub(a[(i + 1) % a.len()], a[i]));
        for j in 0..b.len() {
            let (q, w) = (b[j], sub(b[(j + 1) % b.len()], b[j]));
            r |= seg_touch(add(p, oa), v, add(q, ob), w);
        }
    }
    r
}
/// closed regions intersect
pub fn regions_meet(a: &[P], oa: P, b: &[P], ob: P) -> bool {
    borders_touch(a, oa, b, ob) | inside(add(a[0], oa), b, ob) | inside(add(b[0], ob), a, oa)
}
/// a not inside the open interior of b
pub fn leaves(a: &[P], oa: P, b: &[P], ob: P) -> bool {
    borders_touch(a, oa, b, ob) | !inside(add(a[0], oa), b, ob)
}
pub fn area2(a: &[P]) -> i64 {
    let n = a.len();
    (0..n).map(|i| cross(a[i], a[(i + 1) % n])).sum()
}
/// the length of one integer unit (a power of two, so that scaling is exact); 1 unless a harness says otherwise
static mut UNIT: fsize = 1.0;
pub fn set_unit(u: fsize) { unsafe { UNIT = u } }
#[inline(always)]
pub fn len(x: i64) -> fsize { unsafe { x as fsize * UNIT } }
pub fn spoly(p: &[P]) -> SimplePolygon { SimplePolygon::new(p.iter().map(|&(x, y)| Point(len(x), len(y))).collect()) }
pub fn pt(x: i64, y: i64) -> Point { Point(len(x), len(y)) }

// ---- a gallery of concrete shapes ----
pub fn square(s: i64) -> Vec<P> { vec![(0, 0), (s, 0), (s, s), (0, s)] }
pub fn rect(w: i64, h: i64) -> Vec<P> { vec![(0, 0), (w, 0), (w, h), (0, h)] }
pub fn shifted(p: &[P], x: i64, y: i64) -> Vec<P> { p.iter().map(|&(a, b)| (a + x, b + y)).collect() }
pub fn scaled(p: &[P], k: i64) -> Vec<P> { p.iter().map(|&(a, b)| (a * k, b * k)).collect() }
/// closed segment (base p, concrete vector v) meets closed region `poly` at off
pub fn seg_meets(p: P, v: P, poly: &[P], off: P) -> bool {
    let mut r = inside(p, poly, off);
    for i in 0..poly.len() {
        let (q, w) = (poly[i], sub(poly[(i + 1) % poly.len()], poly[i]));
        r |= seg_touch(p, v, add(q, off), w);
    }
    r
}
/// closed segment does not stay strictly inside
pub fn seg_leaves(p: P, v: P, poly: &[P], off: P) -> bool {
    let mut r = !inside(p, poly, off);
    for i in 0..poly.len() {
        let (q, w) = (poly[i], sub(poly[(i + 1) % poly.len()], poly[i]));
        r |= seg_touch(p, v, add(q, off), w);
    }
    r
}
/// distance from c to the closed segment a, a+v (v concrete) is at most r
pub fn seg_within(c: P, r: i64, a: P, v: P) -> bool {
    let l2 = dot(v, v);
    let w = sub(c, a);
    let w2 = sub(w, v);
    let t = dot(w, v);
    let cr = cross(v, w);
    (le(t, 0) & le(dot(w, w), r * r)) | (ge(t, l2) & le(dot(w2, w2), r * r)) | (gt(t, 0) & lt(t, l2) & le(cr * cr, r * r * l2))
}
/// closed disc touches the border of poly
pub fn disc_border(c: P, r: i64, poly: &[P]) -> bool {
    let mut x = false;
    for i in 0..poly.len() { x |= seg_within(c, r, poly[i], sub(poly[(i + 1) % poly.len()], poly[i])); }
    x
}
