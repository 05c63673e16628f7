//! C02: pier generation. Built with the crate's debug assertions on, where it traces 10 rays in 4 directions
//! (200 in 90 otherwise) over a 10 x 10 grid of points; the code is the same.
use crate::intr::*;
use crate::ora::*;
use crate::scene::*;
use jagua_rs::fsize;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;

pub static LIST: &[(&str, fn())] = &[("piers", piers), ("piers_slit", piers_slit)];

/// coordinates are compared in units of 2^-12, points of a pier in 64ths of it
const U: i64 = 1 << 12;
fn fix(x: fsize) -> i64 { (x as f64 * U as f64).round() as i64 }

fn check(s: &mut SimplePolygon, poly: &[P], np: usize, poles: usize, ffp: usize) {
    s.generate_surrogate(scfg(poles, ffp, np));
    let g = s.surrogate();
    vassert(g.ff_piers().len() == np, 1);
    let piers: Vec<(P, P)> = g.ff_piers().iter().map(|e| ((fix(e.start.0) * 64, fix(e.start.1) * 64), (fix(e.end.0) - fix(e.start.0), fix(e.end.1) - fix(e.start.1)))).collect();
    let poly = scaled(poly, U * 64);
    let tol = U * 64 / 64;
    vreach(1);
    let t = sym(0, 64);
    for (a, d) in piers {
        let p = (a.0 + t * d.0, a.1 + t * d.1);
        let mut ok = false;
        for q in [(0, 0), (tol, tol), (-tol, tol), (tol, -tol), (-tol, -tol)] { ok |= inside(add(p, q), &poly, (0, 0)); }
        vassert(ok, 2);
    }
    done()
}

/// every point of every generated pier lies in the shape, wherever the shape is
#[no_mangle]
#[inline(never)]
pub fn piers() {
    let big = tier();
    let k = choose(if big { 16 } else { 11 });
    let t = if k < 6 { choose(if big { 9 } else { 3 }) } else { 0 };
    let o = choose(if big { 4 } else { 2 });
    let (np, ffp) = match choose(if big { 4 } else { 2 }) { 0 => (1, 1), 1 => (3, 1), 2 => (2, 0), _ => (5, 2) };
    let p = if k < 6 { flex(k, t) } else { outline(k - 6) };
    let (x0, x1) = (p.iter().map(|q| q.0).min().unwrap(), p.iter().map(|q| q.0).max().unwrap());
    let (y0, y1) = (p.iter().map(|q| q.1).min().unwrap(), p.iter().map(|q| q.1).max().unwrap());
    let p = match o { 0 => shifted(&p, -(x0 + x1) / 2, -(y0 + y1) / 2), 1 => shifted(&p, 300 - x0, -y1 - 150), 2 => p, _ => shifted(&p, -x1, -y1) };
    check(&mut spoly(&p), &p, np, 4, ffp)
}
/// point-symmetric shapes with inner slits, whose end vertices lie exactly on a ray through the centroid
#[no_mangle]
#[inline(never)]
pub fn piers_slit() {
    let big = tier();
    let (w, g) = (1 + choose(if big { 4 } else { 2 }), [2, 4, 8][choose(3) as usize]);
    let m = choose(if big { 5 } else { 3 });
    let np = if big { 1 + choose(4) } else { 1 + 2 * choose(2) } as usize;
    let half: Vec<P> = vec![(-12, -50), ([0, 0, -8, 6, 12][m as usize], [-52, -48, -52, -54, -56][m as usize]), (12, -50), (12, -30), (w, -30), (w, -46), (-w, -46), (-w, -4), (w, -4), (w, -30 + g), (12, -30 + g)];
    let mut p = half.clone();
    p.extend(half.iter().map(|q| (-q.0, -q.1)));
    check(&mut spoly(&p), &p, np, 8, 1)
}
