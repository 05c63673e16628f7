//! The symbolic executor.
use crate::ir::*;
use crate::mem::*;
use crate::val::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use crate::val::NoHash;
use std::rc::Rc;

pub enum Int {
    Split(Fm),
    Err(String),
    Kill,
    Panic(String),
    Endless,
    Done,
}
type R<T> = Result<T, Int>;
fn err<T>(s: impl Into<String>) -> R<T> { Err(Int::Err(s.into())) }

#[derive(Clone)]
pub struct Frame {
    pub func: usize,
    pub body: Rc<Body>,
    pub blk: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub path: Option<Rc<PathNode>>,
    pub nonlin: bool,
    pub vb: Vec<(i64, i64)>,
    pub vb0: Vec<(i64, i64)>,
    pub model: Vec<i64>,
    pub bounds: Rc<HashMap<Rc<Form>, (i128, i128), NoHash>>,
    pub assumed: Vec<(Fm, bool)>,
    pub reach: Vec<i64>,
    pub obs: Vec<Val>,
    pub depth: u32,
    pub steps: u64,
    pub ent: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub splits: u64,
    pub instrs: u64,
    pub max_steps: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub unknown: u64,
    pub reach: BTreeMap<i64, u64>,
    pub funcs: std::collections::BTreeSet<usize>,
    pub prof: HashMap<String, u64>,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub inputs: Vec<i64> }
#[derive(Clone, Debug)]
pub struct Trace { pub inputs: Vec<i64>, pub obs: Vec<i64>, pub reach: Vec<i64> }

pub struct Machine<'m> {
    pub m: &'m Module,
    pub solver: Solver,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub traces: Vec<Trace>,
    pub trace_every: u64,
    pub next_id: u64,
    pub concrete: Option<Vec<i64>>,
    pub extaddr: HashMap<u64, Rc<str>>,
    pub seen_fn: Vec<bool>,
    pub icpt: Vec<bool>,
    pub prof: bool,
    pub verbose: bool,
    pub max_trace: usize,
    pub pool: std::collections::VecDeque<Vec<i64>>,
    pub pool_hits: u64,
    pub pin: Vec<Option<i64>>,
    pub step_limit: u64,
    pub deadline: Option<std::time::Instant>,
}

pub fn interval(st: &State, p: &Poly) -> (i128, i128) {
    let mut lo = 0i128;
    let mut hi = 0i128;
    for (m, c) in &p.0 {
        let (mut a, mut b) = (1i128, 1i128);
        if *m != 0 {
            // handle powers
            let mut vs: [usize; 8] = [usize::MAX; 8];
            let mut n = 0;
            for v in mono_vars(*m) { vs[n] = v; n += 1; }
            let mut i = 0;
            while i < n {
                let v = vs[i];
                let mut k = 1;
                while i + k < n && vs[i + k] == v { k += 1; }
                let (l, h) = (st.vb[v].0 as i128, st.vb[v].1 as i128);
                let (pl, ph) = if k == 1 { (l, h) } else {
                    let a1 = l.pow(k as u32);
                    let b1 = h.pow(k as u32);
                    if k % 2 == 1 { (a1, b1) } else if l <= 0 && h >= 0 { (0, a1.max(b1)) } else { (a1.min(b1), a1.max(b1)) }
                };
                let c = [a * pl, a * ph, b * pl, b * ph];
                a = *c.iter().min().unwrap();
                b = *c.iter().max().unwrap();
                i += k;
            }
        }
        if *c >= 0 { lo += c * a; hi += c * b } else { lo += c * b; hi += c * a }
    }
    if !st.bounds.is_empty() && p.as_const().is_none() && lo != hi {
        let (f, g, k) = canon(p);
        if let Some((a, b)) = st.bounds.get(&f) {
            let (x, y) = if g > 0 { (g * a + k, if *b == i128::MAX { i128::MAX } else { g.saturating_mul(*b).saturating_add(k) }) } else { (g.saturating_mul(*b).saturating_add(k), g * a + k) };
            lo = lo.max(x);
            hi = hi.min(y);
        }
    }
    (lo, hi)
}

fn form_interval(st: &State, f: &Rc<Form>) -> (i128, i128) { interval(st, &f.p) }

pub fn decide(st: &State, f: &Fm) -> Option<bool> {
    match &**f {
        F::T => Some(true),
        F::Fa => Some(false),
        F::Le(p, k) => { let (lo, hi) = form_interval(st, p); if hi <= *k { Some(true) } else if lo > *k { Some(false) } else { None } }
        F::Eq(p, k) => {
            let (lo, hi) = form_interval(st, p);
            if lo > *k || hi < *k { Some(false) } else if lo == hi { Some(true) } else { None.or_else(|| assumed(st, f)) }
        }
        F::Not(a) => decide(st, a).map(|x| !x),
        _ => {
            if let Some(b) = assumed(st, f) { return Some(b); }
            match &**f {
                F::And(a, b) => match decide(st, a) { Some(false) => Some(false), x => match (x, decide(st, b)) { (_, Some(false)) => Some(false), (Some(true), y) => y, _ => None } },
                F::Or(a, b) => match decide(st, a) { Some(true) => Some(true), x => match (x, decide(st, b)) { (_, Some(true)) => Some(true), (Some(false), y) => y, _ => None } },
                F::Iff(a, b) => match (decide(st, a), decide(st, b)) { (Some(x), Some(y)) => Some(x == y), _ => None },
                _ => unreachable!(),
            }
        }
    }
}
fn assumed(st: &State, f: &Fm) -> Option<bool> {
    for (g, b) in st.assumed.iter().rev() {
        if Rc::ptr_eq(g, f) { return Some(*b); }
        if let (F::Eq(p, k), F::Eq(q, l)) = (&**g, &**f) { if k == l && p == q { return Some(*b); } }
    }
    None
}

/// records a fact that holds on this path (bounds, assumptions)
fn learn(st: &mut State, f: &Fm, val: bool) {
    match &**f {
        F::T | F::Fa => {}
        F::Not(a) => learn(st, a, !val),
        F::And(a, b) if val => { learn(st, a, true); learn(st, b, true) }
        F::Or(a, b) if !val => { learn(st, a, false); learn(st, b, false) }
        F::Le(p, k) => { if val { tighten(st, p, i128::MIN, *k) } else { tighten(st, p, *k + 1, i128::MAX) } }
        F::Eq(p, k) => {
            if val { tighten(st, p, *k, *k) } else {
                let (lo, hi) = form_interval(st, p);
                if lo == *k { tighten(st, p, *k + 1, i128::MAX) } else if hi == *k { tighten(st, p, i128::MIN, *k - 1) }
                push_assumed(st, f, false);
            }
        }
        _ => push_assumed(st, f, val),
    }
}
fn push_assumed(st: &mut State, f: &Fm, v: bool) {
    if st.assumed.len() > 48 { st.assumed.remove(0); }
    st.assumed.push((f.clone(), v));
}
fn tighten(st: &mut State, p: &Rc<Form>, lo: i128, hi: i128) {
    if p.p.0.len() == 1 && p.p.0[0].0 < 65536 && p.p.0[0].1 == 1 {
        let v = p.p.0[0].0 as usize - 1;
        let b = &mut st.vb[v];
        if lo > b.0 as i128 { b.0 = lo as i64 }
        if hi < b.1 as i128 { b.1 = hi as i64 }
        return;
    }
    let (a, b) = form_interval(st, p);
    let n = (a.max(lo), b.min(hi));
    Rc::make_mut(&mut st.bounds).insert(p.clone(), n);
}

fn fits(iv: (i128, i128), w: u32) -> bool { iv.0 >= -(1i128 << (w - 1)) && iv.1 < (1i128 << w) }
fn cmask(v: i128, w: u32) -> Val { if w <= 64 { Val::C(mask(v as u64, w)) } else { Val::from_u128(if w >= 128 { v as u128 } else { v as u128 & ((1u128 << w) - 1) }) } }

/// split so that p gets narrowed towards its value in the current model
fn split_poly<T>(st: &State, p: &Poly) -> R<T> {
    let (_, hi) = interval(st, p);
    let m = p.eval(&st.model);
    let d = p.sub(&Poly::konst(m)).unwrap();
    if m < hi { Err(Int::Split(le0(&d))) } else { Err(Int::Split(le0(&d.scale(-1).unwrap()))) }
}
fn conc_poly(st: &State, p: &Poly) -> R<i128> {
    if let Some(c) = p.as_const() { return Ok(c); }
    let (lo, hi) = interval(st, p);
    if lo == hi { return Ok(lo); }
    split_poly(st, p)
}
fn cond(st: &State, f: &Fm) -> R<bool> {
    match decide(st, f) { Some(b) => Ok(b), None => Err(Int::Split(f.clone())) }
}
fn conc_float(st: &State, s: &SF) -> R<f64> {
    match &s.k {
        SFk::Exact(p, _) => { conc_poly(st, p)?; }
        SFk::Fn(Base::Poly(p, _), _) => { conc_poly(st, p)?; }
        SFk::Fn(Base::Quot(p, q, _), _) => { conc_poly(st, p)?; conc_poly(st, q)?; }
    }
    Ok(sf_eval(s, &st.model))
}
/// concrete bits of a value of `w` bits
fn conc(st: &State, v: &Val, w: u32) -> R<u64> {
    match v {
        Val::C(c) => Ok(*c),
        Val::C128(c) => Ok(**c as u64),
        Val::I(s) => Ok(mask(conc_poly(st, &s.p)? as u64, w)),
        Val::B(f) => Ok(cond(st, f)? as u64),
        Val::Fl(s) => Ok(s.ty.bits(conc_float(st, s)?)),
        Val::Key(s) => Ok(s.ty.bits(conc_float(st, s)?) ^ imax(w)),
        Val::Cat(ps) => {
            let mut r = 0u64;
            let mut sh = 0;
            for (n, p) in ps.iter() {
                if sh >= 64 { break; }
                let c = conc(st, p, n * 8)?;
                r |= mask(c, (n * 8).min(64)) << sh;
                sh += n * 8;
            }
            Ok(r)
        }
        Val::Agg(a) => {
            // vector as bits (bytes)
            let each = w / a.len() as u32;
            let mut r = 0u64;
            for (i, x) in a.iter().enumerate() { let c = conc(st, x, each)?; if (i as u32 * each) < 64 { r |= mask(c, each) << (i as u32 * each); } }
            Ok(r)
        }
    }
}
fn conc128(st: &State, v: &Val, w: u32) -> R<u128> {
    match v {
        Val::C(c) => Ok(*c as u128),
        Val::C128(c) => Ok(**c),
        Val::Cat(ps) => {
            let mut r = 0u128;
            let mut sh = 0;
            for (n, p) in ps.iter() { if sh >= 128 { break; } let c = conc128(st, p, n * 8)?; r |= c << sh; sh += n * 8; }
            Ok(r)
        }
        Val::I(s) => { let c = conc_poly(st, &s.p)?; Ok(if w >= 128 { c as u128 } else { c as u128 & ((1u128 << w) - 1) }) }
        v => Ok(conc(st, v, w)? as u128),
    }
}
/// integer view as polynomial (signed value for concrete)
fn ipoly(st: &State, v: &Val, w: u32) -> R<Poly> {
    Ok(match v {
        Val::C(c) => Poly::konst(sext(*c, w) as i64 as i128),
        Val::I(s) => s.p.clone(),
        v => Poly::konst(sext(conc(st, v, w)?, w) as i64 as i128),
    })
}
/// unsigned view: value in [0, 2^w)
fn upoly(st: &State, v: &Val, w: u32) -> R<Poly> {
    match v {
        Val::C(c) => Ok(Poly::konst(*c as i128)),
        Val::I(s) => {
            let (lo, _) = interval(st, &s.p);
            if lo >= 0 { return Ok(s.p.clone()); }
            if cond(st, &lt0(&s.p))? { Ok(s.p.add(&Poly::konst(1i128 << w)).unwrap()) } else { Ok(s.p.clone()) }
        }
        v => Ok(Poly::konst(conc(st, v, w)? as i128)),
    }
}
/// signed view: value in [-2^(w-1), 2^(w-1))
fn spoly(st: &State, v: &Val, w: u32) -> R<Poly> {
    match v {
        Val::I(s) => {
            let (_, hi) = interval(st, &s.p);
            let h = 1i128 << (w - 1);
            if hi < h { return Ok(s.p.clone()); }
            let d = s.p.sub(&Poly::konst(h)).unwrap();
            if cond(st, &lt0(&d))? { Ok(s.p.clone()) } else { Ok(s.p.sub(&Poly::konst(1i128 << w)).unwrap()) }
        }
        v => ipoly(st, v, w),
    }
}
fn mki(st: &State, p: Poly, w: u32) -> R<Val> {
    if let Some(c) = p.as_const() { return Ok(cmask(c, w)); }
    let iv = interval(st, &p);
    if iv.0 == iv.1 { return Ok(cmask(iv.0, w)); }
    if fits(iv, w) { Ok(Val::I(Rc::new(SI { p }))) } else { let c = conc_poly(st, &p)?; Ok(cmask(c, w)) }
}
fn is_sym(v: &Val) -> bool { !v.is_c() }

/// q = floor(p / c), made constant by splitting
fn floor_div(st: &State, p: &Poly, c: i128) -> R<i128> {
    let (lo, hi) = interval(st, p);
    let (a, b) = (div_floor(lo, c), div_floor(hi, c));
    if a == b { return Ok(a); }
    let q = div_floor(p.eval(&st.model), c);
    // p <= q*c + c - 1
    let up = p.sub(&Poly::konst(q * c + c - 1)).unwrap();
    if q < b { return Err(Int::Split(le0(&up))); }
    let dn = Poly::konst(q * c).sub(p).unwrap();
    Err(Int::Split(le0(&dn)))
}

fn mkf(st: &State, ty: FTy, p: Poly, e: i32) -> Val {
    if let Some(c) = p.as_const() { return Val::C(ty.bits(round_scaled(ty, c, e))); }
    let tz = p.tz();
    let (p, e) = if tz > 0 { (p.shr(tz), e + tz as i32) } else { (p, e) };
    let (lo, hi) = interval(st, &p);
    if lo == hi { return Val::C(ty.bits(round_scaled(ty, lo, e))); }
    let lim = 1i128 << ty.prec();
    if lo >= -lim && hi <= lim { Val::Fl(Rc::new(SF { ty, k: SFk::Exact(p, e) })) } else { Val::Fl(Rc::new(SF { ty, k: SFk::Fn(Base::Poly(p, e), vec![FOp::Round]) })) }
}
fn mkfn(ty: FTy, b: Base, ops: Vec<FOp>) -> Val { Val::Fl(Rc::new(SF { ty, k: SFk::Fn(b, ops) })) }

enum Fv { C(f64), E(Poly, i32), N(Rc<SF>) }
fn fview(st: &State, ty: FTy, v: &Val) -> R<Fv> {
    Ok(match v {
        Val::C(c) => Fv::C(ty.to_f64(*c)),
        Val::Fl(s) if s.ty == ty => match &s.k { SFk::Exact(p, e) => Fv::E(p.clone(), *e), _ => Fv::N(s.clone()) },
        Val::I(s) => {
            // float reinterpretation of integer bits: 1.mantissa pattern
            if let Some(r) = bits_to_float(st, ty, &s.p) { match fview(st, ty, &r)? { x => x } } else { Fv::C(ty.to_f64(conc(st, v, if ty == FTy::F32 { 32 } else { 64 })?)) }
        }
        v => Fv::C(ty.to_f64(conc(st, v, if ty == FTy::F32 { 32 } else { 64 })?)),
    })
}
/// integer polynomial as float bits when the exponent field is constant
fn bits_to_float(st: &State, ty: FTy, p: &Poly) -> Option<Val> {
    let (lo, hi) = interval(st, p);
    let mb = ty.prec() - 1;
    if lo < 0 { return None; }
    let (a, b) = (lo >> mb, hi >> mb);
    if a != b { return None; }
    let bias = if ty == FTy::F32 { 127 } else { 1023 };
    if a == 0 || a >= 2 * bias + 1 { return None; }
    // value = (2^mb + (p - a<<mb)) * 2^(a-bias-mb)
    let q = p.sub(&Poly::konst(a << mb))?.add(&Poly::konst(1 << mb))?;
    Some(mkf(st, ty, q, (a - bias) as i32 - mb as i32))
}
fn exact_of(f: &Fv) -> Option<(Poly, i32)> {
    match f { Fv::C(c) => { let (m, e) = decomp(*c)?; Some((Poly::konst(m), e)) } Fv::E(p, e) => Some((p.clone(), *e)), _ => None }
}
fn align2(a: &(Poly, i32), b: &(Poly, i32)) -> Option<(Poly, Poly, i32)> {
    if a.0 .0.is_empty() { return Some((a.0.clone(), b.0.clone(), b.1)); }
    if b.0 .0.is_empty() { return Some((a.0.clone(), b.0.clone(), a.1)); }
    let e = a.1.min(b.1);
    Some((a.0.shl((a.1 - e) as u32)?, b.0.shl((b.1 - e) as u32)?, e))
}
fn nat(ty: FTy, op: FBin, a: f64, b: f64) -> f64 {
    match ty {
        FTy::F32 => { let (a, b) = (a as f32, b as f32); (match op { FBin::Add => a + b, FBin::Sub => a - b, FBin::Mul => a * b, FBin::Div => a / b, FBin::Rem => a % b }) as f64 }
        FTy::F64 => match op { FBin::Add => a + b, FBin::Sub => a - b, FBin::Mul => a * b, FBin::Div => a / b, FBin::Rem => a % b },
    }
}
fn natbits(ty: FTy, op: FBin, a: u64, b: u64) -> u64 {
    match ty {
        FTy::F32 => { let (a, b) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); (match op { FBin::Add => a + b, FBin::Sub => a - b, FBin::Mul => a * b, FBin::Div => a / b, FBin::Rem => a % b }).to_bits() as u64 }
        FTy::F64 => { let (a, b) = (f64::from_bits(a), f64::from_bits(b)); (match op { FBin::Add => a + b, FBin::Sub => a - b, FBin::Mul => a * b, FBin::Div => a / b, FBin::Rem => a % b }).to_bits() }
    }
}
fn push_op(s: &SF, op: FOp) -> Val {
    match &s.k {
        SFk::Fn(b, ops) => { let mut o = ops.clone(); o.push(op); let ty = match op { FOp::ToF32 => FTy::F32, FOp::ToF64 => FTy::F64, _ => s.ty }; mkfn(ty, b.clone(), o) }
        SFk::Exact(p, e) => { let ty = match op { FOp::ToF32 => FTy::F32, FOp::ToF64 => FTy::F64, _ => s.ty }; mkfn(ty, Base::Poly(p.clone(), *e), vec![op]) }
    }
}
fn count(st: &State, v: &Fv) -> i128 {
    match v {
        Fv::C(_) => 1,
        Fv::E(p, _) => { let (a, b) = interval(st, p); b - a + 1 }
        Fv::N(s) => match &s.k {
            SFk::Fn(Base::Poly(p, _), _) => { let (a, b) = interval(st, p); b - a + 1 }
            SFk::Fn(Base::Quot(p, q, _), _) => { let (a, b) = interval(st, p); let (c, d) = interval(st, q); (b - a + 1).saturating_mul(d - c + 1) }
            _ => 1,
        },
    }
}
fn conc_fv<T>(st: &State, v: &Fv) -> R<T> {
    match v {
        Fv::E(p, _) => split_poly(st, p),
        Fv::N(s) => { conc_float(st, s)?; err("conc_fv: already concrete") }
        _ => err("conc_fv"),
    }
}
/// turn determined symbolic floats into constants
fn settle(st: &State, ty: FTy, v: Fv) -> Fv {
    match &v {
        Fv::E(p, e) => { let (a, b) = interval(st, p); if a == b { return Fv::C(round_scaled(ty, a, *e)); } }
        Fv::N(s) => {
            if let SFk::Fn(b, _) = &s.k {
                let one = |p: &Poly| { let (a, b) = interval(st, p); a == b };
                let ok = match b { Base::Poly(p, _) => one(p), Base::Quot(p, q, _) => one(p) && one(q) };
                if ok { return Fv::C(sf_eval(s, &st.model)); }
            }
        }
        _ => {}
    }
    v
}

fn fbin(st: &State, ty: FTy, op: FBin, a: &Val, b: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(natbits(ty, op, *x, *y))); }
    let (fa, fbv) = (settle(st, ty, fview(st, ty, a)?), settle(st, ty, fview(st, ty, b)?));
    let mkc = |v: f64| Ok(Val::C(ty.bits(v)));
    if let (Fv::C(x), Fv::C(y)) = (&fa, &fbv) { return mkc(nat(ty, op, *x, *y)); }
    // non-finite constants
    for (v, first) in [(&fa, true), (&fbv, false)] {
        if let Fv::C(c) = v {
            if c.is_nan() { return mkc(f64::NAN); }
            if c.is_infinite() {
                match op {
                    FBin::Add => return mkc(*c),
                    FBin::Sub => return mkc(if first { *c } else { -*c }),
                    FBin::Div if !first => return mkc(0.0),
                    _ => { return if first { conc_fv(st, &fbv) } else { conc_fv(st, &fa) }; }
                }
            }
        }
    }
    if let (Some(ea), Some(eb)) = (exact_of(&fa), exact_of(&fbv)) {
        match op {
            FBin::Add | FBin::Sub => {
                if let Some((p, q, e)) = align2(&ea, &eb) {
                    if let Some(r) = if op == FBin::Add { p.add(&q) } else { p.sub(&q) } { return Ok(mkf(st, ty, r, e)); }
                }
            }
            FBin::Mul => { if let Some(r) = ea.0.mul(&eb.0) { return Ok(mkf(st, ty, r, ea.1 + eb.1)); } }
            FBin::Div => {
                if let Fv::C(c) = &fbv {
                    if *c != 0.0 {
                        let (m, e) = decomp(*c).unwrap();
                        if m.abs() == 1 { return Ok(mkf(st, ty, ea.0.scale(m).unwrap(), ea.1 - e)); }
                        return Ok(mkfn(ty, Base::Poly(ea.0, ea.1), vec![FOp::DivC(*c)]));
                    }
                    // division by a zero constant
                    if cond(st, &eq0(&ea.0))? { return mkc(f64::NAN); }
                    let neg = cond(st, &lt0(&ea.0))?;
                    return mkc(if neg { f64::NEG_INFINITY } else { f64::INFINITY } * if c.is_sign_negative() { -1.0 } else { 1.0 });
                }
                if cond(st, &eq0(&eb.0))? {
                    if cond(st, &eq0(&ea.0))? { return mkc(f64::NAN); }
                    let neg = cond(st, &lt0(&ea.0))?;
                    return mkc(if neg { f64::NEG_INFINITY } else { f64::INFINITY });
                }
                let neg = cond(st, &lt0(&eb.0))?;
                let (mut p, mut q) = (ea.0.clone(), eb.0.clone());
                if neg { p = p.scale(-1).unwrap(); q = q.scale(-1).unwrap(); }
                if p.as_const() == Some(0) { return mkc(0.0); }
                // proportional polynomials
                if p.as_const().is_none() {
                    let (f1, g1, k1) = canon(&p);
                    let (f2, g2, k2) = canon(&q);
                    if f1 == f2 && k1 * g2 == k2 * g1 { let s = round_scaled(FTy::F64, g1, ea.1 - eb.1); return mkc(nat(ty, FBin::Div, s, g2 as f64)); }
                }
                return Ok(mkfn(ty, Base::Quot(p, q, ea.1 - eb.1), vec![FOp::Round]));
            }
            FBin::Rem => {}
        }
        return if count(st, &fa) > 1 && (count(st, &fa) <= count(st, &fbv) || count(st, &fbv) <= 1) { conc_fv(st, &fa) } else { conc_fv(st, &fbv) };
    }
    match (&fa, &fbv) {
        (Fv::N(s), Fv::C(c)) => match op {
            FBin::Add => return Ok(if *c == 0.0 { a.clone() } else { push_op(s, FOp::AddC(*c)) }),
            FBin::Sub => return Ok(if *c == 0.0 { a.clone() } else { push_op(s, FOp::AddC(-*c)) }),
            FBin::Mul if *c == 0.0 => return mkc(0.0),
            FBin::Mul => return Ok(if *c == 1.0 { a.clone() } else { push_op(s, FOp::MulC(*c)) }),
            FBin::Div if *c != 0.0 => return Ok(if *c == 1.0 { a.clone() } else { push_op(s, FOp::DivC(*c)) }),
            _ => return conc_fv(st, &fa),
        },
        (Fv::C(c), Fv::N(s)) => match op {
            FBin::Add => return Ok(if *c == 0.0 { b.clone() } else { push_op(s, FOp::AddC(*c)) }),
            FBin::Sub => return Ok(push_op(s, FOp::RSubC(*c))),
            FBin::Mul if *c == 0.0 => return mkc(0.0),
            FBin::Mul => return Ok(if *c == 1.0 { b.clone() } else { push_op(s, FOp::MulC(*c)) }),
            _ => return conc_fv(st, &fbv),
        },
        (Fv::N(x), Fv::N(y)) if x == y && op == FBin::Sub => return mkc(0.0),
        _ => {}
    }
    let (ca, cb) = (count(st, &fa), count(st, &fbv));
    if cb <= 1 || (ca > 1 && ca <= cb) { conc_fv(st, &fa) } else { conc_fv(st, &fbv) }
}

fn frange(st: &State, s: &SF) -> (f64, f64) {
    match &s.k {
        SFk::Exact(p, e) => { let (a, b) = interval(st, p); (round_scaled(s.ty, a, *e), round_scaled(s.ty, b, *e)) }
        SFk::Fn(Base::Poly(p, e), ops) => {
            let (a, b) = interval(st, p);
            let bt = base_ty(s.ty, ops);
            let x = run_chain(bt, round_scaled(bt, a, *e), ops);
            let y = run_chain(bt, round_scaled(bt, b, *e), ops);
            if x <= y { (x, y) } else { (y, x) }
        }
        SFk::Fn(Base::Quot(p, q, e), ops) => {
            let (a, b) = interval(st, p);
            let (c, d) = interval(st, q);
            let c = c.max(1);
            let bt = base_ty(s.ty, ops);
            let vs: Vec<f64> = [(a, c), (a, d), (b, c), (b, d)].iter().map(|(n, m)| nat(bt, FBin::Div, round_scaled(bt, *n, *e), *m as f64)).collect();
            let lo = vs.iter().cloned().fold(f64::INFINITY, f64::min);
            let hi = vs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let x = run_chain(bt, lo, ops);
            let y = run_chain(bt, hi, ops);
            if x <= y { (x, y) } else { (y, x) }
        }
    }
}

fn fvrange(st: &State, ty: FTy, v: &Fv) -> (f64, f64) {
    match v {
        Fv::C(c) => (*c, *c),
        Fv::E(p, e) => { let (a, b) = interval(st, p); (round_scaled(ty, a, *e), round_scaled(ty, b, *e)) }
        Fv::N(s) => frange(st, s),
    }
}
fn ford(x: f64, ty: FTy) -> i64 {
    match ty {
        FTy::F32 => { let b = (x as f32).to_bits() as i32; (if b < 0 { i32::MIN.wrapping_sub(b) } else { b }) as i64 }
        FTy::F64 => { let b = x.to_bits() as i64; if b < 0 { i64::MIN.wrapping_sub(b) } else { b } }
    }
}
fn unford(o: i64, ty: FTy) -> f64 {
    match ty {
        FTy::F32 => { let o = o as i32; let b = if o < 0 { i32::MIN.wrapping_sub(o) } else { o }; f32::from_bits(b as u32) as f64 }
        FTy::F64 => { let b = if o < 0 { i64::MIN.wrapping_sub(o) } else { o }; f64::from_bits(b as u64) }
    }
}

/// formula for  F < c  (strict) or F <= c
fn fn_cmp_const(st: &State, s: &SF, c: f64, strict: bool) -> R<Fm> {
    let (base, ops) = match &s.k { SFk::Fn(b, o) => (b, o), _ => return err("fn_cmp_const") };
    let inc = match chain_increasing(ops) { Some(i) => i, None => return err("non monotone chain") };
    let bt = base_ty(s.ty, ops);
    let test = |v: f64| if strict { v < c } else { v <= c };
    match base {
        Base::Poly(p, e) => {
            let (lo, hi) = interval(st, p);
            let g = |n: i128| test(run_chain(bt, round_scaled(bt, n, *e), ops));
            let (a, b) = (g(lo), g(hi));
            if a && b { return Ok(ft()); }
            if !a && !b { return Ok(ff()); }
            let (mut l, mut h) = (lo, hi); // g(l) != g(h)
            while h - l > 1 { let m = l + (h - l) / 2; if g(m) == a { l = m } else { h = m } }
            // inc: true for n <= l ; dec: true for n >= h
            if inc { Ok(le0(&p.sub(&Poly::konst(l)).unwrap())) } else { Ok(le0(&Poly::konst(h).sub(p).unwrap())) }
        }
        Base::Quot(p, q, e) => {
            let g = |o: i64| test(run_chain(bt, unford(o, bt), ops));
            let mx = ford(if bt == FTy::F32 { f32::MAX as f64 } else { f64::MAX }, bt);
            let (a, b) = (g(-mx), g(mx));
            if a && b { return Ok(ft()); }
            if !a && !b { return Ok(ff()); }
            let (mut l, mut h) = (-mx, mx);
            while h - l > 1 { let m = ((l as i128 + h as i128) / 2) as i64; if g(m) == a { l = m } else { h = m } }
            // boundary between floats tl and th:  RN(v) <= tl  vs RN(v) >= th
            let (tl, th) = (unford(l, bt), unford(h, bt));
            let below = if tl.abs() < 1e-30 && th.abs() < 1e-30 {
                if tl < 0.0 { lt0(p) } else { le0(p) }
            } else {
                // midpoint, tie goes to even
                let (m1, e1) = decomp(tl).unwrap();
                let (m2, e2) = decomp(th).unwrap();
                let ee = match (m1, m2) { (0, _) => e2, (_, 0) => e1, _ => e1.min(e2) };
                let mid = (m1 << (if m1 == 0 { 0 } else { e1 - ee })) + (m2 << (if m2 == 0 { 0 } else { e2 - ee })); // mid * 2^(ee-1)
                let l_even = { let b = if bt == FTy::F32 { (tl as f32).to_bits() as u64 } else { tl.to_bits() }; b & 1 == 0 };
                // p*2^e / q <= mid*2^(ee-1)
                let lhs = (p.clone(), *e);
                let rhs = (match q.scale(mid) { Some(x) => x, None => return err("overflow") }, ee - 1);
                let (x, y, _) = match align2(&lhs, &rhs) { Some(z) => z, None => return err("align overflow") };
                let d = match x.sub(&y) { Some(d) => d, None => return err("overflow") };
                if l_even { le0(&d) } else { lt0(&d) }
            };
            if inc { Ok(below) } else { Ok(fnot(&below)) }
        }
    }
}

/// formulas (a < b, a == b)
fn fcmp2(st: &State, ty: FTy, a: Fv, b: Fv) -> R<(Fm, Fm)> {
    let (a, b) = (settle(st, ty, a), settle(st, ty, b));
    match (&a, &b) {
        (Fv::C(x), Fv::C(y)) => return Ok((fb(x < y), fb(x == y))),
        (Fv::C(x), _) if x.is_infinite() => return Ok((fb(*x < 0.0), ff())),
        (_, Fv::C(y)) if y.is_infinite() => return Ok((fb(*y > 0.0), ff())),
        _ => {}
    }
    {
        // decided by value ranges (the range of a rounded value is exact at its end points)
        let (al, ah) = fvrange(st, ty, &a);
        let (bl, bh) = fvrange(st, ty, &b);
        if ah < bl { return Ok((ft(), ff())); }
        if bh < al { return Ok((ff(), ff())); }
    }
    if let (Some(ea), Some(eb)) = (exact_of(&a), exact_of(&b)) {
        if let Some((p, q, _)) = align2(&ea, &eb) {
            if let Some(d) = p.sub(&q) { return Ok((lt0(&d), eq0(&d))); }
        }
        return conc_fv(st, if matches!(a, Fv::C(_)) { &b } else { &a });
    }
    match (&a, &b) {
        (Fv::N(s), Fv::C(c)) => {
            let lt = fn_cmp_const(st, s, *c, true)?;
            let le = fn_cmp_const(st, s, *c, false)?;
            let eq = fand(&le, &fnot(&lt));
            Ok((lt, eq))
        }
        (Fv::C(c), Fv::N(s)) => {
            let lt = fn_cmp_const(st, s, *c, true)?; // s < c
            let le = fn_cmp_const(st, s, *c, false)?;
            let eq = fand(&le, &fnot(&lt));
            Ok((fnot(&le), eq))
        }
        (Fv::N(x), Fv::N(y)) if x == y => Ok((ff(), ft())),
        (Fv::N(x), Fv::N(y)) => {
            let (xl, xh) = frange(st, x);
            let (yl, yh) = frange(st, y);
            if xh < yl { return Ok((ft(), ff())); }
            if yh < xl { return Ok((ff(), ff())); }
            // same monotone chain, different base
            if let (SFk::Fn(Base::Poly(p, e), o1), SFk::Fn(Base::Poly(q, f), o2)) = (&x.k, &y.k) {
                if o1 == o2 {
                    if let (Some((pp, qq, _)), Some(inc)) = (align2(&(p.clone(), *e), &(q.clone(), *f)), chain_increasing(o1)) {
                        if let Some(d) = pp.sub(&qq) {
                            if cond(st, &eq0(&d))? { return Ok((ff(), ft())); }
                            let bt = base_ty(x.ty, o1);
                            let ee = (*e).min(*f);
                            let (a1, b1) = interval(st, &pp);
                            let (a2, b2) = interval(st, &qq);
                            if injective(bt, ee, a1.min(a2), b1.max(b2), o1) {
                                let l = lt0(&d);
                                return Ok((if inc { l } else { fnot(&l) }, ff()));
                            }
                        }
                    }
                }
            }
            if count(st, &a) <= count(st, &b) { conc_fv(st, &a) } else { conc_fv(st, &b) }
        }
        (Fv::N(s), Fv::E(p, e)) => { let (lt, eq) = cmp_en(st, ty, p, *e, s)?; Ok((fnot(&for_(&lt, &eq)), eq)) } // e<s, e==s
        (Fv::E(p, e), Fv::N(s)) => cmp_en(st, ty, p, *e, s),
        _ => unreachable!(),
    }
}
/// exact p*2^e versus rounded s: (p < s, p == s)
fn cmp_en(st: &State, ty: FTy, p: &Poly, e: i32, s: &Rc<SF>) -> R<(Fm, Fm)> {
    let (lo, hi) = frange(st, s);
    let pe = (p.clone(), e);
    for (c, below) in [(lo, true), (hi, false)] {
        if let Some((m, k)) = decomp(c) {
            if let Some((x, y, _)) = align2(&pe, &(Poly::konst(m), k)) {
                if let Some(d) = x.sub(&y) {
                    let d = if below { d } else { d.scale(-1).unwrap() };
                    if cond(st, &lt0(&d))? { return Ok((fb(below), ff())); }
                }
            }
        }
    }
    let (ev, nv) = (Fv::E(p.clone(), e), Fv::N(s.clone()));
    if count(st, &ev) <= count(st, &nv).max(2) { let _ = ty; conc_fv(st, &ev) } else { conc_fv(st, &nv) }
}
thread_local! { static INJ: std::cell::RefCell<HashMap<String, bool>> = Default::default(); }
fn injective(bt: FTy, e: i32, lo: i128, hi: i128, ops: &[FOp]) -> bool {
    if hi - lo > 2_000_000 { return false; }
    let key = format!("{:?}{}{}{}{:?}", bt, e, lo, hi, ops);
    if let Some(b) = INJ.with(|c| c.borrow().get(&key).copied()) { return b; }
    let mut prev = f64::NAN;
    let mut ok = true;
    let mut n = lo;
    while n <= hi {
        let v = run_chain(bt, round_scaled(bt, n, e), ops);
        if v == prev || v.is_nan() { ok = false; break; }
        prev = v;
        n += 1;
    }
    INJ.with(|c| c.borrow_mut().insert(key, ok));
    ok
}

fn fcmp(st: &State, ty: FTy, pr: FPred, a: &Val, b: &Val) -> R<Fm> {
    let (x, y) = (fview(st, ty, a)?, fview(st, ty, b)?);
    let nan = |v: &Fv| matches!(v, Fv::C(c) if c.is_nan());
    if nan(&x) || nan(&y) { return Ok(fb(matches!(pr, FPred::Uno | FPred::Ueq | FPred::Ugt | FPred::Uge | FPred::Ult | FPred::Ule | FPred::Une | FPred::True))); }
    match pr { FPred::Ord | FPred::True => return Ok(ft()), FPred::Uno | FPred::False => return Ok(ff()), _ => {} }
    let (lt, eq) = fcmp2(st, ty, x, y)?;
    Ok(match pr {
        FPred::Oeq | FPred::Ueq => eq,
        FPred::One | FPred::Une => fnot(&eq),
        FPred::Olt | FPred::Ult => lt,
        FPred::Ole | FPred::Ule => le_of(&lt, &eq, st, ty, a, b),
        FPred::Ogt | FPred::Ugt => fnot(&le_of(&lt, &eq, st, ty, a, b)),
        FPred::Oge | FPred::Uge => fnot(&lt),
        _ => unreachable!(),
    })
}
/// a <= b as a single atom where possible
fn le_of(lt: &Fm, eq: &Fm, st: &State, ty: FTy, a: &Val, b: &Val) -> Fm {
    match (&**lt, &**eq) { (F::T, _) => return ft(), (_, F::T) => return ft(), (F::Fa, _) => return eq.clone(), (_, F::Fa) => return lt.clone(), _ => {} }
    if let (Ok(x), Ok(y)) = (fview(st, ty, a), fview(st, ty, b)) {
        if let (Some(ea), Some(eb)) = (exact_of(&x), exact_of(&y)) {
            if let Some((p, q, _)) = align2(&ea, &eb) { if let Some(d) = p.sub(&q) { return le0(&d); } }
        }
    }
    for_(lt, eq)
}

fn fneg(st: &State, ty: FTy, v: &Val) -> R<Val> {
    Ok(match v {
        Val::C(c) => Val::C(if ty == FTy::F32 { c ^ 0x8000_0000 } else { c ^ (1 << 63) }),
        v => match fview(st, ty, v)? {
            Fv::C(c) => Val::C(ty.bits(-c)),
            Fv::E(p, e) => mkf(st, ty, p.scale(-1).unwrap(), e),
            Fv::N(s) => push_op(&s, FOp::Neg),
        },
    })
}
/// v < 0
fn fneg_test(st: &State, ty: FTy, v: &Val) -> R<bool> {
    let f = fcmp(st, ty, FPred::Olt, v, &Val::C(0))?;
    cond(st, &f)
}
fn fround(st: &State, ty: FTy, v: &Val, op: FOp) -> R<Val> {
    match fview(st, ty, v)? {
        Fv::C(c) => { let mut t = ty; Ok(Val::C(ty.bits(apply(&mut t, c, &op)))) }
        Fv::E(p, e) => if e >= 0 { Ok(v.clone()) } else { Ok(mkfn(ty, Base::Poly(p, e), vec![op])) },
        Fv::N(s) => Ok(push_op(&s, op)),
    }
}
fn fsqrt(st: &State, ty: FTy, v: &Val) -> R<Val> {
    match settle(st, ty, fview(st, ty, v)?) {
        Fv::C(c) => Ok(Val::C(ty.bits(match ty { FTy::F32 => (c as f32).sqrt() as f64, _ => c.sqrt() }))),
        Fv::E(p, e) => { if cond(st, &lt0(&p))? { return Ok(Val::C(ty.bits(f64::NAN))); } Ok(mkfn(ty, Base::Poly(p, e), vec![FOp::Sqrt])) }
        Fv::N(s) => { if frange(st, &s).0 < 0.0 && fneg_test(st, ty, v)? { return Ok(Val::C(ty.bits(f64::NAN))); } Ok(push_op(&s, FOp::Sqrt)) }
    }
}
/// truncation towards zero to an integer value
fn fptoint(st: &State, ty: FTy, v: &Val) -> R<Result<Poly, f64>> {
    match settle(st, ty, fview(st, ty, v)?) {
        Fv::C(c) => Ok(Err(c)),
        Fv::E(p, e) if e >= 0 => Ok(Ok(p.shl(e as u32).unwrap())),
        f => {
            let s = match f { Fv::E(p, e) => Rc::new(SF { ty, k: SFk::Fn(Base::Poly(p, e), vec![FOp::Trunc]) }), Fv::N(s) => match push_op(&s, FOp::Trunc) { Val::Fl(x) => x, _ => unreachable!() }, _ => unreachable!() };
            let (a, b) = frange(st, &s);
            if a == b { return Ok(Err(a)); }
            let r = sf_eval(&s, &st.model);
            let f = fn_cmp_const(st, &s, r, false)?;
            if decide(st, &f).is_none() { return Err(Int::Split(f)); }
            let f = fn_cmp_const(st, &s, r, true)?;
            if decide(st, &f).is_none() { return Err(Int::Split(f)); }
            Ok(Err(r))
        }
    }
}
fn sat_to_int(c: f64, w: u32, signed: bool) -> u64 {
    if c.is_nan() { return 0; }
    let (lo, hi): (i128, i128) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
    let v = c.trunc() as i128;
    mask(v.clamp(lo, hi) as u64, w)
}

fn icmp_c(pr: IPred, a: u64, b: u64, w: u32) -> bool {
    let (sa, sb) = (sext(a, w) as i64, sext(b, w) as i64);
    match pr { IPred::Eq => a == b, IPred::Ne => a != b, IPred::Ugt => a > b, IPred::Uge => a >= b, IPred::Ult => a < b, IPred::Ule => a <= b, IPred::Sgt => sa > sb, IPred::Sge => sa >= sb, IPred::Slt => sa < sb, IPred::Sle => sa <= sb }
}
fn fval(f: Fm) -> Val { match &*f { F::T => Val::C(1), F::Fa => Val::C(0), _ => Val::B(f) } }

fn imax(w: u32) -> u64 { (1u64 << (w - 1)) - 1 }
fn is_neg(st: &State, s: &Rc<SF>) -> R<bool> { let f = fcmp(st, s.ty, FPred::Olt, &Val::Fl(s.clone()), &Val::C(0))?; cond(st, &f) }
/// the float whose place in the total order is the signed integer
fn key_float(st: &State, w: u32, v: &Val) -> R<Option<Val>> {
    Ok(match v {
        Val::Key(s) => Some(Val::Fl(s.clone())),
        Val::Fl(s) => if is_neg(st, s)? { None } else { Some(v.clone()) },
        Val::C(c) => {
            let k = if c >> (w - 1) & 1 == 1 { c ^ imax(w) } else { *c };
            let ty = if w == 32 { FTy::F32 } else { FTy::F64 };
            let x = ty.to_f64(k);
            if x.is_nan() || x == 0.0 && k != 0 { None } else { Some(Val::C(k)) }
        }
        _ => None,
    })
}
fn icmp(st: &State, pr: IPred, w: u32, a: &Val, b: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(icmp_c(pr, *x, *y, w) as u64)); }
    if let (Val::Fl(s), Val::Fl(_)) = (a, b) { match pr { IPred::Eq => return Ok(fval(fcmp(st, s.ty, FPred::Oeq, a, b)?)), IPred::Ne => return Ok(fval(fcmp(st, s.ty, FPred::Une, a, b)?)), _ => {} } }
    if let (Val::Fl(s) | Val::Key(s), _) | (_, Val::Fl(s) | Val::Key(s)) = (a, b) {
        let fp = match pr { IPred::Eq => Some(FPred::Oeq), IPred::Ne => Some(FPred::Une), IPred::Slt => Some(FPred::Olt), IPred::Sle => Some(FPred::Ole), IPred::Sgt => Some(FPred::Ogt), IPred::Sge => Some(FPred::Oge), _ => None };
        if let Some(fp) = fp { if w == 32 || w == 64 { if let (Some(x), Some(y)) = (key_float(st, w, a)?, key_float(st, w, b)?) { return Ok(fval(fcmp(st, s.ty, fp, &x, &y)?)); } } }
    }
    if w > 64 { let (x, y) = (conc128(st, a, w)?, conc128(st, b, w)?); 
        let s = |v: u128| if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) };
        let r = match pr { IPred::Eq => x == y, IPred::Ne => x != y, IPred::Ugt => x > y, IPred::Uge => x >= y, IPred::Ult => x < y, IPred::Ule => x <= y, IPred::Sgt => s(x) > s(y), IPred::Sge => s(x) >= s(y), IPred::Slt => s(x) < s(y), IPred::Sle => s(x) <= s(y) };
        return Ok(Val::C(r as u64)); }
    // booleans
    let bool_of = |v: &Val| match v { Val::B(f) => Some(f.clone()), Val::C(0) => Some(ff()), Val::C(1) => Some(ft()), _ => None };
    if matches!(a, Val::B(_)) || matches!(b, Val::B(_)) {
        if let (Some(x), Some(y)) = (bool_of(a), bool_of(b)) {
            let s1 = w == 1; // signed compare on i1 flips
            let r = match pr {
                IPred::Eq => fiff(&x, &y),
                IPred::Ne => fnot(&fiff(&x, &y)),
                IPred::Ult => fand(&fnot(&x), &y),
                IPred::Ugt => fand(&x, &fnot(&y)),
                IPred::Ule => for_(&fnot(&x), &y),
                IPred::Uge => for_(&x, &fnot(&y)),
                IPred::Slt => if s1 { fand(&x, &fnot(&y)) } else { fand(&fnot(&x), &y) },
                IPred::Sgt => if s1 { fand(&fnot(&x), &y) } else { fand(&x, &fnot(&y)) },
                IPred::Sle => if s1 { for_(&x, &fnot(&y)) } else { for_(&fnot(&x), &y) },
                IPred::Sge => if s1 { for_(&fnot(&x), &y) } else { for_(&x, &fnot(&y)) },
            };
            return Ok(fval(r));
        }
        let (x, y) = (conc(st, a, w)?, conc(st, b, w)?);
        return Ok(Val::C(icmp_c(pr, x, y, w) as u64));
    }
    if !matches!((a, b), (Val::I(_), Val::I(_)) | (Val::I(_), Val::C(_)) | (Val::C(_), Val::I(_))) {
        let (x, y) = (conc(st, a, w)?, conc(st, b, w)?);
        return Ok(Val::C(icmp_c(pr, x, y, w) as u64));
    }
    let signed = matches!(pr, IPred::Sgt | IPred::Sge | IPred::Slt | IPred::Sle);
    let h = 1i128 << (w - 1);
    let raw = |v: &Val| -> Option<Poly> { match v { Val::I(s) => { let (l, u) = interval(st, &s.p); if l >= -h && u < h { Some(s.p.clone()) } else { None } } Val::C(c) => Some(Poly::konst(sext(*c, w) as i64 as i128)), _ => None } };
    let both = if matches!(pr, IPred::Eq | IPred::Ne) { raw(a).zip(raw(b)) } else { None };
    let (p, q) = if let Some(x) = both { x } else if signed { (spoly(st, a, w)?, spoly(st, b, w)?) } else { (upoly(st, a, w)?, upoly(st, b, w)?) };
    let d = p.sub(&q).unwrap();
    let f = match pr {
        IPred::Eq => eq0(&d),
        IPred::Ne => fnot(&eq0(&d)),
        IPred::Ult | IPred::Slt => lt0(&d),
        IPred::Ule | IPred::Sle => le0(&d),
        IPred::Ugt | IPred::Sgt => fnot(&le0(&d)),
        IPred::Uge | IPred::Sge => fnot(&lt0(&d)),
    };
    match decide(st, &f) { Some(b) => Ok(Val::C(b as u64)), None => Ok(fval(f)) }
}

fn bin_c(op: Bin, w: u32, a: u64, b: u64) -> R<u64> {
    Ok(mask(match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => { if b == 0 { return err("div by zero"); } a / b }
        Bin::URem => { if b == 0 { return err("rem by zero"); } a % b }
        Bin::SDiv => { if b == 0 { return err("div by zero"); } (sext(a, w) as i64).wrapping_div(sext(b, w) as i64) as u64 }
        Bin::SRem => { if b == 0 { return err("rem by zero"); } (sext(a, w) as i64).wrapping_rem(sext(b, w) as i64) as u64 }
        Bin::Shl => if b >= w as u64 { 0 } else { a << b },
        Bin::LShr => if b >= w as u64 { 0 } else { a >> b },
        Bin::AShr => { let s = sext(a, w) as i64; (s >> b.min(63)) as u64 }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
    }, w))
}
fn bin_c128(op: Bin, w: u32, a: u128, b: u128) -> R<u128> {
    let m = |v: u128| if w >= 128 { v } else { v & ((1u128 << w) - 1) };
    let s = |v: u128| if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) };
    Ok(m(match op {
        Bin::Add => a.wrapping_add(b), Bin::Sub => a.wrapping_sub(b), Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => { if b == 0 { return err("div by zero"); } a / b }
        Bin::URem => { if b == 0 { return err("rem by zero"); } a % b }
        Bin::SDiv => { if b == 0 { return err("div by zero"); } s(a).wrapping_div(s(b)) as u128 }
        Bin::SRem => { if b == 0 { return err("rem by zero"); } s(a).wrapping_rem(s(b)) as u128 }
        Bin::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => (s(a) >> b.min(127)) as u128,
        Bin::And => a & b, Bin::Or => a | b, Bin::Xor => a ^ b,
    }))
}

fn cat_drop(ps: &[(u32, Val)], bytes: u32) -> Option<Vec<(u32, Val)>> {
    let mut skip = bytes;
    let mut out = vec![];
    for (n, v) in ps {
        if skip >= *n { skip -= n; continue; }
        if skip > 0 { match v { Val::C(c) => { out.push((n - skip, Val::C(c >> (8 * skip)))); skip = 0; continue; } _ => return None } }
        out.push((*n, v.clone()));
    }
    Some(out)
}
fn cat_take(ps: &[(u32, Val)], bytes: u32) -> Option<Vec<(u32, Val)>> {
    let mut left = bytes;
    let mut out = vec![];
    for (n, v) in ps {
        if left == 0 { break; }
        if *n <= left { out.push((*n, v.clone())); left -= n; } else { match v { Val::C(c) => { out.push((left, Val::C(mask(*c, left * 8)))); left = 0; } _ => return None } }
    }
    if left > 0 { out.push((left, Val::C(0))); }
    Some(out)
}
fn cat_norm(ps: Vec<(u32, Val)>) -> Val {
    if ps.len() == 1 { return ps.into_iter().next().unwrap().1; }
    if ps.iter().all(|(_, v)| matches!(v, Val::C(_))) {
        let mut r = 0u128; let mut sh = 0;
        for (n, v) in &ps { r |= (v.c() as u128) << sh; sh += n * 8; }
        return Val::from_u128(r);
    }
    // trailing zero bytes after a non-negative 0/1 value etc. are kept as pieces
    Val::Cat(Rc::new(ps))
}

fn bin(st: &State, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) { if w <= 64 { return Ok(Val::C(bin_c(op, w, *x, *y)?)); } }
    if w > 64 {
        // shifts/truncations of concatenations handled, the rest concrete
        if let (Val::Cat(ps), Bin::LShr, Val::C(k)) = (a, op, b) {
            if k % 8 == 0 { if let Some(mut v) = cat_drop(ps, (*k / 8) as u32) { v.push(((*k / 8) as u32, Val::C(0))); return Ok(cat_norm(v)); } }
        }
        let (x, y) = (conc128(st, a, w)?, conc128(st, b, w)?);
        return Ok(Val::from_u128(bin_c128(op, w, x, y)?));
    }
    if w == 1 || matches!(a, Val::B(_)) && matches!(b, Val::B(_)) {
        let f = |v: &Val| match v { Val::B(f) => Some(f.clone()), Val::C(c) if w == 1 || *c <= 1 => Some(fb(*c & 1 == 1)), _ => None };
        if let (Some(x), Some(y)) = (f(a), f(b)) {
            match op {
                Bin::And | Bin::Mul => return Ok(fval(fand(&x, &y))),
                Bin::Or => return Ok(fval(for_(&x, &y))),
                Bin::Xor => return Ok(fval(fnot(&fiff(&x, &y)))),
                Bin::Add | Bin::Sub if w == 1 => return Ok(fval(fnot(&fiff(&x, &y)))),
                _ => {}
            }
        }
    }
    match (a, op, b) {
        (Val::Fl(s), Bin::AShr, Val::C(k)) if *k == w as u64 - 1 => return Ok(Val::C(if is_neg(st, s)? { mask(u64::MAX, w) } else { 0 })),
        (Val::Fl(s), Bin::LShr, Val::C(k)) if *k == w as u64 - 1 => return Ok(Val::C(is_neg(st, s)? as u64)),
        (Val::Fl(s), Bin::Xor, Val::C(k)) | (Val::C(k), Bin::Xor, Val::Fl(s)) => {
            if *k == 0 { return Ok(Val::Fl(s.clone())); }
            if *k == imax(w) && is_neg(st, s)? { return Ok(Val::Key(s.clone())); }
        }
        _ => {}
    }
    match (a, b) {
        (Val::B(f), Val::C(c)) | (Val::C(c), Val::B(f)) => match op {
            Bin::And => return Ok(if c & 1 == 1 { Val::B(f.clone()) } else { Val::C(0) }),
            Bin::Or if *c <= 1 => return Ok(if *c == 1 { Val::C(1) } else { Val::B(f.clone()) }),
            Bin::Xor if *c <= 1 => return Ok(if *c == 1 { fval(fnot(f)) } else { Val::B(f.clone()) }),
            Bin::Add if *c == 0 => return Ok(Val::B(f.clone())),
            _ => {}
        },
        (Val::Cat(ps), Val::C(k)) => match op {
            Bin::LShr if k % 8 == 0 => { if let Some(mut v) = cat_drop(ps, (*k / 8) as u32) { v.push(((*k / 8) as u32, Val::C(0))); return Ok(cat_norm(v)); } }
            Bin::And => {
                // byte mask
                let bytes: Vec<u8> = k.to_le_bytes().to_vec();
                let mut o = 0;
                let mut out = vec![];
                let mut ok = true;
                for (n, v) in ps.iter() {
                    let sl = &bytes[o..o + *n as usize];
                    if sl.iter().all(|b| *b == 0xff) { out.push((*n, v.clone())) } else if sl.iter().all(|b| *b == 0) { out.push((*n, Val::C(0))) } else if let Val::C(c) = v { let mut mb = [0u8; 8]; mb[..sl.len()].copy_from_slice(sl); out.push((*n, Val::C(c & u64::from_le_bytes(mb)))) } else { ok = false; break }
                    o += *n as usize;
                }
                if ok { return Ok(cat_norm(out)); }
            }
            _ => {}
        },
        _ => {}
    }
    if !matches!((a, b), (Val::I(_), Val::I(_)) | (Val::I(_), Val::C(_)) | (Val::C(_), Val::I(_))) {
        let (x, y) = (conc(st, a, w)?, conc(st, b, w)?);
        return Ok(Val::C(bin_c(op, w, x, y)?));
    }
    match op {
        Bin::Add | Bin::Sub | Bin::Mul => {
            let (p, q) = (ipoly(st, a, w)?, ipoly(st, b, w)?);
            let r = match op { Bin::Add => p.add(&q), Bin::Sub => p.sub(&q), _ => p.mul(&q) };
            if let Some(r) = r {
                let iv = interval(st, &r);
                if fits(iv, w) || r.as_const().is_some() { return mki(st, r, w); }
            }
        }
        Bin::Shl => if let Val::C(k) = b { if *k < w as u64 {
            let p = ipoly(st, a, w)?;
            if let Some(r) = p.shl(*k as u32) { if fits(interval(st, &r), w) { return mki(st, r, w); } }
        } },
        Bin::LShr | Bin::AShr => if let Val::C(k) = b { if *k < w as u64 {
            let p = if op == Bin::LShr { upoly(st, a, w)? } else { spoly(st, a, w)? };
            if p.tz() as u64 >= *k { return mki(st, p.shr(*k as u32), w); }
            let q = floor_div(st, &p, 1i128 << k)?;
            return Ok(cmask(q, w));
        } },
        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => if let Val::C(c) = b {
            let signed = matches!(op, Bin::SDiv | Bin::SRem);
            let c = if signed { sext(*c, w) as i64 as i128 } else { *c as i128 };
            if c > 0 {
                let p = if signed { spoly(st, a, w)? } else { upoly(st, a, w)? };
                let neg = signed && cond(st, &lt0(&p))?;
                let q = if neg { -floor_div(st, &p.scale(-1).unwrap(), c)? } else { floor_div(st, &p, c)? };
                return if matches!(op, Bin::UDiv | Bin::SDiv) { Ok(cmask(q, w)) } else { mki(st, p.sub(&Poly::konst(q * c)).unwrap(), w) };
            }
        },
        Bin::And => {
            let (s, k) = match (a, b) { (x, Val::C(k)) | (Val::C(k), x) => (x, *k), _ => (a, u64::MAX - 1) };
            if let Val::I(si) = s {
                if k == mask(u64::MAX, w) { return Ok(s.clone()); }
                if k == 0 { return Ok(Val::C(0)); }
                let n = k.wrapping_add(1);
                if n.is_power_of_two() {
                    let (lo, hi) = interval(st, &si.p);
                    if lo >= 0 && hi <= k as i128 { return Ok(s.clone()); }
                    let q = floor_div(st, &si.p, n as i128)?;
                    return mki(st, si.p.sub(&Poly::konst(q * n as i128)).unwrap(), w);
                }
                // a mask that covers every bit the value can have
                let (lo, hi) = interval(st, &si.p);
                let t = si.p.tz().min(63) as u32;
                if lo >= 0 && hi < (1i128 << 63) {
                    let need = (u64::MAX >> (hi as u64).leading_zeros().min(63)) >> t << t;
                    if need & !k == 0 { return Ok(s.clone()); }
                }
                // high mask: ~(2^k - 1)
                let inv = mask(!k, w).wrapping_add(1);
                if inv.is_power_of_two() && (si.p.tz() as u64) >= inv.trailing_zeros() as u64 { return Ok(s.clone()); }
            }
        }
        Bin::Or => {
            let (s, k) = match (a, b) { (x, Val::C(k)) | (Val::C(k), x) => (x, Some(*k)), _ => (a, None) };
            if let (Val::I(si), Some(k)) = (s, k) {
                if k == 0 { return Ok(s.clone()); }
                let tz = si.p.tz();
                let (lo, hi) = interval(st, &si.p);
                if tz < 64 && k < (1u64 << tz) && lo >= 0 { return mki(st, si.p.add(&Poly::konst(k as i128)).unwrap(), w); }
                // disjoint high constant
                if lo >= 0 && (k.trailing_zeros() < 64) && hi < (1i128 << k.trailing_zeros()) { return mki(st, si.p.add(&Poly::konst(k as i128)).unwrap(), w); }
            }
        }
        Bin::Xor => {
            let (s, k) = match (a, b) { (x, Val::C(k)) | (Val::C(k), x) => (x, Some(*k)), _ => (a, None) };
            if let (Val::I(si), Some(k)) = (s, k) {
                if k == 0 { return Ok(s.clone()); }
                if k == mask(u64::MAX, w) { return mki(st, Poly::konst(-1).sub(&si.p).unwrap(), w); }
            }
        }
    }
    let (x, y) = (conc(st, a, w)?, conc(st, b, w)?);
    Ok(Val::C(bin_c(op, w, x, y)?))
}

fn lanes(v: &Val, n: usize) -> R<Rc<Vec<Val>>> {
    match v { Val::Agg(a) => Ok(a.clone()), Val::C(0) => Ok(Rc::new(vec![Val::C(0); n])), _ => err(format!("vector expected {:?}", v)) }
}

fn cast(st: &State, c: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
    if let (Ty::Vec(n, ft_), Ty::Vec(m, tt)) = (from, to) {
        if c != Cast::BitCast || n == m && ft_.size() == tt.size() {
            let l = lanes(v, *n)?;
            let mut o = vec![];
            for x in l.iter() { o.push(cast(st, c, ft_, tt, x)?); }
            return Ok(Val::Agg(Rc::new(o)));
        }
    }
    let (w, w2) = (from.width(), to.width());
    match c {
        Cast::Trunc => match v {
            Val::C(x) => Ok(Val::C(mask(*x, w2))),
            Val::C128(x) => Ok(if w2 > 64 { Val::from_u128(**x & ((1u128 << w2) - 1)) } else { Val::C(mask(**x as u64, w2)) }),
            Val::B(f) => Ok(Val::B(f.clone())),
            Val::I(s) => {
                let iv = interval(st, &s.p);
                if fits(iv, w2) { return mki(st, s.p.clone(), w2); }
                if w2 <= 63 {
                    let q = floor_div(st, &s.p, 1i128 << w2)?;
                    return mki(st, s.p.sub(&Poly::konst(q << w2)).unwrap(), w2);
                }
                Ok(Val::C(mask(conc(st, v, w)?, w2)))
            }
            Val::Cat(ps) if w2 % 8 == 0 => { if let Some(x) = cat_take(ps, w2 / 8) { return Ok(cat_norm(x)); } Ok(Val::C(mask(conc(st, v, w)?, w2))) }
            Val::Cat(ps) if w2 == 1 => { if let (_, Val::B(f)) = &ps[0] { return Ok(Val::B(f.clone())); } Ok(Val::C(conc(st, v, w)? & 1)) }
            v => Ok(Val::C(mask(conc(st, v, w)?, w2))),
        },
        Cast::ZExt => match v {
            Val::C(_) | Val::B(_) => Ok(v.clone()),
            Val::C128(_) => Ok(v.clone()),
            Val::I(_) => { let p = upoly(st, v, w)?; mki(st, p, w2) }
            Val::Cat(ps) => { let mut x = (**ps).clone(); x.push(((w2 - w) / 8, Val::C(0))); Ok(cat_norm(x)) }
            Val::Fl(_) if w % 8 == 0 && w2 % 8 == 0 => Ok(cat_norm(vec![(w / 8, v.clone()), ((w2 - w) / 8, Val::C(0))])),
            v => Ok(Val::C(conc(st, v, w)?)),
        },
        Cast::SExt => match v {
            Val::I(_) => { let p = spoly(st, v, w)?; mki(st, p, w2) }
            v => {
                let x = conc(st, v, w)?;
                let s = sext(x, w) as i64;
                Ok(cmask(s as i128, w2))
            }
        },
        Cast::PtrToInt | Cast::IntToPtr => match v { Val::C(x) => Ok(Val::C(mask(*x, w2.min(w)))), v => Ok(v.clone()) },
        Cast::BitCast => match (from, to) {
            (Ty::F32, Ty::I(32)) | (Ty::F64, Ty::I(64)) => Ok(v.clone()), // float bits travel as they are
            (Ty::I(32), Ty::F32) | (Ty::I(64), Ty::F64) => match v {
                Val::I(s) => { let ty = to.fty().unwrap(); if let Some(r) = bits_to_float(st, ty, &s.p) { Ok(r) } else { Ok(Val::C(conc(st, v, w)?)) } }
                Val::C(_) | Val::Fl(_) => Ok(v.clone()),
                v => Ok(Val::C(conc(st, v, w)?)),
            },
            (Ty::Vec(n, t), Ty::I(w2)) => {
                let l = lanes(v, *n)?;
                let each = t.width();
                let mut r = 0u128;
                for (i, x) in l.iter().enumerate() { r |= conc128(st, x, each)? << (i as u32 * each); }
                let _ = w2;
                Ok(Val::from_u128(r))
            }
            (Ty::I(w1), Ty::Vec(n, t)) => {
                let x = conc128(st, v, *w1)?;
                let each = t.width();
                Ok(Val::Agg(Rc::new((0..*n).map(|i| Val::from_u128((x >> (i as u32 * each)) & if each >= 128 { u128::MAX } else { (1u128 << each) - 1 })).collect())))
            }
            (Ty::Vec(n, t), Ty::Vec(m, t2)) => {
                let l = lanes(v, *n)?;
                let each = t.width();
                let mut r = 0u128;
                for (i, x) in l.iter().enumerate() { r |= conc128(st, x, each)? << (i as u32 * each); }
                let e2 = t2.width();
                Ok(Val::Agg(Rc::new((0..*m).map(|i| Val::from_u128((r >> (i as u32 * e2)) & ((1u128 << e2) - 1))).collect())))
            }
            _ => Ok(v.clone()),
        },
        Cast::UIToFP | Cast::SIToFP => {
            let ty = to.fty().unwrap();
            match v {
                Val::I(_) => { let p = if c == Cast::UIToFP { upoly(st, v, w)? } else { spoly(st, v, w)? }; Ok(mkf(st, ty, p, 0)) }
                v => {
                    let x = conc128(st, v, w)?;
                    let i: i128 = if c == Cast::UIToFP { x as i128 } else if w <= 64 { sext(x as u64, w) as i64 as i128 } else { x as i128 };
                    Ok(Val::C(match ty { FTy::F32 => (i as f32).to_bits() as u64, FTy::F64 => (i as f64).to_bits() }))
                }
            }
        }
        Cast::FPToUI | Cast::FPToSI => match fptoint(st, from.fty().unwrap(), v)? {
            Ok(p) => mki(st, p, w2),
            Err(c2) => Ok(Val::C(sat_to_int(c2, w2, c == Cast::FPToSI))),
        },
        Cast::FPExt => match v {
            Val::C(x) => Ok(Val::C((f32::from_bits(*x as u32) as f64).to_bits())),
            v => match fview(st, FTy::F32, v)? { Fv::C(c) => Ok(Val::C(c.to_bits())), Fv::E(p, e) => Ok(mkf(st, FTy::F64, p, e)), Fv::N(s) => Ok(push_op(&s, FOp::ToF64)) },
        },
        Cast::FPTrunc => match v {
            Val::C(x) => Ok(Val::C((f64::from_bits(*x) as f32).to_bits() as u64)),
            v => match fview(st, FTy::F64, v)? {
                Fv::C(c) => Ok(Val::C((c as f32).to_bits() as u64)),
                Fv::E(p, e) => Ok(mkf(st, FTy::F32, p, e)),
                Fv::N(s) => Ok(push_op(&s, FOp::ToF32)),
            },
        },
    }
}

// ---------------------------------------------------------------- memory access
fn load(st: &State, ty: &Ty, addr: u64) -> R<Val> {
    match ty {
        Ty::Struct(ts, _) => {
            let mut v = vec![];
            for i in 0..ts.len() { let (o, t) = ty.field_off(i); v.push(load(st, &t, addr + o as u64)?); }
            return Ok(Val::Agg(Rc::new(v)));
        }
        Ty::Arr(n, t) => { let s = t.size(); return Ok(Val::Agg(Rc::new((0..*n).map(|i| load(st, t, addr + (i * s) as u64)).collect::<R<Vec<_>>>()?))); }
        Ty::Vec(n, t) if **t != Ty::I(1) => { let s = t.size(); return Ok(Val::Agg(Rc::new((0..*n).map(|i| load(st, t, addr + (i * s) as u64)).collect::<R<Vec<_>>>()?))); }
        _ => {}
    }
    let size = ty.store_size();
    let (o, off) = match st.mem.get(addr, size) { Ok(x) => x, Err(e) => return err(e) };
    if !o.sym.is_empty() && o.overlaps(off, size) { return load_sym(st, o, off, size); }
    let d = &o.data[off..off + size];
    Ok(match size {
        1 => Val::C(d[0] as u64),
        4 => Val::C(u32::from_le_bytes(d.try_into().unwrap()) as u64),
        8 => Val::C(u64::from_le_bytes(d.try_into().unwrap())),
        _ => { let mut b = [0u8; 16]; b[..size].copy_from_slice(d); Val::from_u128(u128::from_le_bytes(b)) }
    })
}
fn load_sym(st: &State, o: &Obj, off: usize, size: usize) -> R<Val> {
    // exact hit
    if let Some((_, _, v)) = o.sym.iter().find(|(a, s, _)| *a as usize == off && *s as usize == size) { return Ok(v.clone()); }
    let mut pieces: Vec<(u32, Val)> = vec![];
    let mut pos = off;
    let end = off + size;
    for (a, s, v) in &o.sym {
        let (a, b) = (*a as usize, (*a + *s) as usize);
        if b <= off || a >= end { continue; }
        if a < off || b > end {
            // partial overlap: needs the concrete bytes of v
            let c = conc128(st, v, *s * 8)?;
            let full = c.to_le_bytes();
            if a > pos { pieces.push(((a - pos) as u32, bytes_val(&o.data[pos..a]))); pos = a; }
            let x = pos.max(a);
            let y = b.min(end);
            pieces.push(((y - x) as u32, bytes_val(&full[x - a..y - a])));
            pos = y;
            continue;
        }
        if a > pos { pieces.push(((a - pos) as u32, bytes_val(&o.data[pos..a]))); }
        pieces.push((*s, v.clone()));
        pos = b;
    }
    if pos < end { pieces.push(((end - pos) as u32, bytes_val(&o.data[pos..end]))); }
    Ok(cat_norm(pieces))
}
fn bytes_val(d: &[u8]) -> Val { let mut b = [0u8; 16]; b[..d.len()].copy_from_slice(d); Val::from_u128(u128::from_le_bytes(b)) }

fn store(st: &mut State, ty: &Ty, addr: u64, v: &Val) -> R<()> {
    match ty {
        Ty::Struct(ts, _) => { let l = lanes(v, ts.len())?; for i in 0..ts.len() { let (o, t) = ty.field_off(i); store(st, &t, addr + o as u64, &l[i])?; } return Ok(()); }
        Ty::Arr(n, t) | Ty::Vec(n, t) if **t != Ty::I(1) => { let l = lanes(v, *n)?; let s = t.size(); for (i, x) in l.iter().enumerate() { store(st, t, addr + (i * s) as u64, x)?; } return Ok(()); }
        _ => {}
    }
    store_scalar(st, addr, ty.store_size(), v)
}
fn store_scalar(st: &mut State, addr: u64, size: usize, v: &Val) -> R<()> {
    if let Val::Cat(ps) = v {
        let mut o = 0u64;
        for (n, p) in ps.iter() { if o as usize + *n as usize > size { break; } store_scalar(st, addr + o, *n as usize, p)?; o += *n as u64; }
        return Ok(());
    }
    // zero-extended booleans wider than a byte are kept as one symbolic entry of that size
    let (o, off) = match st.mem.get_mut(addr, size) { Ok(x) => x, Err(e) => return err(e) };
    if !o.sym.is_empty() {
        if let Err(cut) = o.clear(off, size) {
            // a partially overwritten symbolic entry: make it concrete first
            return materialise(st, addr, size, cut).and_then(|_| store_scalar(st, addr, size, v));
        }
    }
    match v {
        Val::C(c) => { let b = c.to_le_bytes(); let n = size.min(8); o.data[off..off + n].copy_from_slice(&b[..n]); for x in &mut o.data[off + n..off + size] { *x = 0 } }
        Val::C128(c) => { let b = c.to_le_bytes(); o.data[off..off + size].copy_from_slice(&b[..size]); }
        Val::Agg(_) => return err("store agg"),
        v => o.put_sym(off, size, v.clone()),
    }
    Ok(())
}
fn materialise(st: &mut State, addr: u64, size: usize, _cut: Val) -> R<()> {
    let off = (addr & 0xffff_ffff) as usize;
    let ents: Vec<(u32, u32, Val)> = st.mem.get(addr, size).ok().unwrap().0.sym.iter().filter(|(a, s, _)| { let (a, b) = (*a as usize, (*a + *s) as usize); a < off + size && off < b && (a < off || b > off + size) }).cloned().collect();
    let mut cs = vec![];
    for (a, s, v) in &ents { cs.push((*a, *s, conc128(st, v, *s * 8)?)); }
    let (o, _) = st.mem.get_mut(addr, size).ok().unwrap();
    for (a, s, c) in cs {
        o.sym.retain(|e| e.0 != a);
        o.data[a as usize..(a + s) as usize].copy_from_slice(&c.to_le_bytes()[..s as usize]);
    }
    Ok(())
}
fn copy(st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
    if n == 0 { return Ok(()); }
    let (so, soff) = match st.mem.get(src, n) { Ok(x) => x, Err(e) => return err(e) };
    let mut syms = vec![];
    if !so.sym.is_empty() {
        for (a, s, v) in &so.sym {
            let (x, y) = (*a as usize, (*a + *s) as usize);
            if y <= soff || x >= soff + n { continue; }
            if x < soff || y > soff + n { return materialise(st, src, n, v.clone()).and_then(|_| copy(st, dst, src, n)); }
            syms.push((x - soff, *s as usize, v.clone()));
        }
    }
    let data = so.data[soff..soff + n].to_vec();
    let (d, doff) = match st.mem.get_mut(dst, n) { Ok(x) => x, Err(e) => return err(e) };
    if !d.sym.is_empty() {
        if let Err(cut) = d.clear(doff, n) { return materialise(st, dst, n, cut).and_then(|_| copy(st, dst, src, n)); }
    }
    d.data[doff..doff + n].copy_from_slice(&data);
    for (o, s, v) in syms { d.put_sym(doff + o, s, v); }
    Ok(())
}

// ---------------------------------------------------------------- the machine
impl<'m> Machine<'m> {
    pub fn new(m: &'m Module, timeout_ms: u32) -> Machine<'m> {
        Machine { m, solver: Solver::new(timeout_ms), st: Stats::default(), violations: vec![], errors: vec![], traces: vec![], trace_every: 1, next_id: 1, concrete: None, extaddr: HashMap::new(), seen_fn: vec![false; m.funcs.len()], icpt: m.funcs.iter().map(|f| crate::ext::intercepted(&f.name)).collect(), prof: false, verbose: false, max_trace: 0, pool: Default::default(), pool_hits: 0, pin: vec![], step_limit: u64::MAX, deadline: None }
    }
    pub fn init(&self, func: &str) -> State {
        let mut objs: Vec<Option<Rc<Obj>>> = vec![None];
        for g in &self.m.globals { objs.push(Some(Rc::new(Obj { data: g.data.clone(), sym: vec![], ro: g.ro }))); }
        let mut st = State { frames: vec![], mem: Mem::new(objs), path: None, nonlin: false, vb: vec![], vb0: vec![], model: vec![], bounds: Rc::new(HashMap::default()), assumed: vec![], reach: vec![], obs: vec![], depth: 0, steps: 0, ent: 0 };
        let f = *self.m.fidx.get(func).unwrap_or_else(|| panic!("no function {}", func));
        let body = self.m.body(f);
        st.frames.push(Rc::new(Frame { func: f, regs: vec![Val::C(0); body.nregs], body, blk: 0, ip: 0, allocas: vec![] }));
        st
    }
    fn add_path(&mut self, st: &mut State, f: &Fm, val: bool) {
        let g = if val { f.clone() } else { fnot(f) };
        if !flinear(&g) { st.nonlin = true; }
        self.next_id += 1;
        st.path = Some(Rc::new(PathNode { id: self.next_id, f: g, depth: st.depth, parent: st.path.take() }));
        st.depth += 1;
        learn(st, f, val);
    }
    fn query(&mut self, st: &State, g: &Fm) -> Res {
        for m in self.pool.iter().rev() {
            if m.len() == st.model.len() && feval(g, m) && path_holds(&st.path, m) { self.pool_hits += 1; return Res::Sat(m.clone()); }
        }
        let r = self.solver.check(&st.path, st.nonlin, g, st.model.len(), &st.vb0);
        if let Res::Sat(m) = &r { if self.pool.len() >= 24 { self.pool.pop_front(); } self.pool.push_back(m.clone()); }
        r
    }

    /// Runs the state until it ends; new states are pushed onto `out`.
    pub fn run(&mut self, mut st: State, out: &mut Vec<State>, stop_on_fork: bool) {
        loop {
            let r = self.steps(&mut st);
            match r {
                Int::Split(f) => {
                    self.st.splits += 1;
                    if self.prof {
                        let fr = st.frames.last().unwrap();
                        let nm = format!("{} b{} i{} {:?}", self.m.funcs[fr.func].name, fr.blk, fr.ip, fr.body.blocks[fr.blk as usize].insts[fr.ip].op);
                        *self.st.prof.entry(nm).or_insert(0) += 1;
                    }
                    let mv = feval(&f, &st.model);
                    let g = if mv { fnot(&f) } else { f.clone() };
                    match self.query(&st, &g) {
                        Res::Sat(model) => {
                            let mut other = st.clone();
                            other.model = model;
                            self.add_path(&mut other, &f, !mv);
                            out.push(other);
                            self.add_path(&mut st, &f, mv);
                            if stop_on_fork { out.push(st); return; }
                        }
                        Res::Unsat => { learn(&mut st, &f, mv); }
                        Res::Unknown => {
                            self.st.unknown += 1;
                            self.errors.push("solver returned unknown".into());
                            return;
                        }
                    }
                    // guard against a split that teaches nothing
                    if decide(&st, &f).is_none() { push_assumed(&mut st, &f, mv); }
                    if decide(&st, &f).is_none() { self.errors.push("split made no progress".into()); return; }
                }
                Int::Kill => { self.st.killed += 1; return; }
                Int::Done => {
                    self.st.paths += 1;
                    for r in &st.reach { *self.st.reach.entry(*r).or_insert(0) += 1; }
                    if self.traces.len() < self.max_trace && self.st.paths % self.trace_every == 0 { self.trace(&st); }
                    return;
                }
                Int::Endless => {
                    self.st.paths += 1;
                    self.violations.push(Violation { kind: "endless".into(), inputs: st.model.clone() });
                    return;
                }
                Int::Panic(s) => {
                    self.st.paths += 1;
                    self.violations.push(Violation { kind: format!("panic:{}", s), inputs: st.model.clone() });
                    return;
                }
                Int::Err(s) => {
                    let mut bt = String::new();
                    for f in st.frames.iter().rev().take(6) { bt.push_str(&format!("\n    at {} b{} i{}", self.m.funcs[f.func].name, f.blk, f.ip)); }
                    self.errors.push(format!("{} inputs={:?}{}", s, st.model, bt));
                    return;
                }
            }
        }
    }
    fn trace(&mut self, st: &State) {
        let mut obs = vec![];
        for v in &st.obs {
            obs.push(match v {
                Val::C(c) => *c as i64,
                Val::I(s) => s.p.eval(&st.model) as i64,
                Val::B(f) => feval(f, &st.model) as i64,
                Val::Fl(s) => s.ty.bits(sf_eval(s, &st.model)) as i64,
                _ => 0,
            });
        }
        self.traces.push(Trace { inputs: st.model.clone(), obs, reach: st.reach.clone() });
    }

    fn steps(&mut self, st: &mut State) -> Int {
        if st.steps > self.step_limit { return Int::Endless; }
        let mut n = 0u64;
        let r = loop {
            n += 1;
            if n & 0xfffff == 0 {
                if st.steps + n > self.step_limit { break Int::Endless; }
                if self.deadline.map_or(false, |d| std::time::Instant::now() > d) { break Int::Err("time is up within a path".into()); }
            }
            match self.step(st) {
                Ok(()) => {}
                Err(i) => break i,
            }
        };
        self.st.instrs += n;
        st.steps += n;
        self.st.max_steps = self.st.max_steps.max(st.steps);
        r
    }

    fn enter_block(&mut self, st: &mut State, target: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let prev = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[target as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = inc.iter().find(|(l, _)| *l == prev).expect("phi pred");
                let v = match &o.1 { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() };
                fr.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let o = inc.iter().find(|(l, _)| *l == prev).expect("phi pred");
                    vals.push(match &o.1 { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() });
                }
                for ((d, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
            }
        }
        fr.blk = target;
        fr.ip = 0;
    }

    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let body: *const Body = &*fr.body; // kept alive by the frame / module cache
        let inst: &Inst = unsafe { &(&(*body).blocks)[fr.blk as usize].insts[fr.ip] };
        macro_rules! v { ($o:expr) => { match $o { Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opnd::K(k) => k.clone() } }; }
        macro_rules! set { ($val:expr) => {{ let x = $val; let fr = Rc::make_mut(st.frames.last_mut().unwrap()); fr.regs[inst.dst as usize] = x; fr.ip += 1; return Ok(()); }}; }
        match &inst.op {
            Op::Bin(op, ty, a, b) => {
                let (x, y) = (v!(a), v!(b));
                if let Ty::Vec(n, t) = ty {
                    let (l, r) = (lanes(&x, *n)?, lanes(&y, *n)?);
                    let mut o = Vec::with_capacity(*n);
                    for i in 0..*n { o.push(bin(st, *op, t.width(), &l[i], &r[i])?); }
                    set!(Val::Agg(Rc::new(o)))
                }
                let w = match ty { Ty::I(w) => *w, _ => 64 };
                if let (Val::C(p), Val::C(q)) = (&x, &y) { if w <= 64 { set!(Val::C(bin_c(*op, w, *p, *q)?)) } }
                set!(bin(st, *op, w, &x, &y)?)
            }
            Op::FBin(op, ty, a, b) => {
                let (x, y) = (v!(a), v!(b));
                if let Ty::Vec(n, t) = ty {
                    let (l, r) = (lanes(&x, *n)?, lanes(&y, *n)?);
                    let mut o = Vec::with_capacity(*n);
                    for i in 0..*n { o.push(fbin(st, t.fty().unwrap(), *op, &l[i], &r[i])?); }
                    set!(Val::Agg(Rc::new(o)))
                }
                set!(fbin(st, ty.fty().unwrap(), *op, &x, &y)?)
            }
            Op::FNeg(ty, a) => {
                let x = v!(a);
                if let Ty::Vec(n, t) = ty {
                    let l = lanes(&x, *n)?;
                    let mut o = Vec::with_capacity(*n);
                    for i in 0..*n { o.push(fneg(st, t.fty().unwrap(), &l[i])?); }
                    set!(Val::Agg(Rc::new(o)))
                }
                set!(fneg(st, ty.fty().unwrap(), &x)?)
            }
            Op::Icmp(pr, ty, a, b) => {
                let (x, y) = (v!(a), v!(b));
                if let Ty::Vec(n, t) = ty {
                    let (l, r) = (lanes(&x, *n)?, lanes(&y, *n)?);
                    let mut o = Vec::with_capacity(*n);
                    for i in 0..*n { o.push(icmp(st, *pr, t.width(), &l[i], &r[i])?); }
                    set!(Val::Agg(Rc::new(o)))
                }
                set!(icmp(st, *pr, ty.width(), &x, &y)?)
            }
            Op::Fcmp(pr, ty, a, b) => {
                let (x, y) = (v!(a), v!(b));
                if let Ty::Vec(n, t) = ty {
                    let (l, r) = (lanes(&x, *n)?, lanes(&y, *n)?);
                    let mut o = Vec::with_capacity(*n);
                    for i in 0..*n { o.push(fval(fcmp(st, t.fty().unwrap(), *pr, &l[i], &r[i])?)); }
                    set!(Val::Agg(Rc::new(o)))
                }
                let ty = ty.fty().unwrap();
                if let (Val::C(p), Val::C(q)) = (&x, &y) {
                    let (p, q) = (ty.to_f64(*p), ty.to_f64(*q));
                    let un = p.is_nan() || q.is_nan();
                    let r = match pr { FPred::False => false, FPred::True => true, FPred::Ord => !un, FPred::Uno => un, FPred::Oeq => p == q, FPred::One => !un && p != q, FPred::Olt => p < q, FPred::Ole => p <= q, FPred::Ogt => p > q, FPred::Oge => p >= q, FPred::Ueq => un || p == q, FPred::Une => p != q, FPred::Ult => un || p < q, FPred::Ule => un || p <= q, FPred::Ugt => un || p > q, FPred::Uge => un || p >= q };
                    set!(Val::C(r as u64))
                }
                let f = fcmp(st, ty, *pr, &x, &y)?;
                let f = match decide(st, &f) { Some(b) => fb(b), None => f };
                set!(fval(f))
            }
            Op::Select(c, a, b, vecc) => {
                let cv = v!(c);
                if *vecc {
                    let (x, y) = (v!(a), v!(b));
                    if let (Val::Agg(cs), Val::Agg(xs), Val::Agg(ys)) = (&cv, &x, &y) {
                        let mut o = Vec::with_capacity(cs.len());
                        for i in 0..cs.len() { let k = conc(st, &cs[i], 1)?; o.push(if k != 0 { xs[i].clone() } else { ys[i].clone() }); }
                        set!(Val::Agg(Rc::new(o)))
                    }
                    return err("vector select");
                }
                match cv {
                    Val::C(k) => { if k & 1 == 1 { set!(v!(a)) } else { set!(v!(b)) } }
                    Val::B(f) => {
                        if let Some(k) = decide(st, &f) { if k { set!(v!(a)) } else { set!(v!(b)) } }
                        let (x, y) = (v!(a), v!(b));
                        let fo = |v: &Val| match v { Val::B(f) => Some(f.clone()), Val::C(0) => Some(ff()), Val::C(1) => Some(ft()), _ => None };
                        if let (Some(p), Some(q)) = (fo(&x), fo(&y)) { set!(fval(fite(&f, &p, &q))) }
                        if let (Val::C(p), Val::C(q)) = (&x, &y) { if p == q { set!(x) } }
                        Err(Int::Split(f))
                    }
                    other => { let k = conc(st, &other, 1)?; if k & 1 == 1 { set!(v!(a)) } else { set!(v!(b)) } }
                }
            }
            Op::Load(ty, p) => {
                let pv = v!(p);
                let addr = match pv { Val::C(a) => a, x => conc(st, &x, 64)? };
                let x = load(st, ty, addr)?;
                if let (Ty::I(w), Val::C(c)) = (ty, &x) { if *w < 64 && *w % 8 != 0 { set!(Val::C(mask(*c, *w))) } }
                set!(x)
            }
            Op::Store(ty, val, p) => {
                let pv = v!(p);
                let addr = match pv { Val::C(a) => a, x => conc(st, &x, 64)? };
                let x = v!(val);
                store(st, ty, addr, &x)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                Ok(())
            }
            Op::Gep(base, off, idx) => {
                let b = v!(base);
                let mut a = match b { Val::C(a) => a, x => conc(st, &x, 64)? };
                a = a.wrapping_add(*off as u64);
                for (o, w, sc) in idx {
                    let iv = v!(o);
                    let i = match iv { Val::C(i) => i, x => conc(st, &x, *w)? };
                    a = a.wrapping_add((sext(i, *w) as i64).wrapping_mul(*sc) as u64);
                }
                set!(Val::C(a))
            }
            Op::Alloca(sz, cnt) => {
                let c = v!(cnt).c() as usize;
                let a = st.mem.alloc(sz * c);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                set!(Val::C(a))
            }
            Op::Cast(c, f, t, a) => {
                let x = v!(a);
                set!(cast(st, *c, f, t, &x)?)
            }
            Op::Br(t) => { self.enter_block(st, *t); Ok(()) }
            Op::CondBr(c, a, b) => {
                let cv = v!(c);
                let k = match cv { Val::C(k) => k & 1 == 1, Val::B(f) => cond(st, &f)?, x => conc(st, &x, 1)? & 1 == 1 };
                self.enter_block(st, if k { *a } else { *b });
                Ok(())
            }
            Op::Switch(ty, c, d, cases) => {
                let cv = v!(c);
                let w = ty.width();
                let t = match cv {
                    Val::C(k) => cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d),
                    Val::I(_) => {
                        let mut t = *d;
                        for (k, l) in cases {
                            let r = icmp(st, IPred::Eq, w, &cv, &Val::C(*k))?;
                            let hit = match r { Val::C(x) => x == 1, Val::B(f) => cond(st, &f)?, _ => unreachable!() };
                            if hit { t = *l; break; }
                        }
                        t
                    }
                    x => { let k = conc(st, &x, w)?; cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d) }
                };
                self.enter_block(st, t);
                Ok(())
            }
            Op::Ret(o) => {
                let rv = match o { Some(o) => Some(v!(o)), None => None };
                let fr = st.frames.pop().unwrap();
                for &a in &fr.allocas { if let Err(e) = st.mem.release(a) { return err(e); } }
                if st.frames.is_empty() { return Err(Int::Done); }
                self.finish_call(st, rv);
                Ok(())
            }
            Op::Unreachable => err("unreachable executed"),
            Op::Extract(a, ix) => {
                let mut x = v!(a);
                for i in ix { x = match &x { Val::Agg(l) => l[*i as usize].clone(), _ => return err(format!("extractvalue of {:?}", x)) }; }
                set!(x)
            }
            Op::Insert(a, e, ix) => {
                let x = v!(a);
                let y = v!(e);
                fn ins(x: Val, y: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() { return y; }
                    match x { Val::Agg(l) => { let mut l = (*l).clone(); let o = std::mem::replace(&mut l[ix[0] as usize], Val::C(0)); l[ix[0] as usize] = ins(o, y, &ix[1..]); Val::Agg(Rc::new(l)) } _ => panic!("insertvalue") }
                }
                set!(ins(x, y, ix))
            }
            Op::ExtractEl(a, i) => {
                let x = v!(a);
                let iv = v!(i);
                let k = conc(st, &iv, 64)? as usize;
                match x { Val::Agg(l) => set!(l[k].clone()), _ => err("extractelement") }
            }
            Op::InsertEl(a, e, i) => {
                let x = v!(a);
                let iv = v!(i);
                let k = conc(st, &iv, 64)? as usize;
                match x { Val::Agg(l) => { let mut l = (*l).clone(); l[k] = v!(e); set!(Val::Agg(Rc::new(l))) } _ => err("insertelement") }
            }
            Op::Shuffle(a, b, ms) => {
                let (x, y) = (v!(a), v!(b));
                match (&x, &y) {
                    (Val::Agg(p), Val::Agg(q)) => { let n = p.len(); set!(Val::Agg(Rc::new(ms.iter().map(|i| { let i = *i as usize; if i < n { p[i].clone() } else { q[i - n].clone() } }).collect()))) }
                    _ => err("shuffle"),
                }
            }
            Op::Freeze(a) => { set!(v!(a)) }
            Op::Rmw(o, ty, p, a) => {
                let addr = conc(st, &v!(p), 64)?;
                let old = load(st, ty, addr)?;
                let x = v!(a);
                let w = ty.width();
                let nv = match &**o {
                    "xchg" => x,
                    "add" => bin(st, Bin::Add, w, &old, &x)?,
                    "sub" => bin(st, Bin::Sub, w, &old, &x)?,
                    "and" => bin(st, Bin::And, w, &old, &x)?,
                    "or" => bin(st, Bin::Or, w, &old, &x)?,
                    "xor" => bin(st, Bin::Xor, w, &old, &x)?,
                    o => return err(format!("atomicrmw {}", o)),
                };
                store(st, ty, addr, &nv)?;
                set!(old)
            }
            Op::CmpXchg(ty, p, c, n) => {
                let addr = conc(st, &v!(p), 64)?;
                let old = load(st, ty, addr)?;
                let w = ty.width();
                let (o, e) = (conc(st, &old, w)?, conc(st, &v!(c), w)?);
                if o == e { let x = v!(n); store(st, ty, addr, &x)?; }
                set!(Val::Agg(Rc::new(vec![old, Val::C((o == e) as u64)])))
            }
            Op::Nop => { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; Ok(()) }
            Op::Bad(s) => err(format!("unsupported instruction: {}", s)),
            Op::Call { callee, ret, args, noreturn, .. } => {
                let f = match callee {
                    Callee::Func(f) => Some(*f),
                    Callee::Ext(n) => {
                        if *noreturn { return Err(Int::Panic(n.0.to_string())); }
                        // frequent intrinsics on concrete values
                        match n.1 {
                            1 => { let fr = Rc::make_mut(st.frames.last_mut().unwrap()); fr.ip += 1; let _ = fr; return Ok(()); }
                            2..=4 => {
                                if let (Val::C(x), Val::C(y)) = (v!(&args[0].1), v!(&args[1].1)) {
                                    let w = args[0].0.width();
                                    if w <= 64 {
                                        let (p, q) = (sext(x, w) as i64 as i128, sext(y, w) as i64 as i128);
                                        let r = match n.1 { 2 => p + q, 3 => p - q, _ => p * q };
                                        let over = r < -(1i128 << (w - 1)) || r > (1i128 << (w - 1)) - 1;
                                        set!(Val::Agg(Rc::new(vec![Val::C(mask(r as u64, w)), Val::C(over as u64)])))
                                    }
                                }
                            }
                            5..=7 => {
                                if let (Val::C(x), Val::C(y)) = (v!(&args[0].1), v!(&args[1].1)) {
                                    let w = args[0].0.width();
                                    if w <= 64 {
                                        let (p, q) = (x as u128, y as u128);
                                        let (r, over) = match n.1 { 5 => (p + q, p + q >= 1u128 << w), 6 => (p.wrapping_sub(q), p < q), _ => (p * q, p * q >= 1u128 << w) };
                                        set!(Val::Agg(Rc::new(vec![Val::C(mask(r as u64, w)), Val::C(over as u64)])))
                                    }
                                }
                            }
                            8..=9 => {
                                if let (Val::C(x), Val::C(y)) = (v!(&args[0].1), v!(&args[1].1)) {
                                    if args[0].0.width() <= 64 && !matches!(args[0].0, Ty::Vec(..)) { set!(Val::C(if n.1 == 8 { x.max(y) } else { x.min(y) })) }
                                }
                            }
                            _ => {}
                        }
                        let mut av = Vec::with_capacity(args.len());
                        for (_, o) in args { av.push(v!(o)); }
                        let n: &str = &n.0;
                        let r = crate::ext::call(self, st, n, ret, args, av)?;
                        self.finish_call(st, Some(r));
                        return Ok(());
                    }
                    Callee::Asm => { self.finish_call(st, Some(Val::C(0))); return Ok(()); }
                    Callee::Ind(o) => {
                        let a = conc(st, &v!(o), 64)?;
                        let id = a >> 32;
                        if id >= FUNC_BASE && id < EXT_BASE { Some((id - FUNC_BASE) as usize) } else if id >= EXT_BASE {
                            let n = { let e = self.m.ext.borrow(); e.iter().find(|(_, v)| **v == a).map(|x| x.0.clone()) };
                            let n = match n { Some(n) => n, None => return err("indirect call to unknown external") };
                            let mut av = Vec::with_capacity(args.len());
                            for (_, o) in args { av.push(v!(o)); }
                            let r = crate::ext::call(self, st, &n, ret, args, av)?;
                            self.finish_call(st, Some(r));
                            return Ok(());
                        } else { return err(format!("indirect call to {:x}", a)); }
                    }
                };
                let f = f.unwrap();
                let fun = &self.m.funcs[f];
                if *noreturn || fun.noreturn { return Err(Int::Panic(fun.name.clone())); }
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(v!(o)); }
                if self.icpt[f] {
                    self.finish_call(st, Some(Val::C(0)));
                    return Ok(());
                }
                if st.frames.len() > 4000 { return err("stack overflow"); }
                let body = self.m.body(f);
                if !self.seen_fn[f] { self.seen_fn[f] = true; self.st.funcs.insert(f); }
                let mut regs = vec![Val::C(0); body.nregs];
                for (p, a) in body.params.iter().zip(av) { regs[*p as usize] = a; }
                st.frames.push(Rc::new(Frame { func: f, regs, body, blk: 0, ip: 0, allocas: vec![] }));
                Ok(())
            }
        }
    }

    fn finish_call(&mut self, st: &mut State, rv: Option<Val>) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let body: *const Body = &*fr.body;
        let inst: &Inst = unsafe { &(&(*body).blocks)[fr.blk as usize].insts[fr.ip] };
        if inst.dst != u32::MAX { if let Some(v) = rv { fr.regs[inst.dst as usize] = v; } }
        if let Op::Call { normal: Some(n), .. } = &inst.op { let n = *n; self.enter_block(st, n); } else { fr.ip += 1; }
    }

    // ---- harness intrinsics
    pub fn intr(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Option<Val>> {
        match n {
            "sym_int" => {
                let (lo, hi) = (conc(st, &a[0], 64)? as i64, conc(st, &a[1], 64)? as i64);
                if lo > hi { return Err(Int::Kill); }
                let i = st.model.len();
                let (lo, hi) = match self.pin.get(i) { Some(Some(v)) => if *v < lo || *v > hi { return Err(Int::Kill) } else { (*v, *v) }, _ => (lo, hi) };
                if let Some(c) = &self.concrete {
                    let v = c.get(i).copied().unwrap_or(lo);
                    st.model.push(v);
                    st.vb.push((v, v));
                    st.vb0.push((v, v));
                    return Ok(Some(Val::C(v as u64)));
                }
                let v0 = 0i64.clamp(lo, hi);
                st.model.push(v0);
                st.vb.push((lo, hi));
                st.vb0.push((lo, hi));
                let p = Poly::var(i);
                if lo == hi {
                    let f = eq0(&p.sub(&Poly::konst(lo as i128)).unwrap());
                    self.add_path(st, &f, true);
                    return Ok(Some(Val::C(lo as u64)));
                }
                let up = le0(&p.sub(&Poly::konst(hi as i128)).unwrap());
                let dn = le0(&Poly::konst(lo as i128).sub(&p).unwrap());
                let f = fand(&up, &dn);
                self.add_path(st, &f, true);
                Ok(Some(Val::I(Rc::new(SI { p }))))
            }
            "vassume" => {
                match &a[0] {
                    Val::C(c) => { if *c & 0xffff_ffff == 0 { return Err(Int::Kill); } }
                    Val::B(f) => match decide(st, f) {
                        Some(true) => {}
                        Some(false) => return Err(Int::Kill),
                        None => {
                            if !feval(f, &st.model) {
                                match self.query(st, f) {
                                    Res::Sat(m) => st.model = m,
                                    Res::Unsat => return Err(Int::Kill),
                                    Res::Unknown => { self.st.unknown += 1; return err("unknown in assume"); }
                                }
                            }
                            let f = f.clone();
                            self.add_path(st, &f, true);
                        }
                    },
                    v => { if conc(st, v, 32)? == 0 { return Err(Int::Kill); } }
                }
                Ok(Some(Val::C(0)))
            }
            "vassert" => {
                let id = conc(st, &a[1], 64)? as i64;
                self.st.asserts += 1;
                match &a[0] {
                    Val::B(f) => {
                        let d = decide(st, f);
                        if d == Some(true) { return Ok(Some(Val::C(0))); }
                        if !feval(f, &st.model) {
                            self.violations.push(Violation { kind: format!("assert:{}", id), inputs: st.model.clone() });
                            return Err(Int::Kill);
                        }
                        self.st.assert_queries += 1;
                        match self.query(st, &fnot(f)) {
                            Res::Sat(m) => { self.violations.push(Violation { kind: format!("assert:{}", id), inputs: m }); let f = f.clone(); self.add_path(st, &f, true); }
                            Res::Unsat => {}
                            Res::Unknown => { self.st.unknown += 1; return err("unknown in assert"); }
                        }
                    }
                    v => {
                        let c = conc(st, v, 32)?;
                        if c & 0xffff_ffff == 0 {
                            self.violations.push(Violation { kind: format!("assert:{}", id), inputs: st.model.clone() });
                            return Err(Int::Kill);
                        }
                    }
                }
                Ok(Some(Val::C(0)))
            }
            "vreach" => { let id = conc(st, &a[0], 64)? as i64; if !st.reach.contains(&id) { st.reach.push(id); } Ok(Some(Val::C(0))) }
            "vdone" => Err(Int::Done),
            "v_le" => Ok(Some(icmp(st, IPred::Sle, 64, &a[0], &a[1])?)),
            "v_eq" => Ok(Some(icmp(st, IPred::Eq, 64, &a[0], &a[1])?)),
            "vobs" => { st.obs.push(a[0].clone()); Ok(Some(Val::C(0))) }
            "vdbg" => { if self.verbose { eprintln!("DBG {:?}", a[0]); } Ok(Some(Val::C(0))) }
            _ => Ok(None),
        }
    }
}

// re-exports for ext.rs
pub mod ops {
    use super::*;
    pub fn e_conc(st: &State, v: &Val, w: u32) -> R<u64> { conc(st, v, w) }
    pub fn e_conc128(st: &State, v: &Val, w: u32) -> R<u128> { conc128(st, v, w) }
    pub fn e_copy(st: &mut State, d: u64, s: u64, n: usize) -> R<()> { copy(st, d, s, n) }
    pub fn e_load(st: &State, ty: &Ty, a: u64) -> R<Val> { load(st, ty, a) }
    pub fn e_store(st: &mut State, a: u64, n: usize, v: &Val) -> R<()> { store_scalar(st, a, n, v) }
    pub fn e_icmp(st: &State, p: IPred, w: u32, a: &Val, b: &Val) -> R<Val> { icmp(st, p, w, a, b) }
    pub fn e_bin(st: &State, o: Bin, w: u32, a: &Val, b: &Val) -> R<Val> { bin(st, o, w, a, b) }
    pub fn e_cond(st: &State, v: &Val) -> R<bool> { match v { Val::C(c) => Ok(c & 1 == 1), Val::B(f) => cond(st, f), x => Ok(conc(st, x, 1)? & 1 == 1) } }
    pub fn e_fcmp(st: &State, ty: FTy, p: FPred, a: &Val, b: &Val) -> R<Val> { Ok(fval(fcmp(st, ty, p, a, b)?)) }
    pub fn e_fneg(st: &State, ty: FTy, a: &Val) -> R<Val> { fneg(st, ty, a) }
    pub fn e_fbin(st: &State, ty: FTy, o: FBin, a: &Val, b: &Val) -> R<Val> { fbin(st, ty, o, a, b) }
    pub fn e_fround(st: &State, ty: FTy, a: &Val, o: FOp) -> R<Val> { fround(st, ty, a, o) }
    pub fn e_fsqrt(st: &State, ty: FTy, a: &Val) -> R<Val> { fsqrt(st, ty, a) }
    pub fn e_fneg_test(st: &State, ty: FTy, a: &Val) -> R<bool> { fneg_test(st, ty, a) }
    pub fn e_conc_f(st: &State, ty: FTy, a: &Val) -> R<f64> {
        match a { Val::C(c) => Ok(ty.to_f64(*c)), Val::Fl(s) => conc_float(st, s), v => Ok(ty.to_f64(conc(st, v, if ty == FTy::F32 { 32 } else { 64 })?)) }
    }
    pub fn e_upoly(st: &State, a: &Val, w: u32) -> R<Poly> { upoly(st, a, w) }
    pub fn e_spoly(st: &State, a: &Val, w: u32) -> R<Poly> { spoly(st, a, w) }
    pub fn e_mki(st: &State, p: Poly, w: u32) -> R<Val> { mki(st, p, w) }
    pub fn e_interval(st: &State, p: &Poly) -> (i128, i128) { interval(st, p) }
    pub fn e_fval(f: Fm) -> Val { fval(f) }
    pub fn e_fptoint(st: &State, ty: FTy, a: &Val) -> R<Result<Poly, f64>> { fptoint(st, ty, a) }
    pub fn e_sat(c: f64, w: u32, s: bool) -> u64 { sat_to_int(c, w, s) }
    pub fn e_is_zero(st: &State, ty: FTy, a: &Val) -> R<bool> { let f = fcmp(st, ty, FPred::Oeq, a, &Val::C(0))?; cond(st, &f) }
    pub fn e_err<T>(s: String) -> R<T> { err(s) }
    pub fn e_is_sym(v: &Val) -> bool { is_sym(v) }
    pub type Rr<T> = R<T>;
}
