//! Symbolic values: integer polynomials over bounded integer inputs, exact / rounded floats, formulas.
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FTy { F32, F64 }
impl FTy {
    pub fn prec(self) -> u32 { match self { FTy::F32 => 24, FTy::F64 => 53 } }
    pub fn to_f64(self, bits: u64) -> f64 { match self { FTy::F32 => f32::from_bits(bits as u32) as f64, FTy::F64 => f64::from_bits(bits) } }
    /// bits of the value (the f64 must be representable in the type)
    pub fn bits(self, v: f64) -> u64 { match self { FTy::F32 => (v as f32).to_bits() as u64, FTy::F64 => v.to_bits() } }
}

/// Monomial: up to 8 variable ids (+1), sorted descending, 16 bits each in a u128; 0 = constant term.
pub type Mono = u128;
fn mono_mul(a: Mono, b: Mono) -> Option<Mono> {
    if a == 0 { return Some(b); }
    if b == 0 { return Some(a); }
    let mut v: Vec<u16> = vec![];
    for k in 0..8 {
        let x = (a >> (16 * k)) as u16;
        if x != 0 { v.push(x) }
        let y = (b >> (16 * k)) as u16;
        if y != 0 { v.push(y) }
    }
    if v.len() > 8 { return None; }
    v.sort_unstable();
    let mut r = 0u128;
    for x in v.iter().rev() { r = (r << 16) | *x as u128; }
    Some(r)
}
pub fn mono_vars(m: Mono) -> impl Iterator<Item = usize> {
    (0..8).map(move |k| (m >> (16 * k)) as u16).take_while(|x| *x != 0).map(|x| x as usize - 1)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly(pub Vec<(Mono, i128)>); // sorted by mono, non-zero coefficients

impl Poly {
    pub fn konst(c: i128) -> Poly { if c == 0 { Poly(vec![]) } else { Poly(vec![(0, c)]) } }
    pub fn var(i: usize) -> Poly { Poly(vec![(i as u128 + 1, 1)]) }
    pub fn as_const(&self) -> Option<i128> {
        match self.0.as_slice() { [] => Some(0), [(0, c)] => Some(*c), _ => None }
    }
    pub fn add_scaled(&self, o: &Poly, k: i128) -> Option<Poly> {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1; }
            else if i >= a.len() || b[j].0 < a[i].0 { r.push((b[j].0, b[j].1.checked_mul(k)?)); j += 1; }
            else {
                let c = a[i].1.checked_add(b[j].1.checked_mul(k)?)?;
                if c != 0 { r.push((a[i].0, c)); }
                i += 1; j += 1;
            }
        }
        if k == 0 { return Some(self.clone()); }
        Some(Poly(r))
    }
    pub fn add(&self, o: &Poly) -> Option<Poly> { self.add_scaled(o, 1) }
    pub fn sub(&self, o: &Poly) -> Option<Poly> { self.add_scaled(o, -1) }
    pub fn scale(&self, k: i128) -> Option<Poly> {
        if k == 0 { return Some(Poly(vec![])); }
        let mut r = Vec::with_capacity(self.0.len());
        for (m, c) in &self.0 { r.push((*m, c.checked_mul(k)?)); }
        Some(Poly(r))
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if let Some(c) = self.as_const() { return o.scale(c); }
        if let Some(c) = o.as_const() { return self.scale(c); }
        let mut v: Vec<(Mono, i128)> = vec![];
        for (m, c) in &self.0 { for (n, d) in &o.0 { v.push((mono_mul(*m, *n)?, c.checked_mul(*d)?)); } }
        v.sort_unstable_by_key(|x| x.0);
        let mut r: Vec<(Mono, i128)> = vec![];
        for (m, c) in v {
            match r.last_mut() { Some(l) if l.0 == m => l.1 = l.1.checked_add(c)?, _ => r.push((m, c)) }
        }
        r.retain(|x| x.1 != 0);
        Some(Poly(r))
    }
    pub fn eval(&self, model: &[i64]) -> i128 {
        let mut s = 0i128;
        for (m, c) in &self.0 {
            let mut t = *c;
            for v in mono_vars(*m) { t *= model[v] as i128; }
            s += t;
        }
        s
    }
    /// trailing zero bits common to all coefficients
    pub fn tz(&self) -> u32 { self.0.iter().map(|x| x.1.trailing_zeros()).min().unwrap_or(0) }
    pub fn shr(&self, k: u32) -> Poly { Poly(self.0.iter().map(|(m, c)| (*m, c >> k)).collect()) }
    pub fn shl(&self, k: u32) -> Option<Poly> { if k >= 120 { return None; } self.scale(1i128 << k) }
    pub fn linear(&self) -> bool { self.0.iter().all(|x| x.0 < 65536) }
}

/// canonical linear/polynomial form: no constant term, gcd 1, leading coefficient positive
#[derive(Debug, Eq)]
pub struct Form { pub p: Poly, pub h: u64 }
impl PartialEq for Form { fn eq(&self, o: &Form) -> bool { self.h == o.h && self.p == o.p } }
impl Hash for Form { fn hash<H: Hasher>(&self, s: &mut H) { s.write_u64(self.h) } }

/// forms carry their own hash
#[derive(Default, Clone, Copy)]
pub struct NoHash;
pub struct IdH(u64);
impl std::hash::BuildHasher for NoHash { type Hasher = IdH; fn build_hasher(&self) -> IdH { IdH(0) } }
impl Hasher for IdH { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(5) ^ *x as u64; } } fn write_u64(&mut self, v: u64) { self.0 = v; } }

fn gcd64(a: u64, b: u64) -> u64 {
    if a == 0 { return b; }
    if b == 0 { return a; }
    let s = (a | b).trailing_zeros();
    let (mut a, mut b) = (a >> a.trailing_zeros(), b);
    loop {
        b >>= b.trailing_zeros();
        if a > b { std::mem::swap(&mut a, &mut b); }
        b -= a;
        if b == 0 { return a << s; }
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    let (x, y) = (a.unsigned_abs(), b.unsigned_abs());
    if x <= u64::MAX as u128 && y <= u64::MAX as u128 { return gcd64(x as u64, y as u64) as i128; }
 let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
pub fn div_floor(a: i128, b: i128) -> i128 { let q = a / b; if (a % b != 0) && ((a < 0) != (b < 0)) { q - 1 } else { q } }
pub fn div_ceil(a: i128, b: i128) -> i128 { -div_floor(-a, b) }

/// p = g * form + k  (g may be negative)
pub fn canon(p: &Poly) -> (Rc<Form>, i128, i128) {
    let mut k = 0;
    let mut v = &p.0[..];
    if let Some((0, c)) = v.first() { k = *c; v = &v[1..]; }
    let mut g = 0;
    for x in v { g = gcd(g, x.1); if g == 1 { break; } }
    if v[0].1 < 0 { g = -g; }
    let q = Poly(v.iter().map(|(m, c)| (*m, if g == 1 { *c } else if g == -1 { -*c } else if *c == *c as i64 as i128 && g == g as i64 as i128 { (*c as i64 / g as i64) as i128 } else { c / g })).collect());
    let mut h = 0x9e37_79b9_7f4a_7c15u64;
    for (m, c) in &q.0 { for w in [*m as u64, (*m >> 64) as u64, *c as u64, (*c >> 64) as u64] { h = (h ^ w).wrapping_mul(0xff51_afd7_ed55_8ccd); h ^= h >> 32; } }
    (Rc::new(Form { h, p: q }), g, k)
}

#[derive(Debug)]
pub enum F {
    T,
    Fa,
    Le(Rc<Form>, i128),
    Eq(Rc<Form>, i128),
    Not(Rc<F>),
    And(Rc<F>, Rc<F>),
    Or(Rc<F>, Rc<F>),
    Iff(Rc<F>, Rc<F>),
}
pub type Fm = Rc<F>;
thread_local! {
    static TRUE: Fm = Rc::new(F::T);
    static FALSE: Fm = Rc::new(F::Fa);
}
pub fn ft() -> Fm { TRUE.with(|x| x.clone()) }
pub fn ff() -> Fm { FALSE.with(|x| x.clone()) }
pub fn fb(b: bool) -> Fm { if b { ft() } else { ff() } }
pub fn fnot(a: &Fm) -> Fm { match &**a { F::T => ff(), F::Fa => ft(), F::Not(x) => x.clone(), _ => Rc::new(F::Not(a.clone())) } }
pub fn fand(a: &Fm, b: &Fm) -> Fm {
    match (&**a, &**b) { (F::Fa, _) | (_, F::Fa) => ff(), (F::T, _) => b.clone(), (_, F::T) => a.clone(), _ => if Rc::ptr_eq(a, b) { a.clone() } else { Rc::new(F::And(a.clone(), b.clone())) } }
}
pub fn for_(a: &Fm, b: &Fm) -> Fm {
    match (&**a, &**b) { (F::T, _) | (_, F::T) => ft(), (F::Fa, _) => b.clone(), (_, F::Fa) => a.clone(), _ => if Rc::ptr_eq(a, b) { a.clone() } else { Rc::new(F::Or(a.clone(), b.clone())) } }
}
pub fn fiff(a: &Fm, b: &Fm) -> Fm {
    match (&**a, &**b) { (F::T, _) => b.clone(), (_, F::T) => a.clone(), (F::Fa, _) => fnot(b), (_, F::Fa) => fnot(a), _ => if Rc::ptr_eq(a, b) { ft() } else { Rc::new(F::Iff(a.clone(), b.clone())) } }
}
pub fn fite(c: &Fm, a: &Fm, b: &Fm) -> Fm { for_(&fand(c, a), &fand(&fnot(c), b)) }
/// p <= 0
pub fn le0(p: &Poly) -> Fm {
    if let Some(c) = p.as_const() { return fb(c <= 0); }
    let (f, g, k) = canon(p);
    // g*f + k <= 0
    if g > 0 { Rc::new(F::Le(f, div_floor(-k, g))) } else {
        // f >= k/(-g) -> not (f <= ceil(k/-g)-1)
        let t = div_ceil(k, -g);
        fnot(&Rc::new(F::Le(f, t - 1)))
    }
}
/// p < 0
pub fn lt0(p: &Poly) -> Fm {
    if let Some(c) = p.as_const() { return fb(c < 0); }
    match p.add(&Poly::konst(1)) { Some(q) => le0(&q), None => panic!("poly overflow") }
}
pub fn eq0(p: &Poly) -> Fm {
    if let Some(c) = p.as_const() { return fb(c == 0); }
    let (f, g, k) = canon(p);
    if k % g != 0 { return ff(); }
    Rc::new(F::Eq(f, -k / g))
}
pub fn feval(f: &F, m: &[i64]) -> bool {
    match f {
        F::T => true,
        F::Fa => false,
        F::Le(p, k) => p.p.eval(m) <= *k,
        F::Eq(p, k) => p.p.eval(m) == *k,
        F::Not(a) => !feval(a, m),
        F::And(a, b) => feval(a, m) && feval(b, m),
        F::Or(a, b) => feval(a, m) || feval(b, m),
        F::Iff(a, b) => feval(a, m) == feval(b, m),
    }
}
pub fn flinear(f: &F) -> bool {
    match f {
        F::T | F::Fa => true,
        F::Le(p, _) | F::Eq(p, _) => p.p.linear(),
        F::Not(a) => flinear(a),
        F::And(a, b) | F::Or(a, b) | F::Iff(a, b) => flinear(a) && flinear(b),
    }
}

/// symbolic integer: register bits = value mod 2^w; value within [-2^(w-1), 2^w - 1]
#[derive(Debug, Clone, PartialEq)]
pub struct SI { pub p: Poly }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FOp {
    Round,
    AddC(f64),
    RSubC(f64), // c - x
    MulC(f64),
    DivC(f64),
    Sqrt,
    Neg,
    Floor,
    Ceil,
    Trunc,
    ToF32,
    ToF64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Base {
    Poly(Poly, i32),       // p * 2^e
    Quot(Poly, Poly, i32), // p*2^e / q ; q != 0 of known sign, both p*2^e and q representable
}

#[derive(Debug, Clone, PartialEq)]
pub enum SFk {
    Exact(Poly, i32),
    Fn(Base, Vec<FOp>),
}
#[derive(Debug, Clone, PartialEq)]
pub struct SF { pub ty: FTy, pub k: SFk }

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    C128(Rc<u128>),
    I(Rc<SI>),
    Fl(Rc<SF>),
    B(Fm), // 0/1 value
    Agg(Rc<Vec<Val>>),
    Cat(Rc<Vec<(u32, Val)>>), // byte-contiguous pieces (size, value)
    Key(Rc<SF>), // the bits of a negative float with all but the sign flipped (the key of total_cmp)
}
impl Val {
    pub fn c(&self) -> u64 { match self { Val::C(c) => *c, Val::C128(c) => **c as u64, v => panic!("concrete expected: {:?}", v) } }
    pub fn from_u128(v: u128) -> Val { if v >> 64 == 0 { Val::C(v as u64) } else { Val::C128(Rc::new(v)) } }
    pub fn u128(&self) -> u128 { match self { Val::C(c) => *c as u128, Val::C128(c) => **c, v => panic!("concrete128 expected: {:?}", v) } }
    pub fn is_c(&self) -> bool { matches!(self, Val::C(_) | Val::C128(_)) }
}

/// p * 2^e rounded to nearest in type
pub fn round_scaled(ty: FTy, n: i128, e: i32) -> f64 {
    // exact scaling by powers of two commutes with rounding away from under/overflow
    match ty {
        FTy::F32 => { let v = n as f32 as f64; v * (2f64).powi(e) }
        FTy::F64 => {
            let v = n as f64;
            v * (2f64).powi(e)
        }
    }
}
/// decompose finite float into (m, e): v = m * 2^e with m odd (or 0)
pub fn decomp(v: f64) -> Option<(i128, i32)> {
    if !v.is_finite() { return None; }
    if v == 0.0 { return Some((0, 0)); }
    let b = v.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i32;
    let fr = (b & ((1 << 52) - 1)) as i128;
    let (mut m, mut e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
    let tz = m.trailing_zeros();
    m >>= tz;
    e += tz as i32;
    if b >> 63 == 1 { m = -m }
    Some((m, e))
}

pub fn apply(ty: &mut FTy, x: f64, op: &FOp) -> f64 {
    let r32 = |v: f32| v as f64;
    match (*ty, op) {
        (_, FOp::Round) => x,
        (FTy::F32, FOp::AddC(c)) => r32(x as f32 + *c as f32),
        (FTy::F64, FOp::AddC(c)) => x + c,
        (FTy::F32, FOp::RSubC(c)) => r32(*c as f32 - x as f32),
        (FTy::F64, FOp::RSubC(c)) => c - x,
        (FTy::F32, FOp::MulC(c)) => r32(x as f32 * *c as f32),
        (FTy::F64, FOp::MulC(c)) => x * c,
        (FTy::F32, FOp::DivC(c)) => r32(x as f32 / *c as f32),
        (FTy::F64, FOp::DivC(c)) => x / c,
        (FTy::F32, FOp::Sqrt) => r32((x as f32).sqrt()),
        (FTy::F64, FOp::Sqrt) => x.sqrt(),
        (_, FOp::Neg) => -x,
        (_, FOp::Floor) => x.floor(),
        (_, FOp::Ceil) => x.ceil(),
        (_, FOp::Trunc) => x.trunc(),
        (_, FOp::ToF32) => { *ty = FTy::F32; x as f32 as f64 }
        (_, FOp::ToF64) => { *ty = FTy::F64; x }
    }
}
pub fn base_ty(ty: FTy, ops: &[FOp]) -> FTy {
    // type before the chain: determined by the first cast
    for o in ops { match o { FOp::ToF32 => return FTy::F64, FOp::ToF64 => return FTy::F32, _ => {} } }
    ty
}
/// evaluate chain on base value x (already float in base type)
pub fn run_chain(bty: FTy, x: f64, ops: &[FOp]) -> f64 {
    let mut ty = bty;
    let mut v = x;
    for o in ops { v = apply(&mut ty, v, o); }
    v
}
pub fn chain_increasing(ops: &[FOp]) -> Option<bool> {
    let mut inc = true;
    for o in ops {
        match o {
            FOp::MulC(c) | FOp::DivC(c) => { if *c == 0.0 || !c.is_finite() { return None; } if *c < 0.0 { inc = !inc } }
            FOp::RSubC(_) | FOp::Neg => inc = !inc,
            _ => {}
        }
    }
    Some(inc)
}
pub fn sf_eval(s: &SF, m: &[i64]) -> f64 {
    match &s.k {
        SFk::Exact(p, e) => p.eval(m) as f64 * 2f64.powi(*e),
        SFk::Fn(b, ops) => {
            let bty = base_ty(s.ty, ops);
            let x = match b {
                Base::Poly(p, e) => round_scaled(bty, p.eval(m), *e),
                Base::Quot(p, q, e) => {
                    let a = round_scaled(bty, p.eval(m), *e);
                    let b = q.eval(m) as f64;
                    match bty { FTy::F32 => (a as f32 / b as f32) as f64, FTy::F64 => a / b }
                }
            };
            run_chain(bty, x, ops)
        }
    }
}
