//! LLVM intrinsics, libc / libm, and the environment stubs.
use crate::exec::ops::*;
use crate::exec::*;
use crate::ir::*;
use crate::val::*;
use std::rc::Rc;

pub const INTR: &[&str] = &["sym_int", "vassume", "vassert", "vreach", "vobs", "vdbg", "v_le", "v_eq", "vdone"];

/// functions defined in the module that are replaced (environment only):
/// formatted printing / logging has no effect on the properties
pub fn intercepted(name: &str) -> bool {
    name.contains("3std2io5stdio6__print") || name.contains("3std2io5stdio7__eprint") || name.contains("3std2io5stdio6_print") || name.contains("3std2io5stdio7_eprint")
}
/// codes of frequent intrinsics (see Op::Call)
pub fn code(n: &str) -> u8 {
    let Some(r) = n.strip_prefix("llvm.") else { return 0 };
    for (p, c) in [("lifetime.", 1), ("assume", 1), ("experimental.noalias", 1), ("sadd.with", 2), ("ssub.with", 3), ("smul.with", 4), ("uadd.with", 5), ("usub.with", 6), ("umul.with", 7), ("umax.i", 8), ("umin.i", 9)] { if r.starts_with(p) { return c; } }
    0
}

fn cstr(st: &State, mut a: u64) -> Rr<Vec<u8>> {
    let mut v = vec![];
    loop { let b = e_conc(st, &e_load(st, &Ty::I(8), a)?, 8)? as u8; if b == 0 { return Ok(v); } v.push(b); a += 1; }
}

fn lanes_of(v: &Val) -> Option<Rc<Vec<Val>>> { if let Val::Agg(a) = v { Some(a.clone()) } else { None } }

pub fn call(m: &mut Machine, st: &mut State, n: &str, ret: &Ty, args: &[(Ty, Opnd)], a: Vec<Val>) -> Rr<Val> {
    if let Some(r) = n.strip_prefix("llvm.") { return intrinsic(m, st, r, ret, args, a); }
    if INTR.contains(&n) { return Ok(m.intr(st, n, &a)?.unwrap()); }
    let u = |st: &State, i: usize| -> Rr<u64> { e_conc(st, &a[i], args[i].0.width()) };
    // Rust's allocator shims may still be visible under their mangled names
    let short = if n.contains("___rust_alloc_zeroed") { "calloc1" } else if n.contains("___rust_alloc") && !n.contains("no_alloc_shim") { "malloc" } else if n.contains("___rust_realloc") { "rust_realloc" } else if n.contains("___rust_dealloc") { "free" } else { n };
    match short {
        "malloc" => { let s = u(st, 0)?; Ok(Val::C(st.mem.alloc(s as usize))) }
        "calloc" => { let s = u(st, 0)? * u(st, 1)?; Ok(Val::C(st.mem.alloc(s as usize))) }
        "calloc1" => { let s = u(st, 0)?; Ok(Val::C(st.mem.alloc(s as usize))) }
        "aligned_alloc" => { let s = u(st, 1)?; Ok(Val::C(st.mem.alloc(s as usize))) }
        "posix_memalign" => {
            let p = u(st, 0)?; let s = u(st, 2)?;
            let x = st.mem.alloc(s as usize);
            e_store(st, p, 8, &Val::C(x))?;
            Ok(Val::C(0))
        }
        "realloc" | "rust_realloc" => {
            let p = u(st, 0)?; let s = if short == "realloc" { u(st, 1)? } else { u(st, 3)? } as usize;
            if p == 0 { return Ok(Val::C(st.mem.alloc(s))); }
            let old = match st.mem.size_of(p) { Ok(o) => o, Err(e) => return e_err(e) };
            let x = st.mem.alloc(s);
            e_copy(st, x, p, old.min(s))?;
            if let Err(e) = st.mem.release(p) { return e_err(e); }
            Ok(Val::C(x))
        }
        "free" => { let p = u(st, 0)?; if p != 0 { if let Err(e) = st.mem.release(p) { return e_err(e); } } Ok(Val::C(0)) }
        "memcpy" | "memmove" => { let (d, s, k) = (u(st, 0)?, u(st, 1)?, u(st, 2)?); e_copy(st, d, s, k as usize)?; Ok(Val::C(d)) }
        "memset" => { let (d, c, k) = (u(st, 0)?, u(st, 1)?, u(st, 2)?); for i in 0..k { e_store(st, d + i, 1, &Val::C(c & 255))?; } Ok(Val::C(d)) }
        "bcmp" | "memcmp" => {
            let (p, q, k) = (u(st, 0)?, u(st, 1)?, u(st, 2)?);
            for i in 0..k {
                let x = e_conc(st, &e_load(st, &Ty::I(8), p + i)?, 8)?;
                let y = e_conc(st, &e_load(st, &Ty::I(8), q + i)?, 8)?;
                if x != y { return Ok(Val::C(mask(if x < y { (-1i64) as u64 } else { 1 }, 32))); }
            }
            Ok(Val::C(0))
        }
        "strlen" => Ok(Val::C(cstr(st, u(st, 0)?)?.len() as u64)),
        // environment stubs: entropy and clock that differ from call to call, no environment variables, swallowed output
        "getrandom" => { let (p, k) = (u(st, 0)?, u(st, 1)?); st.ent += 1; let e = st.ent; for i in 0..k { e_store(st, p + i, 1, &Val::C((17 + 31 * i).wrapping_mul(e * 2 - 1).wrapping_add(e * 77 - 77) & 255))?; } Ok(Val::C(k)) }
        "syscall" => { let nr = u(st, 0)?; if nr == 318 { let (p, k) = (u(st, 1)?, u(st, 2)?); st.ent += 1; let e = st.ent; for i in 0..k { e_store(st, p + i, 1, &Val::C((17 + 31 * i).wrapping_mul(e * 2 - 1).wrapping_add(e * 77 - 77) & 255))?; } Ok(Val::C(k)) } else { e_err(format!("syscall {}", nr)) } }
        "clock_gettime" => { let p = u(st, 1)?; st.ent += 1; let e = st.ent; e_store(st, p, 8, &Val::C(1000 + e))?; e_store(st, p + 8, 8, &Val::C(e * 1237 % 1_000_000))?; Ok(Val::C(0)) }
        "getenv" => Ok(Val::C(0)),
        "gettid" | "getpid" => Ok(Val::C(1)),
        "write" => { let k = u(st, 2)?; Ok(Val::C(k)) }
        "__errno_location" => { let x = st.mem.alloc(8); Ok(Val::C(x)) }
        "sched_yield" => Ok(Val::C(0)),
        "__cxa_thread_atexit_impl" => Ok(Val::C(0)),
        "pthread_self" => Ok(Val::C(1)),
        _ => {
            // libm, concrete arguments
            let f32s = |st: &State, i: usize| -> Rr<f32> { Ok(e_conc_f(st, FTy::F32, &a[i])? as f32) };
            let f64s = |st: &State, i: usize| -> Rr<f64> { e_conc_f(st, FTy::F64, &a[i]) };
            macro_rules! l32 { ($e:expr) => { Ok(Val::C(($e as f32).to_bits() as u64)) } }
            macro_rules! l64 { ($e:expr) => { Ok(Val::C(($e as f64).to_bits())) } }
            match short {
                "sinf" => l32!(f32s(st, 0)?.sin()), "cosf" => l32!(f32s(st, 0)?.cos()), "tanf" => l32!(f32s(st, 0)?.tan()),
                "sin" => l64!(f64s(st, 0)?.sin()), "cos" => l64!(f64s(st, 0)?.cos()), "tan" => l64!(f64s(st, 0)?.tan()),
                "asinf" => l32!(f32s(st, 0)?.asin()), "acosf" => l32!(f32s(st, 0)?.acos()), "atanf" => l32!(f32s(st, 0)?.atan()),
                "asin" => l64!(f64s(st, 0)?.asin()), "acos" => l64!(f64s(st, 0)?.acos()), "atan" => l64!(f64s(st, 0)?.atan()),
                "atan2f" => l32!(f32s(st, 0)?.atan2(f32s(st, 1)?)), "atan2" => l64!(f64s(st, 0)?.atan2(f64s(st, 1)?)),
                "powf" => l32!(f32s(st, 0)?.powf(f32s(st, 1)?)), "pow" => l64!(f64s(st, 0)?.powf(f64s(st, 1)?)),
                "expf" => l32!(f32s(st, 0)?.exp()), "exp" => l64!(f64s(st, 0)?.exp()),
                "logf" => l32!(f32s(st, 0)?.ln()), "log" => l64!(f64s(st, 0)?.ln()),
                "hypotf" => l32!(f32s(st, 0)?.hypot(f32s(st, 1)?)), "hypot" => l64!(f64s(st, 0)?.hypot(f64s(st, 1)?)),
                "fmodf" => l32!(f32s(st, 0)? % f32s(st, 1)?), "fmod" => l64!(f64s(st, 0)? % f64s(st, 1)?),
                "cbrtf" => l32!(f32s(st, 0)?.cbrt()), "cbrt" => l64!(f64s(st, 0)?.cbrt()),
                _ => e_err(format!("external function {}", n)),
            }
        }
    }
}

fn intrinsic(_m: &mut Machine, st: &mut State, n: &str, ret: &Ty, args: &[(Ty, Opnd)], a: Vec<Val>) -> Rr<Val> {
    // element-wise over vectors
    if let (Ty::Vec(k, t), false) = (ret, n.starts_with("vector.")) {
        if !n.starts_with("masked") && !args.is_empty() {
            let sargs: Vec<(Ty, Opnd)> = args.iter().map(|(ty, o)| (if let Ty::Vec(_, e) = ty { (**e).clone() } else { ty.clone() }, o.clone())).collect();
            let mut out = vec![];
            for i in 0..*k {
                let la: Vec<Val> = a.iter().map(|v| lanes_of(v).map(|l| l[i].clone()).unwrap_or(v.clone())).collect();
                out.push(intrinsic(_m, st, n, t, &sargs, la)?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
    }
    let mut parts = [""; 4];
    for (i, p) in n.splitn(4, '.').enumerate() { parts[i] = p; }
    let w0 = args.first().map(|x| x.0.width()).unwrap_or(64);
    let u = |st: &State, i: usize| -> Rr<u64> { e_conc(st, &a[i], args[i].0.width()) };
    let fty = || args[0].0.fty().unwrap();
    match parts[0] {
        "lifetime" | "assume" | "experimental" | "dbg" | "invariant" | "prefetch" | "donothing" | "sideeffect" => Ok(Val::C(0)),
        "expect" => Ok(a[0].clone()),
        "is" if parts[1] == "constant" => Ok(Val::C(0)),
        "is" if parts[1] == "fpclass" => {
            let ty = fty();
            let mk = u(st, 1)?;
            match &a[0] {
                Val::C(c) => {
                    let v = ty.to_f64(*c);
                    let sub = match ty { FTy::F32 => f32::from_bits(*c as u32).is_subnormal(), FTy::F64 => v.is_subnormal() };
                    let neg = v.is_sign_negative();
                    let bit = if v.is_nan() { 0x3 } else if v.is_infinite() { if neg { 0x4 } else { 0x200 } } else if v == 0.0 { if neg { 0x20 } else { 0x40 } } else if sub { if neg { 0x10 } else { 0x80 } } else if neg { 0x8 } else { 0x100 };
                    Ok(Val::C((mk & bit != 0) as u64))
                }
                v => {
                    if e_is_zero(st, ty, v)? { return Ok(Val::C((mk & 0x40 != 0) as u64)); }
                    let neg = e_fneg_test(st, ty, v)?;
                    Ok(Val::C((mk & if neg { 0x8 } else { 0x100 } != 0) as u64))
                }
            }
        }
        "memcpy" | "memmove" => { let (d, s, k) = (u(st, 0)?, u(st, 1)?, u(st, 2)?); e_copy(st, d, s, k as usize)?; Ok(Val::C(0)) }
        "memset" => {
            let (d, c, k) = (u(st, 0)?, u(st, 1)? & 255, u(st, 2)? as usize);
            if k > 0 {
                // bulk
                match st.mem.get_mut(d, k) {
                    Ok((o, off)) => { if o.sym.is_empty() || o.clear(off, k).is_ok() { for x in &mut o.data[off..off + k] { *x = c as u8 } } else { for i in 0..k { e_store(st, d + i as u64, 1, &Val::C(c))?; } } }
                    Err(e) => return e_err(e),
                }
            }
            Ok(Val::C(0))
        }
        "umax" | "umin" | "smax" | "smin" => {
            let p = match parts[0] { "umax" => IPred::Uge, "umin" => IPred::Ule, "smax" => IPred::Sge, _ => IPred::Sle };
            let c = e_icmp(st, p, w0, &a[0], &a[1])?;
            Ok(if e_cond(st, &c)? { a[0].clone() } else { a[1].clone() })
        }
        "ucmp" | "scmp" => {
            let (l, g) = if parts[0] == "ucmp" { (IPred::Ult, IPred::Ugt) } else { (IPred::Slt, IPred::Sgt) };
            let c = e_icmp(st, l, w0, &a[0], &a[1])?;
            if e_cond(st, &c)? { return Ok(Val::C(mask(u64::MAX, ret.width()))); }
            let c = e_icmp(st, g, w0, &a[0], &a[1])?;
            Ok(Val::C(e_cond(st, &c)? as u64))
        }
        "abs" => { let c = e_icmp(st, IPred::Slt, w0, &a[0], &Val::C(0))?; if e_cond(st, &c)? { e_bin(st, Bin::Sub, w0, &Val::C(0), &a[0]) } else { Ok(a[0].clone()) } }
        "ctlz" => { let x = u(st, 0)?; Ok(Val::C((x.leading_zeros() - (64 - w0)) as u64)) }
        "cttz" => { let x = u(st, 0)?; Ok(Val::C(if x == 0 { w0 as u64 } else { x.trailing_zeros() as u64 })) }
        "ctpop" => Ok(Val::C(u(st, 0)?.count_ones() as u64)),
        "bswap" => { if w0 > 64 { return Ok(Val::from_u128(e_conc128(st, &a[0], 128)?.swap_bytes())); } Ok(Val::C(u(st, 0)?.swap_bytes() >> (64 - w0))) }
        "bitreverse" => Ok(Val::C(u(st, 0)?.reverse_bits() >> (64 - w0))),
        "fshl" | "fshr" => {
            let (x, y, k) = (u(st, 0)?, u(st, 1)?, u(st, 2)? % w0 as u64);
            let c = ((x as u128) << w0) | y as u128;
            let r = if parts[0] == "fshl" { (c << k) >> w0 } else { c >> k };
            Ok(Val::C(mask(r as u64, w0)))
        }
        "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
            let signed = parts[0].starts_with('s');
            let op = match &parts[0][1..] { "add" => Bin::Add, "sub" => Bin::Sub, _ => Bin::Mul };
            let sat = parts[1] == "sat";
            if w0 > 64 { return e_err(format!("wide {}", n)); }
            let (mn, mx) = if signed { (-(1i128 << (w0 - 1)), (1i128 << (w0 - 1)) - 1) } else { (0, (1i128 << w0) - 1) };
            let view = |st: &State, v: &Val| if signed { e_spoly(st, v, w0) } else { e_upoly(st, v, w0) };
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                let (x, y) = if signed { (sext(*x, w0) as i64 as i128, sext(*y, w0) as i64 as i128) } else { (*x as i128, *y as i128) };
                // u64*u64 fits in u128 but maybe not i128
                let (r, of): (i128, bool) = match op { Bin::Add => (x + y, false), Bin::Sub => (x - y, false), _ => x.overflowing_mul(y) };
                let over = of || r < mn || r > mx;
                if sat { return Ok(Val::C(mask(if over { if r < mn { mn } else { mx } } else { r } as u64, w0))); }
                return Ok(Val::Agg(Rc::new(vec![Val::C(mask(r as u64, w0)), Val::C(over as u64)])));
            }
            let (p, q) = (view(st, &a[0])?, view(st, &a[1])?);
            let r = match op { Bin::Add => p.add(&q), Bin::Sub => p.sub(&q), _ => p.mul(&q) };
            let r = match r { Some(r) => r, None => { u(st, 0)?; u(st, 1)?; return e_err("poly".into()); } };
            let (lo, hi) = e_interval(st, &r);
            if lo >= mn && hi <= mx { let v = e_mki(st, r, w0)?; return Ok(if sat { v } else { Val::Agg(Rc::new(vec![v, Val::C(0)])) }); }
            // overflow possible: decide it
            let below = lt0(&r.sub(&Poly::konst(mn)).unwrap());
            let above = lt0(&Poly::konst(mx).sub(&r).unwrap());
            let of = for_(&below, &above);
            if e_cond(st, &e_fval(of))? {
                let (x, y) = (u(st, 0)?, u(st, 1)?);
                let rr = match op { Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), _ => x.wrapping_mul(y) };
                if sat { let b = e_cond(st, &e_fval(below))?; return Ok(Val::C(mask(if b { mn } else { mx } as u64, w0))); }
                return Ok(Val::Agg(Rc::new(vec![Val::C(mask(rr, w0)), Val::C(1)])));
            }
            let v = match e_mki(st, r.clone(), w0) { Ok(v) => v, Err(e) => return Err(e) };
            Ok(if sat { v } else { Val::Agg(Rc::new(vec![v, Val::C(0)])) })
        }
        "fabs" => {
            let ty = fty();
            match &a[0] { Val::C(c) => Ok(Val::C(if ty == FTy::F32 { c & 0x7fff_ffff } else { c & (u64::MAX >> 1) })), v => if e_fneg_test(st, ty, v)? { e_fneg(st, ty, v) } else { Ok(v.clone()) } }
        }
        "copysign" => {
            let ty = fty();
            let neg = match &a[1] { Val::C(c) => if ty == FTy::F32 { c >> 31 & 1 == 1 } else { c >> 63 == 1 }, v => e_fneg_test(st, ty, v)? };
            let x = match &a[0] { Val::C(c) => Val::C(if ty == FTy::F32 { c & 0x7fff_ffff } else { c & (u64::MAX >> 1) }), v => if e_fneg_test(st, ty, v)? { e_fneg(st, ty, v)? } else { v.clone() } };
            if neg { e_fneg(st, ty, &x) } else { Ok(x) }
        }
        "is" if parts.get(1) == Some(&"fpclass") => {
            let ty = match &args[0].0 { Ty::F32 => FTy::F32, _ => FTy::F64 };
            let k = u(st, 1)?;
            let bit = |i: u32| k >> i & 1 == 1;
            // a symbolic value is finite and no NaN; zeros count as positive
            if !a[0].is_c() && bit(3) == bit(4) && bit(7) == bit(8) && bit(5) == bit(6) {
                if bit(3) == bit(7) && bit(3) == bit(5) { return Ok(Val::C(bit(3) as u64)); }
                let r = if e_fneg_test(st, ty, &a[0])? { bit(3) } else if bit(5) == bit(7) { bit(7) } else if e_is_zero(st, ty, &a[0])? { bit(5) } else { bit(7) };
                return Ok(Val::C(r as u64));
            }
            let x = e_conc_f(st, ty, &a[0])?;
            use std::num::FpCategory::*;
            let cat = if ty == FTy::F32 && !x.is_nan() { (x as f32).classify() } else { x.classify() };
            let i = match (cat, x.is_sign_negative()) { (Nan, _) => return Ok(Val::C((k & 3 != 0) as u64)), (Infinite, true) => 2, (Normal, true) => 3, (Subnormal, true) => 4, (Zero, true) => 5, (Zero, false) => 6, (Subnormal, false) => 7, (Normal, false) => 8, (Infinite, false) => 9 };
            Ok(Val::C(bit(i) as u64))
        }
        "sqrt" => e_fsqrt(st, fty(), &a[0]),
        "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "minimum" | "maximum" => {
            let ty = fty();
            let isnan = |v: &Val| matches!(v, Val::C(c) if ty.to_f64(*c).is_nan());
            let prop = parts[0] == "minimum" || parts[0] == "maximum";
            if isnan(&a[0]) { return Ok(if prop { a[0].clone() } else { a[1].clone() }); }
            if isnan(&a[1]) { return Ok(if prop { a[1].clone() } else { a[0].clone() }); }
            let mn = parts[0].starts_with("min");
            let lt = e_fcmp(st, ty, FPred::Olt, &a[0], &a[1])?;
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                let (fx, fy) = (ty.to_f64(*x), ty.to_f64(*y));
                if fx == fy { let first = if mn { fx.is_sign_negative() } else { fx.is_sign_positive() }; return Ok(if first { a[0].clone() } else { a[1].clone() }); }
            }
            let l = e_cond(st, &lt)?;
            Ok(if l == mn { a[0].clone() } else { a[1].clone() })
        }
        "floor" => e_fround(st, fty(), &a[0], FOp::Floor),
        "ceil" => e_fround(st, fty(), &a[0], FOp::Ceil),
        "trunc" => e_fround(st, fty(), &a[0], FOp::Trunc),
        "round" | "rint" | "nearbyint" | "roundeven" => {
            let ty = fty();
            let x = e_conc_f(st, ty, &a[0])?;
            let r = if parts[0] == "round" { x.round() } else { x.round_ties_even() };
            Ok(Val::C(ty.bits(r)))
        }
        "fma" | "fmuladd" => {
            let ty = fty();
            if a.iter().all(|v| v.is_c()) {
                let f = |i: usize| ty.to_f64(a[i].c());
                return Ok(Val::C(match ty { FTy::F32 => ((f(0) as f32).mul_add(f(1) as f32, f(2) as f32)).to_bits() as u64, FTy::F64 => f(0).mul_add(f(1), f(2)).to_bits() }));
            }
            let p = e_fbin(st, ty, FBin::Mul, &a[0], &a[1])?;
            e_fbin(st, ty, FBin::Add, &p, &a[2])
        }
        "powi" => { let ty = fty(); let x = e_conc_f(st, ty, &a[0])?; let k = sext(u(st, 1)?, 32) as i32; Ok(Val::C(match ty { FTy::F32 => (x as f32).powi(k).to_bits() as u64, FTy::F64 => x.powi(k).to_bits() })) }
        "sin" | "cos" | "exp" | "exp2" | "log" | "log2" | "log10" | "tan" | "atan" | "acos" | "asin" => {
            let ty = fty();
            let x = e_conc_f(st, ty, &a[0])?;
            let y = x as f32;
            macro_rules! d { ($f:ident) => { match ty { FTy::F32 => y.$f().to_bits() as u64, FTy::F64 => x.$f().to_bits() } } }
            Ok(Val::C(match parts[0] { "sin" => d!(sin), "cos" => d!(cos), "exp" => d!(exp), "exp2" => d!(exp2), "log" => d!(ln), "log2" => d!(log2), "log10" => d!(log10), "tan" => d!(tan), "atan" => d!(atan), "acos" => d!(acos), _ => d!(asin) }))
        }
        "pow" | "atan2" => {
            let ty = fty();
            let (x, y) = (e_conc_f(st, ty, &a[0])?, e_conc_f(st, ty, &a[1])?);
            Ok(Val::C(match (ty, parts[0]) { (FTy::F32, "pow") => (x as f32).powf(y as f32).to_bits() as u64, (FTy::F32, _) => (x as f32).atan2(y as f32).to_bits() as u64, (_, "pow") => x.powf(y).to_bits(), _ => x.atan2(y).to_bits() }))
        }
        "fptosi" | "fptoui" => {
            let signed = parts[0] == "fptosi";
            let w = ret.width();
            match e_fptoint(st, fty(), &a[0])? {
                Err(c) => Ok(Val::C(e_sat(c, w, signed))),
                Ok(p) => {
                    let (lo, hi) = e_interval(st, &p);
                    let (mn, mx) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
                    if lo < mn { let b = lt0(&p.sub(&Poly::konst(mn)).unwrap()); if e_cond(st, &e_fval(b))? { return Ok(Val::C(mask(mn as u64, w))); } }
                    if hi > mx { let b = lt0(&Poly::konst(mx).sub(&p).unwrap()); if e_cond(st, &e_fval(b))? { return Ok(Val::C(mask(mx as u64, w))); } }
                    e_mki(st, p, w)
                }
            }
        }
        "threadlocal" => Ok(a[0].clone()),
        "load" if parts[1] == "relative" => {
            let (p, o) = (u(st, 0)?, u(st, 1)?);
            let x = e_conc(st, &e_load(st, &Ty::I(32), p.wrapping_add(o))?, 32)?;
            Ok(Val::C(p.wrapping_add(sext(x, 32))))
        }
        "x86" => Ok(Val::C(0)),
        "vector" if parts[1] == "reduce" => {
            let l = match lanes_of(&a[0]) { Some(l) => l, None => return e_err("reduce".into()) };
            let w = ret.width();
            let mut acc = l[0].clone();
            for x in &l[1..] {
                acc = match parts[2] {
                    "add" => e_bin(st, Bin::Add, w, &acc, x)?,
                    "or" => e_bin(st, Bin::Or, w, &acc, x)?,
                    "and" => e_bin(st, Bin::And, w, &acc, x)?,
                    "xor" => e_bin(st, Bin::Xor, w, &acc, x)?,
                    "umax" => { let c = e_icmp(st, IPred::Uge, w, &acc, x)?; if e_cond(st, &c)? { acc } else { x.clone() } }
                    o => return e_err(format!("vector.reduce.{}", o)),
                };
            }
            Ok(acc)
        }
        "trap" => Err(Int::Panic("llvm.trap".into())),
        "stacksave" => Ok(Val::C(0)),
        "stackrestore" => Ok(Val::C(0)),
        _ => e_err(format!("intrinsic llvm.{}", n)),
    }
}
