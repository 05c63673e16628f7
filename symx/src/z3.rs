//! Minimal z3 C-API binding and the incremental path-condition solver.
use crate::val::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Ptr = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_mk_context(c: Ptr) -> Ctx;
    fn Z3_mk_int_sort(c: Ctx) -> Ptr;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Ptr;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Ptr;
    fn Z3_mk_const(c: Ctx, s: Ptr, t: Ptr) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Ptr) -> Ast;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_iff(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Ptr;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Ptr) -> Ptr;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Ptr;
    fn Z3_solver_inc_ref(c: Ctx, s: Ptr);
    fn Z3_solver_dec_ref(c: Ctx, s: Ptr);
    fn Z3_solver_push(c: Ctx, s: Ptr);
    fn Z3_solver_pop(c: Ctx, s: Ptr, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Ptr, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Ptr) -> Ptr;
    fn Z3_solver_to_string(c: Ctx, s: Ptr) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Ptr);
    fn Z3_model_dec_ref(c: Ctx, m: Ptr);
    fn Z3_model_eval(c: Ctx, m: Ptr, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_int64(c: Ctx, v: Ast, i: *mut i64) -> bool;
    fn Z3_get_numeral_string(c: Ctx, v: Ast) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Ptr;
    fn Z3_params_inc_ref(c: Ctx, p: Ptr);
    fn Z3_params_set_uint(c: Ctx, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Ptr, p: Ptr);
}

pub struct PathNode { pub id: u64, pub f: Fm, pub depth: u32, pub parent: Option<Rc<PathNode>> }

pub struct Stats { pub queries: u64, pub nl_queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max_time: f64 }

pub struct Solver {
    ctx: Ctx,
    int: Ptr,
    s: Ptr,
    vars: Vec<Ast>,
    forms: HashMap<Rc<Form>, Ast>,
    atoms: HashMap<(Rc<Form>, i128, bool), Ast>,
    stack: Vec<u64>,
    monos: Vec<(Mono, Ast)>,
    monoix: HashMap<Mono, usize>,
    pub st: Stats,
    pub timeout_ms: u32,
    nterms: usize,
    pub dump: Option<(std::path::PathBuf, u64, u64)>,
}

pub enum Res { Sat(Vec<i64>), Unsat, Unknown }

fn num(c: Ctx, sort: Ptr, k: i128) -> Ast {
    let s = CString::new(k.to_string()).unwrap();
    unsafe { Z3_mk_numeral(c, s.as_ptr(), sort) }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver { ctx: std::ptr::null_mut(), int: std::ptr::null_mut(), s: std::ptr::null_mut(), vars: vec![], forms: HashMap::new(), atoms: HashMap::new(), stack: vec![], monos: vec![], monoix: HashMap::new(), st: Stats { queries: 0, nl_queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0 }, timeout_ms, nterms: 0, dump: None };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            self.int = Z3_mk_int_sort(self.ctx);
            self.s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.s);
            self.set_timeout(self.s);
        }
        self.vars.clear();
        self.forms.clear();
        self.atoms.clear();
        self.stack.clear();
        self.monos.clear();
        self.monoix.clear();
        self.nterms = 0;
    }
    fn set_timeout(&self, s: Ptr) {
        unsafe {
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, s, p);
        }
    }
    fn var(&mut self, i: usize) -> Ast {
        while self.vars.len() <= i {
            let n = self.vars.len();
            let a = unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, n as i32), self.int) };
            self.vars.push(a);
        }
        self.vars[i]
    }
    /// non-linear monomials are uninterpreted integers in the linear solver (sound for unsat; models are re-checked)
    fn mono(&mut self, m: Mono) -> Ast {
        if let Some(i) = self.monoix.get(&m) { return self.monos[*i].1; }
        let n = self.monos.len();
        let a = unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, 2_000_000 + n as i32), self.int) };
        self.monos.push((m, a));
        self.monoix.insert(m, n);
        a
    }
    fn form(&mut self, f: &Rc<Form>) -> Ast {
        if let Some(a) = self.forms.get(f) { return *a; }
        let mut ts = vec![];
        for (m, c) in &f.p.0 {
            let mut fs = vec![];
            if *c != 1 { fs.push(num(self.ctx, self.int, *c)); }
            if *m < 65536 { for v in mono_vars(*m) { fs.push(self.var(v)); } } else { let a = self.mono(*m); fs.push(a); }
            ts.push(if fs.len() == 1 { fs[0] } else { unsafe { Z3_mk_mul(self.ctx, fs.len() as u32, fs.as_ptr()) } });
        }
        let a = if ts.len() == 1 { ts[0] } else { unsafe { Z3_mk_add(self.ctx, ts.len() as u32, ts.as_ptr()) } };
        self.forms.insert(f.clone(), a);
        self.nterms += 1;
        a
    }
    fn atom(&mut self, f: &Rc<Form>, k: i128, eq: bool) -> Ast {
        if let Some(a) = self.atoms.get(&(f.clone(), k, eq)) { return *a; }
        let t = self.form(f);
        let n = num(self.ctx, self.int, k);
        let a = unsafe { if eq { Z3_mk_eq(self.ctx, t, n) } else { Z3_mk_le(self.ctx, t, n) } };
        self.atoms.insert((f.clone(), k, eq), a);
        self.nterms += 1;
        a
    }
    fn tr(&mut self, f: &F) -> Ast {
        unsafe {
            match f {
                F::T => Z3_mk_and(self.ctx, 0, std::ptr::null()),
                F::Fa => Z3_mk_or(self.ctx, 0, std::ptr::null()),
                F::Le(p, k) => self.atom(p, *k, false),
                F::Eq(p, k) => self.atom(p, *k, true),
                F::Not(a) => { let x = self.tr(a); Z3_mk_not(self.ctx, x) }
                F::And(a, b) => { let v = [self.tr(a), self.tr(b)]; Z3_mk_and(self.ctx, 2, v.as_ptr()) }
                F::Or(a, b) => { let v = [self.tr(a), self.tr(b)]; Z3_mk_or(self.ctx, 2, v.as_ptr()) }
                F::Iff(a, b) => { let (x, y) = (self.tr(a), self.tr(b)); Z3_mk_iff(self.ctx, x, y) }
            }
        }
    }
    fn sync(&mut self, path: &Option<Rc<PathNode>>) {
        let mut chain = vec![];
        let mut n = path.clone();
        while let Some(x) = n { n = x.parent.clone(); chain.push(x); }
        chain.reverse();
        let mut common = 0;
        while common < chain.len() && common < self.stack.len() && chain[common].id == self.stack[common] { common += 1; }
        if self.stack.len() > common {
            unsafe { Z3_solver_pop(self.ctx, self.s, (self.stack.len() - common) as u32) };
            self.stack.truncate(common);
        }
        for x in &chain[common..] {
            unsafe { Z3_solver_push(self.ctx, self.s) };
            self.stack.push(x.id);
            let a = self.tr(&x.f);
            unsafe { Z3_solver_assert(self.ctx, self.s, a) };
        }
    }
    /// satisfiability of path ∧ f
    pub fn check(&mut self, path: &Option<Rc<PathNode>>, nonlin: bool, f: &Fm, nvars: usize, bounds: &[(i64, i64)]) -> Res {
        let t0 = std::time::Instant::now();
        self.st.queries += 1;
        if self.nterms > 400_000 { self.reset(); }
        let r = if nonlin || !flinear(f) {
            self.st.nl_queries += 1;
            // relaxation first: linear part only
            match self.check_lin(path, f, nvars, bounds) {
                Res::Unsat => Res::Unsat,
                Res::Sat(m) if path_holds(path, &m) && feval(f, &m) => Res::Sat(m),
                r => {
                    // a witness is often easy to hit: the abstract model's neighbourhood, then pseudo-random points
                    let seed = if let Res::Sat(m) = r { m } else { bounds.iter().take(nvars).map(|b| b.0).collect() };
                    match local_search(path, f, &seed, bounds) { Some(m) => Res::Sat(m), None => self.check_bv(path, f, nvars, bounds) }
                }
            }
        } else {
            self.check_lin(path, f, nvars, bounds)
        };
        match &r { Res::Sat(_) => self.st.sat += 1, Res::Unsat => self.st.unsat += 1, Res::Unknown => self.st.unknown += 1 }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time { self.st.max_time = dt; }
        if let Res::Sat(m) = &r {
            if !(path_holds(path, m) && feval(f, m)) { return Res::Unknown; } // never trust a model that does not check
        }
        r
    }
    fn check_lin(&mut self, path: &Option<Rc<PathNode>>, f: &Fm, nvars: usize, bounds: &[(i64, i64)]) -> Res {
        self.sync(path);
        unsafe {
            Z3_solver_push(self.ctx, self.s);
            let a = self.tr(f);
            Z3_solver_assert(self.ctx, self.s, a);
            for (m, a) in self.monos.clone() {
                if mono_vars(m).any(|v| v >= bounds.len()) { continue; }
                let (lo, hi) = mono_range(m, bounds);
                let l = Z3_mk_le(self.ctx, num(self.ctx, self.int, lo), a);
                let h = Z3_mk_le(self.ctx, a, num(self.ctx, self.int, hi));
                Z3_solver_assert(self.ctx, self.s, l);
                Z3_solver_assert(self.ctx, self.s, h);
            }
            let r = Z3_solver_check(self.ctx, self.s);
            if let Some((dir, every, cnt)) = &mut self.dump {
                *cnt += 1;
                if *cnt % *every == 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().to_string();
                    let v = if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" };
                    let _ = std::fs::write(dir.join(format!("q{}_{}.smt2", std::process::id(), cnt)), format!("; expect {}\n(set-logic QF_LIA)\n{}\n(check-sat)\n", v, s));
                }
            }
            let out = match r {
                1 => { let m = self.model(self.s, nvars); Res::Sat(m) }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            out
        }
    }
    unsafe fn model(&mut self, s: Ptr, nvars: usize) -> Vec<i64> {
        let m = Z3_solver_get_model(self.ctx, s);
        Z3_model_inc_ref(self.ctx, m);
        let mut v = vec![];
        for i in 0..nvars {
            let a = self.var(i);
            let mut o: Ast = std::ptr::null_mut();
            let mut k = 0i64;
            if !Z3_model_eval(self.ctx, m, a, true, &mut o) || !Z3_get_numeral_int64(self.ctx, o, &mut k) { k = 0; }
            v.push(k);
        }
        Z3_model_dec_ref(self.ctx, m);
        v
    }
    fn check_bv(&mut self, path: &Option<Rc<PathNode>>, f: &Fm, nvars: usize, bounds: &[(i64, i64)]) -> Res {
        // width: every partial sum/product of every form fits
        let mut need: f64 = 1.0;
        fn scan(f: &F, b: &[(i64, i64)], need: &mut f64) {
            match f {
                F::Le(p, k) | F::Eq(p, k) => {
                    let mut s = (*k as f64).abs();
                    for (m, c) in &p.p.0 {
                        let mut t = (*c as f64).abs();
                        for v in mono_vars(*m) { t *= (b[v].0 as f64).abs().max((b[v].1 as f64).abs()).max(1.0); }
                        s += t;
                    }
                    if s > *need { *need = s }
                }
                F::Not(a) => scan(a, b, need),
                F::And(a, c) | F::Or(a, c) | F::Iff(a, c) => { scan(a, b, need); scan(c, b, need) }
                _ => {}
            }
        }
        let mut chain = vec![];
        let mut n = path.clone();
        while let Some(x) = n { n = x.parent.clone(); chain.push(x); }
        for x in &chain { scan(&x.f, bounds, &mut need); }
        scan(f, bounds, &mut need);
        let w = need.log2().ceil() as u32 + 3;
        unsafe {
            let lg = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, lg.as_ptr()));
            Z3_solver_inc_ref(self.ctx, s);
            self.set_timeout(s);
            let sort = Z3_mk_bv_sort(self.ctx, w);
            let vars: Vec<Ast> = (0..nvars).map(|i| Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, (1000000 + w as i32 * 1000) + i as i32), sort)).collect();
            let mut cache: HashMap<Rc<Form>, Ast> = HashMap::new();
            for (i, (lo, hi)) in bounds.iter().enumerate().take(nvars) {
                let a = Z3_mk_bvsle(self.ctx, num(self.ctx, sort, *lo as i128), vars[i]);
                let b = Z3_mk_bvsle(self.ctx, vars[i], num(self.ctx, sort, *hi as i128));
                Z3_solver_assert(self.ctx, s, a);
                Z3_solver_assert(self.ctx, s, b);
            }
            for x in chain.iter().rev() { let a = self.trbv(&x.f, sort, &vars, &mut cache); Z3_solver_assert(self.ctx, s, a); }
            let a = self.trbv(f, sort, &vars, &mut cache);
            Z3_solver_assert(self.ctx, s, a);
            let r = Z3_solver_check(self.ctx, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut v = vec![];
                    for i in 0..nvars {
                        let mut o: Ast = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, vars[i], true, &mut o);
                        let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap().to_string();
                        let mut k: i128 = st.parse::<u128>().unwrap() as i128;
                        if w < 127 && k >= 1i128 << (w - 1) { k -= 1i128 << w; }
                        v.push(k as i64);
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(v)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.ctx, s);
            self.nterms += 200;
            out
        }
    }
    unsafe fn trbv(&mut self, f: &F, sort: Ptr, vars: &[Ast], cache: &mut HashMap<Rc<Form>, Ast>) -> Ast {
        match f {
            F::T => Z3_mk_and(self.ctx, 0, std::ptr::null()),
            F::Fa => Z3_mk_or(self.ctx, 0, std::ptr::null()),
            F::Le(p, k) | F::Eq(p, k) => {
                let t = match cache.get(p) {
                    Some(t) => *t,
                    None => {
                        let mut sum: Option<Ast> = None;
                        for (m, c) in &p.p.0 {
                            let mut t: Option<Ast> = None;
                            for v in mono_vars(*m) { t = Some(match t { None => vars[v], Some(x) => Z3_mk_bvmul(self.ctx, x, vars[v]) }); }
                            let mut t = t.unwrap();
                            if *c != 1 { t = Z3_mk_bvmul(self.ctx, num(self.ctx, sort, *c), t); }
                            sum = Some(match sum { None => t, Some(x) => Z3_mk_bvadd(self.ctx, x, t) });
                        }
                        let t = sum.unwrap();
                        cache.insert(p.clone(), t);
                        t
                    }
                };
                let n = num(self.ctx, sort, *k);
                if matches!(f, F::Eq(..)) { Z3_mk_eq(self.ctx, t, n) } else { Z3_mk_bvsle(self.ctx, t, n) }
            }
            F::Not(a) => { let x = self.trbv(a, sort, vars, cache); Z3_mk_not(self.ctx, x) }
            F::And(a, b) => { let v = [self.trbv(a, sort, vars, cache), self.trbv(b, sort, vars, cache)]; Z3_mk_and(self.ctx, 2, v.as_ptr()) }
            F::Or(a, b) => { let v = [self.trbv(a, sort, vars, cache), self.trbv(b, sort, vars, cache)]; Z3_mk_or(self.ctx, 2, v.as_ptr()) }
            F::Iff(a, b) => { let (x, y) = (self.trbv(a, sort, vars, cache), self.trbv(b, sort, vars, cache)); Z3_mk_iff(self.ctx, x, y) }
        }
    }
}

fn local_search(path: &Option<Rc<PathNode>>, f: &Fm, seed: &[i64], bounds: &[(i64, i64)]) -> Option<Vec<i64>> {
    let mut x = 0x9e3779b97f4a7c15u64;
    let mut rnd = |n: u64| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x % n };
    for k in 0..1500u64 {
        let m: Vec<i64> = seed.iter().enumerate().map(|(i, v)| {
            let (lo, hi) = bounds[i];
            let w = (hi - lo) as u64 + 1;
            match (k + rnd(3)) % 3 { 0 => *v, 1 => (*v + rnd(9) as i64 - 4).clamp(lo, hi), _ => lo + rnd(w) as i64 }
        }).collect();
        if path_holds(path, &m) && feval(f, &m) { return Some(m); }
    }
    None
}
fn mono_range(m: Mono, b: &[(i64, i64)]) -> (i128, i128) {
    let vs: Vec<usize> = mono_vars(m).collect();
    let (mut lo, mut hi) = (1i128, 1i128);
    let mut i = 0;
    while i < vs.len() {
        let mut k = 1;
        while i + k < vs.len() && vs[i + k] == vs[i] { k += 1; }
        let (l, h) = (b[vs[i]].0 as i128, b[vs[i]].1 as i128);
        let (a1, b1) = (l.pow(k as u32), h.pow(k as u32));
        let (pl, ph) = if k % 2 == 1 { (a1, b1) } else if l <= 0 && h >= 0 { (0, a1.max(b1)) } else { (a1.min(b1), a1.max(b1)) };
        let c = [lo * pl, lo * ph, hi * pl, hi * ph];
        lo = *c.iter().min().unwrap();
        hi = *c.iter().max().unwrap();
        i += k;
    }
    (lo, hi)
}

pub fn path_holds(path: &Option<Rc<PathNode>>, m: &[i64]) -> bool {
    let mut n = path.as_ref();
    while let Some(x) = n {
        if !feval(&x.f, m) { return false; }
        n = x.parent.as_ref();
    }
    true
}
