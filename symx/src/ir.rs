//! Reader for textual LLVM IR (the single-module fat-LTO output of rustc), bodies parsed lazily.
use crate::val::{FTy, Val};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F32,
    F64,
    Ptr,
    Vec(usize, Box<Ty>),
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::I(w) => {
                let b = (*w as usize).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => match **t {
                Ty::I(1) => n.div_ceil(8),
                _ => n * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    /// bytes a load or store of this type touches
    pub fn store_size(&self) -> usize { match self { Ty::I(w) => (*w as usize).div_ceil(8), _ => self.size() } }
    pub fn align(&self) -> usize {
        match self {
            Ty::I(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn fty(&self) -> Option<FTy> {
        match self {
            Ty::F32 => Some(FTy::F32),
            Ty::F64 => Some(FTy::F64),
            _ => None,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Vec(n, t) | Ty::Arr(n, t) => Val::Agg(Rc::new(vec![t.zero(); *n])),
            Ty::Struct(ts, _) => Val::Agg(Rc::new(ts.iter().map(|t| t.zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FPTrunc, FPExt, FPToUI, FPToSI, UIToFP, SIToFP, PtrToInt, IntToPtr, BitCast }

#[derive(Clone, Debug)]
pub enum Callee {
    Func(usize),
    Ext(Rc<(Box<str>, u8)>),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, Ty, Opnd, Opnd),
    FBin(FBin, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Icmp(IPred, Ty, Opnd, Opnd),
    Fcmp(FPred, Ty, Opnd, Opnd),
    Select(Opnd, Opnd, Opnd, bool /*cond is vector*/),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u32, i64)>),
    Alloca(usize, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Opnd)>, noreturn: bool, normal: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Extract(Opnd, Vec<u32>),
    Insert(Opnd, Opnd, Vec<u32>),
    ExtractEl(Opnd, Opnd),
    InsertEl(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<i32>),
    Freeze(Opnd),
    Rmw(Rc<str>, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Bad(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX = none
    pub op: Op,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub start: usize, // line index of the define
    pub end: usize,
    pub body: std::cell::OnceCell<Rc<Body>>,
    pub noreturn: bool,
}

pub struct GInit {
    pub name: String,
    pub data: Vec<u8>,
    pub ro: bool,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub gidx: HashMap<String, usize>,
    pub globals: Vec<GInit>,
    pub attrs_noreturn: std::collections::HashSet<u32>,
    pub ext: std::cell::RefCell<HashMap<String, u64>>, // addresses for external functions
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}

pub const FUNC_BASE: u64 = 0x4000_0000; // object ids of functions
pub const EXT_BASE: u64 = 0x6000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),         // word / keyword / type / number
    Loc(&'a str),       // %name
    Glob(String),       // @name
    P(char),
    Str(Vec<u8>),       // "..." or c"..."
    Meta,
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'*') => i = s[i..].find("*/").map_or(b.len(), |j| i + j + 2),
            b';' => break,
            b'%' | b'@' => {
                if b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' { j += 1; }
                    if c == b'%' { out.push(Tok::Loc(&s[st..j])) } else { out.push(Tok::Glob(s[st..j].to_string())) }
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && isw(b[j]) { j += 1; }
                    if c == b'%' { out.push(Tok::Loc(&s[st..j])) } else { out.push(Tok::Glob(s[st..j].to_string())) }
                    i = j;
                }
            }
            b'"' => {
                let (v, j) = lexstr(b, i + 1);
                out.push(Tok::Str(v));
                i = j;
            }
            b'!' => {
                // metadata: skip token
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) { j += 1; }
                out.push(Tok::Meta);
                i = j.max(i + 1);
            }
            _ if isw(c) => {
                if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, j) = lexstr(b, i + 2);
                    out.push(Tok::Str(v));
                    i = j;
                } else {
                    let st = i;
                    while i < b.len() && isw(b[i]) { i += 1; }
                    out.push(Tok::W(&s[st..i]));
                }
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn lexstr(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
            v.push(hx(b[i + 1]) * 16 + hx(b[i + 2]));
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

pub struct P<'m, 'a> {
    pub m: &'m Module,
    pub t: Vec<Tok<'a>>,
    pub i: usize,
}

impl<'m, 'a> P<'m, 'a> {
    pub fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    pub fn next(&mut self) -> Option<Tok<'a>> { let t = self.t.get(self.i).cloned(); self.i += 1; t }
    pub fn isp(&self, c: char) -> bool { matches!(self.peek(), Some(Tok::P(d)) if *d == c) }
    pub fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(d)) if *d == w) }
    pub fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    pub fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    pub fn expp(&mut self, c: char) { if !self.eatp(c) { panic!("expected {:?} at {} in {:?}", c, self.i, self.t) } }
    fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Some(Tok::P('(')) => d += 1,
                Some(Tok::P(')')) => { d -= 1; if d == 0 { return; } }
                None => return,
                _ => {}
            }
        }
    }
    pub fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                *w == "void" || *w == "float" || *w == "double" || *w == "ptr" || *w == "metadata" || *w == "label" || *w == "token" || *w == "half"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(c)) => matches!(c, '{' | '[' | '<'),
            Some(Tok::Loc(n)) => self.m.types.contains_key(*n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Some(Tok::W(w)) => match w {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.isw("addrspace") { self.i += 1; self.skip_group(); }
                    Ty::Ptr
                }
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::I(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Some(Tok::P('{')) => {
                let mut v = vec![];
                if !self.eatp('}') {
                    loop {
                        v.push(self.ty());
                        if self.eatp(',') { continue; }
                        self.expp('}');
                        break;
                    }
                }
                Ty::Struct(v, false)
            }
            Some(Tok::P('[')) => {
                let n = self.num();
                self.next(); // x
                let t = self.ty();
                self.expp(']');
                Ty::Arr(n as usize, Box::new(t))
            }
            Some(Tok::P('<')) => {
                if self.isp('{') {
                    let t = self.ty();
                    self.expp('>');
                    match t { Ty::Struct(v, _) => Ty::Struct(v, true), _ => unreachable!() }
                } else {
                    let n = self.num();
                    self.next();
                    let t = self.ty();
                    self.expp('>');
                    Ty::Vec(n as usize, Box::new(t))
                }
            }
            Some(Tok::Loc(n)) => self.m.types[n].clone(),
            x => panic!("type? {:?} in {:?}", x, self.t),
        }
    }
    pub fn num(&mut self) -> i128 {
        match self.next() {
            Some(Tok::W(w)) => w.parse().unwrap_or_else(|_| panic!("num {} in {:?}", w, self.t)),
            x => panic!("num {:?}", x),
        }
    }
    fn is_value(&self) -> bool {
        match self.peek() {
            Some(Tok::Loc(_)) | Some(Tok::Glob(_)) | Some(Tok::Str(_)) | Some(Tok::Meta) => true,
            Some(Tok::P(c)) => matches!(c, '{' | '[' | '<'),
            Some(Tok::W(w)) => {
                let c = w.as_bytes()[0];
                c.is_ascii_digit() || c == b'-' || c == b'+' || w.starts_with("f0x") || matches!(*w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "trunc" | "sub" | "add" | "blockaddress" | "none" | "asm" | "xor" | "mul" | "inf" | "nan" | "qnan")
            }
            None => false,
        }
    }
    pub fn skip_attrs(&mut self) {
        while !self.is_value() {
            match self.peek() {
                Some(Tok::W("align")) => {
                    self.i += 1;
                    if self.isp('(') { self.skip_group() } else { self.i += 1 }
                }
                Some(Tok::W(_)) => {
                    self.i += 1;
                    if self.isp('(') { self.skip_group() }
                }
                _ => return,
            }
        }
    }
    /// constant of given type -> Val (aggregates as Agg)
    pub fn konst(&mut self, ty: &Ty) -> Val {
        match self.next() {
            Some(Tok::Str(s)) => Val::Agg(Rc::new(s.into_iter().map(|b| Val::C(b as u64)).collect())),
            Some(Tok::Glob(n)) => Val::C(self.m.addr_of(&n)),
            Some(Tok::P('<')) if self.isp('{') => { self.i += 1; let v = self.klist('}'); self.expp('>'); Val::Agg(Rc::new(v)) }
            Some(Tok::P('<')) => { let v = self.klist('>'); Val::Agg(Rc::new(v)) }
            Some(Tok::P('{')) => { let v = self.klist('}'); Val::Agg(Rc::new(v)) }
            Some(Tok::P('[')) => { let v = self.klist(']'); Val::Agg(Rc::new(v)) }
            Some(Tok::W(w)) => match w {
                "true" => Val::C(1),
                "false" | "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => ty.zero(),
                "splat" => {
                    self.expp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expp(')');
                    match ty { Ty::Vec(n, _) => Val::Agg(Rc::new(vec![v; *n])), _ => panic!() }
                }
                "getelementptr" => {
                    while !self.isp('(') { self.i += 1; if self.t.get(self.i - 1) == Some(&Tok::W("inrange")) { self.skip_group(); } }
                    self.expp('(');
                    let bt = self.ty();
                    self.expp(',');
                    let pt = self.ty();
                    let base = self.konst(&pt).c();
                    let mut off: i64 = 0;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while self.eatp(',') {
                        self.eatw("inrange");
                        let it = self.ty();
                        let v = self.konst(&it).c();
                        let v = sext(v, it.width()) as i64;
                        if first { off += v * cur.size() as i64; first = false; } else {
                            let (o, t) = cur.field_off(v as usize);
                            off += o as i64;
                            cur = t;
                        }
                    }
                    self.expp(')');
                    Val::C(base.wrapping_add(off as u64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    self.expp('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.next(); // to
                    let tt = self.ty();
                    self.expp(')');
                    match v { Val::C(c) => Val::C(mask(c, tt.width())), v => v }
                }
                "sub" | "add" | "xor" | "mul" => {
                    while !self.isp('(') { self.i += 1; }
                    self.expp('(');
                    let t = self.ty();
                    let a = self.konst(&t).c();
                    self.expp(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2).c();
                    self.expp(')');
                    let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), _ => a ^ b };
                    Val::C(mask(r, t.width()))
                }
                _ => parse_num(w, ty),
            },
            x => panic!("const? {:?} in {:?}", x, self.t),
        }
    }
    fn klist(&mut self, end: char) -> Vec<Val> {
        let mut v = vec![];
        if self.eatp(end) { return v; }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.eatp(',') { continue; }
            self.expp(end);
            return v;
        }
    }
}

pub fn mask(v: u64, w: u32) -> u64 { if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
pub fn sext(v: u64, w: u32) -> u64 { if w >= 64 { v } else { let s = 64 - w; (((v << s) as i64) >> s) as u64 } }

fn parse_num(w: &str, ty: &Ty) -> Val {
    match ty {
        Ty::F32 | Ty::F64 => {
            let d: f64 = if let Some(h) = w.strip_prefix("0x") {
                let h = h.trim_start_matches(|c: char| c == 'K' || c == 'H');
                f64::from_bits(u64::from_str_radix(h, 16).unwrap())
            } else if let Some(h) = w.strip_prefix("f0x") {
                // newer hex syntax: bit pattern of the type
                let b = u64::from_str_radix(h, 16).unwrap();
                if *ty == Ty::F32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }
            } else {
                match w { "+inf" | "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "nan" | "+qnan" | "qnan" => f64::NAN, "+nan" => f64::NAN, "-nan" | "-qnan" => -f64::NAN,
                    _ => w.parse().unwrap_or_else(|_| panic!("float {}", w)) }
            };
            if *ty == Ty::F32 { Val::C((d as f32).to_bits() as u64) } else { Val::C(d.to_bits()) }
        }
        Ty::I(wd) if *wd > 64 => {
            let v: u128 = if let Some(r) = w.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { w.parse::<u128>().unwrap() };
            let v = if *wd >= 128 { v } else { v & ((1u128 << wd) - 1) };
            Val::from_u128(v)
        }
        Ty::I(wd) => {
            let v: i128 = w.parse().unwrap_or_else(|_| panic!("int {} {:?}", w, ty));
            Val::C(mask(v as u64, *wd))
        }
        _ => panic!("num {} for {:?}", w, ty),
    }
}

fn put(data: &mut [u8], off: usize, ty: &Ty, v: &Val) {
    match v {
        Val::Agg(vs) => {
            if let Ty::Vec(_, t) = ty { if **t == Ty::I(1) { for (i, x) in vs.iter().enumerate() { if x.c() != 0 { data[off + i / 8] |= 1 << (i % 8) } } return; } }
            for (i, x) in vs.iter().enumerate() {
                let (o, t) = ty.field_off(i);
                put(data, off + o, &t, x);
            }
        }
        Val::C(c) => { let s = ty.size().min(8); data[off..off + s].copy_from_slice(&c.to_le_bytes()[..s]); }
        Val::C128(c) => { let s = ty.size().min(16); data[off..off + s].copy_from_slice(&c.to_le_bytes()[..s]); }
        _ => panic!(),
    }
}

impl Module {
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(i) = self.gidx.get(n) { return ((*i as u64) + 1) << 32; }
        if let Some(i) = self.fidx.get(n) { return (FUNC_BASE + *i as u64) << 32; }
        if let Some(a) = self.aliases.get(n) { return self.addr_of(&a.clone()); }
        let mut e = self.ext.borrow_mut();
        let k = e.len() as u64;
        *e.entry(n.to_string()).or_insert((EXT_BASE + k) << 32)
    }

    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap().into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module { lines: vec![], funcs: vec![], fidx: HashMap::new(), gidx: HashMap::new(), globals: vec![], attrs_noreturn: Default::default(), ext: Default::default(), aliases: HashMap::new(), types: HashMap::new() };
        let mut gl = vec![];
        let mut i = 0;
        let mut tys: Vec<(String, usize)> = vec![];
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define") {
                let st = i;
                while lines[i] != "}" { i += 1; }
                let at = l.find('@').unwrap();
                let toks = lex(&l[at..]);
                let name = match &toks[0] { Tok::Glob(n) => n.clone(), _ => panic!() };
                m.fidx.insert(name.clone(), m.funcs.len());
                m.funcs.push(Func { name, start: st, end: i, body: Default::default(), noreturn: false });
            } else if l.starts_with('@') {
                let toks = lex(&l[..l.find(' ').unwrap()]);
                let name = match &toks[0] { Tok::Glob(n) => n.clone(), _ => panic!() };
                let rest = &l[l.find(" = ").unwrap() + 3..];
                if rest.contains(" alias ") && !rest.contains(" global ") && !rest.contains("constant") || rest.starts_with("alias") {
                    let t = lex(rest);
                    if let Some(Tok::Glob(g)) = t.iter().find(|t| matches!(t, Tok::Glob(_))) { m.aliases.insert(name, g.clone()); }
                } else {
                    m.gidx.insert(name.clone(), gl.len());
                    gl.push((name, i));
                }
            } else if l.starts_with('%') && l.contains(" = type ") {
                let n = l[1..l.find(" = ").unwrap()].trim_matches('"').to_string();
                tys.push((n, i));
            } else if l.starts_with("attributes #") {
                if l.contains(" noreturn") {
                    let n = &l["attributes #".len()..l.find(" = ").unwrap()];
                    m.attrs_noreturn.insert(n.parse().unwrap());
                }
            }
            i += 1;
        }
        for (n, li) in tys {
            let l = lines[li];
            let body = &l[l.find(" = type ").unwrap() + 8..];
            let t = if body.starts_with("opaque") { Ty::Other } else { let mut p = P { m: &m, t: lex(body), i: 0 }; p.ty() };
            m.types.insert(n, t);
        }
        for f in 0..m.funcs.len() {
            let l = lines[m.funcs[f].start];
            m.funcs[f].noreturn = has_noreturn(l, &m.attrs_noreturn);
        }
        let mut gs = vec![];
        for (name, li) in gl {
            let l = lines[li];
            let rest = &l[l.find(" = ").unwrap() + 3..];
            let mut p = P { m: &m, t: lex(rest), i: 0 };
            let mut ro = false;
            let mut external = false;
            loop {
                match p.next() {
                    Some(Tok::W("constant")) => { ro = true; break; }
                    Some(Tok::W("global")) => break,
                    Some(Tok::W("external")) | Some(Tok::W("extern_weak")) => external = true,
                    Some(_) => {}
                    None => panic!("global {}", l),
                }
            }
            let ty = p.ty();
            let mut data = vec![0u8; ty.size()];
            if !external {
                let v = p.konst(&ty);
                put(&mut data, 0, &ty, &v);
            }
            gs.push(GInit { name, data, ro });
        }
        m.globals = gs;
        m.lines = lines;
        m
    }

    pub fn body(&self, f: usize) -> Rc<Body> {
        self.funcs[f].body.get_or_init(|| Rc::new(self.parse_body(f))).clone()
    }

    fn parse_body(&self, f: usize) -> Body {
        let fun = &self.funcs[f];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut blocks_ix: HashMap<String, u32> = HashMap::new();
        // header
        let l = self.lines[fun.start];
        let at = l.find('@').unwrap();
        let mut p = P { m: self, t: lex(&l[at..]), i: 1 };
        p.expp('(');
        let mut params = vec![];
        let mut unnamed = 0usize;
        if !p.eatp(')') {
            loop {
                if p.isp('.') || p.isw("...") { p.i += 1; p.eatp(')'); break; }
                let _t = p.ty();
                p.skip_attrs_until_sep();
                let n = match p.peek() {
                    Some(Tok::Loc(n)) => { let n = n.to_string(); p.i += 1; n }
                    _ => unnamed.to_string(),
                };
                if n.bytes().all(|c| c.is_ascii_digit()) { unnamed = n.parse::<usize>().unwrap() + 1; }
                let r = regs.len() as u32;
                regs.insert(n, r);
                params.push(r);
                if p.eatp(',') { continue; }
                p.expp(')');
                break;
            }
        }
        // pass 1: labels
        let mut cur_lines: Vec<Vec<usize>> = vec![];
        let mut li = fun.start + 1;
        let first = self.lines[li];
        if !is_label(first) {
            // unnamed entry block
            blocks_ix.insert(unnamed.to_string(), 0);
            cur_lines.push(vec![]);
        }
        while li < fun.end {
            let l = self.lines[li];
            if l.is_empty() || l.trim_start().starts_with(';') { li += 1; continue; }
            if is_label(l) {
                let name = if let Some(r) = l.strip_prefix('"') { r[..r.find('"').unwrap()].to_string() } else { l[..l.find(':').unwrap()].to_string() };
                blocks_ix.insert(name, cur_lines.len() as u32);
                cur_lines.push(vec![]);
            } else {
                cur_lines.last_mut().unwrap().push(li);
            }
            li += 1;
        }
        // pass 2: instructions
        let mut blocks = vec![];
        for bl in &cur_lines {
            let mut b = Block { phis: vec![], insts: vec![] };
            let mut k = 0;
            while k < bl.len() {
                let l = self.lines[bl[k]].trim_start();
                k += 1;
                if l.starts_with("#dbg") { continue; }
                let mut text = l.to_string();
                // multi-line constructs: switch [...], landingpad clauses, invoke 'to label'
                if l.starts_with("switch") && !l.contains(']') {
                    while !self.lines[bl[k]].trim_start().starts_with(']') { text.push(' '); text.push_str(self.lines[bl[k]].trim()); k += 1; }
                    text.push_str(" ]");
                    k += 1;
                }
                if text.starts_with("invoke ") || text.contains(" = invoke ") {
                    while k < bl.len() && !text.contains(" unwind label") { text.push(' '); text.push_str(self.lines[bl[k]].trim()); k += 1; }
                }
                if text.contains("landingpad ") {
                    while k < bl.len() { let n = self.lines[bl[k]].trim_start(); if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") { k += 1 } else { break } }
                }
                self.inst(&text, &mut regs, &blocks_ix, &mut b);
            }
            blocks.push(b);
        }
        Body { nregs: regs.len(), params, blocks }
    }

    fn inst(&self, text: &str, regs: &mut HashMap<String, u32>, bix: &HashMap<String, u32>, b: &mut Block) {
        let mut p = P { m: self, t: lex(text), i: 0 };
        let mut dst = u32::MAX;
        if let Some(Tok::Loc(n)) = p.peek() {
            let n = n.to_string();
            dst = reg(regs, &n);
            p.i += 1;
            p.expp('=');
        }
        macro_rules! val { ($t:expr) => {{ let t: &Ty = $t; opnd(&mut p, t, regs) }}; }
        macro_rules! tyval { () => {{ let t = p.ty(); let v = opnd(&mut p, &t, regs); (t, v) }}; }
        macro_rules! label { () => {{ p.eatw("label"); match p.next() { Some(Tok::Loc(n)) => bix[n], x => panic!("label {:?} in {}", x, text) } }}; }
        let w = match p.next() { Some(Tok::W(w)) => w, x => panic!("inst {:?}: {}", x, text) };
        let flags = |p: &mut P| {
            while let Some(Tok::W(w)) = p.peek() {
                if matches!(*w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak") { p.i += 1 } else { break }
            }
        };
        let op = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                flags(&mut p);
                let t = p.ty();
                let a = val!(&t);
                p.expp(',');
                let c = val!(&t);
                let o = match w { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, _ => Bin::Xor };
                Op::Bin(o, t, a, c)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(&mut p);
                let t = p.ty();
                let a = val!(&t);
                p.expp(',');
                let c = val!(&t);
                let o = match w { "fadd" => FBin::Add, "fsub" => FBin::Sub, "fmul" => FBin::Mul, "fdiv" => FBin::Div, _ => FBin::Rem };
                Op::FBin(o, t, a, c)
            }
            "fneg" => { flags(&mut p); let (t, v) = tyval!(); Op::FNeg(t, v) }
            "icmp" => {
                flags(&mut p);
                let pr = match p.next() { Some(Tok::W(w)) => match w { "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult, "ule" => IPred::Ule, "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, "sle" => IPred::Sle, _ => panic!("{}", text) }, _ => panic!() };
                let t = p.ty();
                let a = val!(&t);
                p.expp(',');
                let c = val!(&t);
                Op::Icmp(pr, t, a, c)
            }
            "fcmp" => {
                flags(&mut p);
                let pr = match p.next() { Some(Tok::W(w)) => match w { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, _ => FPred::True }, _ => panic!() };
                let t = p.ty();
                let a = val!(&t);
                p.expp(',');
                let c = val!(&t);
                Op::Fcmp(pr, t, a, c)
            }
            "select" => {
                flags(&mut p);
                let (ct, c) = tyval!();
                p.expp(',');
                let (_, a) = tyval!();
                p.expp(',');
                let (_, d) = tyval!();
                Op::Select(c, a, d, matches!(ct, Ty::Vec(..)))
            }
            "load" => {
                flags(&mut p);
                let t = p.ty();
                p.expp(',');
                let (_, a) = tyval!();
                Op::Load(t, a)
            }
            "store" => {
                flags(&mut p);
                let (t, v) = tyval!();
                p.expp(',');
                let (_, a) = tyval!();
                Op::Store(t, v, a)
            }
            "getelementptr" => {
                flags(&mut p);
                let bt = p.ty();
                p.expp(',');
                let (_, base) = tyval!();
                let mut cur = bt;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while p.eatp(',') {
                    if let Some(Tok::Meta) = p.peek() { break; }
                    let (it, iv) = tyval!();
                    let sc;
                    if first {
                        sc = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &iv { Opnd::K(v) => v.c() as usize, _ => panic!("struct idx") };
                                let (o, t) = cur.field_off(k);
                                off += o as i64;
                                cur = t;
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => { sc = t.size() as i64; let t = (**t).clone(); cur = t; }
                            _ => panic!("gep {}", text),
                        }
                    }
                    match iv {
                        Opnd::K(v) => off += sext(v.c(), it.width()) as i64 * sc,
                        r => dynv.push((r, it.width(), sc)),
                    }
                }
                Op::Gep(base, off, dynv)
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty();
                let mut cnt = Opnd::K(Val::C(1));
                if p.eatp(',') && p.is_type() { let (_, v) = tyval!(); cnt = v; }
                Op::Alloca(t.size(), cnt)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                flags(&mut p);
                let (t, v) = tyval!();
                p.eatw("to");
                let tt = p.ty();
                let c = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FPTrunc, "fpext" => Cast::FPExt, "fptoui" => Cast::FPToUI, "fptosi" => Cast::FPToSI, "uitofp" => Cast::UIToFP, "sitofp" => Cast::SIToFP, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::BitCast };
                Op::Cast(c, t, tt, v)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" { p.next(); }
                // calling convention, attributes, flags
                while !p.is_type() { p.i += 1; if p.isp('(') { p.skip_group(); } }
                let mut ret = p.ty();
                if p.isp('(') {
                    // explicit function type
                    p.skip_group();
                }
                let callee = match p.next() {
                    Some(Tok::Glob(n)) => {
                        let n = self.aliases.get(&n).cloned().unwrap_or(n);
                        match self.fidx.get(&n) { Some(i) => Callee::Func(*i), None => { let c = crate::ext::code(&n); Callee::Ext(Rc::new((n.as_str().into(), c))) } }
                    }
                    Some(Tok::Loc(n)) => Callee::Ind(Opnd::R(reg(regs, n))),
                    Some(Tok::W("asm")) => { while !p.isp('(') { p.i += 1; } Callee::Asm }
                    Some(Tok::W("inttoptr")) => { ret = Ty::Void; return b.insts.push(Inst { dst, op: Op::Bad(text.into()) }); }
                    x => panic!("callee {:?}: {}", x, text),
                };
                p.expp('(');
                let mut args = vec![];
                if !p.eatp(')') {
                    loop {
                        let t = p.ty();
                        if t == Ty::Other {
                            // metadata operand: skip until , or )
                            let mut d = 0;
                            loop {
                                match p.peek() {
                                    Some(Tok::P('(')) => d += 1,
                                    Some(Tok::P(')')) if d == 0 => break,
                                    Some(Tok::P(')')) => d -= 1,
                                    Some(Tok::P(',')) if d == 0 => break,
                                    None => break,
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push((t, Opnd::K(Val::C(0))));
                        } else {
                            p.skip_attrs();
                            let v = opnd(&mut p, &t, regs);
                            args.push((t, v));
                        }
                        if p.eatp(',') { continue; }
                        p.expp(')');
                        break;
                    }
                }
                let nr = has_noreturn_toks(&p.t[p.i..], text, &self.attrs_noreturn);
                let mut normal = None;
                if w == "invoke" {
                    while !p.isw("to") { p.i += 1; }
                    p.i += 1;
                    normal = Some(label!());
                }
                Op::Call { callee, ret, args, noreturn: nr, normal }
            }
            "br" => {
                if p.isw("label") { Op::Br(label!()) } else {
                    let (_, c) = tyval!();
                    p.expp(',');
                    let a = label!();
                    p.expp(',');
                    let d = label!();
                    Op::CondBr(c, a, d)
                }
            }
            "switch" => {
                let (t, v) = tyval!();
                p.expp(',');
                let d = label!();
                p.expp('[');
                let mut cs = vec![];
                while !p.eatp(']') {
                    let ct = p.ty();
                    let k = p.konst(&ct).c();
                    p.expp(',');
                    let l = label!();
                    cs.push((k, l));
                }
                Op::Switch(t, v, d, cs)
            }
            "ret" => { if p.isw("void") { Op::Ret(None) } else { let (_, v) = tyval!(); Op::Ret(Some(v)) } }
            "unreachable" => Op::Unreachable,
            "extractvalue" => {
                let (_, v) = tyval!();
                let mut ix = vec![];
                while p.eatp(',') { if let Some(Tok::Meta) = p.peek() { break; } ix.push(p.num() as u32); }
                Op::Extract(v, ix)
            }
            "insertvalue" => {
                let (_, v) = tyval!();
                p.expp(',');
                let (_, e) = tyval!();
                let mut ix = vec![];
                while p.eatp(',') { if let Some(Tok::Meta) = p.peek() { break; } ix.push(p.num() as u32); }
                Op::Insert(v, e, ix)
            }
            "extractelement" => { let (_, v) = tyval!(); p.expp(','); let (_, i) = tyval!(); Op::ExtractEl(v, i) }
            "insertelement" => { let (_, v) = tyval!(); p.expp(','); let (_, e) = tyval!(); p.expp(','); let (_, i) = tyval!(); Op::InsertEl(v, e, i) }
            "shufflevector" => {
                let (_, a) = tyval!();
                p.expp(',');
                let (_, c) = tyval!();
                p.expp(',');
                let t = p.ty();
                let mv = p.konst(&t);
                let ms = match mv { Val::Agg(v) => v.iter().map(|x| x.c() as i32).collect(), _ => panic!() };
                Op::Shuffle(a, c, ms)
            }
            "freeze" => { let (_, v) = tyval!(); Op::Freeze(v) }
            "phi" => {
                flags(&mut p);
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.expp('[');
                    let v = val!(&t);
                    p.expp(',');
                    let l = match p.next() { Some(Tok::Loc(n)) => bix[n], x => panic!("phi {:?} {}", x, text) };
                    p.expp(']');
                    inc.push((l, v));
                    if p.isp(',') { if let Some(Tok::P('[')) = p.t.get(p.i + 1) { p.i += 1; continue; } }
                    break;
                }
                b.phis.push((dst, inc));
                return;
            }
            "atomicrmw" => {
                flags(&mut p);
                let o = match p.next() { Some(Tok::W(w)) => w, _ => panic!() };
                let (_, a) = tyval!();
                p.expp(',');
                let (t, v) = tyval!();
                Op::Rmw(o.into(), t, a, v)
            }
            "cmpxchg" => {
                flags(&mut p);
                let (_, a) = tyval!();
                p.expp(',');
                let (t, c) = tyval!();
                p.expp(',');
                let (_, n) = tyval!();
                Op::CmpXchg(t, a, c, n)
            }
            "fence" => Op::Nop,
            "landingpad" | "resume" => Op::Bad(text.into()),
            _ => Op::Bad(text.into()),
        };
        b.insts.push(Inst { dst, op });
    }
}

impl<'m, 'a> P<'m, 'a> {
    fn skip_attrs_until_sep(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Loc(_)) => return,
                Some(Tok::P(',')) | Some(Tok::P(')')) | None => return,
                Some(Tok::P('(')) => self.skip_group(),
                _ => self.i += 1,
            }
        }
    }
}

fn reg(regs: &mut HashMap<String, u32>, n: &str) -> u32 {
    if let Some(r) = regs.get(n) { return *r; }
    let r = regs.len() as u32;
    regs.insert(n.to_string(), r);
    r
}

fn opnd(p: &mut P, t: &Ty, regs: &mut HashMap<String, u32>) -> Opnd {
    match p.peek() {
        Some(Tok::Loc(n)) => { let n = n.to_string(); p.i += 1; Opnd::R(reg(regs, &n)) }
        Some(Tok::Meta) => { p.i += 1; Opnd::K(Val::C(0)) }
        _ => Opnd::K(p.konst(t)),
    }
}

fn is_label(l: &str) -> bool {
    !l.starts_with(' ') && !l.starts_with('}') && !l.starts_with(';') && {
        let e = l.find(';').unwrap_or(l.len());
        l[..e].trim_end().ends_with(':')
    }
}

fn has_noreturn(l: &str, set: &std::collections::HashSet<u32>) -> bool {
    l.contains(" noreturn ") || hash_attrs(l).iter().any(|n| set.contains(n))
}
fn hash_attrs(l: &str) -> Vec<u32> {
    let mut v = vec![];
    for (i, _) in l.match_indices(" #") {
        let r = &l[i + 2..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        if e > 0 { v.push(r[..e].parse().unwrap()); }
    }
    v
}
fn has_noreturn_toks(_t: &[Tok], text: &str, set: &std::collections::HashSet<u32>) -> bool {
    has_noreturn(text, set)
}
