//! Lazy parser for textual LLVM IR (as printed by rustc 1.99 / LLVM 23).
use crate::val::Val;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other, // label, metadata, token
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_float(&self) -> bool { matches!(self, Ty::F32 | Ty::F64) }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match *n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two().min(32),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, _) => {
                let mut o = 0;
                for (i, t) in f.iter().enumerate() { o = self.field_off(i).max(o) + t.size(); }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => (t.bits() as u64 * i as u64) / 8,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self { Ty::Struct(f, _) => &f[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem") }
    }
    pub fn count(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => panic!("count") }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::A(Rc::new((0..self.count()).map(|i| self.elem(i).zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, Zext, Sext, Bitcast, PtrInt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Asm(String) }

#[derive(Debug)]
pub enum K {
    Bin(BinK, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(CastK, Ty, Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd), // cond type, value type
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Alloca(u64, u64, Opd),
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<usize>),
    InsertValue(Opd, Opd, Vec<usize>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<Option<u32>>),
    Freeze(Opd),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    LandingPad,
    Resume,
    Bad(String),
}
#[derive(Debug)]
pub struct Ins { pub dst: u32, pub k: K, pub id: u32, pub dbg: u32 }
pub const NODST: u32 = u32::MAX;
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ins: Vec<Ins> }
#[derive(Debug)]
pub struct Func { pub name: String, pub idx: u32, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block> }

pub struct FnDecl { pub name: String, pub human: String, pub off: Option<usize>, pub end: usize }
pub struct GlobalDef { pub name: String, pub addr: u64, pub size: u64, pub ty: Ty, pub init: Option<(usize, usize)>, pub constant: bool }

pub const FN_BASE: u64 = 0x40_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub struct Module {
    pub text: Vec<u8>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub global_addr: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
    pub md: HashMap<u32, usize>,
    pub next_ins: std::cell::Cell<u32>,
    pub global_end: u64,
    alias: HashMap<String, String>,
}

pub struct P<'a> { s: &'a [u8], i: usize, m: &'a Module }

fn is_name_ch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'$' | b'.' | b'_' | b'-') }

pub fn unescape_name(s: &str) -> String { s.to_string() }

impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("expected {:?} at: {}", c as char, self.rest()); } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + 160).min(self.s.len())]).to_string() }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && is_name_ch(self.s[j]) { j += 1; }
        std::str::from_utf8(&self.s[st..j]).unwrap()
    }
    fn word(&mut self) -> &'a str { let w = self.peek_word(); self.i += w.len(); w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.i += w.len(); true } else { false } }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).to_string()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_name_ch(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
            if c == b'(' { d += 1; }
            if c == b')' { d -= 1; }
            self.i += 1;
            if d == 0 { return; }
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap_or_else(|_| panic!("uint at {}", self.rest()))
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        let t = match c {
            b'[' => { self.i += 1; let n = self.uint(); assert!(self.eat_word("x")); let t = self.ty(); self.expect(b']'); Ty::Arr(n, Rc::new(t)) }
            b'{' => { self.i += 1; let v = self.ty_list(b'}'); Ty::Struct(Rc::new(v), false) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1; let v = self.ty_list(b'}'); self.expect(b'>'); Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.uint(); assert!(self.eat_word("x")); let t = self.ty(); self.expect(b'>'); Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'%' => { self.i += 1; let n = self.name(); self.m.types.get(&n).unwrap_or_else(|| panic!("type {}", n)).clone() }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if self.eat_word("addrspace") { self.ws(); self.skip_parens(); } Ty::Ptr }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type {:?} at {}", w, self.rest()),
                }
            }
        };
        t
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(b',') { continue; }
            self.expect(end);
            return v;
        }
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() { return; }
            let w = self.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint"
                | "bitcast" | "trunc" | "asm" | "add" | "sub" | "xor" | "blockaddress" | "dso_local_equivalent" | "c" | "metadata" | "x" | "ptrtoaddr" => return,
                _ => {}
            }
            self.i += w.len();
            if w == "align" { self.ws(); if self.s[self.i].is_ascii_digit() { self.uint(); continue; } }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens(); }
        }
    }
    pub fn constant(&mut self, ty: &Ty) -> Val {
        let c = self.peek();
        match c {
            b'+' | b'-' | b'0'..=b'9' => {
                let neg = self.eat(b'-');
                if !neg { self.eat(b'+'); }
                if self.s[self.i].is_ascii_alphabetic() {
                    // inf, qnan, nan(0xPAYLOAD), snan(0xPAYLOAD)
                    let w = self.word();
                    let (eb, mb) = if *ty == Ty::F32 { (0xffu64, 23) } else { (0x7ff, 52) };
                    let mut pay = 0u64;
                    if w != "inf" && w != "qnan" {
                        self.expect(b'(');
                        let h = self.word();
                        pay = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap_or_else(|_| panic!("nan payload {:?}", h));
                        self.expect(b')');
                    }
                    match w { "inf" | "snan" => {} "qnan" | "nan" => pay |= 1 << (mb - 1), _ => panic!("constant {:?} at {}", w, self.rest()) }
                    return Val::C((eb << mb | pay | if neg { 1 << (if *ty == Ty::F32 { 31 } else { 63 }) } else { 0 }) as u128);
                }
                if self.s[self.i] == b'0' && self.s.get(self.i + 1) == Some(&b'x') {
                    self.i += 2;
                    let w = self.word();
                    let mut v = u64::from_str_radix(w, 16).unwrap_or_else(|_| panic!("hex fp {}", w));
                    if *ty == Ty::F32 { v = (f64::from_bits(v) as f32).to_bits() as u64; }
                    return Val::C(v as u128);
                }
                let st = self.i;
                while self.i < self.s.len() && (is_name_ch(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if ty.is_float() {
                    let mut f: f64 = w.parse().unwrap();
                    if neg { f = -f; }
                    return Val::C(if *ty == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 });
                }
                let v: u128 = match w.parse() { Ok(v) => v, Err(_) => panic!("int constant too large {} at {}", w, self.rest()) };
                let v = if neg { v.wrapping_neg() } else { v };
                Val::C(v & crate::term::mask(ty.bits()))
            }
            b'@' => { self.i += 1; let n = self.name(); Val::C(self.m.symbol(&n) as u128) }
            b'<' => {
                self.i += 1;
                let packed = self.eat(b'{');
                let v = self.const_list(if packed { b'}' } else { b'>' });
                if packed { self.expect(b'>'); }
                Val::A(Rc::new(v))
            }
            b'{' => { self.i += 1; let v = self.const_list(b'}'); Val::A(Rc::new(v)) }
            b'[' => { self.i += 1; let v = self.const_list(b']'); Val::A(Rc::new(v)) }
            b'"' => panic!("string const"),
            _ => {
                let w = self.word();
                match w {
                    "true" => Val::C(1),
                    "false" => Val::C(0),
                    "null" | "none" => Val::C(0),
                    "undef" | "poison" | "zeroinitializer" => ty.zero(),
                    "c" => {
                        self.expect(b'"');
                        let mut v = vec![];
                        while self.s[self.i] != b'"' {
                            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { v.push(Val::C(b'\\' as u128)); self.i += 2; }
                            else if self.s[self.i] == b'\\' {
                                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128));
                                self.i += 3;
                            } else { v.push(Val::C(self.s[self.i] as u128)); self.i += 1; }
                        }
                        self.i += 1;
                        Val::A(Rc::new(v))
                    }
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty(); let v = self.constant(&t);
                        self.expect(b')');
                        Val::A(Rc::new(vec![v; ty.count()]))
                    }
                    "getelementptr" => {
                        loop { let w = self.peek_word(); if w.is_empty() { break; } self.i += w.len(); if w == "inrange" { self.ws(); self.skip_parens(); } }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.constant(&pt).c() as i64;
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let iv = self.constant(&it).c();
                            let iv = crate::term::sx(iv, it.bits()) as i64;
                            if first { off += iv * t.size() as i64; first = false; }
                            else { off += cur.field_off(iv as usize) as i64; cur = cur.elem(iv as usize).clone(); }
                        }
                        self.expect(b')');
                        Val::C((base.wrapping_add(off)) as u64 as u128)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty(); let v = self.constant(&t);
                        assert!(self.eat_word("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        if t.is_scalar() && t2.is_scalar() { Val::C(v.c() & crate::term::mask(t2.bits())) } else { v }
                    }
                    "add" | "sub" | "xor" | "and" | "mul" | "shl" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                        self.expect(b'(');
                        let t = self.ty(); let a = self.constant(&t).c();
                        self.expect(b',');
                        let t2 = self.ty(); let b = self.constant(&t2).c();
                        self.expect(b')');
                        let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "mul" => a.wrapping_mul(b), _ => a << b };
                        Val::C(r & crate::term::mask(t.bits()))
                    }
                    "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                    _ if w.starts_with("f0x") => {
                        // exact bit pattern, as many digits as the type has
                        let h = &w[3..];
                        assert!(h.len() == if *ty == Ty::F32 { 8 } else { 16 }, "fp constant {:?}", w);
                        Val::C(u64::from_str_radix(h, 16).unwrap() as u128)
                    }
                    _ => panic!("constant {:?} at {}", w, self.rest()),
                }
            }
        }
    }
    fn const_list(&mut self, end: u8) -> Vec<Val> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop {
            let t = self.ty();
            v.push(self.constant(&t));
            if self.eat(b',') { continue; }
            self.expect(end);
            return v;
        }
    }
}

struct FnCtx { names: HashMap<String, u32>, blocks: HashMap<String, u32> }
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 { let k = self.names.len() as u32; *self.names.entry(n).or_insert(k) }
    fn blk(&mut self, n: String) -> u32 { let k = self.blocks.len() as u32; *self.blocks.entry(n).or_insert(k) }
}

impl Module {
    pub fn symbol(&self, n: &str) -> u64 {
        if let Some(&a) = self.global_addr.get(n) { return a; }
        if let Some(&f) = self.fn_by_name.get(n) { return FN_BASE + f as u64 * 16; }
        if let Some(a) = self.alias.get(n) { return self.symbol(a); }
        panic!("unknown symbol {}", n)
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr < FN_BASE || (addr - FN_BASE) % 16 != 0 { return None; }
        let i = (addr - FN_BASE) / 16;
        if (i as usize) < self.fns.len() { Some(i as u32) } else { None }
    }
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module { text: vec![], fns: vec![], fn_by_name: HashMap::new(), globals: vec![], global_addr: HashMap::new(), types: HashMap::new(), md: HashMap::new(), next_ins: std::cell::Cell::new(0), global_end: 0, alias: HashMap::new() };
        let n = text.len();
        let mut i = 0;
        let mut human = String::new();
        let mut globs: Vec<(usize, usize)> = vec![];
        let mut tys: Vec<(usize, usize)> = vec![];
        while i < n {
            let mut e = i;
            while e < n && text[e] != b'\n' { e += 1; }
            let l = &text[i..e];
            if l.starts_with(b"define ") {
                // body until line "}"
                let mut j = e + 1;
                loop {
                    let mut k = j;
                    while k < n && text[k] != b'\n' { k += 1; }
                    if &text[j..k] == b"}" { e = k; break; }
                    j = k + 1;
                }
                let name = Self::fn_name(l);
                m.add_fn(name, std::mem::take(&mut human), Some(i), e);
            } else if l.starts_with(b"declare ") {
                let name = Self::fn_name(l);
                m.add_fn(name.clone(), name, None, e);
                human.clear();
            } else if l.starts_with(b"@") { globs.push((i, e)); }
            else if l.starts_with(b"%") { tys.push((i, e)); }
            else if l.starts_with(b"; ") && !l.starts_with(b"; Function Attrs") { human = String::from_utf8_lossy(&l[2..]).to_string(); }
            else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                let mut v = 0u32; let mut j = 1;
                while j < l.len() && l[j].is_ascii_digit() { v = v * 10 + (l[j] - b'0') as u32; j += 1; }
                m.md.insert(v, i);
            }
            i = e + 1;
        }
        m.text = text;
        for (a, b) in tys {
            let (name, ty) = {
                let mut p = P { s: &m.text[..b], i: a + 1, m: &m };
                let name = p.name();
                p.expect(b'=');
                assert!(p.eat_word("type"));
                (name, p.ty())
            };
            m.types.insert(name, ty);
        }
        // globals: first assign addresses
        let mut addr = GLOBAL_BASE;
        for (a, b) in globs {
            enum G { Def(GlobalDef, u64), Alias(String, String) }
            let g = {
                let mut p = P { s: &m.text[..b], i: a + 1, m: &m };
                let name = p.name();
                p.expect(b'=');
                let mut ext = false;
                let constant;
                loop {
                    let w = p.word();
                    match w {
                        "external" | "extern_weak" => ext = true,
                        "global" => { constant = Some(false); break; }
                        "constant" => { constant = Some(true); break; }
                        "alias" => { constant = None; break; }
                        "" => panic!("global {} at {}", name, p.rest()),
                        _ => { if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_parens(); } }
                    }
                }
                match constant {
                    None => { let t = p.ty(); p.ws(); if p.s[p.i] == b'(' { p.skip_parens(); } let _ = t; p.expect(b','); p.ty(); p.expect(b'@'); let tgt = p.name(); G::Alias(name, tgt) }
                    Some(c) => {
                        let ty = p.ty();
                        p.ws();
                        let size = ty.size();
                        // alignment
                        let ls = String::from_utf8_lossy(&m.text[p.i..b]).to_string();
                        let al = ls.rfind(", align ").map(|k| ls[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<u64>().unwrap_or(1)).unwrap_or(ty.align());
                        let init = if ext { None } else { Some((p.i, b)) };
                        G::Def(GlobalDef { name, addr: 0, size, ty, init, constant: c }, al.max(1))
                    }
                }
            };
            match g {
                G::Alias(a, t) => { m.alias.insert(a, t); }
                G::Def(mut d, al) => {
                    let al = al.max(16);
                    addr = (addr + al - 1) / al * al;
                    d.addr = addr;
                    addr += d.size + 16;
                    m.global_addr.insert(d.name.clone(), d.addr);
                    m.globals.push(d);
                }
            }
        }
        m.global_end = addr;
        m
    }
    fn fn_name(l: &[u8]) -> String {
        let s = l.iter().position(|c| *c == b'@').unwrap() + 1;
        if l[s] == b'"' { let e = l[s + 1..].iter().position(|c| *c == b'"').unwrap(); String::from_utf8_lossy(&l[s + 1..s + 1 + e]).to_string() }
        else { let mut e = s; while is_name_ch(l[e]) { e += 1; } String::from_utf8_lossy(&l[s..e]).to_string() }
    }
    fn add_fn(&mut self, name: String, human: String, off: Option<usize>, end: usize) {
        let i = self.fns.len() as u32;
        let human = if human.is_empty() { name.clone() } else { human };
        self.fn_by_name.insert(name.clone(), i);
        self.fns.push(FnDecl { name, human, off, end });
    }
    pub fn global_init(&self, g: &GlobalDef) -> Option<Val> {
        let (a, b) = g.init?;
        let mut p = P { s: &self.text[..b], i: a, m: self };
        Some(p.constant(&g.ty))
    }
    pub fn fn_text(&self, idx: u32) -> std::borrow::Cow<'_, str> { let d = &self.fns[idx as usize]; String::from_utf8_lossy(&self.text[d.off.unwrap()..d.end]) }
    pub fn parse_fn(&self, idx: u32) -> Func {
        let d = &self.fns[idx as usize];
        let off = d.off.unwrap();
        let mut p = P { s: &self.text[..d.end], i: off, m: self };
        let mut cx = FnCtx { names: HashMap::new(), blocks: HashMap::new() };
        // header
        while p.s[p.i] != b'@' { p.i += 1; }
        p.i += 1;
        p.name();
        p.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat(b')') {
            let mut n = 0;
            loop {
                if p.peek() == b'.' { p.i += 3; p.expect(b')'); break; }
                p.ty();
                p.attrs();
                if p.eat(b'%') { let nm = p.name(); if nm.bytes().all(|b| b.is_ascii_digit()) { unnamed += 1; } params.push(cx.reg(nm)); } else { params.push(cx.reg(format!("{}", n))); }
                n += 1;
                if p.eat(b',') { continue; }
                p.expect(b')');
                break;
            }
        }
        while p.s[p.i] != b'\n' { p.i += 1; }
        p.i += 1;
        let end = d.end;
        // lines
        let mut blocks: Vec<Block> = vec![];
        let mut cur: Option<usize> = None;
        let mut i = p.i;
        while i < end {
            let mut e = i;
            while e < end && self.text[e] != b'\n' { e += 1; }
            let l = &self.text[i..e];
            if l.is_empty() || l.iter().all(|c| *c == b' ') || l.iter().find(|c| **c != b' ') == Some(&b';') { i = e + 1; continue; }
            if l[0] != b' ' && l[0] != b'}' {
                // label
                let mut q = P { s: &self.text[..e], i, m: self };
                let nm = q.name();
                let b = cx.blk(nm) as usize;
                while blocks.len() <= b { blocks.push(Block::default()); }
                cur = Some(b);
                i = e + 1;
                continue;
            }
            if cur.is_none() { let b = cx.blk(format!("{}", unnamed)) as usize; while blocks.len() <= b { blocks.push(Block::default()); } cur = Some(b); }
            // multi-line instructions
            let lt = { let mut k = 0; while l[k] == b' ' { k += 1; } &l[k..] };
            if lt.starts_with(b"switch ") && !l.contains(&b']') {
                while e < end && !{ let mut k = e + 1; while self.text[k] == b' ' { k += 1; } self.text[k] == b']' } { e += 1; while e < end && self.text[e] != b'\n' { e += 1; } }
                e += 1; while e < end && self.text[e] != b'\n' { e += 1; }
            } else if lt.starts_with(b"invoke ") || lt.windows(10).take(80).any(|w| w.starts_with(b"= invoke ")) || lt.windows(15).take(80).any(|w| w.starts_with(b"= landingpad ")) {
                loop {
                    // continuation lines are indented by more than two spaces
                    let nx = e + 1;
                    if nx + 3 < end && &self.text[nx..nx + 3] == b"   " { e = nx; while e < end && self.text[e] != b'\n' { e += 1; } } else { break; }
                }
            }
            let mut q = P { s: &self.text[..e], i, m: self };
            let id = self.next_ins.get();
            self.next_ins.set(id + 1);
            let dbg = find_dbg(&self.text[i..e]);
            let bi = cur.unwrap();
            let mut dst = NODST;
            q.ws();
            if q.s[q.i] == b'%' { q.i += 1; let n = q.name(); dst = cx.reg(n); q.expect(b'='); }
            if q.peek_word() == "phi" {
                q.word();
                while matches!(q.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { q.word(); }
                let t = q.ty();
                let mut v = vec![];
                loop {
                    q.expect(b'[');
                    let o = opd(&mut q, &mut cx, &t);
                    q.expect(b',');
                    q.expect(b'%');
                    let b = { let n = q.name(); cx.blk(n) };
                    q.expect(b']');
                    v.push((b, o));
                    if q.peek() == b',' { let sv = q.i; q.i += 1; if q.peek() == b'[' { continue; } q.i = sv; }
                    break;
                }
                while blocks.len() <= cx.blocks.len() { blocks.push(Block::default()); }
                blocks[bi].phis.push((dst, v));
            } else {
                let k = instr(&mut q, &mut cx);
                while blocks.len() <= cx.blocks.len() { blocks.push(Block::default()); }
                blocks[bi].ins.push(Ins { dst, k, id, dbg });
            }
            i = e + 1;
        }
        Func { name: d.name.clone(), idx, nregs: cx.names.len() as u32, params, blocks }
    }
    /// (file, line, subprogram) for a !dbg id and its inlined-at chain
    pub fn dbg_locs(&self, id: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = Some(id);
        while let Some(c) = cur {
            let Some(l) = self.md_line(c) else { break };
            let line = md_field(&l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let mut scope = md_field(&l, "scope").and_then(|x| x.trim_start_matches('!').parse().ok());
            let mut file = String::new(); let mut name = String::new();
            let mut guard = 0;
            while let Some(s) = scope {
                guard += 1; if guard > 50 { break; }
                let Some(sl) = self.md_line(s) else { break };
                if file.is_empty() {
                    if let Some(f) = md_field(&sl, "file").and_then(|x| x.trim_start_matches('!').parse::<u32>().ok()) {
                        if let Some(fl) = self.md_line(f) { file = format!("{}|{}", md_str(&fl, "directory"), md_str(&fl, "filename")); }
                    }
                }
                if sl.contains("DISubprogram(") { name = md_str(&sl, "linkageName"); if name.is_empty() { name = md_str(&sl, "name"); } break; }
                scope = md_field(&sl, "scope").and_then(|x| x.trim_start_matches('!').parse().ok());
            }
            out.push((file, line, name));
            cur = md_field(&l, "inlinedAt").and_then(|x| x.trim_start_matches('!').parse().ok());
        }
        out
    }
    fn md_line(&self, id: u32) -> Option<String> {
        let &o = self.md.get(&id)?;
        let mut e = o;
        while e < self.text.len() && self.text[e] != b'\n' { e += 1; }
        Some(String::from_utf8_lossy(&self.text[o..e]).to_string())
    }
}
fn md_field(l: &str, k: &str) -> Option<String> {
    let pat1 = format!("({}: ", k); let pat2 = format!(" {}: ", k);
    let p = l.find(&pat1).map(|x| x + pat1.len()).or_else(|| l.find(&pat2).map(|x| x + pat2.len()))?;
    Some(l[p..].chars().take_while(|c| *c != ',' && *c != ')').collect())
}
fn md_str(l: &str, k: &str) -> String {
    let pat = format!("{}: \"", k);
    match l.find(&pat) { Some(p) => l[p + pat.len()..].chars().take_while(|c| *c != '"').collect(), None => String::new() }
}
fn find_dbg(l: &[u8]) -> u32 {
    let pat = b"!dbg !";
    let mut i = l.len();
    while i >= pat.len() {
        if &l[i - pat.len()..i] == pat {
            let mut v = 0; let mut j = i;
            while j < l.len() && l[j].is_ascii_digit() { v = v * 10 + (l[j] - b'0') as u32; j += 1; }
            return v;
        }
        i -= 1;
    }
    0
}

fn opd(p: &mut P, cx: &mut FnCtx, ty: &Ty) -> Opd {
    if p.peek() == b'%' { p.i += 1; let n = p.name(); return Opd::Reg(cx.reg(n)); }
    Opd::K(p.constant(ty))
}
fn lbl(p: &mut P, cx: &mut FnCtx) -> u32 {
    assert!(p.eat_word("label"), "label at {}", p.rest());
    p.expect(b'%');
    let n = p.name();
    cx.blk(n)
}
fn flags(p: &mut P) {
    while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "inbounds" | "nusw") { p.word(); }
}
fn instr(p: &mut P, cx: &mut FnCtx) -> K {
    let mut w = p.word();
    while matches!(w, "tail" | "musttail" | "notail") { w = p.word(); }
    let bk = match w {
        "add" => Some(BinK::Add), "sub" => Some(BinK::Sub), "mul" => Some(BinK::Mul), "udiv" => Some(BinK::UDiv), "sdiv" => Some(BinK::SDiv),
        "urem" => Some(BinK::URem), "srem" => Some(BinK::SRem), "shl" => Some(BinK::Shl), "lshr" => Some(BinK::LShr), "ashr" => Some(BinK::AShr),
        "and" => Some(BinK::And), "or" => Some(BinK::Or), "xor" => Some(BinK::Xor), "fadd" => Some(BinK::FAdd), "fsub" => Some(BinK::FSub),
        "fmul" => Some(BinK::FMul), "fdiv" => Some(BinK::FDiv), "frem" => Some(BinK::FRem), _ => None,
    };
    if let Some(b) = bk {
        flags(p);
        let t = p.ty();
        let a = opd(p, cx, &t);
        p.expect(b',');
        let c = opd(p, cx, &t);
        return K::Bin(b, t, a, c);
    }
    let ck = match w {
        "trunc" => Some(CastK::Trunc), "zext" => Some(CastK::Zext), "sext" => Some(CastK::Sext), "bitcast" => Some(CastK::Bitcast),
        "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(CastK::PtrInt), "fptrunc" => Some(CastK::FpTrunc), "fpext" => Some(CastK::FpExt),
        "fptoui" => Some(CastK::FpToUi), "fptosi" => Some(CastK::FpToSi), "uitofp" => Some(CastK::UiToFp), "sitofp" => Some(CastK::SiToFp), _ => None,
    };
    if let Some(c) = ck {
        flags(p);
        let t = p.ty();
        let a = opd(p, cx, &t);
        assert!(p.eat_word("to"));
        let t2 = p.ty();
        return K::Cast(c, t, t2, a);
    }
    match w {
        "fneg" => { flags(p); let t = p.ty(); let a = opd(p, cx, &t); K::FNeg(t, a) }
        "icmp" => {
            flags(p);
            let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) };
            let t = p.ty(); let a = opd(p, cx, &t); p.expect(b','); let b = opd(p, cx, &t);
            K::ICmp(pr, t, a, b)
        }
        "fcmp" => { flags(p); let pr = p.word().to_string(); let t = p.ty(); let a = opd(p, cx, &t); p.expect(b','); let b = opd(p, cx, &t); K::FCmp(pr, t, a, b) }
        "select" => {
            flags(p);
            let ct = p.ty(); let c = opd(p, cx, &ct); p.expect(b',');
            let t = p.ty(); let a = opd(p, cx, &t); p.expect(b',');
            let t2 = p.ty(); let b = opd(p, cx, &t2);
            K::Select(ct, t, c, a, b)
        }
        "load" => {
            while matches!(p.peek_word(), "atomic" | "volatile") { p.word(); }
            let t = p.ty(); p.expect(b','); let pt = p.ty(); let a = opd(p, cx, &pt);
            K::Load(t, a)
        }
        "store" => {
            while matches!(p.peek_word(), "atomic" | "volatile") { p.word(); }
            let t = p.ty(); let v = opd(p, cx, &t); p.expect(b','); let pt = p.ty(); let a = opd(p, cx, &pt);
            K::Store(t, v, a)
        }
        "getelementptr" => {
            flags(p);
            let t = p.ty(); p.expect(b',');
            let pt = p.ty();
            if pt != Ty::Ptr { return K::Bad("vector gep".into()); }
            let base = opd(p, cx, &pt);
            let mut off = 0i64; let mut dy = vec![];
            let mut cur = t.clone(); let mut first = true;
            loop {
                if p.peek() != b',' { break; }
                let sv = p.i; p.i += 1;
                if p.peek() == b'!' { p.i = sv; break; }
                let it = p.ty();
                let o = opd(p, cx, &it);
                if first {
                    first = false;
                    match o { Opd::K(v) => off += (crate::term::sx(v.c(), it.bits()) as i64).wrapping_mul(t.size() as i64), o => dy.push((o, it.bits(), t.size() as i64)) }
                } else {
                    match (&cur.clone(), o) {
                        (Ty::Struct(..), Opd::K(v)) => { off += cur.field_off(v.c() as usize) as i64; cur = cur.elem(v.c() as usize).clone(); }
                        (c @ (Ty::Arr(..) | Ty::Vec(..)), o) => {
                            let e = c.elem(0).clone();
                            match o { Opd::K(v) => off += (crate::term::sx(v.c(), it.bits()) as i64).wrapping_mul(e.size() as i64), o => dy.push((o, it.bits(), e.size() as i64)) }
                            cur = e;
                        }
                        _ => panic!("gep"),
                    }
                }
            }
            K::Gep(base, off, dy)
        }
        "alloca" => {
            let t = p.ty();
            let mut al = t.align(); let mut n = Opd::K(Val::C(1));
            while p.peek() == b',' {
                let sv = p.i; p.i += 1;
                if p.peek() == b'!' { p.i = sv; break; }
                if p.eat_word("align") { al = p.uint(); }
                else if p.eat_word("addrspace") { p.ws(); p.skip_parens(); }
                else { let it = p.ty(); n = opd(p, cx, &it); }
            }
            K::Alloca(t.size(), al, n)
        }
        "call" | "invoke" => {
            // optional fast-math flags, cc, ret attrs
            loop {
                let c = p.peek();
                if !c.is_ascii_alphabetic() { break; }
                let w2 = p.peek_word();
                if matches!(w2, "void" | "ptr" | "float" | "double" | "token") || (w2.starts_with('i') && w2.len() > 1 && w2[1..].bytes().all(|b| b.is_ascii_digit())) { break; }
                p.word();
                if w2 == "align" { p.uint(); continue; }
                if w2 == "cc" { p.uint(); continue; }
                if p.s[p.i] == b'(' { p.skip_parens(); }
            }
            let ret = p.ty();
            p.ws();
            if p.s[p.i] == b'(' { p.skip_parens(); p.ws(); }
            let callee = if p.eat(b'@') {
                let n = p.name();
                let n = p.m.alias.get(&n).cloned().unwrap_or(n);
                Callee::Fn(*p.m.fn_by_name.get(&n).unwrap_or_else(|| panic!("fn {}", n)))
            } else if p.eat_word("asm") {
                while matches!(p.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { p.word(); }
                p.expect(b'"'); let st = p.i; while p.s[p.i] != b'"' { p.i += 1; }
                let a = String::from_utf8_lossy(&p.s[st..p.i]).to_string(); p.i += 1;
                p.expect(b','); p.expect(b'"'); while p.s[p.i] != b'"' { p.i += 1; } p.i += 1;
                Callee::Asm(a)
            } else { let o = opd(p, cx, &Ty::Ptr); Callee::Ind(o) };
            p.expect(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty();
                    if t == Ty::Other {
                        // metadata argument: skip to , or )
                        let mut d = 0;
                        loop { let c = p.s[p.i]; if c == b'(' { d += 1 } if c == b')' { if d == 0 { break } d -= 1 } if c == b',' && d == 0 { break } p.i += 1; }
                    } else {
                        p.attrs();
                        let o = opd(p, cx, &t);
                        args.push((t, o));
                    }
                    if p.eat(b',') { continue; }
                    p.expect(b')');
                    break;
                }
            }
            let mut normal = None;
            if w == "invoke" {
                // skip attrs until "to label"
                loop { let w3 = p.peek_word(); if w3 == "to" { p.word(); break; } if w3.is_empty() { p.ws(); if p.s[p.i] == b'[' { while p.s[p.i] != b']' { p.i += 1; } } p.i += 1; } else { p.word(); if p.s[p.i] == b'(' { p.skip_parens(); } } }
                normal = Some(lbl(p, cx));
            }
            K::Call { callee, args, ret, normal }
        }
        "br" => {
            if p.peek_word() == "label" { return K::Br(lbl(p, cx)); }
            let t = p.ty(); let c = opd(p, cx, &t);
            p.expect(b','); let a = lbl(p, cx); p.expect(b','); let b = lbl(p, cx);
            K::CondBr(c, a, b)
        }
        "switch" => {
            let t = p.ty(); let c = opd(p, cx, &t); p.expect(b',');
            let d = lbl(p, cx);
            p.expect(b'[');
            let mut v = vec![];
            while p.peek() != b']' {
                let t2 = p.ty(); let k = p.constant(&t2).c();
                p.expect(b',');
                let l = lbl(p, cx);
                v.push((k, l));
            }
            K::Switch(t, c, d, v)
        }
        "ret" => { let t = p.ty(); if t == Ty::Void { K::Ret(None) } else { let v = opd(p, cx, &t); K::Ret(Some((t, v))) } }
        "unreachable" => K::Unreachable,
        "extractvalue" => {
            let t = p.ty(); let a = opd(p, cx, &t);
            let mut ix = vec![];
            while p.peek() == b',' { let sv = p.i; p.i += 1; if p.peek() == b'!' { p.i = sv; break; } ix.push(p.uint() as usize); }
            K::ExtractValue(a, ix)
        }
        "insertvalue" => {
            let t = p.ty(); let a = opd(p, cx, &t); p.expect(b',');
            let t2 = p.ty(); let b = opd(p, cx, &t2);
            let mut ix = vec![];
            while p.peek() == b',' { let sv = p.i; p.i += 1; if p.peek() == b'!' { p.i = sv; break; } ix.push(p.uint() as usize); }
            K::InsertValue(a, b, ix)
        }
        "extractelement" => { let t = p.ty(); let a = opd(p, cx, &t); p.expect(b','); let t2 = p.ty(); let b = opd(p, cx, &t2); K::ExtractElement(t, a, b) }
        "insertelement" => { let t = p.ty(); let a = opd(p, cx, &t); p.expect(b','); let t2 = p.ty(); let b = opd(p, cx, &t2); p.expect(b','); let t3 = p.ty(); let c = opd(p, cx, &t3); K::InsertElement(t, a, b, c) }
        "shufflevector" => {
            let t = p.ty(); let a = opd(p, cx, &t); p.expect(b','); let t2 = p.ty(); let b = opd(p, cx, &t2); p.expect(b',');
            let mt = p.ty();
            let n = mt.count();
            p.ws();
            let mut m = vec![];
            if p.s[p.i] == b'<' {
                p.i += 1;
                loop { p.ty(); if matches!(p.peek_word(), "poison" | "undef") { p.word(); m.push(None); } else { m.push(Some(p.uint() as u32)); } if p.eat(b',') { continue; } p.expect(b'>'); break; }
            } else {
                let w = p.peek_word();
                if w == "zeroinitializer" { p.word(); m = vec![Some(0); n]; }
                else if w == "splat" { let v = p.constant(&mt); if let Val::A(v) = v { m = v.iter().map(|x| Some(x.c() as u32)).collect(); } }
                else { p.word(); m = vec![None; n]; }
            }
            K::Shuffle(a, b, m)
        }
        "freeze" => { let t = p.ty(); let a = opd(p, cx, &t); K::Freeze(a) }
        "atomicrmw" => {
            while p.peek_word() == "volatile" { p.word(); }
            let op = p.word().to_string();
            let pt = p.ty(); let a = opd(p, cx, &pt); p.expect(b','); let t = p.ty(); let v = opd(p, cx, &t);
            K::Rmw(op, t, a, v)
        }
        "cmpxchg" => {
            while matches!(p.peek_word(), "volatile" | "weak") { p.word(); }
            let pt = p.ty(); let a = opd(p, cx, &pt); p.expect(b','); let t = p.ty(); let e = opd(p, cx, &t); p.expect(b','); let t2 = p.ty(); let n = opd(p, cx, &t2);
            K::CmpXchg(t, a, e, n)
        }
        "fence" => K::Nop,
        "landingpad" => K::LandingPad,
        "resume" => K::Resume,
        _ => K::Bad(format!("{} {}", w, p.rest())),
    }
}
impl Ty { pub fn zero_or(&self) -> Val { match self { Ty::Void | Ty::Other => Val::C(0), t => t.zero() } } }
