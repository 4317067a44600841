//! Symbolic execution of LLVM IR: depth-first path exploration, every path carries a satisfying model.
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use crate::val::Val;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { f: &'static Func, regs: Vec<Val>, blk: u32, idx: usize, ret_dst: u32, ret_blk: Option<u32>, sp: u64 }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    dom: Rc<Vec<BitSet>>,
    multi: Rc<Vec<T>>,
    model: Rc<Vec<u8>>,
    steps: u64,
    heap_top: u64,
    heap_live: u64,
    sp: u64,
    allocs: Rc<BTreeMap<u64, u64>>,
    pub labels: Rc<Vec<String>>,
    pub nforks: u32,
}

pub enum End { Done, Pruned, Violation(String, String), Error(String), Budget(String) }

enum Stop { End(End) }
type R<X> = Result<X, Stop>;
fn err<X>(s: impl Into<String>) -> R<X> { Err(Stop::End(End::Error(s.into()))) }
fn viol<X>(k: &str, s: impl Into<String>) -> R<X> { Err(Stop::End(End::Violation(k.into(), s.into()))) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum FnKind { Unknown, Normal, Panic, HashOne, RandomKeys, Text(u32, u32), Ext(u32) }

pub struct Limits { pub max_paths: u64, pub max_steps: u64, pub path_steps: u64, pub timeout: f64, pub depth: usize, pub max_alloc: u64, pub max_heap: u64 }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub pruned: u64, pub steps: u64, pub forks: u64, pub concretizations: u64, pub checks: u64, pub checks_solver: u64,
    pub branch_domain: u64, pub domain_confirmed: u64, pub pc_confirmed: u64, pub branch_solver: u64, pub max_vars: usize, pub max_depth: usize,
}

pub struct ViolationRec { pub kind: String, pub msg: String, pub model: Vec<u8>, pub stack: Vec<String>, pub alts: Vec<Vec<u8>> }

pub struct Engine {
    pub m: Rc<Module>,
    pub cx: Ctx,
    pub sol: Solver,
    funcs: Vec<Option<&'static Func>>,
    kinds: Vec<FnKind>,
    exts: Vec<String>,
    work: Vec<State>,
    pub lim: Limits,
    pub stats: Stats,
    pub covered: Vec<bool>,
    pub called: HashMap<u32, u64>,
    pub labels: BTreeMap<String, u64>,
    pub violations: Vec<ViolationRec>,
    pub errors: Vec<String>,
    pub samples: Vec<Vec<u8>>,
    pub sample_every: u64,
    pub nsamples: usize, pub no_output: bool, pub text: bool, pub fork_prof: Option<BTreeMap<String, u64>>,
    pub max_viol: usize,
    start: Instant,
    pub trace: bool,
    pub fixed: HashMap<u32, u8>,
}

/// the standard library's conversion of a number to text: width in bits, and trait | signed << 4 | float << 5 | to_string << 6 | digits << 7
fn text_fn(human: &str) -> Option<(u32, u32)> {
    let h = human.strip_prefix('<')?;
    if let Some((ty, r)) = h.split_once(">::_fmt") { if r.is_empty() || r.starts_with('.') { return match ty { "u8" => Some((8, 128)), "u16" => Some((16, 128)), "u32" => Some((32, 128)), "u64" | "usize" => Some((64, 128)), _ => None }; } }
    let (ty, tr) = h.split_once(" as ")?;
    let tr = if tr.starts_with("alloc::string::SpecToString>::spec_to_string") { 64 } else { match tr.strip_prefix("core::fmt::")?.split_once(">::fmt")?.0 { "Display" => 0, "Debug" => 1, "LowerHex" => 2, "UpperHex" => 3, "LowerExp" => 4, "UpperExp" => 5, "Octal" => 6, "Binary" => 7, _ => return None } };
    let (w, s) = match ty { "u8" => (8, 0), "u16" => (16, 0), "u32" => (32, 0), "u64" | "usize" => (64, 0), "i8" => (8, 16), "i16" => (16, 16), "i32" => (32, 16), "i64" | "isize" => (64, 16), "f32" => (32, 32), "f64" => (64, 32), _ => return None };
    // integers print the same with Debug (unless asked for hexadecimal, which then differs from the reference)
    if s == 32 && tr == 64 { return None; }
    Some((w, if s < 32 && tr == 1 { s } else { tr | s }))
}
fn fneg_bits(v: u128, w: u32) -> u128 { v ^ (1u128 << (w - 1)) }

impl Engine {
    pub fn new(m: Module, lim: Limits, solver_ms: u32) -> Engine {
        let n = m.fns.len();
        Engine {
            m: Rc::new(m), cx: Ctx::new(), sol: Solver::new(solver_ms), funcs: vec![None; n], kinds: vec![FnKind::Unknown; n], exts: vec![], work: vec![], lim, stats: Stats::default(),
            covered: vec![], called: HashMap::new(), labels: BTreeMap::new(), violations: vec![], errors: vec![], samples: vec![], sample_every: 1, nsamples: 64, no_output: false, text: false, fork_prof: None, max_viol: 1, start: Instant::now(), trace: false, fixed: HashMap::new(),
        }
    }
    fn func(&mut self, i: u32) -> &'static Func {
        if let Some(f) = self.funcs[i as usize] { return f; }
        let f: &'static Func = Box::leak(Box::new(self.m.parse_fn(i)));
        if self.m.fn_text(i).contains("8317987319222330741") { self.errors.push(format!("hash function inlined into {}", self.m.fns[i as usize].name)); }
        self.funcs[i as usize] = Some(f);
        let need = self.m.next_ins.get() as usize;
        if self.covered.len() < need { self.covered.resize(need, false); }
        f
    }
    fn kind(&mut self, i: u32) -> FnKind {
        let k = self.kinds[i as usize];
        if k != FnKind::Unknown { return k; }
        let d = &self.m.fns[i as usize];
        let n = d.name.clone();
        let k = if n.contains("4core9panicking") || n.contains("rust_panic") || n.contains("3std9panicking11begin_panic") { FnKind::Panic }
        else if n.contains("11BuildHasher8hash_one") && n.contains("11RandomState") { FnKind::HashOne }
        else if n.contains("19hashmap_random_keys") { FnKind::RandomKeys }
        else if d.off.is_none() { self.exts.push(n); FnKind::Ext(self.exts.len() as u32 - 1) }
        else if let (true, Some((w, f))) = (self.text, text_fn(&d.human)) { FnKind::Text(w, f) }
        else { FnKind::Normal };
        self.kinds[i as usize] = k;
        k
    }
    fn initial(&mut self) -> State {
        let mut mem = Mem::new();
        let m = self.m.clone();
        for g in &m.globals {
            if g.size > 0 { mem.set_valid(g.addr, g.size, true); }
            if let Some(v) = m.global_init(g) { self.init_write(&mut mem, g.addr, &g.ty, &v); }
        }
        State { frames: vec![], mem, dom: Rc::new(vec![]), multi: Rc::new(vec![]), model: Rc::new(vec![]), steps: 0, heap_top: HEAP_BASE + 64, heap_live: 0, sp: STACK_BASE + 64, allocs: Rc::new(BTreeMap::new()), labels: Rc::new(vec![]), nforks: 0 }
    }
    fn init_write(&self, mem: &mut Mem, a: u64, ty: &Ty, v: &Val) {
        match v {
            Val::A(l) => for (i, x) in l.iter().enumerate() { self.init_write(mem, a + ty.field_off(i), ty.elem(i), x); },
            Val::C(0) => {}
            Val::C(c) => { mem.write_c(a, ty.size() as usize, *c); }
            _ => unreachable!(),
        }
    }
    pub fn run(&mut self, entry: &str, case: u64) {
        self.start = Instant::now();
        let Some(&fi) = self.m.clone().fn_by_name.get(entry) else { self.errors.push(format!("entry {} not found", entry)); return; };
        let mut st = self.initial();
        let f = self.func(fi);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        if let Some(p) = f.params.first() { regs[*p as usize] = Val::C(case as u128); }
        st.frames.push(Frame { f, regs, blk: 0, idx: 0, ret_dst: NODST, ret_blk: None, sp: st.sp });
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.stats.paths >= self.lim.max_paths { self.errors.push(format!("path budget {} exhausted", self.lim.max_paths)); return; }
            self.run_path(st);
            if !self.errors.is_empty() || self.violations.len() >= self.max_viol { return; }
        }
    }
    pub fn collect_dbg(&self, out: &mut std::collections::BTreeSet<u32>) {
        for f in self.funcs.iter().flatten() { for b in &f.blocks { for i in &b.ins { if i.dbg != 0 && self.covered[i.id as usize] { out.insert(i.dbg); } } } }
    }
    pub fn pending(&self) -> usize { self.work.len() }
    fn run_path(&mut self, mut st: State) {
        let end = loop {
            let before = st.steps;
            let r = self.run_slice(&mut st);
            self.stats.steps += st.steps - before;
            match r {
                Err(Stop::End(e)) => break e,
                Ok(()) => {
                    if self.stats.steps > self.lim.max_steps { break End::Error(format!("instruction budget {} exhausted", self.lim.max_steps)); }
                    if self.start.elapsed().as_secs_f64() > self.lim.timeout { break End::Error(format!("time budget {}s exhausted, {} states pending", self.lim.timeout, self.work.len())); }
                    if st.steps > self.lim.path_steps { break End::Violation("hang".into(), format!("path executed more than {} instructions", self.lim.path_steps)); }
                }
            }
        };
        self.stats.paths += 1;
        self.stats.max_vars = self.stats.max_vars.max(st.model.len());
        match end {
            End::Done | End::Pruned => {
                if matches!(end, End::Done) {
                    self.stats.done += 1;
                    // the solver confirms that the path is feasible, so the assertions on it are not vacuous
                    if self.stats.done <= 400 || self.stats.done % 16 == 0 {
                        match self.sol.path_condition(&self.cx, &st.dom, &st.multi) {
                            Some(true) => self.stats.pc_confirmed += 1,
                            Some(false) => self.errors.push("solver refutes the path condition of a completed path".into()),
                            None => {}
                        }
                    }
                    let ls = st.labels.clone();
                    for l in ls.iter() { *self.labels.entry(l.clone()).or_insert(0) += 1; }
                    if self.samples.len() >= 2 * self.nsamples { let mut k = 0; self.samples.retain(|_| { k += 1; k % 2 == 0 }); self.sample_every *= 2; }
                    if self.stats.done % self.sample_every == 0 { self.samples.push(st.model.to_vec()); }
                } else { self.stats.pruned += 1; }
            }
            End::Violation(k, m) => {
                let stack = st.frames.iter().rev().take(24).map(|f| self.m.fns[f.f.idx as usize].human.clone()).collect();
                let alts = self.alternatives(&st);
                self.violations.push(ViolationRec { kind: k, msg: m, alts, model: st.model.to_vec(), stack });
            }
            End::Error(m) => {
                let stack: Vec<String> = st.frames.iter().rev().take(8).map(|f| self.m.fns[f.f.idx as usize].human.clone()).collect();
                self.errors.push(format!("{} [in {}]", m, stack.join(" < ")));
            }
            End::Budget(m) => self.errors.push(m),
        }
    }

    /// with abstracted texts a counterexample may hold of the abstraction only: further models of the failing path
    fn alternatives(&mut self, st: &State) -> Vec<Vec<u8>> {
        let mut out = vec![];
        if !self.text { return out; }
        let n = st.model.len().min(48) as u32;
        'all: for k in [0x3fu8, 0x80, 0x01, 0xc1, 0x72] {
            for v in (0..n).rev() {
                let x = self.cx.var(v); let kk = self.cx.konst(k as u128, 8);
                let c = self.cx.eq(x, kk);
                let Ok(Some(asg)) = self.sat(st, c) else { continue };
                let mut m = st.model.to_vec();
                for (v, b) in asg { m[v as usize] = b; }
                if m != *st.model && !out.contains(&m) { out.push(m); }
                if out.len() >= 40 { break 'all; }
            }
        }
        out
    }

    // ---- path condition -------------------------------------------------
    fn add(&mut self, st: &mut State, c: T) {
        if self.cx.as_const(c) == Some(1) { return; }
        if self.cx.as_const(c) == Some(0) { panic!("adding false constraint"); }
        // split conjunctions
        if let Node::Bin(Bop::And, a, b) = self.cx.nodes[c as usize] { if self.cx.w(c) == 1 { self.add(st, a); self.add(st, b); return; } }
        if let Some(v) = self.cx.single_var(c) {
            let s = self.cx.bitset_of(c);
            let d = Rc::make_mut(&mut st.dom);
            d[v as usize] = bs_and(&d[v as usize], &s);
            debug_assert!(!bs_empty(&d[v as usize]));
        } else if !st.multi.contains(&c) { Rc::make_mut(&mut st.multi).push(c); }
    }
    fn set_model(&self, st: &mut State, asg: &[(u32, u8)]) {
        let m = Rc::make_mut(&mut st.model);
        for (v, b) in asg { m[*v as usize] = *b; }
    }
    fn constrained_multi(&self, st: &State, v: u32) -> bool { st.multi.iter().any(|m| self.cx.vars(*m).contains(&v)) }
    /// satisfiable together with the path condition? returns model changes
    fn sat(&mut self, st: &State, c: T) -> R<Option<Vec<(u32, u8)>>> {
        if let Some(k) = self.cx.as_const(c) { return Ok(if k == 1 { Some(vec![]) } else { None }); }
        if self.cx.eval0(c, &st.model) == 1 { return Ok(Some(vec![])); }
        if let Some(v) = self.cx.single_var(c) {
            let s = bs_and(&self.cx.bitset_of(c), &st.dom[v as usize]);
            if bs_empty(&s) {
                self.stats.branch_domain += 1;
                // every branch pruned by the byte domains is refuted by the solver as well (cached)
                return match self.sol.check(&mut self.cx, &st.dom, &[], c) { Res::Unsat => { self.stats.domain_confirmed += 1; Ok(None) } Res::Sat(_) => err("solver contradicts the byte domains"), Res::Unknown => Ok(None) };
            }
            if !self.constrained_multi(st, v) { self.stats.branch_domain += 1; return Ok(Some(vec![(v, bs_first(&s))])); }
        }
        self.stats.branch_solver += 1;
        if self.start.elapsed().as_secs_f64() > self.lim.timeout { return err(format!("time budget {}s exhausted, {} states pending", self.lim.timeout, self.work.len())); }
        match self.sol.check(&mut self.cx, &st.dom, &st.multi, c) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver returned unknown"),
        }
    }
    /// Decide a symbolic condition; forks the current state (re-executing the current instruction) when both sides are possible.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.cx.as_const(c) { return Ok(k == 1); }
        let v = self.cx.eval0(c, &st.model) == 1;
        let n = self.cx.not(c);
        let (take, other) = if v { (c, n) } else { (n, c) };
        if let Some(asg) = self.sat(st, other)? {
            let mut o = st.clone();
            self.add(&mut o, other);
            self.set_model(&mut o, &asg);
            o.nforks += 1;
            self.stats.forks += 1;
            if self.fork_prof.is_some() { let k = st.frames.iter().rev().take(3).map(|f| self.m.fns[f.f.idx as usize].human.clone()).collect::<Vec<_>>().join(" < "); *self.fork_prof.as_mut().unwrap().entry(k).or_insert(0) += 1; }
            self.work.push(o);
            self.add(st, take);
            st.nforks += 1;
        } else if self.cx.single_var(c).is_none() {
            // implied by the path condition; nothing to add
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(t) => {
                let t = *t;
                // piecewise: byte-sized pieces are decided in the domain of their variable
                if let Node::Concat(hi, lo) = self.cx.nodes[t as usize] {
                    let (wh, wl) = (self.cx.w(hi), self.cx.w(lo));
                    let (vh, vl) = (self.mk(hi), self.mk(lo));
                    let h = self.concretize(st, &vh, wh)?;
                    let l = self.concretize(st, &vl, wl)?;
                    return Ok(h << wl | l);
                }
                let val = self.cx.eval0(t, &st.model);
                let k = self.cx.konst(val, w);
                let e = self.cx.eq(t, k);
                self.stats.concretizations += 1;
                if !self.decide(st, e)? { return err("concretize: model mismatch"); }
                Ok(val)
            }
            Val::A(_) => err("concretize aggregate"),
        }
    }
    fn cz(&mut self, st: &mut State, v: &Val) -> R<u64> { Ok(self.concretize(st, v, 64)? as u64) }

    // ---- values ---------------------------------------------------------
    fn t(&mut self, v: &Val, w: u32) -> T { match v { Val::C(c) => self.cx.konst(*c, w), Val::S(t) => *t, Val::A(_) => panic!("aggregate term") } }
    fn mk(&self, t: T) -> Val { match self.cx.as_const(t) { Some(c) => Val::C(c), None => Val::S(t) } }
    fn get(&self, st: &State, o: &Opd) -> Val { match o { Opd::K(v) => v.clone(), Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone() } }
    fn bin1(&mut self, k: BinK, w: u32, a: &Val, b: &Val) -> R<Val> {
        let op = match k {
            BinK::Add => Bop::Add, BinK::Sub => Bop::Sub, BinK::Mul => Bop::Mul, BinK::UDiv => Bop::UDiv, BinK::SDiv => Bop::SDiv, BinK::URem => Bop::URem, BinK::SRem => Bop::SRem,
            BinK::Shl => Bop::Shl, BinK::LShr => Bop::LShr, BinK::AShr => Bop::AShr, BinK::And => Bop::And, BinK::Or => Bop::Or, BinK::Xor => Bop::Xor,
            _ => {
                let (Val::C(x), Val::C(y)) = (a, b) else { return err("symbolic floating-point arithmetic"); };
                return Ok(Val::C(if w == 64 {
                    let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                    (match k { BinK::FAdd => x + y, BinK::FSub => x - y, BinK::FMul => x * y, BinK::FDiv => x / y, _ => x % y }).to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    (match k { BinK::FAdd => x + y, BinK::FSub => x - y, BinK::FMul => x * y, BinK::FDiv => x / y, _ => x % y }).to_bits() as u128
                }));
            }
        };
        if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(binop(op, *x, *y, w))); }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let r = self.cx.bin(op, x, y);
        Ok(self.mk(r))
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let (op, sw, neg) = match p {
            Pred::Eq => (Cop::Eq, false, false), Pred::Ne => (Cop::Eq, false, true), Pred::Ult => (Cop::Ult, false, false), Pred::Ule => (Cop::Ule, false, false),
            Pred::Ugt => (Cop::Ult, true, false), Pred::Uge => (Cop::Ule, true, false), Pred::Slt => (Cop::Slt, false, false), Pred::Sle => (Cop::Sle, false, false),
            Pred::Sgt => (Cop::Slt, true, false), Pred::Sge => (Cop::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (Val::C(x), Val::C(y)) = (a, b) { return Val::C((cmpop(op, *x, *y, w) ^ neg) as u128); }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let mut r = self.cx.cmp(op, x, y);
        if neg { r = self.cx.not(r); }
        self.mk(r)
    }
    fn select1(&mut self, w: u32, c: T, a: &Val, b: &Val) -> Val {
        if a == b { return a.clone(); }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let r = self.cx.ite(c, x, y);
        self.mk(r)
    }
    fn select_deep(&mut self, ty: &Ty, c: T, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => { let v = (0..x.len()).map(|i| self.select_deep(ty.elem(i), c, &x[i], &y[i])).collect(); Val::A(Rc::new(v)) }
            _ => self.select1(ty.bits(), c, a, b),
        }
    }
    fn lanes(v: &Val) -> Rc<Vec<Val>> { match v { Val::A(l) => l.clone(), _ => panic!("lanes") } }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: Val) -> R<Val> {
        if from.is_scalar() && to.is_scalar() { return Ok(v); }
        // pieces from least significant
        let (pieces, pw): (Vec<Val>, u32) = match (from, &v) { (Ty::Vec(_, e), Val::A(l)) => (l.to_vec(), e.bits()), _ => (vec![v.clone()], from.bits()) };
        let (n, ow) = match to { Ty::Vec(n, e) => (*n, e.bits()), t => (1, t.bits()) };
        let mut out = vec![];
        for i in 0..n {
            let (lo, hi) = (i * ow, (i + 1) * ow);
            let mut acc: Option<(T, u32)> = None;
            let mut cacc = 0u128; let mut cw = 0u32; let mut allc = true;
            let mut p = lo;
            while p < hi {
                let k = (p / pw) as usize; let off = p % pw; let take = (pw - off).min(hi - p);
                match &pieces[k] {
                    Val::C(c) => {
                        let bits = c >> off & mask(take);
                        if allc { cacc |= bits << cw; cw += take; }
                        else { let t = self.cx.konst(bits, take); let (a, aw) = acc.unwrap(); acc = Some((self.cx.concat(t, a), aw + take)); }
                    }
                    Val::S(t) => {
                        if allc { allc = false; if cw > 0 { acc = Some((self.cx.konst(cacc, cw), cw)); } }
                        let e = self.cx.extract(*t, off, take);
                        acc = Some(match acc { None => (e, take), Some((a, aw)) => (self.cx.concat(e, a), aw + take) });
                    }
                    _ => return err("bitcast nested"),
                }
                p += take;
            }
            out.push(if allc { Val::C(cacc) } else { let t = acc.unwrap().0; self.mk(t) });
        }
        Ok(if let Ty::Vec(..) = to { Val::A(Rc::new(out)) } else { out.pop().unwrap() })
    }

    // ---- memory ---------------------------------------------------------
    fn mem_err<X>(&self, what: &str, a: u64, n: u64) -> R<X> { viol("memory", format!("invalid {} of {} bytes at {:#x}", what, n, a)) }
    fn load_scalar(&mut self, st: &State, a: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        if let Some(v) = st.mem.read_c(a, n) { return Ok(Val::C(v & mask(w))); }
        let mut acc: Option<T> = None;
        let mut cacc = 0u128; let mut allc = true;
        for i in 0..n {
            match st.mem.read_b(a.wrapping_add(i as u64)) {
                None => return self.mem_err("read", a, n as u64),
                Some(B::C(c)) => { if allc { cacc |= (c as u128) << (8 * i); } else { let k = self.cx.konst(c as u128, 8); acc = Some(self.cx.concat(k, acc.unwrap())); } }
                Some(B::S(t)) => {
                    if allc { allc = false; if i > 0 { acc = Some(self.cx.konst(cacc, 8 * i as u32)); } }
                    acc = Some(match acc { None => t, Some(x) => self.cx.concat(t, x) });
                }
            }
        }
        if allc { return Ok(Val::C(cacc & mask(w))); }
        let t = acc.unwrap();
        let t = if w < 8 * n as u32 { self.cx.extract(t, 0, w) } else { t };
        Ok(self.mk(t))
    }
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_scalar(st, a, ty.bits()),
            Ty::Vec(n, e) if e.bits() < 8 => {
                let (n, eb) = (*n, e.bits());
                let v = self.load_scalar(st, a, n * eb)?;
                let mut l = vec![];
                for i in 0..n { l.push(match &v { Val::C(c) => Val::C(c >> (i * eb) & mask(eb)), Val::S(t) => { let x = self.cx.extract(*t, i * eb, eb); self.mk(x) } _ => unreachable!() }); }
                Ok(Val::A(Rc::new(l)))
            }
            _ => { let mut v = vec![]; for i in 0..ty.count() { v.push(self.load(st, a.wrapping_add(ty.field_off(i)), ty.elem(i))?); } Ok(Val::A(Rc::new(v))) }
        }
    }
    fn store_scalar(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(c) => { if !st.mem.write_c(a, n, *c) { return self.mem_err("write", a, n as u64); } }
            Val::S(t) => {
                let z = self.cx.zext(*t, 8 * n as u32);
                for i in 0..n {
                    let e = self.cx.extract(z, 8 * i as u32, 8);
                    let b = match self.cx.as_const(e) { Some(c) => B::C(c as u8), None => B::S(e) };
                    if !st.mem.write_b(a.wrapping_add(i as u64), b) { return self.mem_err("write", a, n as u64); }
                }
            }
            _ => return err("store aggregate as scalar"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match v {
            Val::A(l) => {
                if let Ty::Vec(n, e) = ty { if e.bits() < 8 {
                    let eb = e.bits();
                    let mut acc = self.t(&l[0], eb);
                    for x in l.iter().skip(1) { let x = self.t(x, eb); acc = self.cx.concat(x, acc); }
                    let v = self.mk(acc);
                    return self.store_scalar(st, a, n * eb, &v);
                } }
                for (i, x) in l.iter().enumerate() { self.store(st, a.wrapping_add(ty.field_off(i)), ty.elem(i), x)?; } Ok(()) }
            _ => self.store_scalar(st, a, ty.bits(), v),
        }
    }
    /// load through a symbolic address
    fn load_sym(&mut self, st: &mut State, t: T, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            if let Some(v) = self.cx.single_var(t) {
                let tab = self.cx.table(t);
                let dom = st.dom[v as usize];
                let w = ty.bits(); let n = ((w + 7) / 8) as usize;
                let mut out = [0u128; 256];
                let mut ok = true; let mut first = None;
                for i in 0..256usize {
                    if !bs_has(&dom, i as u8) { continue; }
                    match st.mem.read_c(tab[i] as u64, n) { Some(x) => { out[i] = x & mask(w); if first.is_none() { first = Some(out[i]); } } None => { ok = false; break; } }
                }
                if ok {
                    let f = first.unwrap_or(0);
                    for i in 0..256usize { if !bs_has(&dom, i as u8) { out[i] = f; } }
                    let r = self.cx.mk_tab(v, out, w);
                    return Ok(self.mk(r));
                }
            } else {
                // small table indexed by an expression over several bytes
                let (lo, hi) = self.cx.range(t);
                let w = ty.bits(); let n = ((w + 7) / 8) as usize;
                if hi - lo <= 512 && hi < 1 << 63 {
                    let step = if self.cx.kz(t) & 1 == 1 && lo & 1 == 0 { 2 } else { 1 };
                    let mut vals = vec![];
                    let mut a = lo as u64;
                    while a <= hi as u64 { match st.mem.read_c(a, n) { Some(x) => vals.push((a, x & mask(w))), None => { vals.clear(); break; } } a += step; }
                    if let Some((_, last)) = vals.last() {
                        let mut r = self.cx.konst(*last, w);
                        for (a, x) in vals.iter().rev().skip(1) {
                            let k = self.cx.konst(*a as u128, 64);
                            let e = self.cx.eq(t, k);
                            let x = self.cx.konst(*x, w);
                            r = self.cx.ite(e, x, r);
                        }
                        return Ok(self.mk(r));
                    }
                }
            }
        }
        let a = self.concretize(st, &Val::S(t), 64)? as u64;
        self.load(st, a, ty)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        if !st.mem.valid(s, n) { return self.mem_err("copy source", s, n); }
        if !st.mem.valid(d, n) { return self.mem_err("copy destination", d, n); }
        let mut buf = Vec::with_capacity(n as usize);
        for i in 0..n { buf.push(st.mem.read_b(s + i).unwrap()); }
        for (i, b) in buf.into_iter().enumerate() { st.mem.write_b(d + i as u64, b); }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, n: u64, align: u64) -> R<u64> {
        if n > self.lim.max_alloc { return viol("alloc", format!("allocation of {} bytes requested", n)); }
        let al = align.max(16);
        let a = (st.heap_top + al - 1) / al * al;
        st.heap_top = a + n + 32;
        st.heap_live += n;
        if st.heap_live > self.lim.max_heap { return viol("alloc", format!("{} bytes of live heap", st.heap_live)); }
        if n > 0 { st.mem.set_valid(a, n, true); }
        Rc::make_mut(&mut st.allocs).insert(a, n);
        Ok(a)
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        match Rc::make_mut(&mut st.allocs).remove(&a) {
            None => viol("memory", format!("free of invalid pointer {:#x}", a)),
            Some(n) => { st.heap_live -= n; st.mem.set_valid(a, n, false); Ok(()) }
        }
    }
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::S(t) => {
                let mx = !self.cx.kz(*t) & mask(64);
                if mx <= 1 << 17 { return Ok(mx as u64); }
                self.cz(st, v)
            }
            _ => Ok(v.c() as u64),
        }
    }
    fn cstr(&self, st: &State, a: u64, n: Option<u64>) -> String {
        let mut v = vec![]; let mut i = 0;
        loop {
            if Some(i) == n || i > 4096 { break; }
            match st.mem.read_b(a + i) { Some(B::C(c)) => { if n.is_none() && c == 0 { break; } v.push(c) } Some(B::S(t)) => v.push(self.cx.eval0(t, &st.model) as u8), None => break }
            i += 1;
        }
        String::from_utf8_lossy(&v).to_string()
    }

    // ---- main loop ------------------------------------------------------
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f;
        let b = &f.blocks[to as usize];
        match b.phis.len() {
            0 => {}
            1 => {
                let (d, l) = &b.phis[0];
                let o = &l.iter().find(|(p, _)| *p == from).expect("phi").1;
                let v = match o { Opd::K(v) => v.clone(), Opd::Reg(r) => fr.regs[*r as usize].clone() };
                fr.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = b.phis.iter().map(|(_, l)| { let o = &l.iter().find(|(p, _)| *p == from).expect("phi").1; match o { Opd::K(v) => v.clone(), Opd::Reg(r) => fr.regs[*r as usize].clone() } }).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
            }
        }
        fr.blk = to;
        fr.idx = 0;
    }
    fn set(&self, st: &mut State, d: u32, v: Val) { if d != NODST { st.frames.last_mut().unwrap().regs[d as usize] = v; } }

    fn run_slice(&mut self, st: &mut State) -> R<()> {
        for _ in 0..100_000 {
            st.steps += 1;
            let fr = st.frames.last().unwrap();
            let f = fr.f;
            let ins = &f.blocks[fr.blk as usize].ins[fr.idx];
            self.covered[ins.id as usize] = true;
            self.step(st, ins)?;
        }
        Ok(())
    }
    #[inline]
    fn next(&self, st: &mut State) { st.frames.last_mut().unwrap().idx += 1; }

    fn step(&mut self, st: &mut State, ins: &'static Ins) -> R<()> {
        let v = match &ins.k {
            K::Bin(k, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let w = ty.elem(0).bits();
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() { o.push(self.bin1(*k, w, &x[i], &y[i])?); }
                        Val::A(Rc::new(o))
                    }
                    _ => self.bin1(*k, ty.bits(), &a, &b)?,
                }
            }
            K::ICmp(p, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                match (&a, &b) {
                    (Val::A(x), Val::A(y)) => { let w = ty.elem(0).bits(); let o = (0..x.len()).map(|i| self.icmp1(*p, w, &x[i], &y[i])).collect(); Val::A(Rc::new(o)) }
                    _ => self.icmp1(*p, ty.bits(), &a, &b),
                }
            }
            K::Load(ty, p) => match self.get(st, p) {
                Val::C(a) => self.load(st, a as u64, ty)?,
                Val::S(t) => self.load_sym(st, t, ty)?,
                _ => return err("load ptr"),
            },
            K::Store(ty, v, p) => {
                let v = self.get(st, v);
                let p = self.get(st, p);
                let a = self.cz(st, &p)?;
                self.store(st, a, ty, &v)?;
                self.next(st);
                return Ok(());
            }
            K::Gep(base, off, dy) => {
                let mut acc = self.get(st, base);
                if let Val::A(_) = acc { return err("vector gep"); }
                if *off != 0 { acc = self.bin1(BinK::Add, 64, &acc, &Val::C(*off as u64 as u128))?; }
                for (o, w, sc) in dy {
                    let i = self.get(st, o);
                    let i = match i { Val::C(c) => Val::C(sx(c, *w) as u64 as u128), Val::S(t) => { let x = if *w < 64 { self.cx.sext(t, 64) } else { t }; Val::S(x) } _ => return err("vector gep idx") };
                    let m = if *sc == 1 { i } else { self.bin1(BinK::Mul, 64, &i, &Val::C(*sc as u64 as u128))? };
                    acc = self.bin1(BinK::Add, 64, &acc, &m)?;
                }
                acc
            }
            K::Br(b) => { self.jump(st, *b); return Ok(()); }
            K::CondBr(c, a, b) => {
                match self.get(st, c) {
                    Val::C(k) => self.jump(st, if k != 0 { *a } else { *b }),
                    Val::S(t) => { let k = self.decide(st, t)?; self.jump(st, if k { *a } else { *b }); }
                    _ => return err("br"),
                }
                return Ok(());
            }
            K::Switch(ty, c, d, cases) => {
                match self.get(st, c) {
                    Val::C(k) => { let to = cases.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*d); self.jump(st, to); }
                    Val::S(t) => {
                        let val = self.cx.eval0(t, &st.model);
                        let to = cases.iter().find(|(x, _)| *x == val).map(|x| x.1).unwrap_or(*d);
                        let w = ty.bits();
                        // condition of reaching `to`
                        let mut cond = self.cx.fls();
                        if to == *d {
                            cond = self.cx.tru();
                            for (x, l) in cases { if *l == *d { continue; } let k = self.cx.konst(*x, w); let e = self.cx.eq(t, k); let e = self.cx.not(e); cond = self.cx.and(cond, e); }
                        } else {
                            for (x, l) in cases { if *l == to { let k = self.cx.konst(*x, w); let e = self.cx.eq(t, k); cond = self.cx.or(cond, e); } }
                        }
                        if !self.decide(st, cond)? { return err("switch model mismatch"); }
                        self.jump(st, to);
                    }
                    _ => return err("switch"),
                }
                return Ok(());
            }
            K::Cast(k, from, to, a) => {
                let a = self.get(st, a);
                if *k == CastK::Bitcast { self.bitcast(from, to, a)? }
                else if let Val::A(l) = &a {
                    let (fw, tw) = (from.elem(0).clone(), to.elem(0).clone());
                    let mut o = vec![];
                    for x in l.iter() { o.push(self.cast1(*k, &fw, &tw, x)?); }
                    Val::A(Rc::new(o))
                } else { self.cast1(*k, from, to, &a)? }
            }
            K::Select(ct, ty, c, a, b) => {
                let c = self.get(st, c);
                match c {
                    Val::C(k) => if k != 0 { self.get(st, a) } else { self.get(st, b) },
                    Val::S(t) => {
                        let (a, b) = (self.get(st, a), self.get(st, b));
                        if *ty == Ty::Ptr { if self.decide(st, t)? { a } else { b } }
                        else { self.select_deep(ty, t, &a, &b) }
                    }
                    Val::A(l) => {
                        let (x, y) = (Self::lanes(&self.get(st, a)), Self::lanes(&self.get(st, b)));
                        let w = ty.elem(0).bits();
                        let _ = ct;
                        let mut o = vec![];
                        for i in 0..l.len() { o.push(match &l[i] { Val::C(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, Val::S(t) => self.select1(w, *t, &x[i], &y[i]), _ => return err("select") }); }
                        Val::A(Rc::new(o))
                    }
                }
            }
            K::Alloca(sz, al, n) => {
                let n = self.get(st, n);
                let n = self.cz(st, &n)?;
                let a = (st.sp + al.max(&16) - 1) / al.max(&16) * al.max(&16);
                let size = sz * n;
                st.sp = a + size + 16;
                if size > 0 { st.mem.set_valid(a, size, true); }
                if st.sp - STACK_BASE > 7 << 20 { return viol("stack", "stack overflow"); }
                Val::C(a as u128)
            }
            K::ExtractValue(a, ix) => { let mut v = self.get(st, a); for i in ix { v = match &v { Val::A(l) => l[*i].clone(), _ => return err("extractvalue") }; } v }
            K::InsertValue(a, b, ix) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                fn ins_at(a: &Val, b: Val, ix: &[usize]) -> Val { if ix.is_empty() { return b; } match a { Val::A(l) => { let mut v = l.to_vec(); v[ix[0]] = ins_at(&l[ix[0]], b, &ix[1..]); Val::A(Rc::new(v)) } _ => panic!("insertvalue") } }
                ins_at(&a, b, ix)
            }
            K::ExtractElement(ty, a, i) => {
                let l = Self::lanes(&self.get(st, a));
                let _ = ty;
                let iv = self.get(st, i);
                let i = self.cz(st, &iv)? as usize;
                if i >= l.len() { Val::C(0) } else { l[i].clone() }
            }
            K::InsertElement(_, a, b, i) => {
                let iv = self.get(st, i);
                let i = self.cz(st, &iv)? as usize;
                let mut l = Self::lanes(&self.get(st, a)).to_vec();
                if i < l.len() { l[i] = self.get(st, b); }
                Val::A(Rc::new(l))
            }
            K::Shuffle(a, b, m) => {
                let (x, y) = (Self::lanes(&self.get(st, a)), Self::lanes(&self.get(st, b)));
                let o = m.iter().map(|k| match k { None => Val::C(0), Some(k) => { let k = *k as usize; if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() } } }).collect();
                Val::A(Rc::new(o))
            }
            K::Freeze(a) => self.get(st, a),
            K::FNeg(ty, a) => match self.get(st, a) { Val::C(c) => Val::C(fneg_bits(c, ty.bits())), _ => return err("symbolic fneg") },
            K::FCmp(p, ty, a, b) => { let (a, b) = (self.get(st, a), self.get(st, b)); self.fcmp(p, ty, &a, &b)? }
            K::Rmw(op, ty, p, v) => {
                let p = self.get(st, p);
                let a = self.cz(st, &p)?;
                let v = self.get(st, v);
                let w = ty.bits();
                let old = self.load_scalar(st, a, w)?;
                let new = match op.as_str() {
                    "add" => self.bin1(BinK::Add, w, &old, &v)?, "sub" => self.bin1(BinK::Sub, w, &old, &v)?, "and" => self.bin1(BinK::And, w, &old, &v)?, "or" => self.bin1(BinK::Or, w, &old, &v)?, "xor" => self.bin1(BinK::Xor, w, &old, &v)?, "xchg" => v,
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store_scalar(st, a, w, &new)?;
                old
            }
            K::CmpXchg(ty, p, e, n) => {
                let p = self.get(st, p);
                let a = self.cz(st, &p)?;
                let (e, n) = (self.get(st, e), self.get(st, n));
                let w = ty.bits();
                let old = self.load_scalar(st, a, w)?;
                let eq = match self.icmp1(Pred::Eq, w, &old, &e) { Val::C(c) => c == 1, Val::S(t) => self.decide(st, t)?, _ => unreachable!() };
                if eq { self.store_scalar(st, a, w, &n)?; }
                Val::A(Rc::new(vec![old, Val::C(eq as u128)]))
            }
            K::Nop => { self.next(st); return Ok(()); }
            K::Ret(v) => {
                let v = v.as_ref().map(|(_, o)| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                if st.sp > fr.sp { let (a, n) = (fr.sp, st.sp - fr.sp); st.mem.set_valid(a, n, false); st.sp = fr.sp; }
                if st.frames.is_empty() { return Err(Stop::End(End::Done)); }
                if let Some(v) = v { self.set(st, fr.ret_dst, v); }
                match fr.ret_blk { Some(b) => self.jump(st, b), None => self.next(st) }
                return Ok(());
            }
            K::Unreachable => return viol("unreachable", "unreachable instruction executed"),
            K::LandingPad | K::Resume => return err("unwinding reached"),
            K::Bad(s) => return err(format!("unsupported instruction {}", s)),
            K::Call { callee, args, ret, normal } => return self.call(st, ins.dst, callee, args, ret, *normal),
        };
        self.set(st, ins.dst, v);
        self.next(st);
        Ok(())
    }
    fn cast1(&mut self, k: CastK, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            CastK::Trunc => match a { Val::C(c) => Val::C(c & mask(tw)), Val::S(t) => { let r = self.cx.extract(*t, 0, tw); self.mk(r) } _ => return err("cast") },
            CastK::Zext => match a { Val::C(c) => Val::C(*c), Val::S(t) => { let r = self.cx.zext(*t, tw); self.mk(r) } _ => return err("cast") },
            CastK::Sext => match a { Val::C(c) => Val::C(sx(*c, fw) as u128 & mask(tw)), Val::S(t) => { let r = self.cx.sext(*t, tw); self.mk(r) } _ => return err("cast") },
            CastK::PtrInt => match a {
                Val::C(c) => Val::C(c & mask(tw)),
                Val::S(t) => { let r = if tw < fw { self.cx.extract(*t, 0, tw) } else { self.cx.zext(*t, tw) }; self.mk(r) }
                _ => return err("cast"),
            },
            _ => {
                if let (CastK::FpExt, Val::S(t)) = (k, a) { let r = self.fpext(*t); return Ok(self.mk(r)); }
                let Val::C(c) = a else { return err("symbolic floating-point cast"); };
                let f = |c: u128| if *from == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                match k {
                    CastK::FpTrunc => Val::C((f64::from_bits(*c as u64) as f32).to_bits() as u128),
                    CastK::FpExt => Val::C((f32::from_bits(*c as u32) as f64).to_bits() as u128),
                    CastK::FpToUi => Val::C((f(*c) as u128) & mask(tw)),
                    CastK::FpToSi => Val::C((f(*c) as i128) as u128 & mask(tw)),
                    CastK::UiToFp => Val::C(if *to == Ty::F32 { (*c as f32).to_bits() as u128 } else { (*c as f64).to_bits() as u128 }),
                    CastK::SiToFp => { let s = sx(*c, fw); Val::C(if *to == Ty::F32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }) }
                    _ => unreachable!(),
                }
            }
        })
    }
    /// float to double, exactly
    fn fpext(&mut self, t: T) -> T {
        let cx = &mut self.cx;
        let (m, e, s) = (cx.extract(t, 0, 23), cx.extract(t, 23, 8), cx.extract(t, 31, 1));
        let m52 = { let z = cx.konst(0, 29); cx.concat(m, z) };
        let e11 = { let x = cx.zext(e, 11); let k = cx.konst(896, 11); cx.bin(Bop::Add, x, k) };
        let normal = cx.concat(e11, m52);
        let special = { let k = cx.konst(0x7ff, 11); cx.concat(k, m52) };
        // subnormal numbers: the highest set bit becomes the implicit one
        let mut sub = cx.konst(0, 63);
        for k in 0..23u32 {
            let bit = cx.extract(m, k, 1);
            let ex = cx.konst((k + 1023 - 149) as u128, 11);
            let z = cx.konst(0, 52 - k);
            let ma = if k == 0 { z } else { let lo = cx.extract(m, 0, k); cx.concat(lo, z) };
            let v = cx.concat(ex, ma);
            sub = cx.ite(bit, v, sub);
        }
        let z8 = cx.konst(0, 8); let f8 = cx.konst(255, 8);
        let is0 = cx.eq(e, z8); let is1 = cx.eq(e, f8);
        let r = cx.ite(is1, special, normal);
        let r = cx.ite(is0, sub, r);
        cx.concat(s, r)
    }
    fn fcmp(&mut self, p: &str, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = if *ty == Ty::F32 { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) } else { (f64::from_bits(*x as u64), f64::from_bits(*y as u64)) };
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                "oeq" => x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y, "ord" => !un, "uno" => un,
                "ueq" => un || x == y, "une" => x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y, "true" => true, "false" => false,
                _ => return err("fcmp"),
            };
            return Ok(Val::C(r as u128));
        }
        if !ty.is_scalar() { return err("symbolic vector fcmp"); }
        let w = ty.bits();
        let mw = if w == 32 { 23 } else { 52 };
        let (x, y) = (self.t(a, w), self.t(b, w));
        let inf = self.cx.konst(mask(w - 1) >> mw << mw, w - 1);
        let xa = self.cx.extract(x, 0, w - 1); let ya = self.cx.extract(y, 0, w - 1);
        let nx = self.cx.cmp(Cop::Ult, inf, xa); let ny = self.cx.cmp(Cop::Ult, inf, ya);
        let un = self.cx.or(nx, ny);
        let ord = self.cx.not(un);
        let z = self.cx.konst(0, w - 1);
        let zx = self.cx.eq(xa, z); let zy = self.cx.eq(ya, z); let zz = self.cx.and(zx, zy);
        let same = self.cx.eq(x, y);
        let e0 = self.cx.or(same, zz);
        let eq = self.cx.and(ord, e0);
        // x < y (ordered): sign-magnitude comparison
        let sx_ = self.cx.extract(x, w - 1, 1); let sy_ = self.cx.extract(y, w - 1, 1);
        let lt_mag = self.cx.cmp(Cop::Ult, xa, ya); let gt_mag = self.cx.cmp(Cop::Ult, ya, xa);
        let lt_of = |cx: &mut Ctx, sa: T, sb: T, lm: T, gm: T| { let nzz = cx.not(zz); let diff_neg = { let nb = cx.not(sb); let q = cx.and(sa, nb); cx.and(q, nzz) }; let both_pos = { let u = cx.or(sa, sb); let n = cx.not(u); cx.and(n, lm) }; let both_neg = { let u = cx.and(sa, sb); cx.and(u, gm) }; let o = cx.or(both_pos, both_neg); let o = cx.or(o, diff_neg); cx.and(ord, o) };
        let lt = lt_of(&mut self.cx, sx_, sy_, lt_mag, gt_mag);
        let gt = lt_of(&mut self.cx, sy_, sx_, gt_mag, lt_mag);
        let cx = &mut self.cx;
        let r = match p {
            "ord" => ord, "uno" => un, "oeq" => eq, "une" => cx.not(eq), "ueq" => cx.or(eq, un), "one" => { let n = cx.not(eq); cx.and(n, ord) }
            "olt" => lt, "ogt" => gt, "ole" => cx.or(lt, eq), "oge" => cx.or(gt, eq), "ult" => cx.or(lt, un), "ugt" => cx.or(gt, un),
            "ule" => { let q = cx.or(lt, eq); cx.or(q, un) } "uge" => { let q = cx.or(gt, eq); cx.or(q, un) }
            _ => return err("fcmp pred"),
        };
        Ok(self.mk(r))
    }

    // ---- calls ----------------------------------------------------------
    fn finish(&mut self, st: &mut State, dst: u32, v: Val, normal: Option<u32>) -> R<()> {
        self.set(st, dst, v);
        match normal { Some(b) => self.jump(st, b), None => self.next(st) }
        Ok(())
    }
    fn call(&mut self, st: &mut State, dst: u32, callee: &'static Callee, args: &'static [(Ty, Opd)], ret: &Ty, normal: Option<u32>) -> R<()> {
        let fi = match callee {
            Callee::Fn(i) => *i,
            Callee::Asm(a) => {
                if a.trim().is_empty() || a.contains("cpuid") || !matches!(ret, Ty::Void) && a.contains("cpuid") {
                    return self.finish(st, dst, ret.zero_or(), normal);
                }
                return err(format!("inline asm {:?}", a));
            }
            Callee::Ind(o) => {
                let p = self.get(st, o);
                let a = self.cz(st, &p)?;
                match self.m.fn_at(a) { Some(i) => i, None => return viol("memory", format!("call through invalid pointer {:#x}", a)) }
            }
        };
        let mut k = self.kind(fi);
        if let FnKind::Text(w, flags) = k {
            // a symbolic number is written as a token that is the same exactly for the same number
            k = FnKind::Normal;
            if args.len() == 2 || flags & 128 != 0 {
                let vi = if flags & 128 != 0 { 0 } else if flags & 64 != 0 { if args[1].0 == Ty::Ptr { 3 } else { 1 } } else if args[0].0 == Ty::Ptr && args[1].0 == Ty::Ptr { 2 } else if args[0].0 == Ty::Ptr { 1 } else { 0 };
                let v = if vi >= 2 { let p = self.get(st, &args[vi - 2].1); let p = self.cz(st, &p)?; if st.mem.valid(p, (w / 8) as u64) { self.load_scalar(st, p, w)? } else { Val::C(0) } } else { self.get(st, &args[vi].1) };
                let f = self.get(st, &args[if vi == 1 || vi == 3 { 0 } else { 1 }].1);
                if let Val::S(t) = v {
                    let Some(&ti) = self.m.clone().fn_by_name.get(if flags & 128 != 0 { "symx_digits" } else if flags & 64 != 0 { "symx_string" } else { "symx_text" }) else { return err("symx_text missing") };
                    let t = if flags & 16 != 0 { self.cx.sext(t, 64) } else { self.cx.zext(t, 64) };
                    let v = self.mk(t);
                    *self.called.entry(ti).or_insert(0) += 1;
                    let g = self.func(ti);
                    let mut regs = vec![Val::C(0); g.nregs as usize];
                    let xs = if flags & 128 != 0 { vec![v] } else { vec![f, v, Val::C((flags & 63 | w << 8) as u128)] };
                    for (i, x) in xs.into_iter().enumerate() { regs[g.params[i] as usize] = x; }
                    let sp = st.sp;
                    st.frames.push(Frame { f: g, regs, blk: 0, idx: 0, ret_dst: dst, ret_blk: normal, sp });
                    return Ok(());
                }
            }
        }
        match k {
            FnKind::Text(..) => unreachable!(),
            FnKind::Normal => {
                *self.called.entry(fi).or_insert(0) += 1;
                let f = self.func(fi);
                let mut regs = vec![Val::C(0); f.nregs as usize];
                for (i, (_, o)) in args.iter().enumerate() { if i < f.params.len() { regs[f.params[i] as usize] = self.get(st, o); } }
                if st.frames.len() >= self.lim.depth { return viol("stack", format!("call depth exceeds {}", self.lim.depth)); }
                self.stats.max_depth = self.stats.max_depth.max(st.frames.len());
                let sp = st.sp;
                st.frames.push(Frame { f, regs, blk: 0, idx: 0, ret_dst: dst, ret_blk: normal, sp });
                Ok(())
            }
            FnKind::Panic => {
                let mut loc = String::new();
                if let Some((Ty::Ptr, o)) = args.last() {
                    if let Val::C(a) = self.get(st, o) {
                        let a = a as u64;
                        if let (Some(p), Some(n), Some(l), Some(c)) = (st.mem.read_c(a, 8), st.mem.read_c(a + 8, 8), st.mem.read_c(a + 16, 4), st.mem.read_c(a + 20, 4)) {
                            if n < 4096 { loc = format!(" at {}:{}:{}", self.cstr(st, p as u64, Some(n as u64)).trim_end_matches('\0'), l, c); }
                        }
                    }
                }
                viol("panic", format!("{}{}", self.m.fns[fi as usize].human, loc))
            }
            FnKind::HashOne => self.finish(st, dst, Val::C(0), normal),
            FnKind::RandomKeys => self.finish(st, dst, Val::A(Rc::new(vec![Val::C(0x0706050403020100), Val::C(0x0f0e0d0c0b0a0908)])), normal),
            FnKind::Ext(e) => {
                let name = self.exts[e as usize].clone();
                let a: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let r = self.external(st, &name, args, &a, ret)?;
                self.finish(st, dst, r, normal)
            }
            FnKind::Unknown => unreachable!(),
        }
    }
    fn lanewise(&mut self, ty: &Ty, a: &[Val], f: &mut dyn FnMut(&mut Self, u32, &[Val]) -> R<Val>) -> R<Val> {
        if let Ty::Vec(n, e) = ty {
            let mut o = vec![];
            for i in 0..*n as usize { let xs: Vec<Val> = a.iter().map(|v| match v { Val::A(l) => l[i].clone(), v => v.clone() }).collect(); o.push(f(self, e.bits(), &xs)?); }
            Ok(Val::A(Rc::new(o)))
        } else { f(self, ty.bits(), a) }
    }
    fn external(&mut self, st: &mut State, name: &str, args: &[(Ty, Opd)], a: &[Val], ret: &Ty) -> R<Val> {
        let z = Val::C(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || n.starts_with("x86.sse2.pause") || n.starts_with("assume") || n.starts_with("invariant") || n.starts_with("prefetch") { return Ok(z); }
            if n.starts_with("memcpy") || n.starts_with("memmove") {
                let len = self.cz(st, &a[2])?; let d = self.cz(st, &a[0])?; let s = self.cz(st, &a[1])?;
                self.copy(st, d, s, len)?;
                return Ok(z);
            }
            if n.starts_with("memset") {
                let len = self.cz(st, &a[2])?; let d = self.cz(st, &a[0])?;
                if len > 0 && !st.mem.valid(d, len) { return self.mem_err("memset", d, len); }
                let b = match &a[1] { Val::C(c) => B::C(*c as u8), Val::S(t) => B::S(*t), _ => return err("memset") };
                for i in 0..len { st.mem.write_b(d + i, b); }
                return Ok(z);
            }
            if n.starts_with("threadlocal.address") { return Ok(a[0].clone()); }
            if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") { return viol("trap", "llvm.trap executed"); }
            if n.starts_with("is.constant") { return Ok(z); }
            if n.starts_with("expect") { return Ok(a[0].clone()); }
            if n.starts_with("load.relative") {
                let b = self.cz(st, &a[0])?; let o = self.cz(st, &a[1])?;
                let v = self.load_scalar(st, b.wrapping_add(o), 32)?;
                let Val::C(c) = v else { return err("load.relative symbolic") };
                return Ok(Val::C(b.wrapping_add(sx(c, 32) as u64) as u128));
            }
            if n.starts_with("x86.xgetbv") { return Ok(z); }
            if n.starts_with("x86.") { return err(format!("intrinsic {}", name)); }
            if n.contains(".with.overflow.") {
                let w = args[0].0.bits();
                let signed = n.starts_with('s');
                let op = if n[1..].starts_with("add") { Bop::Add } else if n[1..].starts_with("sub") { Bop::Sub } else { Bop::Mul };
                let ww = if op == Bop::Mul { 2 * w } else { w + 1 };
                if ww > 128 { return err("wide overflow op"); }
                if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let (ex, ey) = if signed { (sx(*x, w) as u128 & mask(ww), sx(*y, w) as u128 & mask(ww)) } else { (*x, *y) };
                    let r = binop(op, ex, ey, ww);
                    let lo = r & mask(w);
                    let back = if signed { sx(lo, w) as u128 & mask(ww) } else { lo };
                    return Ok(Val::A(Rc::new(vec![Val::C(lo), Val::C((back != r) as u128)])));
                }
                let (x, y) = (self.t(&a[0], w), self.t(&a[1], w));
                let (ex, ey) = if signed { (self.cx.sext(x, ww), self.cx.sext(y, ww)) } else { (self.cx.zext(x, ww), self.cx.zext(y, ww)) };
                let r = self.cx.bin(op, ex, ey);
                let lo = self.cx.bin(op, x, y);
                let ov = if !signed && op == Bop::Sub { self.cx.cmp(Cop::Ult, x, y) }
                    else if !signed && op == Bop::Add { self.cx.extract(r, w, 1) }
                    else { let back = if signed { self.cx.sext(lo, ww) } else { self.cx.zext(lo, ww) }; let e = self.cx.eq(back, r); self.cx.not(e) };
                return Ok(Val::A(Rc::new(vec![self.mk(lo), self.mk(ov)])));
            }
            let base = n.split('.').next().unwrap().to_string();
            let sub = if n.starts_with("uadd.sat") || n.starts_with("usub.sat") || n.starts_with("sadd.sat") || n.starts_with("ssub.sat") { n[..8].to_string() } else { base };
            if sub == "scmp" || sub == "ucmp" {
                let w = args[0].0.bits(); let rw = ret.bits();
                let p = if sub == "scmp" { Pred::Slt } else { Pred::Ult };
                let lt = self.icmp1(p, w, &a[0], &a[1]); let gt = self.icmp1(p, w, &a[1], &a[0]);
                let (lt, gt) = (self.t(&lt, 1), self.t(&gt, 1));
                let m1 = self.cx.konst(mask(rw), rw); let p1 = self.cx.konst(1, rw); let zz = self.cx.konst(0, rw);
                let r = self.cx.ite(gt, p1, zz); let r = self.cx.ite(lt, m1, r);
                return Ok(self.mk(r));
            }
            if sub == "vector" { 
                // llvm.vector.reduce.*
                let op = n.split('.').nth(2).unwrap_or("");
                let l = Self::lanes(&a[0]); let w = args[0].0.elem(0).bits();
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = match op { "add" => self.bin1(BinK::Add, w, &acc, x)?, "or" => self.bin1(BinK::Or, w, &acc, x)?, "and" => self.bin1(BinK::And, w, &acc, x)?, "xor" => self.bin1(BinK::Xor, w, &acc, x)?,
                        "umax" => { let c = self.icmp1(Pred::Ugt, w, &acc, x); let c = self.t(&c, 1); self.select1(w, c, &acc, x) } "umin" => { let c = self.icmp1(Pred::Ult, w, &acc, x); let c = self.t(&c, 1); self.select1(w, c, &acc, x) } _ => return err(name) };
                }
                return Ok(acc);
            }
            let ty = args[0].0.clone();
            return self.lanewise(&ty, a, &mut |s: &mut Self, w: u32, x: &[Val]| -> R<Val> {
                Ok(match sub.as_str() {
                    "umax" | "umin" | "smax" | "smin" => {
                        let p = match sub.as_str() { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt };
                        let c = s.icmp1(p, w, &x[0], &x[1]);
                        match c { Val::C(1) => x[0].clone(), Val::C(_) => x[1].clone(), Val::S(t) => s.select1(w, t, &x[0], &x[1]), _ => unreachable!() }
                    }
                    "abs" => { let neg = s.icmp1(Pred::Slt, w, &x[0], &Val::C(0)); let m = s.bin1(BinK::Sub, w, &Val::C(0), &x[0])?; let c = s.t(&neg, 1); s.select1(w, c, &m, &x[0]) }
                    "uadd.sat" => { let sum = s.bin1(BinK::Add, w, &x[0], &x[1])?; let o = s.icmp1(Pred::Ult, w, &sum, &x[0]); let c = s.t(&o, 1); s.select1(w, c, &Val::C(mask(w)), &sum) }
                    "usub.sat" => { let d = s.bin1(BinK::Sub, w, &x[0], &x[1])?; let o = s.icmp1(Pred::Ult, w, &x[0], &x[1]); let c = s.t(&o, 1); s.select1(w, c, &Val::C(0), &d) }
                    "ctlz" | "cttz" | "ctpop" => match &x[0] {
                        Val::C(v) => Val::C(match sub.as_str() { "ctpop" => v.count_ones() as u128, "cttz" => (v.trailing_zeros().min(w)) as u128, _ => (v.leading_zeros() - (128 - w)) as u128 }),
                        Val::S(t) => {
                            let t = *t;
                            let mut r;
                            match sub.as_str() {
                                "ctpop" => { r = s.cx.konst(0, w); for i in 0..w { let b = s.cx.extract(t, i, 1); let b = s.cx.zext(b, w); r = s.cx.bin(Bop::Add, r, b); } }
                                "cttz" => { r = s.cx.konst(w as u128, w); for i in (0..w).rev() { let b = s.cx.extract(t, i, 1); let k = s.cx.konst(i as u128, w); r = s.cx.ite(b, k, r); } }
                                _ => { r = s.cx.konst(w as u128, w); for i in 0..w { let b = s.cx.extract(t, i, 1); let k = s.cx.konst((w - 1 - i) as u128, w); r = s.cx.ite(b, k, r); } }
                            }
                            s.mk(r)
                        }
                        _ => return err("ctz"),
                    },
                    "bswap" => { let n = w / 8; let t = s.t(&x[0], w); let mut acc = s.cx.extract(t, w - 8, 8); for i in 1..n { let b = s.cx.extract(t, w - 8 - 8 * i, 8); acc = s.cx.concat(b, acc); } s.mk(acc) }
                    "bitreverse" => { let t = s.t(&x[0], w); let mut acc = s.cx.extract(t, w - 1, 1); for i in 1..w { let b = s.cx.extract(t, w - 1 - i, 1); acc = s.cx.concat(b, acc); } s.mk(acc) }
                    "fshl" | "fshr" => {
                        let Val::C(k) = &x[2] else { return err("symbolic funnel shift amount") };
                        let k = (*k % w as u128) as u32;
                        let (h, l) = (s.t(&x[0], w), s.t(&x[1], w));
                        let r = if sub == "fshl" { if k == 0 { h } else { let p = s.cx.extract(h, 0, w - k); let q = s.cx.extract(l, w - k, k); s.cx.concat(p, q) } }
                            else if k == 0 { l } else { let p = s.cx.extract(h, 0, k); let q = s.cx.extract(l, k, w - k); s.cx.concat(p, q) };
                        s.mk(r)
                    }
                    "fabs" => match &x[0] { Val::C(c) => Val::C(c & mask(w - 1)), Val::S(t) => { let e = s.cx.extract(*t, 0, w - 1); let r = s.cx.zext(e, w); s.mk(r) } _ => return err("fabs") },
                    _ => return err(format!("unsupported intrinsic {}", name)),
                })
            });
        }
        match name {
            "__sym_bytes" => {
                let n = self.cz(st, &a[1])?; let p = self.cz(st, &a[0])?;
                for i in 0..n {
                    let id = st.model.len() as u32;
                    let mut d = BS_FULL; let mut m0 = 0u8;
                    if let Some(&f) = self.fixed.get(&id) { d = [0; 4]; d[(f >> 6) as usize] = 1 << (f & 63); m0 = f; }
                    Rc::make_mut(&mut st.dom).push(d);
                    Rc::make_mut(&mut st.model).push(m0);
                    let b = if self.fixed.contains_key(&id) { B::C(m0) } else { B::S(self.cx.var(id)) };
                    if !st.mem.write_b(p + i, b) { return self.mem_err("write", p, n); }
                }
                Ok(z)
            }
            "__sym_assume" => {
                match &a[0] {
                    Val::C(c) => { if *c & 1 == 0 { return Err(Stop::End(End::Pruned)); } }
                    Val::S(t) => {
                        let t = if self.cx.w(*t) > 1 { self.cx.extract(*t, 0, 1) } else { *t };
                        match self.sat(st, t)? { None => return Err(Stop::End(End::Pruned)), Some(m) => { self.add(st, t); self.set_model(st, &m); } }
                    }
                    _ => return err("assume"),
                }
                Ok(z)
            }
            "__sym_check" => {
                self.stats.checks += 1;
                let (p, n) = (a[1].c() as u64, a[2].c() as u64);
                match &a[0] {
                    Val::C(c) => { if *c & 1 == 0 { let m = self.cstr(st, p, Some(n)); return viol("check", m); } }
                    Val::S(t) => {
                        let t = if self.cx.w(*t) > 1 { self.cx.extract(*t, 0, 1) } else { *t };
                        let nt = self.cx.not(t);
                        self.stats.checks_solver += 1;
                        match self.sol.check(&mut self.cx, &st.dom, &st.multi, nt) {
                            Res::Sat(m) => { let mut asg = m; if self.cx.eval0(nt, &st.model) == 1 { asg.clear(); } self.set_model(st, &asg); if self.cx.eval0(nt, &st.model) != 1 { return err("check: model does not falsify the assertion"); } if self.text { self.add(st, nt); } let m = self.cstr(st, p, Some(n)); return viol("check", m); }
                            Res::Unsat => {}
                            Res::Unknown => return err("solver returned unknown on a check"),
                        }
                    }
                    _ => return err("check"),
                }
                Ok(z)
            }
            "__sym_reach" => { let (p, n) = (a[0].c() as u64, a[1].c() as u64); let s = self.cstr(st, p, Some(n)); if !st.labels.contains(&s) { Rc::make_mut(&mut st.labels).push(s); } Ok(z) }
            "__sym_concrete" => { let w = args[0].0.bits(); Ok(Val::C(self.concretize(st, &a[0], w)?)) }
            "__sym_known_not" => {
                // 1 if the condition cannot hold on this path (no fork)
                let r = match &a[0] { Val::C(c) => *c & 1 == 0, Val::S(t) => { let t = if self.cx.w(*t) > 1 { self.cx.extract(*t, 0, 1) } else { *t }; self.sat(st, t)?.is_none() } _ => return err("known_not") };
                Ok(Val::C(r as u128))
            }
            "malloc" => { let n = self.alloc_size(st, &a[0])?; Ok(Val::C(self.alloc(st, n, 16)? as u128)) }
            "calloc" => {
                let n = if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) { (*x as u64).checked_mul(*y as u64).unwrap_or(u64::MAX) } else {
                    let (x, y) = (self.alloc_size(st, &a[0])?, self.alloc_size(st, &a[1])?); x.checked_mul(y).unwrap_or(u64::MAX) };
                Ok(Val::C(self.alloc(st, n, 16)? as u128))
            }
            "posix_memalign" => { let n = self.alloc_size(st, &a[2])?; let al = self.cz(st, &a[1])?; let o = self.cz(st, &a[0])?; let p = self.alloc(st, n, al)?; self.store_scalar(st, o, 64, &Val::C(p as u128))?; Ok(z) }
            "aligned_alloc" => { let n = self.alloc_size(st, &a[1])?; let al = self.cz(st, &a[0])?; Ok(Val::C(self.alloc(st, n, al)? as u128)) }
            "realloc" => {
                let p = self.cz(st, &a[0])?; let n = self.alloc_size(st, &a[1])?;
                let q = self.alloc(st, n, 16)?;
                if p != 0 {
                    let Some(&old) = st.allocs.get(&p) else { return viol("memory", "realloc of invalid pointer") };
                    self.copy(st, q, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Ok(Val::C(q as u128))
            }
            "free" => { let p = self.cz(st, &a[0])?; self.free(st, p)?; Ok(z) }
            "bcmp" | "memcmp" => {
                let n = self.cz(st, &a[2])?; let p = self.cz(st, &a[0])?; let q = self.cz(st, &a[1])?;
                if n == 0 { return Ok(z); }
                if !st.mem.valid(p, n) { return self.mem_err("compare", p, n); }
                if !st.mem.valid(q, n) { return self.mem_err("compare", q, n); }
                // concrete prefix
                let mut r = self.cx.konst(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (st.mem.read_b(p + i).unwrap(), st.mem.read_b(q + i).unwrap());
                    let tt = |s: &mut Self, b: B| match b { B::C(c) => s.cx.konst(c as u128, 8), B::S(t) => t };
                    if let (B::C(x), B::C(y)) = (x, y) {
                        if x != y { r = self.cx.konst(if x < y { mask(32) } else { 1 }, 32); }
                        continue;
                    }
                    let (x, y) = (tt(self, x), tt(self, y));
                    let e = self.cx.eq(x, y);
                    let lt = if name == "bcmp" { self.cx.fls() } else { self.cx.cmp(Cop::Ult, x, y) };
                    let m1 = self.cx.konst(mask(32), 32); let p1 = self.cx.konst(1, 32);
                    let ne = self.cx.ite(lt, m1, p1);
                    r = self.cx.ite(e, r, ne);
                }
                Ok(self.mk(r))
            }
            "strlen" => { let p = self.cz(st, &a[0])?; let mut n = 0; loop { match st.mem.read_b(p + n) { Some(B::C(0)) => break, Some(B::C(_)) => n += 1, _ => return err("strlen symbolic/invalid") } } Ok(Val::C(n as u128)) }
            "write" => { let fd = self.cz(st, &a[0])?; if self.no_output && fd == 1 { return viol("output", "the code under test writes to standard output"); } let n = self.cz(st, &a[2])?; Ok(Val::C(n as u128)) }
            "writev" => err("writev"),
            "getrandom" => { let p = self.cz(st, &a[0])?; let n = self.cz(st, &a[1])?; for i in 0..n { st.mem.write_b(p + i, B::C(i as u8)); } Ok(Val::C(n as u128)) }
            "syscall" => {
                let nr = self.cz(st, &a[0])?;
                if nr == 318 { let p = self.cz(st, &a[1])?; let n = self.cz(st, &a[2])?; for i in 0..n { st.mem.write_b(p + i, B::C(i as u8)); } return Ok(Val::C(n as u128)); }
                if nr == 202 { return Ok(z); } // futex wake
                err(format!("syscall {}", nr))
            }
            "getenv" | "secure_getenv" => Ok(z),
            "__errno_location" => { let a = HEAP_BASE + 16; if !st.mem.valid(a, 4) { st.mem.set_valid(a, 4, true); } st.mem.write_c(a, 4, 2); Ok(Val::C(a as u128)) }
            "open64" | "open" | "statx" | "stat64" | "fstat64" | "readlink" | "sched_getaffinity" => Ok(Val::C(mask(if ret.bits() == 64 { 64 } else { 32 }))),
            "sysconf" => Ok(Val::C(4)),
            "gettid" | "getpid" => Ok(Val::C(1)),
            "pthread_self" => Ok(Val::C(0x1234)),
            "abort" | "exit" | "_exit" => viol("abort", format!("{} called", name)),
            "__cxa_thread_atexit_impl" => Ok(z),
            _ => err(format!("unmodelled external function {}", name)),
        }
    }
}
