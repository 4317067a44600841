//! Hash-consed bit-vector terms with simplification.
//!
//! Width-1 terms are booleans. Every symbolic input is one byte (`Var`).
//! Boolean terms over a single byte are canonicalised to `InSet(var, set)`;
//! loads from constant tables at an index depending on a single byte become
//! `Tab(var, table)`.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop { Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cop { Eq, Ult, Ule, Slt, Sle }

pub type BitSet = [u64; 4];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Not(T), // width 1 only
    Bin(Bop, T, T),
    Cmp(Cop, T, T),
    Ite(T, T, T),
    Concat(T, T),
    Extract(T, u32), // low bit; width is node width
    Sext(T),
    Tab(u32, u32),
    InSet(u32, u32),
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    pub supp: Vec<u32>,
    tabmemo: Vec<Option<Rc<[u128; 256]>>>,
    kzmemo: Vec<Option<u128>>,
    map: HashMap<(Node, u32), T>,
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Rc<Vec<u32>>, u32>,
    unionmemo: HashMap<(u32, u32), u32>,
    pub tables: Vec<Rc<[u128; 256]>>,
    tablemap: HashMap<Rc<[u128; 256]>, u32>,
    pub bitsets: Vec<BitSet>,
    bitsetmap: HashMap<BitSet, u32>,
}

pub fn bs_has(s: &BitSet, v: u8) -> bool { s[(v >> 6) as usize] >> (v & 63) & 1 != 0 }
pub fn bs_and(a: &BitSet, b: &BitSet) -> BitSet { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn bs_not(a: &BitSet) -> BitSet { [!a[0], !a[1], !a[2], !a[3]] }
pub fn bs_empty(a: &BitSet) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn bs_first(a: &BitSet) -> u8 {
    for i in 0..4 { if a[i] != 0 { return (i as u32 * 64 + a[i].trailing_zeros()) as u8; } }
    0
}
pub fn bs_count(a: &BitSet) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub const BS_FULL: BitSet = [!0; 4];

pub fn binop(op: Bop, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => if b == 0 { m } else { a / b },
        Bop::URem => if b == 0 { a } else { a % b },
        Bop::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Bop::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Bop::Shl => if b >= w as u128 { 0 } else { a << b },
        Bop::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bop::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sx(a, w) >> s.min(127)) as u128 }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
    }) & m
}
pub fn cmpop(op: Cop, a: u128, b: u128, w: u32) -> bool {
    match op {
        Cop::Eq => a == b,
        Cop::Ult => a < b,
        Cop::Ule => a <= b,
        Cop::Slt => sx(a, w) < sx(b, w),
        Cop::Sle => sx(a, w) <= sx(b, w),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![], width: vec![], supp: vec![], tabmemo: vec![], kzmemo: vec![], map: HashMap::new(),
            sets: vec![], setmap: HashMap::new(), unionmemo: HashMap::new(), tables: vec![], tablemap: HashMap::new(),
            bitsets: vec![], bitsetmap: HashMap::new(),
        };
        c.set_id(vec![]);
        // index 0 is never a valid term
        c.nodes.push(Node::Const(0)); c.width.push(0); c.supp.push(0); c.tabmemo.push(None); c.kzmemo.push(None);
        c
    }
    fn set_id(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.setmap.get(&v) { return i; }
        let r = Rc::new(v);
        self.sets.push(r.clone());
        let i = (self.sets.len() - 1) as u32;
        self.setmap.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unionmemo.get(&k) { return r; }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort(); v.dedup();
        let r = self.set_id(v);
        self.unionmemo.insert(k, r);
        r
    }
    fn mk(&mut self, n: Node, w: u32) -> T {
        let key = (n, w);
        if let Some(&t) = self.map.get(&key) { return t; }
        let n = key.0.clone();
        let s = match &n {
            Node::Const(_) => 0,
            Node::Var(v) | Node::Tab(v, _) | Node::InSet(v, _) => self.set_id(vec![*v]),
            Node::Not(a) | Node::Extract(a, _) | Node::Sext(a) => self.supp[*a as usize],
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                let (x, y) = (self.supp[*a as usize], self.supp[*b as usize]);
                self.union(x, y)
            }
            Node::Ite(a, b, c) => {
                let (x, y, z) = (self.supp[*a as usize], self.supp[*b as usize], self.supp[*c as usize]);
                let u = self.union(x, y);
                self.union(u, z)
            }
        };
        self.nodes.push(n); self.width.push(w); self.supp.push(s); self.tabmemo.push(None); self.kzmemo.push(None);
        let t = (self.nodes.len() - 1) as T;
        self.map.insert(key, t);
        t
    }
    pub fn w(&self, t: T) -> u32 { self.width[t as usize] }
    pub fn vars(&self, t: T) -> Rc<Vec<u32>> { self.sets[self.supp[t as usize] as usize].clone() }
    pub fn nvars(&self, t: T) -> usize { self.sets[self.supp[t as usize] as usize].len() }
    pub fn single_var(&self, t: T) -> Option<u32> {
        let s = &self.sets[self.supp[t as usize] as usize];
        if s.len() == 1 { Some(s[0]) } else { None }
    }
    pub fn as_const(&self, t: T) -> Option<u128> { if let Node::Const(c) = self.nodes[t as usize] { Some(c) } else { None } }
    pub fn konst(&mut self, v: u128, w: u32) -> T { self.mk(Node::Const(v & mask(w)), w) }
    pub fn var(&mut self, id: u32) -> T { self.mk(Node::Var(id), 8) }
    pub fn tru(&mut self) -> T { self.konst(1, 1) }
    pub fn fls(&mut self) -> T { self.konst(0, 1) }

    pub fn bitset_id(&mut self, s: BitSet) -> u32 {
        if let Some(&i) = self.bitsetmap.get(&s) { return i; }
        self.bitsets.push(s);
        let i = (self.bitsets.len() - 1) as u32;
        self.bitsetmap.insert(s, i);
        i
    }
    pub fn mk_inset(&mut self, v: u32, s: BitSet) -> T {
        if bs_empty(&s) { return self.fls(); }
        if s == BS_FULL { return self.tru(); }
        let i = self.bitset_id(s);
        self.mk(Node::InSet(v, i), 1)
    }
    pub fn mk_tab(&mut self, v: u32, t: [u128; 256], w: u32) -> T {
        if t.iter().all(|x| *x == t[0]) { return self.konst(t[0], w); }
        if w == 1 {
            let mut s = [0u64; 4];
            for i in 0..256 { if t[i] & 1 != 0 { s[i >> 6] |= 1 << (i & 63); } }
            return self.mk_inset(v, s);
        }
        let r = Rc::new(t);
        let id = if let Some(&i) = self.tablemap.get(&r) { i } else {
            self.tables.push(r.clone());
            let i = (self.tables.len() - 1) as u32;
            self.tablemap.insert(r, i);
            i
        };
        self.mk(Node::Tab(v, id), w)
    }
    /// Values of a (<= single variable) term for each value of that variable.
    pub fn table(&mut self, t: T) -> Rc<[u128; 256]> {
        if let Some(r) = &self.tabmemo[t as usize] { return r.clone(); }
        let n = self.nodes[t as usize].clone();
        let w = self.w(t);
        let mut out = [0u128; 256];
        match n {
            Node::Const(c) => out = [c; 256],
            Node::Var(_) => for i in 0..256 { out[i] = i as u128; },
            Node::Not(a) => { let x = self.table(a); for i in 0..256 { out[i] = 1 - x[i]; } }
            Node::Bin(op, a, b) => { let (x, y) = (self.table(a), self.table(b)); for i in 0..256 { out[i] = binop(op, x[i], y[i], w); } }
            Node::Cmp(op, a, b) => { let wa = self.w(a); let (x, y) = (self.table(a), self.table(b)); for i in 0..256 { out[i] = cmpop(op, x[i], y[i], wa) as u128; } }
            Node::Ite(c, a, b) => { let (z, x, y) = (self.table(c), self.table(a), self.table(b)); for i in 0..256 { out[i] = if z[i] != 0 { x[i] } else { y[i] }; } }
            Node::Concat(a, b) => { let wb = self.w(b); let (x, y) = (self.table(a), self.table(b)); for i in 0..256 { out[i] = x[i] << wb | y[i]; } }
            Node::Extract(a, lo) => { let x = self.table(a); for i in 0..256 { out[i] = x[i] >> lo & mask(w); } }
            Node::Sext(a) => { let wa = self.w(a); let x = self.table(a); for i in 0..256 { out[i] = sx(x[i], wa) as u128 & mask(w); } }
            Node::Tab(_, id) => { let x = self.tables[id as usize].clone(); self.tabmemo[t as usize] = Some(x.clone()); return x; }
            Node::InSet(_, id) => { let s = self.bitsets[id as usize]; for i in 0..256 { out[i] = bs_has(&s, i as u8) as u128; } }
        }
        let r = Rc::new(out);
        self.tabmemo[t as usize] = Some(r.clone());
        r
    }
    pub fn bitset_of(&mut self, t: T) -> BitSet {
        if let Node::InSet(_, id) = self.nodes[t as usize] { return self.bitsets[id as usize]; }
        let x = self.table(t);
        let mut s = [0u64; 4];
        for i in 0..256 { if x[i] & 1 != 0 { s[i >> 6] |= 1 << (i & 63); } }
        s
    }
    fn is_tab(&self, t: T) -> bool { matches!(self.nodes[t as usize], Node::Tab(..) | Node::InSet(..)) }
    /// canonicalise single-variable booleans, and ops over Tab nodes
    fn fin(&mut self, n: Node, w: u32, tabby: bool) -> T {
        let t = self.mk(n, w);
        if w == 1 || tabby {
            if let Some(v) = self.single_var(t) {
                if matches!(self.nodes[t as usize], Node::Tab(..) | Node::InSet(..)) { return t; }
                let x = self.table(t);
                return self.mk_tab(v, *x, w);
            }
        }
        t
    }
    /// known-zero bits
    /// conservative unsigned bounds of a term
    pub fn range(&self, t: T) -> (u128, u128) { self.range_m(t, &mut HashMap::new()) }
    fn range_m(&self, t: T, memo: &mut HashMap<T, (u128, u128)>) -> (u128, u128) {
        if let Some(r) = memo.get(&t) { return *r; }
        let r = self.range_1(t, memo);
        memo.insert(t, r);
        r
    }
    fn range_1(&self, t: T, memo: &mut HashMap<T, (u128, u128)>) -> (u128, u128) {
        let m = mask(self.w(t));
        match &self.nodes[t as usize] {
            Node::Const(c) => (*c, *c),
            Node::Tab(_, i) => { let tb = &self.tables[*i as usize]; (*tb.iter().min().unwrap(), *tb.iter().max().unwrap()) }
            Node::Concat(h, l) => {
                let (a, b) = (self.range_m(*h, memo), self.range_m(*l, memo));
                let w = self.w(*l);
                (a.0 << w | b.0, a.1 << w | b.1)
            }
            Node::Extract(a, 0) => { let r = self.range_m(*a, memo); if r.1 <= m { r } else { (0, m) } }
            Node::Ite(_, a, b) => { let (x, y) = (self.range_m(*a, memo), self.range_m(*b, memo)); (x.0.min(y.0), x.1.max(y.1)) }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.range_m(*a, memo), self.range_m(*b, memo));
                match op {
                    Bop::Add => match (x.0.checked_add(y.0), x.1.checked_add(y.1)) { (Some(l), Some(h)) if h <= m => (l, h), _ => (0, m) },
                    Bop::Sub if x.0 >= y.1 => (x.0 - y.1, x.1 - y.0),
                    Bop::Mul => match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => (0, m) },
                    Bop::UDiv if y.0 == y.1 && y.0 > 0 => (x.0 / y.0, x.1 / y.0),
                    Bop::URem if y.0 == y.1 && y.0 > 0 => if x.1 < y.0 { x } else { (0, y.0 - 1) },
                    Bop::Shl if y.0 == y.1 && y.0 < 64 && x.1 < 1 << 63 && x.1 << y.0 <= m => (x.0 << y.0, x.1 << y.0),
                    Bop::LShr if y.0 == y.1 && y.0 < 128 => (x.0 >> y.0, x.1 >> y.0),
                    Bop::And => (0, x.1.min(y.1)),
                    Bop::Or | Bop::Xor => { let h = x.1 | y.1; (0, if h == 0 { 0 } else { mask(128 - h.leading_zeros()) & m }) }
                    _ => (0, m),
                }
            }
            _ => (0, m),
        }
    }
    pub fn kz(&mut self, t: T) -> u128 {
        if let Some(k) = self.kzmemo[t as usize] { return k; }
        let w = self.w(t);
        let n = self.nodes[t as usize].clone();
        let k = match n {
            Node::Const(c) => !c & mask(w),
            Node::Concat(a, b) => { let wb = self.w(b); let (x, y) = (self.kz(a), self.kz(b)); x << wb | y }
            Node::Bin(Bop::And, a, b) => self.kz(a) | self.kz(b),
            Node::Bin(Bop::Or, a, b) => self.kz(a) & self.kz(b),
            Node::Bin(Bop::Xor, a, b) => self.kz(a) & self.kz(b),
            Node::Ite(_, a, b) => self.kz(a) & self.kz(b),
            Node::Extract(a, lo) => self.kz(a) >> lo & mask(w),
            Node::Tab(..) => { let x = self.table(t); let o = x.iter().fold(0, |p, q| p | q); !o & mask(w) }
            _ => 0,
        };
        self.kzmemo[t as usize] = Some(k);
        k
    }
    /// segments from the least significant end: (width, term)
    fn segs(&self, mut t: T, out: &mut Vec<T>) {
        // Concat is right-nested: Concat(hi, lo) where hi is never a Concat
        let mut st = vec![];
        while let Node::Concat(a, b) = self.nodes[t as usize] { st.push(a); t = b; }
        out.push(t);
        while let Some(a) = st.pop() { out.push(a); }
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if let (Some(a), Some(b)) = (self.as_const(hi), self.as_const(lo)) { return self.konst(a << wl | b, wh + wl); }
        if let Node::Concat(a, b) = self.nodes[hi as usize] {
            let x = self.concat(b, lo);
            return self.concat(a, x);
        }
        // merge adjacent
        let (first, rest) = if let Node::Concat(a, b) = self.nodes[lo as usize] { (a, Some(b)) } else { (lo, None) };
        let merged = match (self.nodes[hi as usize].clone(), self.nodes[first as usize].clone()) {
            (Node::Const(a), Node::Const(b)) => { let wf = self.w(first); Some(self.konst(a << wf | b, wh + wf)) }
            (Node::Extract(x, l1), Node::Extract(y, l2)) if x == y && l2 + self.w(first) == l1 => { let ww = wh + self.w(first); Some(self.extract(x, l2, ww)) }
            _ => None,
        };
        if let Some(m) = merged {
            return match rest { Some(r) => self.concat(m, r), None => m };
        }
        let tabby = self.is_tab(hi) && (self.is_tab(lo) || self.as_const(lo).is_some()) || self.is_tab(lo) && self.as_const(hi).is_some();
        self.fin(Node::Concat(hi, lo), wh + wl, tabby)
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let wt = self.w(t);
        if wt == w { return t; }
        let z = self.konst(0, w - wt);
        self.concat(z, t)
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let wt = self.w(t);
        if wt == w { return t; }
        if let Some(c) = self.as_const(t) { return self.konst(sx(c, wt) as u128, w); }
        if self.kz(t) >> (wt - 1) & 1 == 1 { return self.zext(t, w); }
        let tabby = self.is_tab(t);
        self.fin(Node::Sext(t), w, tabby)
    }
    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let wt = self.w(t);
        debug_assert!(lo + w <= wt);
        if lo == 0 && w == wt { return t; }
        match self.nodes[t as usize].clone() {
            Node::Const(c) => self.konst(c >> lo, w),
            Node::Concat(a, b) => {
                let wb = self.w(b);
                if lo >= wb { self.extract(a, lo - wb, w) }
                else if lo + w <= wb { self.extract(b, lo, w) }
                else { let x = self.extract(a, 0, lo + w - wb); let y = self.extract(b, lo, wb - lo); self.concat(x, y) }
            }
            Node::Extract(a, l2) => self.extract(a, lo + l2, w),
            Node::Sext(a) => {
                let wa = self.w(a);
                if lo + w <= wa { return self.extract(a, lo, w); }
                if lo == 0 { return self.sext(a, w); }
                let tabby = self.is_tab(t);
                self.fin(Node::Extract(t, lo), w, tabby)
            }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), a, b) => {
                let x = self.extract(a, lo, w); let y = self.extract(b, lo, w);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, w); let y = self.extract(b, 0, w);
                self.bin(op, x, y)
            }
            Node::Ite(c, a, b) if self.as_const(a).is_some() || self.as_const(b).is_some() => {
                let x = self.extract(a, lo, w); let y = self.extract(b, lo, w);
                self.ite(c, x, y)
            }
            _ => { let tabby = self.is_tab(t); self.fin(Node::Extract(t, lo), w, tabby) }
        }
    }
    fn piecewise(&mut self, op: Bop, a: T, b: T) -> T {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa); self.segs(b, &mut sb);
        // cut points
        let mut cuts = vec![];
        let mut p = 0; for s in &sa { p += self.w(*s); cuts.push(p); }
        p = 0; for s in &sb { p += self.w(*s); cuts.push(p); }
        cuts.sort(); cuts.dedup();
        let mut lo = 0; let mut acc: Option<T> = None;
        for c in cuts {
            let x = self.extract(a, lo, c - lo); let y = self.extract(b, lo, c - lo);
            let z = self.bin_leaf(op, x, y);
            acc = Some(match acc { None => z, Some(r) => self.concat(z, r) });
            lo = c;
        }
        acc.unwrap()
    }
    fn is_concat(&self, t: T) -> bool { matches!(self.nodes[t as usize], Node::Concat(..)) }
    fn bin_leaf(&mut self, op: Bop, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst(binop(op, x, y, w), w); }
        let (a, b) = if self.as_const(a).is_some() && matches!(op, Bop::And | Bop::Or | Bop::Xor) { (b, a) } else { (a, b) };
        if let Some(c) = self.as_const(b) {
            match op {
                Bop::And => { if c == 0 { return b; } if c == mask(w) { return a; } }
                Bop::Or => { if c == 0 { return a; } if c == mask(w) { return b; } }
                Bop::Xor => { if c == 0 { return a; } if w == 1 { return self.not(a); } }
                _ => {}
            }
        }
        if a == b { match op { Bop::And | Bop::Or => return a, Bop::Xor => return self.konst(0, w), _ => {} } }
        if w == 1 {
            // complement
            let na = self.not(a);
            if na == b { return match op { Bop::And => self.fls(), Bop::Or | Bop::Xor => self.tru(), _ => unreachable!() }; }
        }
        let (a, b) = if a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        let tabby = (self.is_tab(a) || self.as_const(a).is_some()) && (self.is_tab(b) || self.as_const(b).is_some()) || (self.is_tab(a) || self.is_tab(b));
        self.fin(Node::Bin(op, a, b), w, tabby)
    }
    pub fn bin(&mut self, op: Bop, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst(binop(op, x, y, w), w); }
        match op {
            Bop::And | Bop::Or | Bop::Xor => {
                if a == b { return if op == Bop::Xor { self.konst(0, w) } else { a }; }
                // constant mask on non-concat: split at mask runs for And
                if w > 1 && (self.is_concat(a) || self.is_concat(b)) { return self.piecewise(op, a, b); }
                if op == Bop::And && w > 1 {
                    let (x, c) = if let Some(c) = self.as_const(a) { (b, Some(c)) } else { (a, self.as_const(b)) };
                    if let Some(c) = c {
                        let c = c & mask(w);
                        if c == 0 { return self.konst(0, w); }
                        if c == mask(w) { return x; }
                        // contiguous run mask -> extract+pad
                        let lo = c.trailing_zeros(); let run = (c >> lo).trailing_ones();
                        if c == mask(run) << lo {
                            let e = self.extract(x, lo, run);
                            let e = if lo > 0 { let z = self.konst(0, lo); self.concat(e, z) } else { e };
                            return self.zext(e, w);
                        }
                    }
                }
                self.bin_leaf(op, a, b)
            }
            Bop::Shl | Bop::LShr | Bop::AShr if self.as_const(b).is_some() => {
                let s = self.as_const(b).unwrap();
                if s == 0 { return a; }
                if op == Bop::AShr {
                    let s = s.min((w - 1) as u128) as u32;
                    if s == 0 { return a; }
                    let e = self.extract(a, s, w - s);
                    return self.sext(e, w);
                }
                if s >= w as u128 { return self.konst(0, w); }
                let s = s as u32;
                if op == Bop::Shl { let e = self.extract(a, 0, w - s); let z = self.konst(0, s); self.concat(e, z) }
                else { let e = self.extract(a, s, w - s); self.zext(e, w) }
            }
            _ => {
                let (a, b) = if self.as_const(a).is_some() && matches!(op, Bop::Add | Bop::Mul) { (b, a) } else { (a, b) };
                if let Some(c) = self.as_const(b) {
                    match op {
                        Bop::Add | Bop::Sub if c == 0 => return a,
                        Bop::Mul if c == 0 => return b,
                        Bop::Mul | Bop::UDiv if c == 1 => return a,
                        Bop::Mul if c.is_power_of_two() => { let k = self.konst(c.trailing_zeros() as u128, w); return self.bin(Bop::Shl, a, k); }
                        Bop::UDiv if c.is_power_of_two() => { let k = self.konst(c.trailing_zeros() as u128, w); return self.bin(Bop::LShr, a, k); }
                        Bop::URem if c.is_power_of_two() => { let k = self.konst(c - 1, w); return self.bin(Bop::And, a, k); }
                        Bop::Sub => { let k = self.konst(0u128.wrapping_sub(c), w); return self.bin(Bop::Add, a, k); }
                        Bop::Add => {
                            if let Node::Bin(Bop::Add, x, y) = self.nodes[a as usize] {
                                if let Some(c2) = self.as_const(y) { let k = self.konst(c.wrapping_add(c2), w); return self.bin(Bop::Add, x, k); }
                            }
                        }
                        _ => {}
                    }
                }
                if w == 1 {
                    match op { Bop::Add | Bop::Sub => return self.bin(Bop::Xor, a, b), Bop::Mul => return self.bin(Bop::And, a, b), _ => {} }
                }
                if op == Bop::Sub && a == b { return self.konst(0, w); }
                if op == Bop::Add {
                    let (ka, kb) = (self.kz(a), self.kz(b));
                    if (ka | kb) & mask(w) == mask(w) { return self.bin(Bop::Or, a, b); }
                }
                let tabby = (self.is_tab(a) || self.is_tab(b)) && true;
                self.fin(Node::Bin(op, a, b), w, tabby)
            }
        }
    }
    pub fn not(&mut self, a: T) -> T {
        debug_assert_eq!(self.w(a), 1);
        match self.nodes[a as usize].clone() {
            Node::Const(c) => self.konst(1 - c, 1),
            Node::Not(x) => x,
            Node::InSet(v, s) => { let b = bs_not(&self.bitsets[s as usize]); self.mk_inset(v, b) }
            Node::Cmp(Cop::Ult, x, y) => self.cmp(Cop::Ule, y, x),
            Node::Cmp(Cop::Ule, x, y) => self.cmp(Cop::Ult, y, x),
            Node::Cmp(Cop::Slt, x, y) => self.cmp(Cop::Sle, y, x),
            Node::Cmp(Cop::Sle, x, y) => self.cmp(Cop::Slt, y, x),
            _ => self.mk(Node::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T { self.bin(Bop::And, a, b) }
    pub fn or(&mut self, a: T, b: T) -> T { self.bin(Bop::Or, a, b) }
    pub fn eq(&mut self, a: T, b: T) -> T { self.cmp(Cop::Eq, a, b) }
    pub fn cmp(&mut self, op: Cop, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.konst(cmpop(op, x, y, w) as u128, 1); }
        if a == b { return self.konst(matches!(op, Cop::Eq | Cop::Ule | Cop::Sle) as u128, 1); }
        if w == 1 {
            return match op {
                Cop::Eq => { let x = self.bin(Bop::Xor, a, b); self.not(x) }
                Cop::Ult => { let n = self.not(a); self.and(n, b) }
                Cop::Ule => { let n = self.not(a); self.or(n, b) }
                Cop::Slt => { let n = self.not(b); self.and(a, n) }
                Cop::Sle => { let n = self.not(b); self.or(a, n) }
            };
        }
        if let Some(_) = { let u = self.union(self.supp[a as usize], self.supp[b as usize]); let s = &self.sets[u as usize]; if s.len() == 1 { Some(()) } else { None } } {
            return self.fin(Node::Cmp(op, a, b), 1, true);
        }
        match op {
            Cop::Eq => {
                let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
                if self.is_concat(a) || self.is_concat(b) {
                    let (mut sa, mut sb) = (vec![], vec![]);
                    self.segs(a, &mut sa); self.segs(b, &mut sb);
                    let mut cuts = vec![]; let mut p = 0;
                    let bc = self.as_const(b).is_some();
                    for s in &sa { p += self.w(*s); cuts.push(p); }
                    if !bc { p = 0; for s in &sb { p += self.w(*s); cuts.push(p); } }
                    cuts.sort(); cuts.dedup();
                    if cuts.len() > 1 {
                        let mut lo = 0; let mut acc = self.tru();
                        for c in cuts {
                            let x = self.extract(a, lo, c - lo); let y = self.extract(b, lo, c - lo);
                            let e = self.cmp(Cop::Eq, x, y);
                            acc = self.and(acc, e);
                            if self.as_const(acc) == Some(0) { return acc; }
                            lo = c;
                        }
                        return acc;
                    }
                }
                if let Some(k) = self.as_const(b) {
                    match self.nodes[a as usize].clone() {
                        Node::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                            let p = self.cmp(Cop::Eq, x, b); let q = self.cmp(Cop::Eq, y, b);
                            return self.ite(c, p, q);
                        }
                        Node::Bin(Bop::Add, x, y) => if let Some(c2) = self.as_const(y) {
                            let kk = self.konst(k.wrapping_sub(c2), w);
                            return self.cmp(Cop::Eq, x, kk);
                        },
                        Node::Bin(Bop::Xor, x, y) => {
                            if let Some(c2) = self.as_const(y) { let kk = self.konst(k ^ c2, w); return self.cmp(Cop::Eq, x, kk); }
                            if k == 0 { return self.cmp(Cop::Eq, x, y); }
                        }
                        Node::Bin(Bop::Sub, x, y) if k == 0 => return self.cmp(Cop::Eq, x, y),
                        Node::Bin(Bop::Or, x, y) if k == 0 => { let p = self.cmp(Cop::Eq, x, b); let q = self.cmp(Cop::Eq, y, b); return self.and(p, q); }
                        Node::Sext(x) => {
                            let wx = self.w(x);
                            let t = self.konst(k, wx);
                            if sx(k & mask(wx), wx) as u128 & mask(w) != k { return self.fls(); }
                            return self.cmp(Cop::Eq, x, t);
                        }
                        _ => {}
                    }
                    if self.kz(a) & k != 0 { return self.fls(); }
                }
                let (a, b) = if a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
                self.fin(Node::Cmp(Cop::Eq, a, b), 1, false)
            }
            Cop::Slt | Cop::Sle => {
                let m = 1u128 << (w - 1);
                if self.kz(a) & self.kz(b) & m != 0 {
                    return self.cmp(if op == Cop::Slt { Cop::Ult } else { Cop::Ule }, a, b);
                }
                // sign tests
                if op == Cop::Slt && self.as_const(b) == Some(0) { return self.extract(a, w - 1, 1); }
                if op == Cop::Sle && self.as_const(a) == Some(0) { let e = self.extract(b, w - 1, 1); return self.not(e); }
                if op == Cop::Slt && self.as_const(a) == Some(mask(w)) { let e = self.extract(b, w - 1, 1); return self.not(e); }
                if op == Cop::Sle && self.as_const(b) == Some(mask(w)) { return self.extract(a, w - 1, 1); }
                self.push_ite_cmp(op, a, b)
            }
            Cop::Ult | Cop::Ule => {
                if op == Cop::Ule {
                    // normalise to Ult with constants
                    if let Some(c) = self.as_const(b) { if c == mask(w) { return self.tru(); } let k = self.konst(c + 1, w); return self.cmp(Cop::Ult, a, k); }
                    if let Some(c) = self.as_const(a) { if c == 0 { return self.tru(); } let k = self.konst(c - 1, w); return self.cmp(Cop::Ult, k, b); }
                }
                if let Some(c) = self.as_const(b) {
                    if c == 0 { return self.fls(); }
                    if c == 1 { let z = self.konst(0, w); return self.cmp(Cop::Eq, a, z); }
                    let mx = !self.kz(a) & mask(w);
                    if mx < c { return self.tru(); }
                    if c.is_power_of_two() {
                        let lo = c.trailing_zeros();
                        let e = self.extract(a, lo, w - lo); let z = self.konst(0, w - lo);
                        return self.cmp(Cop::Eq, e, z);
                    }
                }
                if let Some(c) = self.as_const(a) {
                    if c == mask(w) { return self.fls(); }
                    if c == 0 { let z = self.konst(0, w); let e = self.cmp(Cop::Eq, b, z); return self.not(e); }
                    let mx = !self.kz(b) & mask(w);
                    if mx <= c { return self.fls(); }
                }
                // strip common leading zeros
                let (mxa, mxb) = (!self.kz(a) & mask(w), !self.kz(b) & mask(w));
                let nw = 128 - (mxa | mxb).leading_zeros();
                if nw < w && nw > 0 {
                    let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw);
                    return self.cmp(op, x, y);
                }
                self.push_ite_cmp(op, a, b)
            }
        }
    }
    fn push_ite_cmp(&mut self, op: Cop, a: T, b: T) -> T {
        if let (Node::Ite(c, x, y), Some(_)) = (self.nodes[a as usize].clone(), self.as_const(b)) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let p = self.cmp(op, x, b); let q = self.cmp(op, y, b);
                return self.ite(c, p, q);
            }
        }
        if let (Some(_), Node::Ite(c, x, y)) = (self.as_const(a), self.nodes[b as usize].clone()) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let p = self.cmp(op, a, x); let q = self.cmp(op, a, y);
                return self.ite(c, p, q);
            }
        }
        self.fin(Node::Cmp(op, a, b), 1, false)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Node::Not(x) = self.nodes[c as usize] { return self.ite(x, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        let tabby = self.is_tab(c) && (self.is_tab(a) || self.as_const(a).is_some()) && (self.is_tab(b) || self.as_const(b).is_some());
        self.fin(Node::Ite(c, a, b), w, tabby)
    }
    pub fn eval(&self, t: T, model: &[u8], memo: &mut HashMap<T, u128>) -> u128 {
        match &self.nodes[t as usize] {
            Node::Const(c) => return *c,
            Node::Var(v) => return model.get(*v as usize).cloned().unwrap_or(0) as u128,
            Node::Tab(v, id) => return self.tables[*id as usize][model.get(*v as usize).cloned().unwrap_or(0) as usize],
            Node::InSet(v, id) => return bs_has(&self.bitsets[*id as usize], model.get(*v as usize).cloned().unwrap_or(0)) as u128,
            _ => {}
        }
        if let Some(&r) = memo.get(&t) { return r; }
        let w = self.w(t);
        let r = match &self.nodes[t as usize] {
            Node::Not(a) => 1 - self.eval(*a, model, memo),
            Node::Bin(op, a, b) => { let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo)); binop(*op, x, y, w) }
            Node::Cmp(op, a, b) => { let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo)); cmpop(*op, x, y, self.w(*a)) as u128 }
            Node::Ite(c, a, b) => if self.eval(*c, model, memo) != 0 { self.eval(*a, model, memo) } else { self.eval(*b, model, memo) },
            Node::Concat(a, b) => { let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo)); x << self.w(*b) | y }
            Node::Extract(a, lo) => self.eval(*a, model, memo) >> lo & mask(w),
            Node::Sext(a) => sx(self.eval(*a, model, memo), self.w(*a)) as u128 & mask(w),
            _ => unreachable!(),
        };
        memo.insert(t, r);
        r
    }
    pub fn eval0(&self, t: T, model: &[u8]) -> u128 { let mut m = HashMap::new(); self.eval(t, model, &mut m) }
}
