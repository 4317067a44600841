//! Byte memory: copy-on-write pages with per-byte validity and optional symbolic bytes.
use crate::term::T;
use std::rc::Rc;

pub const PS: usize = 512;
pub const STACK_BASE: u64 = 0x6000_0000_0000;
pub const HEAP_BASE: u64 = 0x5000_0000_0000;

#[derive(Clone)]
pub struct Page { pub data: [u8; PS], pub valid: [u64; PS / 64], pub sym: Option<Box<[T; PS]>> }
impl Page { fn new() -> Page { Page { data: [0; PS], valid: [0; PS / 64], sym: None } } }

#[derive(Clone)]
pub struct Region { pub base: u64, pub pages: Rc<Vec<Option<Rc<Page>>>> }
impl Region {
    fn new(base: u64) -> Region { Region { base, pages: Rc::new(vec![]) } }
    #[inline]
    fn page(&self, off: u64) -> Option<&Page> { self.pages.get((off / PS as u64) as usize).and_then(|p| p.as_deref()) }
    #[inline]
    fn page_mut(&mut self, off: u64) -> &mut Page {
        let i = (off / PS as u64) as usize;
        let v = Rc::make_mut(&mut self.pages);
        if v.len() <= i { v.resize(i + 1, None); }
        Rc::make_mut(v[i].get_or_insert_with(|| Rc::new(Page::new())))
    }
}

#[derive(Clone)]
pub struct Mem { pub glob: Region, pub stack: Region, pub heap: Region }

#[derive(Clone, Copy)]
pub enum B { C(u8), S(T) }

impl Mem {
    pub fn new() -> Mem { Mem { glob: Region::new(crate::ll::GLOBAL_BASE), stack: Region::new(STACK_BASE), heap: Region::new(HEAP_BASE) } }
    #[inline]
    fn region(&self, a: u64) -> Option<(&Region, u64)> {
        if a >= STACK_BASE { Some((&self.stack, a - STACK_BASE)) }
        else if a >= HEAP_BASE { Some((&self.heap, a - HEAP_BASE)) }
        else if a >= crate::ll::GLOBAL_BASE { Some((&self.glob, a - crate::ll::GLOBAL_BASE)) }
        else { None }
    }
    #[inline]
    fn region_mut(&mut self, a: u64) -> Option<(&mut Region, u64)> {
        if a >= STACK_BASE { Some((&mut self.stack, a - STACK_BASE)) }
        else if a >= HEAP_BASE { Some((&mut self.heap, a - HEAP_BASE)) }
        else if a >= crate::ll::GLOBAL_BASE { Some((&mut self.glob, a - crate::ll::GLOBAL_BASE)) }
        else { None }
    }
    /// concrete little-endian read of n<=16 bytes; None if invalid or symbolic
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Option<u128> {
        let (r, off) = self.region(a)?;
        let po = (off % PS as u64) as usize;
        if po + n > PS { return None; }
        let p = r.page(off)?;
        let mut v = 0u128;
        for i in 0..n { if p.valid[(po + i) >> 6] >> ((po + i) & 63) & 1 == 0 { return None; } }
        if let Some(s) = &p.sym { for i in 0..n { if s[po + i] != 0 { return None; } } }
        for i in (0..n).rev() { v = v << 8 | p.data[po + i] as u128; }
        Some(v)
    }
    pub fn read_b(&self, a: u64) -> Option<B> {
        let (r, off) = self.region(a)?;
        let po = (off % PS as u64) as usize;
        let p = r.page(off)?;
        if p.valid[po >> 6] >> (po & 63) & 1 == 0 { return None; }
        if let Some(s) = &p.sym { if s[po] != 0 { return Some(B::S(s[po])); } }
        Some(B::C(p.data[po]))
    }
    pub fn valid(&self, a: u64, n: u64) -> bool {
        let mut i = 0;
        while i < n {
            let Some((r, off)) = self.region(a.wrapping_add(i)) else { return false };
            let po = (off % PS as u64) as usize;
            let Some(p) = r.page(off) else { return false };
            let k = (PS - po).min((n - i) as usize);
            for j in po..po + k { if p.valid[j >> 6] >> (j & 63) & 1 == 0 { return false; } }
            i += k as u64;
        }
        true
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: usize, v: u128) -> bool {
        let Some((r, off)) = self.region_mut(a) else { return false };
        let po = (off % PS as u64) as usize;
        if po + n > PS {
            for i in 0..n { if !self.write_b(a + i as u64, B::C((v >> (8 * i)) as u8)) { return false; } }
            return true;
        }
        if r.page(off).is_none() { return false; }
        let p = r.page_mut(off);
        for i in 0..n { if p.valid[(po + i) >> 6] >> ((po + i) & 63) & 1 == 0 { return false; } }
        for i in 0..n { p.data[po + i] = (v >> (8 * i)) as u8; }
        if let Some(s) = &mut p.sym { for i in 0..n { s[po + i] = 0; } }
        true
    }
    pub fn write_b(&mut self, a: u64, b: B) -> bool {
        let Some((r, off)) = self.region_mut(a) else { return false };
        let po = (off % PS as u64) as usize;
        if r.page(off).is_none() { return false; }
        let p = r.page_mut(off);
        if p.valid[po >> 6] >> (po & 63) & 1 == 0 { return false; }
        match b {
            B::C(c) => { p.data[po] = c; if let Some(s) = &mut p.sym { s[po] = 0; } }
            B::S(t) => { p.sym.get_or_insert_with(|| Box::new([0; PS]))[po] = t; p.data[po] = 0; }
        }
        true
    }
    /// mark [a, a+n) valid (zeroed, concrete) or invalid
    pub fn set_valid(&mut self, a: u64, n: u64, on: bool) {
        let mut i = 0;
        while i < n {
            let (r, off) = self.region_mut(a + i).unwrap();
            let po = (off % PS as u64) as usize;
            let k = (PS - po).min((n - i) as usize);
            let p = r.page_mut(off);
            if po == 0 && k == PS {
                p.valid = [if on { !0 } else { 0 }; PS / 64]; p.data = [0; PS]; p.sym = None;
            } else {
                for j in po..po + k {
                    if on { p.valid[j >> 6] |= 1 << (j & 63); } else { p.valid[j >> 6] &= !(1 << (j & 63)); }
                    p.data[j] = 0;
                }
                if let Some(s) = &mut p.sym { for j in po..po + k { s[j] = 0; } }
            }
            i += k as u64;
        }
    }
}
