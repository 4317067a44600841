//! Symbolic primitives and shared helpers for the harnesses.
//! Under the symbolic engine the `__sym_*` functions are interpreted; in the native
//! binary they replay a recorded input.
pub mod sym {
    extern "C" {
        fn __sym_bytes(p: *mut u8, n: usize);
        fn __sym_assume(c: bool);
        fn __sym_check(c: bool, m: *const u8, n: usize);
        fn __sym_reach(m: *const u8, n: usize);
        fn __sym_concrete(v: u64) -> u64;
    }
    pub fn fill(b: &mut [u8]) { unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; fill(&mut b); b }
    pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; fill(&mut b); b }
    pub fn u8() -> u8 { bytes::<1>()[0] }
    pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
    pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
    pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
    pub fn bool() -> bool { let b = u8(); assume(b <= 1); b == 1 }
    /// a value below n (n concrete)
    pub fn below(n: u8) -> u8 { let b = u8(); assume(b < n); b }
    /// a value below n, one path per value
    pub fn choose(n: u8) -> usize { let b = below(n); concrete(b as u64) as usize }
    pub fn concrete(v: u64) -> u64 { unsafe { __sym_concrete(v) } }
    #[inline(always)]
    pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
    #[inline(always)]
    pub fn check(c: bool, m: &str) { unsafe { __sym_check(c, m.as_ptr(), m.len()) } }
    #[inline(always)]
    pub fn fail(m: &str) -> ! { check(false, m); std::process::abort() }
    #[inline(always)]
    pub fn reach(m: &str) { unsafe { __sym_reach(m.as_ptr(), m.len()) } }
}
// Stand-ins for the standard library's text of a symbolic number (engine option --text): its sign and magnitude
// in 18 characters (floating-point numbers: their bits, all NaNs alike) and the formatting options; equal exactly
// for equal numbers, as the real text is.
fn hex18(tag: u8, kind: u8, v: u64) -> [u8; 18] {
    let mut b = [0u8; 18];
    b[0] = tag;
    b[1] = b'0' + kind;
    for i in 0..16 { let d = (v >> (60 - 4 * i)) as u8 & 15; b[2 + i] = b'0' + d + 39 * (d > 9) as u8; }
    b
}
/// Display and the other traits; flags: trait | signed << 4 | float << 5 | width << 8
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_text(f: &mut std::fmt::Formatter, v: u64, flags: u64) -> bool {
    let (w, k) = (flags >> 8, (flags & 15) as u8);
    let b = if flags & 32 != 0 {
        let (inf, m) = if w == 32 { (0x7f80_0000u64, 0x7fff_ffffu64) } else { (0x7ff0_0000_0000_0000, !0 >> 1) };
        let nan = 0u64.wrapping_sub(((v & m) > inf) as u64);
        hex18(if w == 32 { b'f' } else { b'd' }, k, (v & !nan) | (nan & (inf | 1)))
    } else if flags & 16 != 0 && k == 0 {
        let neg = v >> 63;
        if neg == 1 && f.write_str("-").is_err() { return true; }
        hex18(b'+', k, (v ^ 0u64.wrapping_sub(neg)).wrapping_add(neg))
    } else { hex18(b'+', k, if flags & 16 != 0 && w < 64 { v & ((1 << w) - 1) } else { v }) };
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let o = (f.width(), f.precision(), f.sign_plus(), f.sign_aware_zero_pad(), f.alternate());
    if f.write_str(s).is_err() { return true; }
    let mut num = |c: &str, n: usize| { let d = [b'0' + (n / 10 % 10) as u8, b'0' + (n % 10) as u8]; f.write_str(c).is_err() || f.write_str(unsafe { std::str::from_utf8_unchecked(&d) }).is_err() };
    if let Some(n) = o.0 { if num("w", n) { return true; } }
    if let Some(n) = o.1 { if num("p", n) { return true; } }
    if o.2 { if num("s", 0) { return true; } }
    if o.3 { if num("z", 0) { return true; } }
    if o.4 { if num("a", 0) { return true; } }
    false
}
/// to_string
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_string(out: *mut String, v: u64, flags: u64) {
    struct T(u64, u64);
    impl std::fmt::Display for T { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { if symx_text(f, self.0, self.1) { Err(std::fmt::Error) } else { Ok(()) } } }
    unsafe { out.write(format!("{}", T(v, flags))) }
}
#[repr(C)]
pub struct Text { p: *const u8, n: usize }
/// the decimal digits of an unsigned number
#[no_mangle]
#[inline(never)]
pub extern "C" fn symx_digits(v: u64) -> Text { Text { p: Box::leak(Box::new(hex18(b'+', 0, v))).as_ptr(), n: 18 } }
pub mod gen;
pub mod model;
pub mod run;
pub mod sizes;
pub mod ulog;

/// Declares harness entry points `extern "C" fn NAME(case: u64)` and a native dispatcher.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident),* $(,)?) => {
        fn main() {
            std::hint::black_box((harness::symx_text as *const (), harness::symx_string as *const (), harness::symx_digits as *const ()));
            let a: Vec<String> = std::env::args().collect();
            let name = a.get(1).map(|s| s.as_str()).unwrap_or("");
            let case: u64 = a.get(2).map(|s| s.parse().unwrap()).unwrap_or(0);
            match name {
                $( stringify!($name) => { let f: extern "C" fn(u64) = std::hint::black_box($name); f(case) } )*
                _ => { eprintln!("unknown harness {name}"); std::process::exit(99); }
            }
        }
    };
}
