//! Sizes and contents for the entries that go through all sizes.
use crate::{gen::ascii, model::*, sym};

/// the `part`-th of `parts` interleaved blocks of the sizes up to `max`
pub fn sizes(max: usize, part: usize, parts: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=260).collect();
    v.extend([300, 301, 400, 500, 600, 700, 750, 999, 1000, 1001, 1500, 3000, 10000, 20000, 50000]);
    for k in 8..16 { for d in [0usize, 1, 2] { v.push((1 << k) - 1 + d) } }
    v.push(max);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, x)| x).collect()
}
/// one of these sizes: a path for each
pub fn pick(max: usize, part: usize, parts: usize) -> Option<usize> { let l = sizes(max, part, parts); let i = sym::choose(l.len() as u8); Some(l[i]) }
/// n bytes of text, the first, middle and last of them symbolic
pub fn text(n: usize) -> Vec<u8> {
    let mut t: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz0123456789_ -.,;:/"[(i * 5 + i / 44) % 44]).collect();
    if n > 0 { for i in [0, n / 2, n - 1] { t[i] = ascii(1)[0]; } }
    t
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut t: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    if n > 0 { for i in [0, n / 2, n - 1] { t[i] = sym::u8(); } }
    t
}
/// an array of n elements, the first, middle and last of them symbolic
pub fn arr(t: Ty, n: usize) -> V {
    let w = t.size();
    let mut b: Vec<u8> = (0..n * w).map(|i| if t == Ty::Bool { (i % 3 == 0) as u8 } else { (i * 7 + i / 256) as u8 }).collect();
    if n > 0 { for i in [0, n / 2, n - 1] { let r = raw(t, 1); b[i * w..(i + 1) * w].copy_from_slice(&r); } }
    V::A(t, n, b)
}
pub fn ident(n: usize) -> String { (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[if i == 0 { n % 53 } else { (i * 5 + i / 63 + n) % 63 }] as char).collect() }
/// an identifier of n symbolic characters: lower case, with a digit, an underscore or a capital at any one place, with one to three
/// digits at the end or before "_" and a last letter, or upper case with an underscore at any one place
pub fn word(n: usize) -> String {
    let mut c = vec![b'a'; n];
    let k = sym::choose((4 * n + 7) as u8);
    match k {
        0 => {}
        _ if k <= n => c[k - 1] = if k == 1 { b'_' } else { b'0' },
        _ if k <= 2 * n => c[k - n - 1] = b'_',
        _ if k <= 3 * n => c[k - 2 * n - 1] = b'A',
        _ if k <= 4 * n => { c = vec![b'A'; n]; c[k - 3 * n - 1] = b'_' }
        _ if k <= 4 * n + 3 => { let d = k - 4 * n; if d < n { for i in n - d..n { c[i] = b'0' } } else { c[0] = b'A' } }
        _ => { let d = k - 4 * n - 3; if d + 2 < n { for i in n - 2 - d..n - 2 { c[i] = b'0' } c[n - 2] = b'_'; } else { c = vec![b'_'; n] } }
    }
    for b in c.iter_mut() {
        if *b == b'_' { continue }
        let (l, h) = match *b { b'a' => (b'a', b'z'), b'A' => (b'A', b'Z'), _ => (b'0', b'9') };
        *b = sym::u8();
        sym::assume((*b >= l) & (*b <= h));
    }
    String::from_utf8(c).unwrap()
}
