//! C20, C21, C22: byte cursors, text forms, character arrays.
use harness::{gen::ascii, harnesses, model::*, sym};
use std::io::{ErrorKind, Read};
use yule_log::datastream::DataStream;
use yule_log::errors::ULogError;
use yule_log::message_buf::MessageBuf;
use yule_log::model::{def, inst, msg, CChar, CCharSlice, Shared};

// ---------------------------------------------------------------- C20 message buffer
fn amount() -> usize { [0usize, 1, 2, 3, 8, 9, 16, 17, 1 << 31, 1 << 63, usize::MAX - 1, usize::MAX][sym::choose(12)] }
#[inline(never)]
fn buf_op(m: &mut MessageBuf, d: &[u8], pos: &mut usize, k: usize) {
    let rest = &d[*pos..];
    macro_rules! num { ($f:ident, $n:expr, $e:expr) => { match m.$f() {
        Ok(x) => { if rest.len() < $n { sym::fail("value made up") } let g: fn(&[u8]) -> _ = $e; sym::check(g(rest) == x, "value"); *pos += $n; }
        Err(ULogError::ParseError(_)) => sym::check(rest.len() < $n, "error although the bytes are there"),
        Err(_) => sym::fail("kind of the error"),
    } } }
    match k {
        0 => num!(take_u8, 1, |b| b[0]),
        1 => num!(take_i8, 1, |b| b[0] as i8),
        2 => num!(take_u16, 2, le16),
        3 => num!(take_i16, 2, |b| le16(b) as i16),
        4 => num!(take_u32, 4, le32),
        5 => num!(take_i32, 4, |b| le32(b) as i32),
        6 => num!(take_u64, 8, le64),
        7 => num!(take_i64, 8, |b| le64(b) as i64),
        8 => match m.take_f32() { Ok(x) => { if rest.len() < 4 { sym::fail("value made up") } sym::check(x.to_bits() == le32(rest), "value"); *pos += 4 } Err(_) => sym::check(rest.len() < 4, "error although the bytes are there") },
        9 => match m.take_f64() { Ok(x) => { if rest.len() < 8 { sym::fail("value made up") } sym::check(x.to_bits() == le64(rest), "value"); *pos += 8 } Err(_) => sym::check(rest.len() < 8, "error although the bytes are there") },
        10 => num!(take_bool, 1, |b| b[0] != 0),
        11 => {
            let n = amount();
            match m.advance(n) {
                Ok(b) => { if n > rest.len() { sym::fail("advanced past the end") } sym::check(same(b, &rest[..n]), "bytes"); *pos += n }
                Err(_) => sym::check(n > rest.len(), "error although the bytes are there"),
            }
        }
        _ => {
            let n = amount();
            match m.skip(n) {
                Ok(()) => { if n > rest.len() { sym::fail("skipped past the end") } *pos += n }
                Err(_) => sym::check(n > rest.len(), "error although the bytes are there"),
            }
        }
    }
    sym::check(m.len() == d.len() - *pos, "length");
    sym::check(m.is_empty() == (d.len() == *pos), "is_empty");
}
const LENS: [usize; 10] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16];
#[inline(never)]
fn buf_run(first: usize, more: usize, len: usize, whole: bool) {
    let d = sym::vec(len);
    let mut m = if whole { MessageBuf::from_vec(d.clone()) } else { MessageBuf::new(d.clone()) };
    let mut pos = 0;
    sym::check(m.len() == d.len(), "length");
    buf_op(&mut m, &d, &mut pos, first);
    for _ in 0..more { let k = sym::choose(13); buf_op(&mut m, &d, &mut pos, k); }
    sym::check(same(&m.into_remaining_bytes(), &d[pos..]), "remaining bytes");
    sym::reach("end");
}
/// first operation `case`, one more of any kind, on buffers of 10 lengths
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_buf(case: u64) { let w = sym::choose(2); buf_run(case as usize, 1, LENS[sym::choose(10)], w == 0) }
/// the first two operations given, two more of any kind (thorough): case = first + 13 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_buf4(case: u64) { buf_run(case as usize % 13, 2, LENS[case as usize / 13], true) }
/// amounts that are any 64-bit number
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_amount(case: u64) {
    let d = sym::vec(LENS[case as usize % 10]);
    let n = sym::u64() as usize;
    let (mut a, mut b) = (MessageBuf::new(d.clone()), MessageBuf::new(d.clone()));
    if case < 10 { let _ = (a.take_u8(), b.take_u8()); }
    let left = if case < 10 && !d.is_empty() { d.len() - 1 } else { d.len() };
    // (the error text holds the amount: one path per number of digits)
    let ok = n <= left;
    sym::check(a.advance(n).is_ok() == ok, "advance");
    sym::check(b.skip(n).is_ok() == ok, "skip");
    let rest = if ok { left - n } else { left };
    sym::check((a.len() == rest) & (b.len() == rest), "length");
    sym::reach("end");
}
/// large amounts on long buffers and streams: case = operation + 4 * piece size
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_far(case: u64) {
    let ns = [20usize, 31, 32, 33, 63, 64, 65, 66, 67, 100, 127, 128, 129, 130, 255, 256, 257, 500, 511, 512, 513, 514, 515, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4095, 4096, 4097, 4998, 4999, 5000, 5001, 9000, 70000];
    let x = sym::bytes::<4>();
    for n in ns {
        let mut d: Vec<u8> = (0..5000usize).map(|i| (i * 7 + i / 256) as u8 & 127).collect();
        for j in 0..4 { if n + j < 5000 { d[n + j] = x[j]; } }
        let k = (case / 4) as usize;
        if case % 4 == 3 {
            for skip in [false, true] {
                let mut m = MessageBuf::new(d.clone());
                let ok = if skip { m.skip(n).is_ok() } else { match m.advance(n) { Ok(b) => { sym::check(same(b, &d[..n]), "bytes"); true } Err(_) => false } };
                sym::check(ok == (n <= 5000), "result");
                sym::check(m.len() == if ok { 5000 - n } else { 5000 }, "length");
                if n + 4 <= 5000 { match m.take_u32() { Ok(v) => sym::check(v == u32::from_le_bytes(x), "value after it"), Err(_) => sym::fail("error although the bytes are there") } }
            }
            continue;
        }
        let mut m = DataStream::new(Short(&d, [1usize, 7, 64, 100, 1024, 100000][k], k == 2, false));
        match case % 4 {
            0 => match m.skip(n) { Ok(c) => sym::check(c == n.min(5000), "bytes skipped"), Err(_) => sym::fail("error although nothing failed") },
            1 => { let mut b = vec![0u8; n]; match m.read_exact(&mut b) { Ok(c) => if n <= 5000 { sym::check(c == n && same(&b, &d[..n]), "bytes") } else { sym::check(c == 0, "end of file not signalled"); continue }, Err(_) => sym::fail("error although nothing failed") } }
            _ => { if n > 5000 { continue } match m.read_string(n) { Ok(s) => sym::check(same(s.as_bytes(), &d[..n]), "text"), Err(_) => sym::fail("error although nothing failed") } }
        }
        if n + 4 <= 5000 { match m.read_u32() { Ok(v) => sym::check(v == u32::from_le_bytes(x), "value after it"), Err(_) => sym::fail("error although the bytes are there") } }
    }
    sym::reach("end");
}
struct Short<'a>(&'a [u8], usize, bool, bool);
impl Read for Short<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        // (the last flag: every second call is interrupted)
        if self.2 { self.3 = !self.3; if self.3 { return Err(std::io::Error::from(ErrorKind::Interrupted)); } }
        let n = b.len().min(self.0.len()).min(self.1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
#[inline(never)]
fn stream_op(m: &mut DataStream<Short>, d: &[u8], pos: &mut usize, k: usize) -> bool {
    let rest = &d[*pos..];
    macro_rules! num { ($f:ident, $n:expr, $e:expr) => {{
        if rest.len() < $n { return false; }
        match m.$f() { Ok(x) => { let g: fn(&[u8]) -> _ = $e; sym::check(g(rest) == x, "value"); *pos += $n; } Err(_) => sym::fail("error although the bytes are there") }
    }} }
    match k {
        0 => num!(read_u8, 1, |b| b[0]),
        1 => num!(read_i8, 1, |b| b[0] as i8),
        2 => num!(read_u16, 2, le16),
        3 => num!(read_i16, 2, |b| le16(b) as i16),
        4 => num!(read_u32, 4, le32),
        5 => num!(read_i32, 4, |b| le32(b) as i32),
        6 => num!(read_u64, 8, le64),
        7 => { if rest.len() < 4 { return false; } match m.read_f32() { Ok(x) => sym::check(x.to_bits() == le32(rest), "value"), Err(_) => sym::fail("error although the bytes are there") } *pos += 4 }
        8 => { if rest.len() < 8 { return false; } match m.read_f64() { Ok(x) => sym::check(x.to_bits() == le64(rest), "value"), Err(_) => sym::fail("error although the bytes are there") } *pos += 8 }
        9 => num!(read_bool, 1, |b| b[0] != 0),
        10 => {
            let n = sym::choose(4);
            if rest.len() < n { return false; }
            let t = &rest[..n];
            let ok = utf8(t);
            match m.read_string(n) { Ok(s) => { if !ok { sym::fail("invalid UTF-8 accepted") } sym::check(same(s.as_bytes(), t), "text") } Err(ULogError::Utf8(_)) => sym::check(!ok, "valid UTF-8 refused"), Err(_) => sym::fail("kind of the error") }
            *pos += n
        }
        11 => {
            let n = [0usize, 1, 3, 8, 17, 100][sym::choose(6)];
            match m.skip(n) { Ok(k) => { sym::check(k == n.min(rest.len()), "bytes skipped"); *pos += n.min(rest.len()) } Err(_) => sym::fail("error although the bytes are there") }
        }
        _ => {
            let n = sym::choose(10);
            let mut b = vec![0u8; n];
            match m.read_exact(&mut b) {
                Ok(k) => if rest.len() >= n { sym::check(k == n && same(&b, &rest[..n]), "bytes"); *pos += n } else { sym::check(k == 0, "end of file not signalled"); return false; },
                Err(_) => sym::fail("error although nothing failed"),
            }
        }
    }
    true
}
fn utf8(b: &[u8]) -> bool {
    // up to three bytes are enough here
    let c = |i: usize| i < b.len() && b[i] & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x < 0x80 { i += 1 }
        else if x >= 0xc2 && x < 0xe0 { if !c(i + 1) { return false; } i += 2 }
        else if x >= 0xe0 && x < 0xf0 { if !c(i + 1) || !c(i + 2) || (x == 0xe0 && b[i + 1] < 0xa0) || (x == 0xed && b[i + 1] >= 0xa0) { return false; } i += 3 }
        else { return false; }
    }
    true
}
/// first operation `case % 13`, one more of any kind, on streams of 17 or 9 bytes delivered in pieces of 1, 3 or all
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_stream(case: u64) { stream_run(case, 1) }
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_stream3(case: u64) { stream_run(case, 2) }
#[inline(never)]
fn stream_run(case: u64, more: usize) {
    let d = sym::vec([17usize, 9][case as usize / 13 % 2]);
    let mut m = { let k = sym::choose(4); DataStream::new(Short(&d, [1usize, 3, 100, 4][k], k == 3, false)) };
    let mut pos = 0;
    let mut go = stream_op(&mut m, &d, &mut pos, case as usize % 13);
    for _ in 0..more { if go { let k = sym::choose(13); go = stream_op(&mut m, &d, &mut pos, k); } }
    sym::reach("end");
}
/// an I/O error is passed on by every reading operation
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_ioerr(_case: u64) {
    struct E;
    impl Read for E { fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(std::io::Error::from(ErrorKind::TimedOut)) } }
    let mut m = DataStream::new(E);
    macro_rules! t { ($x:expr) => { match $x { Err(ULogError::Io(e)) => sym::check(e.kind() == ErrorKind::TimedOut, "kind of the error"), _ => sym::fail("I/O error lost") } } }
    match sym::choose(13) {
        0 => t!(m.read_u8()), 1 => t!(m.read_u16()), 2 => t!(m.read_u32()), 3 => t!(m.read_u64()), 4 => t!(m.read_i8()), 5 => t!(m.read_i16()), 6 => t!(m.read_i32()), 7 => t!(m.read_f32()), 8 => t!(m.read_f64()), 9 => t!(m.read_bool()),
        10 => t!(m.read_string(2)), 11 => t!(m.skip(2)), _ => t!(m.read_exact(&mut [0; 3])),
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- C21 text
/// decimal text of a number, worked out digit by digit
fn dec(neg: bool, mut x: u64) -> Vec<u8> {
    let mut v = vec![];
    loop { v.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break; } }
    if neg { v.push(b'-'); }
    v.reverse();
    v
}
fn uint(x: u64) -> Vec<u8> { dec(false, x) }
fn sint(x: i64) -> Vec<u8> { dec(x < 0, x.unsigned_abs()) }
fn hex2(x: u8) -> [u8; 2] { let h = |d: u8| if d < 10 { b'0' + d } else { b'A' + d - 10 }; [h(x >> 4), h(x & 15)] }
fn cat(p: &[&[u8]]) -> Vec<u8> { p.concat() }
fn is(got: String, want: &[u8], what: &str) { sym::check(same(got.as_bytes(), want), what) }
/// a number of `w` bytes: one byte of it symbolic, the others one of five patterns
fn num(w: usize) -> u64 {
    let base = [0u64, !0, 0x8000_0000_0000_0000u64 >> (64 - 8 * w), 0x7fff_ffff_ffff_ffff >> (64 - 8 * w), 0x0102_0304_0506_0708][sym::choose(5)];
    let at = sym::choose(w as u8);
    let b = sym::u8() as u64;
    let m = if w == 8 { !0u64 } else { (1u64 << (8 * w)) - 1 };
    ((base & !(0xffu64 << (8 * at))) | b << (8 * at)) & m
}
fn sx(x: u64, w: usize) -> i64 { ((x << (64 - 8 * w)) as i64) >> (64 - 8 * w) }
fn chars(b: &[u8]) -> Vec<CChar> { b.iter().map(|x| CChar(*x)).collect() }
const FL: [f32; 14] = [0.0, -0.0, 1.0, 0.1, -2.5e10, 1.0e-7, 16777216.0, 3.4028235e38, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.3, -9.80665, 123456.79];
const FT: [&str; 14] = ["0", "-0", "1", "0.1", "-25000000000", "0.0000001", "16777216", "340282350000000000000000000000000000000", "inf", "-inf", "NaN", "0.3", "-9.80665", "123456.79"];
/// a value and its text; also the text inside an information message when that differs
#[inline(never)]
fn shown(k: usize) -> (inst::FieldValue, Vec<u8>, Option<Vec<u8>>) {
    use inst::FieldValue::*;
    let n = |v, t| (v, t, None);
    match k {
        0 => { let x = sym::u8(); n(ScalarU8(x), uint(x as u64)) }
        1 => { let x = sym::u16(); n(ScalarU16(x), uint(x as u64)) }
        2 => { let x = num(4); n(ScalarU32(x as u32), uint(x)) }
        3 => { let x = num(8); n(ScalarU64(x), uint(x)) }
        4 => { let x = sym::u8() as i8; n(ScalarI8(x), sint(x as i64)) }
        5 => { let x = sym::u16() as i16; n(ScalarI16(x), sint(x as i64)) }
        6 => { let x = num(4); n(ScalarI32(x as i32), sint(sx(x, 4))) }
        7 => { let x = num(8); n(ScalarI64(x as i64), sint(sx(x, 8))) }
        8 => { let i = sym::choose(14); n(ScalarF32(FL[i]), FT[i].into()) }
        9 => {
            let i = sym::choose(15);
            let x = [0.0, 0.1, -1.5, 1e21, 1e-7, f64::INFINITY, f64::NAN, -0.0, f64::NEG_INFINITY, 0.1 + 0.2, 47.397742, -122.5, 9007199254740993.0, 1.0, 16777217.0][i];
            let t = ["0", "0.1", "-1.5", "1000000000000000000000", "0.0000001", "inf", "NaN", "-0", "-inf", "0.30000000000000004", "47.397742", "-122.5", "9007199254740992", "1", "16777217"][i];
            n(ScalarF64(x), t.into())
        }
        10 => { let b = sym::below(2); n(ScalarBool(b == 1), if b == 1 { "true".into() } else { "false".into() }) }
        11 => { let b = sym::u8(); let t = if b < 128 { vec![b] } else { cat(&[b"\\x", &hex2(b)]) }; (ScalarChar(CChar(b)), cat(&[b"'", &t, b"'"]), Some(t)) }
        12 => { let b = sym::bytes::<3>(); n(ArrayU8(b.to_vec()), cat(&[b"[", &uint(b[0] as u64), b", ", &uint(b[1] as u64), b", ", &uint(b[2] as u64), b"]"])) }
        13 => { let x = sym::u16(); n(ArrayU16(vec![7, x]), cat(&[b"[7, ", &uint(x as u64), b"]"])) }
        14 => { let x = num(4); n(ArrayU32(vec![x as u32, 0]), cat(&[b"[", &uint(x), b", 0]"])) }
        15 => { let x = num(8); n(ArrayU64(vec![x, 1]), cat(&[b"[", &uint(x), b", 1]"])) }
        16 => { let x = sym::u8() as i8; n(ArrayI8(vec![-1, x]), cat(&[b"[-1, ", &sint(x as i64), b"]"])) }
        17 => { let x = sym::u16() as i16; n(ArrayI16(vec![x, -2]), cat(&[b"[", &sint(x as i64), b", -2]"])) }
        18 => { let x = num(4); n(ArrayI32(vec![x as i32]), cat(&[b"[", &sint(sx(x, 4)), b"]"])) }
        19 => { let x = num(8); n(ArrayI64(vec![x as i64, 5]), cat(&[b"[", &sint(sx(x, 8)), b", 5]"])) }
        20 => { let i = sym::choose(14); n(ArrayF32(vec![FL[i], 0.5]), cat(&[b"[", FT[i].as_bytes(), b", 0.5]"])) }
        21 => n(ArrayF64(vec![0.25, -3.0, -0.0, f64::NAN, f64::NEG_INFINITY, 0.1 + 0.2, 0.0]), "[0.25, -3, -0, NaN, -inf, 0.30000000000000004, 0]".into()),
        22 => { let b = sym::below(2); n(ArrayBool(vec![false, b == 1]), if b == 1 { "[false, true]".into() } else { "[false, false]".into() }) }
        23 => { let b = ascii(4); n(ArrayChar(chars(&b)), cat(&[b"\"", &b, b"\""])) }
        24 => n(ArrayU8(vec![]), "[]".into()),
        25 => n(ArrayChar(vec![]), "\"\"".into()),
        26 => n(ArrayOther(vec![]), "[]".into()),
        27 => n(ScalarOther(Shared::new(record("ab", None))), "{ab}".into()),
        _ => { let i = sym::u8(); n(ArrayOther(vec![record("x", None), record("yy", Some(i))]), cat(&[b"[{x}, {yy.", if i < 10 { b"0" } else { b"" }, &uint(i as u64), b"}]"])) }
    }
}
fn record(name: &str, multi: Option<u8>) -> inst::Format { inst::Format { timestamp: None, name: name.into(), fields: vec![], multi_id_index: multi, def_format: Shared::new(def::Format { name: name.into(), fields: vec![], padding: 0 }) } }
fn some_type() -> def::TypeExpr { def::TypeExpr { base_type: def::BaseType::UINT8, array_size: None } }
/// text of values, alone and in information messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_value(case: u64) {
    let (v, t, info) = shown(case as usize);
    is(v.to_string(), &t, "text of the value");
    let t = info.unwrap_or(t);
    let cont = sym::below(2) == 1;
    let keys = ["key", "ver_sw", "ver_sw_releas", "aver_sw_release", "ver__release", "ver_release", "ver_", "_release", "ver_b_release_release", "ver_release_", "Ver_b_release", "ver_b_Release", "_release_ver_"];
    let key = keys[sym::choose(if case == 2 { 13 } else { 6 })];
    let i = msg::Info { key: key.into(), r#type: some_type(), value: v.clone() };
    let m = msg::MultiInfo { is_continued: cont, key: key.into(), r#type: some_type(), value: v.clone() };
    let t = match (&v, key) {
        // release versions are shown in hexadecimal
        (inst::FieldValue::ScalarU32(x), "ver__release" | "ver_release" | "ver_b_release_release") => { let mut h = vec![]; let mut s = false; for b in x.to_be_bytes() { for d in hex2(b) { if s || d != b'0' { s = true; h.push(d) } } } if !s { h.push(b'0') } cat(&[b"0x", &h]) }
        _ => t,
    };
    let want = cat(&[key.as_bytes(), b": ", &t]);
    is(i.to_string(), &want, "text of an information message");
    is(m.to_string(), &want, "text of a multi-information message");
    sym::reach("end");
}
/// text of long arrays of every type, alone and in an information message: case = length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_long(case: u64) {
    use inst::FieldValue::*;
    let n = [20usize, 100, 257, 1000][case as usize];
    let at = [0, n / 2, n - 1][sym::choose(3)];
    let x = sym::u8();
    let b = |i: usize| if i == at { x } else { (i * 7) as u8 };
    let list = |f: &dyn Fn(usize) -> Vec<u8>| { let mut o = vec![b'[']; for i in 0..n { if i > 0 { o.extend(b", ") } o.extend(f(i)) } o.push(b']'); o };
    let (v, t) = match sym::choose(12) {
        0 => (ArrayU8((0..n).map(b).collect()), list(&|i| uint(b(i) as u64))),
        1 => (ArrayU16((0..n).map(|i| b(i) as u16 * 257).collect()), list(&|i| uint(b(i) as u64 * 257))),
        2 => (ArrayU32((0..n).map(|i| b(i) as u32 + 70000).collect()), list(&|i| uint(b(i) as u64 + 70000))),
        3 => (ArrayU64((0..n).map(|i| b(i) as u64).collect()), list(&|i| uint(b(i) as u64))),
        4 => (ArrayI8((0..n).map(|i| b(i) as i8).collect()), list(&|i| sint(b(i) as i8 as i64))),
        5 => (ArrayI16((0..n).map(|i| b(i) as i8 as i16).collect()), list(&|i| sint(b(i) as i8 as i64))),
        6 => (ArrayI32((0..n).map(|i| b(i) as i32 - 300).collect()), list(&|i| sint(b(i) as i64 - 300))),
        7 => (ArrayI64((0..n).map(|i| b(i) as i64).collect()), list(&|i| sint(b(i) as i64))),
        8 => (ArrayBool((0..n).map(|i| if i == at { x > 99 } else { i % 3 == 0 }).collect()), list(&|i| if if i == at { x > 99 } else { i % 3 == 0 } { b"true".to_vec() } else { b"false".to_vec() })),
        9 => { sym::assume(x < 128); (ArrayChar((0..n).map(|i| CChar(b(i) & 127)).collect()), { let mut o = vec![b'"']; for i in 0..n { o.push(b(i) & 127) } o.push(b'"'); o }) }
        10 => (ArrayF32((0..n).map(|i| i as f32).collect()), list(&|i| uint(i as u64))),
        _ => (ArrayOther((0..n).map(|i| record("e", if i == at { Some(x) } else { None })).collect()), list(&|i| if i == at { cat(&[b"{e.", if x < 10 { b"0" } else { b"" }, &uint(x as u64), b"}"]) } else { b"{e}".to_vec() })),
    };
    is(v.to_string(), &t, "text of the value");
    let want = cat(&[b"k: ", &t]);
    is(msg::Info { key: "k".into(), r#type: some_type(), value: v.clone() }.to_string(), &want, "text of an information message");
    is(msg::MultiInfo { is_continued: true, key: "k".into(), r#type: some_type(), value: v }.to_string(), &want, "text of a multi-information message");
    sym::reach("end");
}
/// the standard library's text
#[inline(never)]
fn txt(x: &dyn std::fmt::Display) -> String { format!("{}", x) }
/// the texts of all numbers, every byte of them symbolic (engine option --text): case = 10 types x scalar, array of 1 to 3, long array; then messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_text(case: u64) {
    use inst::FieldValue::*;
    let k = case as usize;
    if k < 50 {
        let n = [0, 1, 2, 3, 70][k / 10];
        let e = |x: u64| match k % 10 { 0 => txt(&(x as u8)), 1 => txt(&(x as u16)), 2 => txt(&(x as u32)), 3 => txt(&x), 4 => txt(&(x as i8)), 5 => txt(&(x as i16)), 6 => txt(&(x as i32)), 7 => txt(&(x as i64)), 8 => txt(&f32::from_bits(x as u32)), _ => txt(&f64::from_bits(x)) };
        let x: Vec<u64> = (0..n.max(1)).map(|i| if i < 3 { sym::u64() } else { i as u64 * 77 }).collect();
        let v = match (k % 10, n) {
            (0, 0) => ScalarU8(x[0] as u8), (1, 0) => ScalarU16(x[0] as u16), (2, 0) => ScalarU32(x[0] as u32), (3, 0) => ScalarU64(x[0]), (4, 0) => ScalarI8(x[0] as i8), (5, 0) => ScalarI16(x[0] as i16), (6, 0) => ScalarI32(x[0] as i32), (7, 0) => ScalarI64(x[0] as i64), (8, 0) => ScalarF32(f32::from_bits(x[0] as u32)), (9, 0) => ScalarF64(f64::from_bits(x[0])),
            (0, _) => ArrayU8(x.iter().map(|x| *x as u8).collect()), (1, _) => ArrayU16(x.iter().map(|x| *x as u16).collect()), (2, _) => ArrayU32(x.iter().map(|x| *x as u32).collect()), (3, _) => ArrayU64(x.clone()), (4, _) => ArrayI8(x.iter().map(|x| *x as i8).collect()), (5, _) => ArrayI16(x.iter().map(|x| *x as i16).collect()), (6, _) => ArrayI32(x.iter().map(|x| *x as i32).collect()), (7, _) => ArrayI64(x.iter().map(|x| *x as i64).collect()),
            (8, _) => ArrayF32(x.iter().map(|x| f32::from_bits(*x as u32)).collect()), _ => ArrayF64(x.iter().map(|x| f64::from_bits(*x)).collect()),
        };
        let t = if n == 0 { e(x[0]) } else { format!("[{}]", x.iter().map(|x| e(*x)).collect::<Vec<_>>().join(", ")) };
        is(v.to_string(), t.as_bytes(), "text of the value");
        for key in ["key", "ver_sw", "ver_release", "ver_sw_release", "a_release"] {
            let h = if k == 2 && key.starts_with("ver_") && key.ends_with("_release") && key.len() >= 11 { format!("{:#X}", x[0] as u32) } else { t.clone() };
            let want = format!("{}: {}", key, h);
            is(msg::Info { key: key.into(), r#type: some_type(), value: v.clone() }.to_string(), want.as_bytes(), "text of an information message");
            is(msg::MultiInfo { is_continued: false, key: key.into(), r#type: some_type(), value: v.clone() }.to_string(), want.as_bytes(), "text of a multi-information message");
        }
    } else {
        let (a, b, c, i) = (sym::u64(), sym::u32(), sym::u16(), sym::u8());
        match k - 50 {
            0 | 1 => {
                let (v, t) = if k == 50 { (inst::ParameterValue::INT32(b as i32), txt(&(b as i32))) } else { (inst::ParameterValue::FLOAT(f32::from_bits(b)), txt(&f32::from_bits(b))) };
                is(v.to_string(), t.as_bytes(), "parameter value");
                is(msg::Parameter { key: "P".into(), r#type: some_type(), value: v.clone() }.to_string(), format!("P: {}", t).as_bytes(), "parameter");
                is(msg::DefaultParameter { key: "P".into(), default_types: 2, r#type: some_type(), value: v }.to_string(), format!("P (Configuration): {}", t).as_bytes(), "default parameter");
            }
            2 => {
                is(msg::LoggedString { level: msg::LogLevel::Info, tag: None, timestamp: a, msg: "m".into() }.to_string(), format!("INFO {}: m", a).as_bytes(), "log string");
                is(msg::LoggedString { level: msg::LogLevel::Info, tag: Some(c), timestamp: a, msg: "m".into() }.to_string(), format!("INFO Tag: {} {}: m", c, a).as_bytes(), "tagged log string");
            }
            3 => {
                is(msg::Subscription { multi_id: i, msg_id: c, message_name: "n".into() }.to_string(), format!("Subscription: n msg_id: {}", c).as_bytes(), "subscription");
                is(def::TypeExpr { base_type: def::BaseType::OTHER("t".into()), array_size: Some(a as usize) }.to_string(), format!("t[{}]", a).as_bytes(), "array type");
            }
            _ => {
                is(record("nm", Some(i)).to_string(), format!("nm.{:02}", i).as_bytes(), "record with a multi id");
                is(ArrayOther(vec![record("x", Some(i)), record("y", None)]).to_string(), format!("[{{x.{:02}}}, {{y}}]", i).as_bytes(), "array of records");
                let mut r = record("top", Some(i));
                r.fields = vec![inst::Field { name: "f".into(), r#type: def::TypeExpr { base_type: def::BaseType::UINT8, array_size: Some(2) }, value: ArrayU8(vec![1, 2]) }];
                #[allow(deprecated)]
                let f = r.flatten();
                sym::check(f.len() == 2, "number of values");
                for j in 0..2 { is(f[j].0.clone(), format!("top.{:02}/f.0{}", i, j).as_bytes(), "path"); }
            }
        }
    }
    sym::reach("end");
}
/// text of all other messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_msg(case: u64) {
    let k = ascii(2);
    let key = String::from_utf8(k.clone()).unwrap();
    match case {
        0 | 1 => {
            let (v, t) = if case == 0 { let x = num(4); (inst::ParameterValue::INT32(x as i32), sint(sx(x, 4))) } else { let i = sym::choose(14); (inst::ParameterValue::FLOAT(FL[i]), FT[i].into()) };
            is(v.to_string(), &t, "parameter value");
            is(msg::Parameter { key: key.clone(), r#type: some_type(), value: v.clone() }.to_string(), &cat(&[&k, b": ", &t]), "parameter");
            let d = sym::u8();
            let dt: &[u8] = match d & 3 { 0 => b"", 1 => b"SystemWide", 2 => b"Configuration", _ => b"SystemWide|Configuration" };
            is(msg::DefaultParameter { key, default_types: d, r#type: some_type(), value: v }.to_string(), &cat(&[&k, b" (", dt, b"): ", &t]), "default parameter");
        }
        2 => { let id = sym::u16(); is(msg::Subscription { multi_id: sym::u8(), msg_id: id, message_name: key }.to_string(), &cat(&[b"Subscription: ", &k, b" msg_id: ", &uint(id as u64)]), "subscription") }
        3 | 4 => {
            let i = sym::choose(8);
            let l = [msg::LogLevel::Emerg, msg::LogLevel::Alert, msg::LogLevel::Crit, msg::LogLevel::Err, msg::LogLevel::Warning, msg::LogLevel::Notice, msg::LogLevel::Info, msg::LogLevel::Debug][i];
            let n: &[u8] = [&b"EMERG"[..], b"ALERT", b"CRIT", b"ERR", b"WARNING", b"NOTICE", b"INFO", b"DEBUG"][i];
            is(l.to_string(), n, "level");
            if case == 3 { let t = num(8); is(msg::LoggedString { level: l, tag: None, timestamp: t, msg: key }.to_string(), &cat(&[n, b" ", &uint(t), b": ", &k]), "log string") }
            else { let g = sym::u16(); is(msg::LoggedString { level: l, tag: Some(g), timestamp: 99, msg: key }.to_string(), &cat(&[n, b" Tag: ", &uint(g as u64), b" 99: ", &k]), "tagged log string") }
        }
        5 => {
            for t in TYS { is(t.base().to_string(), t.name().as_bytes(), "basic type") }
            is(def::BaseType::OTHER(key.clone()).to_string(), &k, "other type");
            let n = num(8);
            is(def::TypeExpr { base_type: def::BaseType::OTHER(key.clone()), array_size: Some(n as usize) }.to_string(), &cat(&[&k, b"[", &uint(n), b"]"]), "array type");
        }
        6 => {
            let f = |n: &str, t: Ty, a: Option<usize>| def::Field { name: n.into(), r#type: def::TypeExpr { base_type: t.base(), array_size: a } };
            is(f(&key, Ty::U16, None).to_string(), &cat(&[b"uint16_t ", &k]), "field");
            let d = |v: Vec<def::Field>| def::Format { name: "n".into(), fields: v, padding: 0 };
            is(d(vec![]).to_string(), b"", "format without fields");
            is(d(vec![f(&key, Ty::U8, Some(3))]).to_string(), &cat(&[b"uint8_t[3] ", &k]), "format with one field");
            is(d(vec![f("a", Ty::F32, None), f(&key, Ty::Char, Some(12)), f("c", Ty::Bool, None)]).to_string(), &cat(&[b"float a; char[12] ", &k, b"; bool c"]), "format");
        }
        _ => {
            let i = sym::u8();
            is(record("nm", None).to_string(), b"nm", "record");
            is(record("nm", Some(i)).to_string(), &cat(&[b"nm.", if i < 10 { b"0" } else { b"" }, &uint(i as u64)]), "record with a multi id");
            is(record(&key, Some(1)).to_string(), &cat(&[&k, b".01"]), "record name");
        }
    }
    sym::reach("end");
}
/// flattened records: every scalar once, in order, under its path
#[no_mangle]
#[inline(never)]
#[allow(deprecated)]
pub extern "C" fn c21_flatten(case: u64) {
    use inst::FieldValue::*;
    let x = sym::vec(16);
    let mk = |name: &str, v: Vec<(&str, Option<usize>, inst::FieldValue)>| inst::Format {
        timestamp: None, name: name.into(), multi_id_index: None, def_format: Shared::new(def::Format { name: name.into(), fields: vec![], padding: 0 }),
        fields: v.into_iter().map(|(n, a, v)| inst::Field { name: n.into(), r#type: def::TypeExpr { base_type: def::BaseType::UINT8, array_size: a }, value: v }).collect(),
    };
    let leaf = |i: usize| mk("leaf", vec![("p", None, ScalarI8(x[i] as i8)), ("q", Some(2), ArrayBool(vec![x[i + 1] > 7, x[i + 2] > 7]))]);
    let n = [0usize, 1, 2, 12, 101][case as usize];
    let mut r = mk("top", vec![("s", None, ScalarU16(le16(&x))), ("a", Some(n), ArrayU8((0..n).map(|i| x[i % 16]).collect())), ("n", None, ScalarOther(Shared::new(leaf(4)))), ("l", Some(2), ArrayOther(vec![leaf(7), leaf(10)])), ("c", Some(1), ArrayChar(vec![CChar(x[13])]))]);
    let i = sym::u8();
    let top = if case & 1 == 1 { r.multi_id_index = Some(i); cat(&[b"top.", if i < 10 { b"0" } else { b"" }, &uint(i as u64)]) } else { b"top".to_vec() };
    let mut want: Vec<(Vec<u8>, inst::FieldValue)> = vec![];
    let two = |i: usize| format!("{}{}", if i < 10 { "0" } else { "" }, i);
    want.push((cat(&[&top, b"/s"]), ScalarU16(le16(&x))));
    for i in 0..n { want.push((cat(&[&top, b"/a.", two(i).as_bytes()]), ScalarU8(x[i % 16]))); }
    for (p, o) in [("/n", 4), ("/l.00", 7), ("/l.01", 10)] {
        want.push((cat(&[&top, p.as_bytes(), b"/p"]), ScalarI8(x[o] as i8)));
        for j in 0..2 { want.push((cat(&[&top, p.as_bytes(), b"/q.", two(j).as_bytes()]), ScalarBool(x[o + 1 + j] > 7))); }
    }
    want.push((cat(&[&top, b"/c.00"]), ScalarChar(CChar(x[13]))));
    let got = r.flatten();
    sym::check(got.len() == want.len(), "number of values");
    for ((gp, gv), (wp, wv)) in got.iter().zip(&want) {
        sym::check(same(gp.as_bytes(), wp), "path");
        let ok = match (gv, wv) { (ScalarU16(a), ScalarU16(b)) => a == b, (ScalarU8(a), ScalarU8(b)) => a == b, (ScalarI8(a), ScalarI8(b)) => a == b, (ScalarBool(a), ScalarBool(b)) => a == b, (ScalarChar(a), ScalarChar(b)) => a.0 == b.0, _ => false };
        sym::check(ok, "flattened value");
    }
    sym::reach("end");
}
/// arrays split into scalars of the same type, in order; scalars give nothing
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_scalars(case: u64) {
    use inst::FieldValue::*;
    let b = sym::vec(16);
    let (x, y) = (le64(&b), le64(&b[8..]));
    macro_rules! t { ($a:ident, $s:ident, $t:ty, $eq:expr) => {{
        let v: Vec<$t> = vec![x as $t, y as $t];
        match $a(v.clone()).to_scalars() { Some(l) => { sym::check(l.len() == 2, "number of scalars"); for i in 0..2 { match &l[i] { $s(z) => sym::check($eq(*z, v[i]), "scalar"), _ => sym::fail("type of a scalar") } } } None => sym::fail("array not split") }
        sym::check($s(x as $t).to_scalars().is_none(), "scalar split");
    }} }
    match case {
        0 => t!(ArrayU8, ScalarU8, u8, |a, b| a == b), 1 => t!(ArrayU16, ScalarU16, u16, |a, b| a == b), 2 => t!(ArrayU32, ScalarU32, u32, |a, b| a == b), 3 => t!(ArrayU64, ScalarU64, u64, |a, b| a == b),
        4 => t!(ArrayI8, ScalarI8, i8, |a, b| a == b), 5 => t!(ArrayI16, ScalarI16, i16, |a, b| a == b), 6 => t!(ArrayI32, ScalarI32, i32, |a, b| a == b), 7 => t!(ArrayI64, ScalarI64, i64, |a, b| a == b),
        8 => { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); match ArrayF32(vec![p, q]).to_scalars().as_deref() { Some([ScalarF32(a), ScalarF32(b)]) => sym::check(a.to_bits() == x as u32 && b.to_bits() == y as u32, "scalar"), _ => sym::fail("array not split") } sym::check(ScalarF32(p).to_scalars().is_none(), "scalar split") }
        9 => { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); match ArrayF64(vec![p, q]).to_scalars().as_deref() { Some([ScalarF64(a), ScalarF64(b)]) => sym::check(a.to_bits() == x && b.to_bits() == y, "scalar"), _ => sym::fail("array not split") } sym::check(ScalarF64(p).to_scalars().is_none(), "scalar split") }
        10 => { let (p, q) = (x & 1 == 1, y & 1 == 1); match ArrayBool(vec![p, q]).to_scalars().as_deref() { Some([ScalarBool(a), ScalarBool(b)]) => sym::check((*a == p) & (*b == q), "scalar"), _ => sym::fail("array not split") } sym::check(ScalarBool(p).to_scalars().is_none(), "scalar split") }
        11 => { match ArrayChar(chars(&b)).to_scalars() { Some(l) => { sym::check(l.len() == 16, "number of scalars"); for i in 0..16 { match &l[i] { ScalarChar(c) => sym::check(c.0 == b[i], "scalar"), _ => sym::fail("type of a scalar") } } } None => sym::fail("array not split") } sym::check(ScalarChar(CChar(b[0])).to_scalars().is_none(), "scalar split") }
        _ => { match ArrayOther(vec![record("p", None), record("q", Some(b[0]))]).to_scalars().as_deref() { Some([ScalarOther(a), ScalarOther(c)]) => sym::check(&*a.name == "p" && &*c.name == "q" && a.multi_id_index.is_none() && c.multi_id_index == Some(b[0]), "scalar"), _ => sym::fail("array not split") } sym::check(ScalarOther(Shared::new(record("p", None))).to_scalars().is_none(), "scalar split") }
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- C22 characters
/// reference: UTF-8 with every maximal ill-formed part replaced by U+FFFD
fn lossy(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x < 0x80 { o.push(x); i += 1; continue; }
        let (n, lo, hi) = if x >= 0xc2 && x < 0xe0 { (1, 0x80, 0xbf) } else if x == 0xe0 { (2, 0xa0, 0xbf) } else if x == 0xed { (2, 0x80, 0x9f) } else if x >= 0xe1 && x < 0xf0 { (2, 0x80, 0xbf) }
            else if x == 0xf0 { (3, 0x90, 0xbf) } else if x >= 0xf1 && x < 0xf4 { (3, 0x80, 0xbf) } else if x == 0xf4 { (3, 0x80, 0x8f) } else { (0, 0, 0) };
        let mut k = 0;
        while k < n && i + 1 + k < b.len() {
            let y = b[i + 1 + k];
            let ok = if k == 0 { y >= lo && y <= hi } else { y >= 0x80 && y <= 0xbf };
            if !ok { break; }
            k += 1;
        }
        if n > 0 && k == n { o.extend_from_slice(&b[i..i + 1 + n]); } else { o.extend_from_slice("\u{fffd}".as_bytes()); }
        i += 1 + k;
    }
    o
}
/// one character
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_char(_case: u64) {
    let b = sym::u8();
    let c: CChar = b.into();
    sym::check(c.0 == b && c.as_u8() == b && u8::from(c) == b, "byte of the character");
    sym::check(c == CChar(b), "equality");
    sym::check(c.as_char() as u32 == if b < 128 { b as u32 } else { 0xfffd }, "as_char");
    is(c.to_string(), &if b < 128 { vec![b] } else { cat(&[b"\\x", &hex2(b)]) }, "text");
    sym::reach("end");
}
/// arrays of `case` characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_slice(case: u64) {
    let b = sym::vec(case as usize);
    let v = chars(&b);
    let mut end = b.len();
    while end > 0 && b[end - 1] == 0 { end -= 1; }
    let l = lossy(&b);
    let t = lossy(&b[..end]);
    sym::check(same(CCharSlice::as_bytes(&v), &b), "bytes of a vector");
    sym::check(same(CCharSlice::as_bytes(&v[..]), &b), "bytes of a slice");
    is(v.to_string_lossy(), &l, "string of a vector");
    is(v[..].to_string_lossy(), &l, "string of a slice");
    for x in [v.trim_end_nul(), v[..].trim_end_nul()] { sym::check(x.len() == end, "length without trailing NULs"); sym::check(same(CCharSlice::as_bytes(x), &b[..end]), "bytes without trailing NULs"); }
    is(v.to_string_lossy_trimmed(), &t, "trimmed string of a vector");
    is(v[..].to_string_lossy_trimmed(), &t, "trimmed string of a slice");
    sym::reach("end");
}
/// long arrays with NULs at the end and inside
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_long(case: u64) {
    let (n, z) = [(64usize, 1usize), (64, 63), (300, 44), (300, 0), (4096, 2048)][case as usize];
    let mut b = vec![b'w'; n];
    for x in &mut b[n - z..] { *x = 0 }
    b[1] = 0;
    let c = sym::u8();
    b[n - z - 1] = c;
    sym::assume(c < 128);
    let v = chars(&b);
    let mut end = b.len();
    while end > 0 && b[end - 1] == 0 { end -= 1; }
    is(v.to_string_lossy(), &b, "string");
    is(v.to_string_lossy_trimmed(), &b[..end], "trimmed string");
    sym::check(v.trim_end_nul().len() == end, "length without trailing NULs");
    sym::reach("end");
}
harnesses!(c20_far, c21_text, c21_long, c20_buf, c20_buf4, c20_amount, c20_stream, c20_stream3, c20_ioerr, c21_value, c21_msg, c21_flatten, c21_scalars, c22_char, c22_slice, c22_long);
