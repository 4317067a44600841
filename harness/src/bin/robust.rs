//! C02: arbitrary and damaged input never panics, hangs, recurses or allocates without bound.
use harness::{gen::*, harnesses, model::*, run::*, sym, ulog};
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;

/// parse everything, then use every result
#[inline(never)]
fn run(bytes: &[u8], o: Opt, text: bool) {
    let max = bytes.len() / 3 + 3;
    let mut p = parser(bytes, o);
    let mut n = 0;
    loop {
        match p.next() {
            None => break,
            Some(r) => { n += 1; sym::check(n <= max, "more results than messages"); used(r, text) }
        }
    }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
#[inline(never)]
#[allow(deprecated)]
fn used(r: Res, text: bool) {
    match r {
        Ok(m) => {
            let mut out = Vec::new();
            sym::check(m.encode(&mut out).is_ok(), "a parsed message cannot be encoded");
            match m {
                UlogMessage::LoggedData(mut d) => {
                    if text { let _ = d.data.to_string(); }
                    d.filter_fields(true, false);
                    let f = d.data.flatten();
                    sym::check(f.len() <= out.len(), "more scalars than bytes");
                    d.filter_fields(false, false);
                }
                UlogMessage::FormatDefinition(f) => if text { let _ = f.to_string(); },
                UlogMessage::AddSubscription(f) => if text { let _ = f.to_string(); },
                UlogMessage::LoggedString(f) | UlogMessage::TaggedLoggedString(f) => if text { let _ = f.to_string(); },
                UlogMessage::DropoutMark(f) => if text { let _ = f.to_string(); },
                UlogMessage::Info(f) => { if text { let _ = f.to_string(); } let _ = f.value.to_scalars(); }
                UlogMessage::MultiInfo(f) => { if text { let _ = f.to_string(); } let _ = f.value.to_scalars(); }
                UlogMessage::Parameter(f) => if text { let _ = f.to_string(); },
                UlogMessage::DefaultParameter(f) => { let _ = f.get_default_type(); if text { let _ = f.to_string(); } }
                UlogMessage::FlagBits(f) => { let _ = (f.has_data_appended(), f.has_default_parameters()); }
                _ => {}
            }
        }
        Err(e) => if text { let _ = e.to_string(); },
    }
}
const TYPES: &[u8; 14] = b"BFIMPQADRLCOSX";
/// formats and subscriptions a data message can refer to; every field type occurs
#[inline(never)]
fn prepare(f: &mut Vec<u8>) {
    f.extend(ulog::fmt("in:int16_t k;char[2] c;bool b;"));
    f.extend(ulog::fmt("a:uint64_t timestamp;float x;uint16_t[2] y;uint8_t[2] _padding0;bool z;"));
    f.extend(ulog::fmt("b:in n;uint64_t timestamp;in[2] l;uint8_t[5] _padding0;in _padding1;"));
    f.extend(ulog::fmt("e:"));
    f.extend(ulog::fmt("w:e[3] e;nope[0] n;uint64_t timestamp;w[0] w;e x;"));
    f.extend(ulog::fmt("q:q n;uint64_t timestamp;"));
    f.extend(ulog::fmt("s:r[2] n;uint64_t timestamp;"));
    f.extend(ulog::fmt("r:s n;"));
    f.extend(ulog::fmt("h:uint64_t timestamp;uint8_t[4000000000] h;"));
    f.extend(ulog::fmt("g:uint64_t timestamp;e[4000000000] h;"));
    f.extend(ulog::fmt("u:uint64_t timestamp;in[18446744073709551615] h;"));
}
const NAMES: [&str; 9] = ["a", "b", "w", "q", "s", "h", "g", "u", "e"];
/// one message of any type with any contents: case = type + 14 * section + 28 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_body(case: u64) {
    warm();
    let (t, sect, len) = (TYPES[case as usize % 14], case as usize / 14 % 2, case as usize / 28);
    let mut f = ulog::header(1, 5);
    prepare(&mut f);
    if sect == 1 { for (i, n) in NAMES.iter().enumerate() { f.extend(ulog::sub(0, i as u16, n)); } }
    let mut b = sym::vec(len);
    if sect == 1 && t == b'D' { for x in b.iter().skip(1).take(1) { sym::assume(*x == 0) } }
    f.extend(ulog::msg(t, &b));
    b.clear();
    f.extend(ulog::sub(0, 0, "a"));
    f.extend(ulog::data(0, &[7; 21]));
    run(&f, ALL, false);
}
/// a data message for each of the subscriptions above with any payload: case = subscription + 9 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_data(case: u64) {
    warm();
    let (k, len) = (case as usize % 9, [0usize, 1, 7, 8, 9, 16, 20, 21, 33, 40][case as usize / 9]);
    let mut f = ulog::header(1, 5);
    prepare(&mut f);
    f.extend(ulog::sub(0, 0x100, NAMES[k]));
    f.extend(ulog::data(0x100, &sym::vec(len)));
    run(&f, [ALL, NONE][sym::choose(2)], false);
}
/// a small file with every kind of message
#[inline(never)]
fn sample(half: usize) -> Vec<u8> {
    let mut f = ulog::header(1, 5);
    if half == 0 {
        f.extend(ulog::msg(b'B', &{ let mut b = [0u8; 40]; b[0] = 1; b }));
        f.extend(ulog::msg(b'I', b"\x0bchar[3] keyabc"));
        f.extend(ulog::msg(b'M', b"\x01\x06bool k\x01"));
        f.extend(ulog::msg(b'P', b"\x09int32_t ppppp"));
        f.extend(ulog::msg(b'Q', b"\x02\x07float xabcd"));
    }
    f.extend(ulog::fmt("i:char[2] c;"));
    f.extend(ulog::fmt("a:i[2] n;uint64_t timestamp;uint8_t[2] _padding0;"));
    f.extend(ulog::sub(1, 3, "a"));
    f.extend(ulog::data(3, b"abcd12345678__"));
    if half == 1 {
        f.extend(ulog::msg(b'L', b"412345678text"));
        f.extend(ulog::msg(b'C', b"4gg12345678t"));
        f.extend(ulog::msg(b'O', &[5, 1]));
        f.extend(ulog::msg(b'S', &[0x2f, 0x73, 0x13, 0x20, 0x25, 0x0c, 0xbb, 0x12]));
        f.extend(ulog::msg(b'R', &[3, 0]));
        f.extend(ulog::data(3, b"abcd12345678__"));
    }
    f
}
/// one byte of a file changed to anything: case = position / 8 + 32 * half
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_byte(case: u64) {
    warm();
    let mut f = sample(case as usize / 32);
    let at = case as usize % 32 * 8 + sym::choose(8);
    if at < f.len() { f[at] = sym::u8(); }
    run(&f, ALL, true);
}
/// one byte removed, another put in anywhere else: case = position / 8 + 32 * half
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_shift(case: u64) {
    warm();
    let mut f = sample(case as usize / 32);
    let at = case as usize % 32 * 8 + sym::choose(8);
    if at >= f.len() { sym::reach("end"); return; }
    if sym::choose(2) == 0 { f.remove(at); } else { f.insert(at, sym::u8()); }
    run(&f, ALL, false);
}
/// two adjacent bytes changed to anything (thorough): case = position / 8 + 32 * half
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_two(case: u64) {
    warm();
    let mut f = sample(case as usize / 32);
    let at = case as usize % 32 * 8 + sym::choose(8);
    if at + 1 < f.len() { let b = sym::bytes::<2>(); f[at] = b[0]; f[at + 1] = b[1]; }
    run(&f, ALL, false);
}
/// files of arbitrary bytes: case = length; after a valid header from 7 on (message sizes one of 8)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_any(case: u64) {
    let mut f = if case < 7 { vec![] } else { warm(); ulog::header(1, 5) };
    let n = if case < 7 { [0usize, 1, 6, 7, 8, 15, 16][case as usize] } else { case as usize - 7 };
    let at = f.len();
    f.extend(sym::vec(n));
    if case >= 7 && n >= 2 { let s = [0u16, 1, 2, 3, 4, 255, 256, 65535][sym::choose(8)].to_le_bytes(); f[at] = s[0]; f[at + 1] = s[1]; }
    run(&f, ALL, false);
}
/// sizes that are numbers: array sizes of any five digits, key lengths, in messages without data for them
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_sizes(case: u64) {
    warm();
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt("e:"));
    f.extend(ulog::fmt("in:int16_t k;uint64_t timestamp;"));
    let mut d = sym::vec(3);
    for x in &d { sym::assume((*x >= b'0') & (*x <= b'9')) }
    let zeros = [0usize, 1, 4, 7, 9, 14, 16, 17][case as usize % 8];
    d.extend(vec![b'9'; zeros]);
    let ty: &[u8] = [&b"uint8_t"[..], b"e", b"in", b"double", b"nope"][case as usize / 8 % 5];
    match case as usize / 40 {
        0 => {
            let mut t = b"a:uint64_t timestamp;".to_vec();
            t.extend(ty); t.extend(b"["); t.extend(&d); t.extend(b"] x;uint8_t y;");
            f.extend(ulog::msg(b'F', &t));
        }
        1 => {
            let mut t = b"a:uint64_t timestamp;".to_vec();
            t.extend(ty); t.extend(b"["); t.extend(&d); t.extend(b"] _padding0;uint8_t y;");
            f.extend(ulog::msg(b'F', &t));
        }
        _ => {
            let mut t: Vec<u8> = vec![];
            t.extend(ty); t.extend(b"["); t.extend(&d); t.extend(b"] x");
            let mut b = vec![t.len() as u8];
            b.extend(t);
            b.extend([1, 2, 3]);
            f.extend(ulog::msg(b'I', &b));
            f.extend(ulog::fmt("a:uint64_t timestamp;"));
        }
    }
    f.extend(ulog::sub(0, 1, "a"));
    f.extend(ulog::data(1, &[9; 12]));
    run(&f, ALL, false);
}
/// large inputs: many fields, long names, deep nesting, many messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_large(case: u64) {
    warm();
    let mut f = ulog::header(1, 5);
    let b = sym::u8();
    match case {
        0 => { let mut t = String::from("a:uint64_t timestamp;"); for _ in 0..400 { t.push_str("char c;"); } f.extend(ulog::fmt(&t)); f.extend(ulog::sub(0, 1, "a")); f.extend(ulog::data(1, &vec![b; 408])); }
        1 => { let mut t = vec![b'a'; 2000]; t.push(b); f.extend(ulog::msg(b'F', &t)); }
        2 => { let mut t = b"a:".to_vec(); t.extend(vec![b' '; 2000]); t.push(b); f.extend(ulog::msg(b'F', &t)); }
        3 => { let mut t = b"a:b[".to_vec(); t.extend(vec![b'0'; 2000]); t.push(b); t.extend(b"] c;"); f.extend(ulog::msg(b'F', &t)); }
        4 => { for i in 0..150 { f.extend(ulog::fmt(&format!("n{i}:n{} x;uint64_t timestamp;", i + 1))); } f.extend(ulog::fmt("n150:uint8_t x;uint64_t timestamp;")); f.extend(ulog::sub(0, 1, "n0")); f.extend(ulog::data(1, &vec![b; 1300])); }
        5 => { for i in 0..30 { f.extend(ulog::fmt(&format!("n{i}:n{0}[2] x;n{0}[2] y;uint64_t timestamp;", i + 1))); } f.extend(ulog::fmt("n30:")); f.extend(ulog::sub(0, 1, "n0")); f.extend(ulog::data(1, &vec![b; 200])); }
        6 => { f.extend(ulog::sub(0, 1, "a")); for _ in 0..300 { f.extend(ulog::msg(b, &[])); } }
        7 => { for i in 0..24 { f.extend(ulog::fmt(&format!("n{i}:n{0} _padding0;n{0} _padding1;uint64_t timestamp;", i + 1))); } f.extend(ulog::fmt("n24:uint8_t[65535] _padding0;")); f.extend(ulog::sub(0, 1, "n0")); f.extend(ulog::data(1, &vec![b; 200])); }
        8 => { f.extend(ulog::fmt("e:")); let mut t = String::from("a:uint64_t timestamp;"); for i in 0..60 { t.push_str(&format!("e[65535] x{i};")); } f.extend(ulog::fmt(&t)); f.extend(ulog::sub(0, 1, "a")); for _ in 0..20 { f.extend(ulog::data(1, &[b; 8])); } }
        _ => { for i in 0..15 { f.extend(ulog::fmt(&format!("n{i}:n{}[65535] x;uint64_t timestamp;", i + 1))); } f.extend(ulog::fmt("n15:uint8_t x;")); f.extend(ulog::sub(0, 1, "n0")); f.extend(ulog::data(1, &vec![b; 200])); }
    }
    run(&f, ALL, false);
}
/// long texts of characters of 1 to 4 bytes, complete or cut, in every message that holds text: case = character + 5 * leading ASCII characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_text(case: u64) {
    warm();
    let c = ["x", "\u{e9}", "\u{20ac}", "\u{1d11e}", "\0"][case as usize % 5];
    let lead = case as usize / 5;
    let n = [13usize, 14, 15, 30, 31, 32, 33, 48, 62, 63, 64, 65, 66, 79, 80, 81, 99, 100, 101, 118, 127, 128, 129, 160, 199, 200, 201, 240, 253, 254, 255, 256, 257, 300, 512][sym::choose(35)];
    let mut t = "zyx"[..lead].as_bytes().to_vec();
    while t.len() + c.len() <= n { t.extend(c.as_bytes()) }
    let whole = t.clone();
    // cut in the middle of a character when the length asks for it
    t.extend(&c.as_bytes()[..n - t.len()]);
    let key = |pre: &str, k: &[u8], v: &[u8]| { let mut b = vec![(pre.len() + k.len()) as u8]; b.extend(pre.bytes()); b.extend(k); b.extend(v); b };
    let mut f = ulog::header(1, 5);
    let fmt = |p: &[u8], x: &[u8], q: &[u8]| ulog::msg(b'F', &[p, x, q].concat());
    f.extend(fmt(b"", &whole, b":int8_t x;"));
    f.extend(fmt(b"a:int8_t ", &whole, b";"));
    f.extend(fmt(b"a:", &whole, b" x;"));
    f.extend(fmt(b"a:int8_t x;", &t, b""));
    f.extend(ulog::fmt("a:uint64_t timestamp;char[40] t;"));
    for section in 0..2 {
        f.extend(ulog::msg(b'I', &key(&format!("char[{n}] k"), b"", &t)));
        f.extend(ulog::msg(b'M', &[&[1u8][..], &key(&format!("char[{n}] ver_release"), b"", &t)].concat()));
        let short = &whole[..whole.len().min(240)];
        f.extend(ulog::msg(b'I', &key("uint32_t ", short, &[1, 2, 3, 4])));
        f.extend(ulog::msg(b'P', &key("int32_t ", short, &[1, 2, 3, 4])));
        f.extend(ulog::msg(b'Q', &[&[1u8][..], &key("int32_t ", short, &[1, 2, 3, 4])].concat()));
        f.extend(ulog::msg(b'A', &[&[0u8, 1, 0][..], &whole].concat()));
        f.extend(ulog::msg(b'A', &[&[0u8, 1, 0][..], &t].concat()));
        if section == 0 { f.extend(ulog::sub(0, 1, "a")); }
    }
    f.extend(ulog::data(1, &[&[1u8, 0, 0, 0, 0, 0, 0, 0][..], &t, &[0; 40]].concat()));
    for tail in [&b""[..], b"\n", &[sym::u8() | 0x80]] {
        f.extend(ulog::msg(b'L', &[&b"412345678"[..], &whole, tail].concat()));
        f.extend(ulog::msg(b'C', &[&b"4gg12345678"[..], &t, tail].concat()));
        f.extend(ulog::msg(b'C', &[&b"4gg12345678"[..], &whole, tail].concat()));
    }
    run(&f, ALL, true);
}
/// information and parameter messages with keys of special forms are rendered: case = kind + 4 * section + 8 * type
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_keys(case: u64) {
    warm();
    let c = case as usize;
    let keys = ["ver_release", "ver__release", "ver_", "_release", "ver_x_release", "ver_release_release", "ver_rel", "release", "_", "r", "sys_uuid", "perf_counter_preflight", "_padding0", "timestamp", "ver_sw_branch"];
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt("e:uint64_t timestamp;"));
    f.extend(ulog::fmt("in:e x;"));
    if c / 4 % 2 == 1 { f.extend(ulog::sub(0, 1, "e")); }
    let ty = if c % 4 > 1 { ["int32_t", "float", "int32_t", "float"][c / 8] } else { ["uint32_t", "uint32_t[2]", "char[3]", "in"][c / 8] };
    let key = keys[sym::choose(15)];
    let mut b = vec![];
    if c % 2 == 1 { b.push(sym::u8()); }
    b.push((ty.len() + 1 + key.len()) as u8);
    b.extend(ty.bytes());
    b.push(b' ');
    b.extend(key.bytes());
    b.extend([1, 2, if ty == "float" { 0 } else { sym::u8() }, 0, 5, 6, 7, 0]);
    f.extend(ulog::msg(b"IMPQ"[c % 4], &b));
    run(&f, ALL, true);
}
/// nothing is printed or written elsewhere
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_quiet(case: u64) {
    warm();
    let names = ["heartbeat", "vehicle_status", "debug_value", "error_report", "test_motor", "esc_heartbeat_x"];
    let mut f = File::new();
    for n in names { f.format(n, &a_value()); }
    if case > 0 { def_msg(&mut f, case as usize - 1); }
    for (i, n) in names.iter().enumerate() { f.sub(i as u8, i as u16, n); }
    for i in 0..names.len() { f.bytes.extend(ulog::data(i as u16, &sym::vec(21))); }
    run(&f.bytes, ALL, false);
}
harnesses!(c02_text, c02_body, c02_data, c02_byte, c02_shift, c02_two, c02_any, c02_sizes, c02_large, c02_keys, c02_quiet);
