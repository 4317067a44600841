//! C12, C13, C14, C16: header and flags, format text, keyed messages, logged text.
use harness::{gen::*, harnesses, model::*, run::*, sym, ulog};
use yule_log::builder::ULogParserBuilder;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;

#[inline(never)]
fn run(f: &File) { check_all(&parse(&f.bytes, ALL, f.exp.len()), &f.exp); }

// ---------------------------------------------------------------- C12 header and flag bits
/// any 16 bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_header(case: u64) {
    let mut b = sym::vec(16);
    let good = same(&b[..7], &ulog::MAGIC);
    let (version, t) = (b[7], le64(&b[8..]));
    let n = b.len();
    if case & 1 != 0 { b.extend(ulog::msg(b'I', b"\x09uint8_t kq")); }
    let mut p = ULogParserBuilder::new(&b[..]).include_header(case & 2 != 0).build().unwrap();
    if good {
        if case & 2 != 0 { match p.next() { Some(r) => check_result(&r, &Exp::Header { version, ts: t }), None => sym::fail("header missing") } }
        if case & 1 != 0 { match p.next() { Some(r) => check_result(&r, &Exp::Info { key: "k".into(), v: V::S(Ty::U8, vec![b'q']) }), None => sym::fail("message after the header missing") } }
        sym::check(p.next().is_none(), "result after the end");
        sym::reach("good");
    } else {
        match p.next() { Some(Err(ULogError::InvalidHeader)) => {} Some(Err(_)) => sym::fail("wrong error for a wrong magic"), Some(Ok(_)) => sym::fail("file with a wrong magic accepted"), None => sym::fail("file with a wrong magic is empty") }
        sym::reach("bad");
    }
    let _ = n;
    sym::reach("end");
}
/// any flag-bits contents with 0, 1 or 5 extra bytes; unknown incompatible bits are refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_flags(case: u64) {
    warm();
    let mut f = File::new();
    let n = [40usize, 41, 45, 300][case as usize];
    let mut b = sym::vec(40);
    b.resize(n, 0x5a);
    let unknown = (b[8] & 0xfe) | b[9] | b[10] | b[11] | b[12] | b[13] | b[14] | b[15];
    if unknown != 0 { f.bad(b'B', &b); } else {
        let o: Vec<u64> = (0..3).map(|i| le64(&b[16 + 8 * i..])).collect();
        f.flags(&b[..8], &b[8..16], &o, &b[40..]);
        // with appended data the first offset that is not zero ends the stream; keep it out of reach
        for x in &o { sym::assume(b[8] & 1 == 0 || *x == 0 || *x > 100_000) }
    }
    f.info("k", scalar(Ty::U8));
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    match &r[1] {
        Ok(UlogMessage::FlagBits(x)) => {
            sym::check(x.has_data_appended() == (b[8] & 1 != 0), "has_data_appended");
            sym::check(x.has_default_parameters() == (b[0] & 1 != 0), "has_default_parameters");
            sym::reach("accepted");
        }
        Err(e) => { sym::check(matches!(e, ULogError::UnknownIncompatBits), "wrong error for unknown incompatible bits"); sym::reach("refused"); }
        _ => sym::fail("wrong message"),
    }
    sym::reach("end");
}
/// flag bits cut short
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_short(_case: u64) {
    warm();
    let mut f = File::new();
    let n = sym::choose(40);
    let b = sym::vec(n);
    f.bad(b'B', &b);
    f.info("k", scalar(Ty::U8));
    run(&f);
    sym::reach("end");
}
/// reading stops at the first non-zero appended-data offset, when the flag is set; offsets of any value
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_stop(case: u64) {
    warm();
    let mut f = File::new();
    let flag = case & 1 != 0;
    let o: Vec<u64> = (0..3).map(|_| sym::u64()).collect();
    let hdr = case & 8 == 0; // header item included or not
    let zeros = case as usize / 2 % 4; // number of leading zero offsets
    for (i, x) in o.iter().enumerate() { sym::assume((*x == 0) == (i < zeros)); }
    if case & 16 != 0 { f.info("before", scalar(Ty::U16)); }
    let mut ib = [0u8; 8];
    ib[0] = flag as u8;
    f.flags(&sym::vec(8), &ib, &o, &[]);
    formats(&mut f);
    subs(&mut f);
    data_msg(&mut f, 0);
    data_msg(&mut f, 5);
    data_msg(&mut f, 3);
    let r = parse(&f.bytes, Opt { header: hdr, ts: true, pad: true }, f.exp.len());
    let stop = if flag && zeros < 3 { Some(o[zeros]) } else { None };
    // messages of the file that were read, the header among them
    let n = r.len() + !hdr as usize;
    check_all(&r, &f.exp[!hdr as usize..n]);
    // the message which starts at or after the offset is not read, all earlier ones are
    let flags = f.exp.iter().position(|e| matches!(e, Exp::Flags { .. })).unwrap();
    match stop {
        None => sym::check(n == f.exp.len(), "message missing"),
        Some(s) => {
            sym::check(n > flags, "flag bits missing");
            sym::check(n == f.exp.len() || f.ends[n - 1] as u64 >= s, "stopped before the appended data");
            sym::check(n <= flags + 1 || (f.ends[n - 2] as u64) < s, "read into the appended data");
            if n < f.exp.len() { sym::reach("stopped"); }
        }
    }
    sym::reach("end");
}

/// a second flag-bits message that must not change where reading stops: case = kind + 4 * (first sets an offset)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_twice(case: u64) {
    warm();
    let mut f = File::new();
    let flag = case >= 4;
    let o: Vec<u64> = (0..3).map(|_| sym::u64()).collect();
    sym::assume(o[0] != 0);
    let mut ib = [0u8; 8];
    ib[0] = flag as u8;
    let body = |flags: &[u8]| { let mut b = sym::vec(8); b.extend_from_slice(flags); b.extend(sym::vec(24)); b };
    f.flags(&sym::vec(8), &ib, &o, &[]);
    match case % 4 {
        0 => { let p = [sym::u64(), sym::u64(), sym::u64()]; f.flags(&sym::vec(8), &[0; 8], &p, &[]); }
        1 => { let mut i = [0u8; 8]; i[0] = sym::u8(); i[1 + sym::choose(7)] = sym::u8(); let mut d = i[0] & 0xfe; for x in &i[1..] { d |= *x } sym::assume(d != 0); f.bad(b'B', &body(&i)); }
        2 => { let n = sym::choose(40); let b = body(&[sym::u8() & 1, 0, 0, 0, 0, 0, 0, 0]); f.bad(b'B', &b[..n]); }
        _ => {}
    }
    formats(&mut f);
    subs(&mut f);
    if case % 4 == 3 { let i = sym::vec(8); f.raw(b'B', &body(&i)); }
    data_msg(&mut f, 0);
    data_msg(&mut f, 5);
    let r = parse(&f.bytes, ALL, f.exp.len());
    let n = r.len();
    check_all(&r, &f.exp[..n]);
    if flag {
        sym::check(n == f.exp.len() || f.ends[n - 1] as u64 >= o[0], "stopped before the appended data");
        sym::check(n <= 2 || (f.ends[n - 2] as u64) < o[0], "read into the appended data");
    } else {
        sym::check(n == f.exp.len(), "message missing");
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- C13 format text
#[derive(Clone, Copy, PartialEq)]
enum Tok { Id(usize, usize), Num(usize), Colon, Semi, L, R, Bad }
fn is_id0(c: u8) -> bool { c.is_ascii_alphabetic() | (c == b'_') }
fn is_sp(c: u8) -> bool { (c == b' ') | ((c >= 9) & (c <= 13)) }
/// the tokens of ASCII text, as the file-format document lays them out
fn lex(s: &[u8]) -> Vec<Tok> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if is_sp(c) { i += 1; continue; }
        if is_id0(c) {
            let st = i;
            while i < s.len() && (is_id0(s[i]) || s[i].is_ascii_digit()) { i += 1 }
            v.push(Tok::Id(st, i));
            continue;
        }
        if c.is_ascii_digit() {
            let mut n: Option<usize> = Some(0);
            while i < s.len() && s[i].is_ascii_digit() { n = n.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add((s[i] - b'0') as usize)); i += 1 }
            v.push(n.map(Tok::Num).unwrap_or(Tok::Bad));
            continue;
        }
        v.push(if c == b':' { Tok::Colon } else if c == b';' { Tok::Semi } else if c == b'[' { Tok::L } else if c == b']' { Tok::R } else { Tok::Bad });
        i += 1;
    }
    v
}
struct RefField { ty: (usize, usize), arr: Option<usize>, name: (usize, usize) }
fn field(t: &[Tok], i: &mut usize) -> Option<RefField> {
    let Some(Tok::Id(a, b)) = t.get(*i).copied() else { return None };
    *i += 1;
    let mut arr = None;
    if t.get(*i) == Some(&Tok::L) {
        let (Some(Tok::Num(n)), Some(Tok::R)) = (t.get(*i + 1).copied(), t.get(*i + 2).copied()) else { return None };
        arr = Some(n);
        *i += 3;
    }
    let Some(Tok::Id(c, d)) = t.get(*i).copied() else { return None };
    *i += 1;
    Some(RefField { ty: (a, b), arr, name: (c, d) })
}
/// name and fields of a format definition, if it is one
fn reference(s: &[u8]) -> Option<((usize, usize), Vec<RefField>)> {
    let t = lex(s);
    let (Some(Tok::Id(a, b)), Some(Tok::Colon)) = (t.get(0).copied(), t.get(1).copied()) else { return None };
    let mut i = 2;
    let mut v = vec![];
    while i < t.len() {
        v.push(field(&t, &mut i)?);
        if t.get(i) != Some(&Tok::Semi) { return None; }
        i += 1;
    }
    Some(((a, b), v))
}
fn base_name(s: &[u8]) -> Option<Ty> { TYS.into_iter().find(|t| same(t.name().as_bytes(), s)) }
fn check_ref_type(got: &yule_log::model::def::TypeExpr, s: &[u8], arr: Option<usize>) {
    match base_name(s) {
        Some(t) => sym::check(got.base_type == t.base(), "base type"),
        None => match &got.base_type { yule_log::model::def::BaseType::OTHER(n) => sym::check(same(n.as_bytes(), s), "nested type name"), _ => sym::fail("unknown type name taken for a basic type") },
    }
    sym::check(got.array_size == arr, "array size");
}
#[inline(never)]
fn check_text(s: &[u8]) {
    let mut b = ulog::header(1, 0);
    b.extend(ulog::msg(b'F', s));
    b.extend(ulog::fmt("ok:uint64_t timestamp;"));
    let mut p = parser(&b[..], NONE);
    let r = p.next();
    match (reference(s), r) {
        (Some((n, fs)), Some(Ok(UlogMessage::FormatDefinition(d)))) => {
            sym::check(same(d.name.as_bytes(), &s[n.0..n.1]), "format name");
            sym::check(d.fields.len() == fs.len(), "number of fields");
            let mut canon = s[n.0..n.1].to_vec();
            canon.push(b':');
            for (g, w) in d.fields.iter().zip(&fs) {
                check_ref_type(&g.r#type, &s[w.ty.0..w.ty.1], w.arr);
                sym::check(same(g.name.as_bytes(), &s[w.name.0..w.name.1]), "field name");
                canon.extend_from_slice(&s[w.ty.0..w.ty.1]);
                if let Some(n) = w.arr { canon.extend_from_slice(format!("[{n}]").as_bytes()); }
                canon.push(b' ');
                canon.extend_from_slice(&s[w.name.0..w.name.1]);
                canon.push(b';');
            }
            let e = emit(&UlogMessage::FormatDefinition(d));
            sym::check(same(&e, &ulog::msg(b'F', &canon)), "encoded format definition");
            match p.get_format(std::str::from_utf8(&s[n.0..n.1]).unwrap_or("")) { Ok(x) => sym::check(x.fields.len() == fs.len(), "stored format"), Err(_) => sym::fail("format not stored") }
            sym::reach("accepted");
        }
        (None, Some(Err(_))) => sym::reach("refused"),
        (Some(_), Some(Err(_))) => sym::fail("valid format definition refused"),
        (None, Some(Ok(_))) => sym::fail("invalid format definition accepted"),
        _ => sym::fail("wrong message"),
    }
    match p.next() { Some(Ok(UlogMessage::FormatDefinition(d))) => sym::check(same(d.name.as_bytes(), b"ok"), "next format"), _ => sym::fail("next format missing") }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
/// short text of any ASCII characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_any(case: u64) {
    warm();
    let n = case as usize;
    let s = ascii(n);
    check_text(&s);
}
const TEXTS: [&str; 4] = ["ab:int8_t[12] x;cd y;", "v_1: char[3] name ; uint64_t  timestamp;", "A0:float a;float[0]b;", "q:double[18446744073709551615] z;bool b;"];
/// any ASCII character at position `case % 64` of a well-formed text
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_edit(case: u64) {
    warm();
    let mut s = TEXTS[case as usize / 64].as_bytes().to_vec();
    let at = case as usize % 64;
    if at >= s.len() { sym::reach("end"); return; }
    s[at] = ascii(1)[0];
    check_text(&s);
}
/// any two adjacent ASCII characters
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_edit2(case: u64) {
    warm();
    let mut s = TEXTS[case as usize / 64].as_bytes().to_vec();
    let at = case as usize % 64;
    if at + 1 >= s.len() { sym::reach("end"); return; }
    let e = ascii(2);
    s[at] = e[0];
    s[at + 1] = e[1];
    check_text(&s);
}
/// any ASCII character inserted; one character removed; text cut
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_insert(case: u64) {
    warm();
    let mut s = TEXTS[case as usize / 64].as_bytes().to_vec();
    let at = case as usize % 64;
    if at > s.len() { sym::reach("end"); return; }
    match sym::choose(3) {
        0 => s.insert(at, ascii(1)[0]),
        1 => { if at < s.len() { s.remove(at); } }
        _ => s.truncate(at),
    }
    check_text(&s);
}
/// type names differing from a basic type in one character
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_types(case: u64) {
    warm();
    let t = TYS[case as usize].name().as_bytes();
    let at = sym::choose(t.len() as u8);
    let mut n = t.to_vec();
    n[at] = ascii(1)[0];
    let mut s = b"a:".to_vec();
    s.extend_from_slice(&n);
    s.extend_from_slice(b" f;");
    s.extend_from_slice(t);
    s.extend_from_slice(b"[2] g;");
    check_text(&s);
}
/// array sizes with up to 3 arbitrary digits among fixed ones, around the limits of 8, 16, 32 and 64 bits
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_sizes(case: u64) {
    warm();
    let (pre, k) = [("", 1usize), ("", 2), ("", 3), ("65", 3), ("4294967", 3), ("1844674407370955", 3), ("18446744073709551", 3), ("184467440737095516", 3), ("00", 2), ("99999999999999999999", 1)][case as usize];
    let mut s = b"a:int16_t[".to_vec();
    s.extend_from_slice(pre.as_bytes());
    for _ in 0..k { let d = sym::u8(); sym::assume(d >= b'0' && d <= b'9'); s.push(d); }
    s.extend_from_slice(b"] f;");
    check_text(&s);
}
/// definitions with many fields and long names
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_long(case: u64) {
    warm();
    let n = [10usize, 64, 255, 256, 300, 511, 512, 513, 1000, 3000][case as usize];
    let mut s = b"a:".to_vec();
    for i in 0..n { s.extend_from_slice(TYS[i % 12].name().as_bytes()); if i % 3 == 0 { s.extend_from_slice(format!("[{}]", i).as_bytes()) } s.extend_from_slice(format!(" f{i};").as_bytes()); }
    let c = ascii(1)[0];
    sym::assume(is_id0(c));
    s.extend_from_slice(b"x y");
    s.extend_from_slice(&vec![c; n]);
    s.push(b';');
    check_text(&s);
}
/// names that coincide with types, with each other or with the format's own name; other unusual but well-formed texts, one character of them any
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_names(case: u64) {
    warm();
    let texts = ["float:float float;", "char:char[3] char;int8_t char;", "a:a a;a[2] a;", "bool:double bool;bool[0] double;", "timestamp:uint64_t timestamp;uint64_t timestamp;", "_:_ _;_[1] _;", "int:int int;int32 int16;uint_t t;",
        "a::int8_t x;", "a:int8_t x;;", "a:;", "a:int8_t x;b:int8_t y;", "a:int8_t[2][3] x;", "a:int8_t [ 7 ] x ;", "a:int8_t\tx;\tint8_t\ny;\r\n", "a : int8_t x;", " a:int8_t x;", "a:int8_t[-1] x;", "a:int8_t[+1] x;", "a:int8_t[0x1] x;", "a:int8_t[1.0] x;", "a:int8_t[ ] x;", "a:int8_t[1]x;int8_t[2]y;",
        "Z9:UINT8_T X;Int8_t y;", "a:unsigned x;long_long_name_t y_y;", "a:int8_t x,y;", "a:int8_t* x;", "a:const int8_t x;", "a:int8_t x y;", "a:int8_t;", "a:int8_t 9;", "9:int8_t x;", "a:9 x;", "a:in-t x;", "a.b:int8_t x;", "a:int8_t x.y;", "a:int8_t[9] 9x;"];
    let s = texts[case as usize].as_bytes();
    let at = sym::choose(s.len() as u8 + 1);
    let mut s = s.to_vec();
    if at < s.len() { s[at] = [b':', b'_', b'9', b' ', b'[', b';'][sym::choose(6)]; }
    check_text(&s);
}
/// long identifiers and long white space, one character of them any: case = place + 4 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_wide(case: u64) {
    warm();
    let n = [31usize, 63, 127, 128, 255, 256, 1000][case as usize / 4];
    let id = |c: u8| { let mut v = vec![c; n]; v[n / 2] = b'_'; v[n - 1] = b'7'; v };
    let mut s = vec![];
    let x = ascii(1)[0];
    let p = case % 4;
    let mut put = |s: &mut Vec<u8>, k: u64, mut v: Vec<u8>| { if k == p { let m = v.len(); v[m - 2] = x } s.extend(v) };
    put(&mut s, 0, id(b'N'));
    s.extend(b":");
    put(&mut s, 1, id(b't'));
    put(&mut s, 3, vec![b' '; n]);
    put(&mut s, 2, id(b'f'));
    s.extend(b";int8_t[4] z;");
    check_text(&s);
}
/// two-byte non-ASCII characters are not part of names; one byte of them alone is not UTF-8: case = place + 7 * (first byte - 0xc3)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_utf8(case: u64) {
    warm();
    let first = 0xc3 + (case / 7) as u8;
    let second = sym::u8();
    sym::assume(second >= 0x80 && second < 0xc0);
    let pos = [0usize, 1, 2, 5, 8, 11, 14][case as usize % 7];
    let mut b = b"a:int8_t f; ".to_vec();
    let at = pos.min(b.len());
    b.insert(at, second);
    b.insert(at, first);
    if sym::choose(2) == 1 { b.remove(at); }
    let mut f = File::new();
    f.bad(b'F', &b);
    f.format("ok", &[fv("t", V::S(Ty::U8, vec![]))]);
    run(&f);
    sym::reach("end");
}

// ---------------------------------------------------------------- C14 keyed messages
/// what an I, M, P or Q body must give: reference reading of key length, key and value
#[inline(never)]
fn expect_keyed(t: u8, body: &[u8]) -> Option<Exp> {
    let pre = (t == b'M' || t == b'Q') as usize;
    if body.len() <= pre { return None; }
    let n = sym::concrete(body[pre] as u64) as usize;
    let rest = &body[pre + 1..];
    if rest.len() < n { return None; }
    let key = &rest[..n];
    let toks = lex(key);
    let mut i = 0;
    let f = field(&toks, &mut i)?;
    if i != toks.len() { return None; }
    let ty = base_name(&key[f.ty.0..f.ty.1])?;
    let cnt = f.arr.unwrap_or(1);
    let len = ty.size().checked_mul(cnt)?;
    if rest.len() - n < len { return None; }
    let val = rest[n..n + len].to_vec();
    let v = match f.arr { None => V::S(ty, val), Some(c) => V::A(ty, c, val) };
    let key = String::from_utf8(key[f.name.0..f.name.1].to_vec()).ok()?;
    Some(match t {
        b'I' => Exp::Info { key, v },
        b'M' => Exp::Multi { cont: body[0] != 0, key, v },
        _ => {
            if f.arr.is_some() || !matches!(ty, Ty::I32 | Ty::F32) { return None; }
            if t == b'P' { Exp::Param { key, v } } else { Exp::Default { types: body[0], key, v } }
        }
    })
}
const KEYED: [u8; 4] = *b"IMPQ";
#[inline(never)]
fn check_keyed(t: u8, body: &[u8], in_data: bool) {
    let mut f = File::new();
    if in_data { formats(&mut f); subs(&mut f); }
    let e = expect_keyed(t, body);
    match &e { Some(_) => sym::reach("accepted"), None => sym::reach("refused") }
    f.push(ulog::msg(t, body), e.unwrap_or(Exp::Err));
    f.info("k", scalar(Ty::U8));
    run(&f);
    sym::reach("end");
}
const KEYS: [&str; 6] = ["int32_t ab", "float[2] k", "float MC_1", "char[4] n_9", "uint8_t  q ", "bool x"];
fn body(t: u8, len: u8, key: &[u8], n: usize) -> Vec<u8> {
    let mut b = vec![];
    if t == b'M' || t == b'Q' { b.push(sym::u8()); }
    b.push(len);
    b.extend_from_slice(key);
    b.extend(sym::vec(n));
    if key.starts_with(b"bool") { for x in &b[b.len() - n..] { sym::assume(*x <= 1) } }
    b
}
/// any key length with a fixed key text: case = type + 4 * key + 24 * section
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_keylen(case: u64) {
    warm();
    let t = KEYED[case as usize % 4];
    let key = KEYS[case as usize / 4 % 6].as_bytes();
    let mut b = body(t, sym::u8(), key, 9);
    // bytes which a longer key length makes part of the key
    let n = b.len();
    b[n - 9..].copy_from_slice(if key.starts_with(b"bool") { &[1; 9] } else { b"z9_ \x01;:[]" });
    check_keyed(t, &b, case >= 24);
}
/// any value length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_value(case: u64) {
    warm();
    let t = KEYED[case as usize % 4];
    let key = KEYS[case as usize / 4 % 6].as_bytes();
    let n = sym::choose(10);
    let b = body(t, key.len() as u8, key, n);
    check_keyed(t, &b, case >= 24);
}
/// any ASCII character anywhere in the key
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_key(case: u64) {
    warm();
    let t = KEYED[case as usize % 4];
    let mut key = KEYS[case as usize / 4].as_bytes().to_vec();
    let at = sym::choose(key.len() as u8);
    key[at] = ascii(1)[0];
    // the value must not be read as a bool that is neither 0 nor 1
    let b = body(t, key.len() as u8, &key, 8);
    check_keyed(t, &b, false);
}
/// every basic type as scalar and array
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_types(case: u64) {
    warm();
    let t = KEYED[case as usize % 4];
    let k = sym::choose(36);
    let ty = TYS[k % 12];
    let key = match k / 12 { 0 => format!("{} key", ty.name()), 1 => format!("{}[1] key", ty.name()), _ => format!("{}[3] key", ty.name()) };
    let n = ty.size() * [1, 1, 3][k / 12];
    let mut b = vec![];
    if t == b'M' || t == b'Q' { b.push(sym::u8()); }
    b.push(key.len() as u8);
    b.extend_from_slice(key.as_bytes());
    b.extend(raw(ty, n / ty.size()));
    check_keyed(t, &b, case >= 4);
}
/// text after the name, and characters outside ASCII (whole or one byte of them) anywhere in the key: case = kind + 4 * key + 24 * section
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_tail(case: u64) {
    warm();
    let c = case as usize;
    let t = KEYED[c % 4];
    let mut key = KEYS[c / 4 % 6].trim_end().as_bytes().to_vec();
    match sym::choose(4) {
        0 => { key.push([b'/', b'-', b'.', b' ', b';', b'['][sym::choose(6)]); key.extend(ascii(1)) }
        1 => { key.extend(b" x y 9 [1]"); let k = sym::choose(10); let l = key.len(); key.truncate(l - k) }
        k => {
            let at = sym::choose(key.len() as u8 + 1);
            let x = sym::u8();
            sym::assume(x >= 0x80 && x < 0xc0);
            key.insert(at, x);
            if k == 3 { key.insert(at, 0xc3 + 5 * sym::choose(4) as u8) }
        }
    }
    let b = body(t, key.len() as u8, &key, 8);
    check_keyed(t, &b, c >= 24);
}
/// every basic type as scalar and array of one and two with a value of any length up to two bytes too many: case = kind + 4 * section + 8 * type
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_lens(case: u64) {
    warm();
    let c = case as usize;
    let t = KEYED[c % 4];
    let ty = TYS[c / 8];
    let m = sym::choose(3);
    let key = match m { 0 => format!("{} key", ty.name()), m => format!("{}[{m}] key", ty.name()) };
    let n = sym::choose((ty.size() * m.max(1)) as u8 + 3);
    let mut b = vec![];
    if t == b'M' || t == b'Q' { b.push(sym::u8()); }
    b.push(key.len() as u8);
    b.extend_from_slice(key.as_bytes());
    let v = sym::vec(n);
    if ty == Ty::Bool { for x in &v { sym::assume(*x <= 1) } }
    b.extend(v);
    check_keyed(t, &b, c / 4 % 2 == 1);
}
/// long keys and bodies cut to nothing
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_edges(case: u64) {
    warm();
    let t = KEYED[case as usize % 4];
    match case as usize / 4 {
        0 => { let n = sym::choose(4); let b = sym::vec(n); for x in &b { sym::assume(*x < 128) } check_keyed(t, &b, false); }
        k => {
            let n = [247usize, 246, 120, 119][k - 1];
            let mut key = b"int32_t ".to_vec();
            key.extend(vec![b'k'; n]);
            let l = key.len() as u8;
            let d = sym::u8();
            sym::assume(d == l || d == l.wrapping_sub(1) || d == l.wrapping_add(1) || d == 127 || d == 128 || d == 255);
            let b = body(t, d, &key, 4);
            check_keyed(t, &b, false);
        }
    }
}
/// values of no, many and very many bytes in every kind of keyed message: case = kind + 4 * section + 8 * size
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_sizes(case: u64) {
    warm();
    let c = case as usize;
    let t = KEYED[c % 4];
    let ty = TYS[sym::choose(12)];
    let n = [0usize, 1, 31, 32, 255, 256, 1000, 8000][c / 8];
    let key = format!("{}[{n}] a_{n}", ty.name());
    let pre: Vec<u8> = if t == b'M' || t == b'Q' { vec![sym::u8()] } else { vec![] };
    let mut v: Vec<u8> = (0..n * ty.size()).map(|i| if ty == Ty::Bool { (i % 3 == 0) as u8 } else { (i * 5 + i / 256) as u8 }).collect();
    let m = v.len();
    if n > 0 { let r = raw(ty, 1); v[m - ty.size()..].copy_from_slice(&r); }
    let mut b = pre;
    b.push(key.len() as u8);
    b.extend(key.bytes());
    b.extend(v);
    let cut = sym::choose(3);
    if cut > 0 { let l = b.len(); b.truncate(l - cut.min(l)) }
    check_keyed(t, &b, c / 4 % 2 == 1);
}
/// several keyed messages in a row, in both sections: each is returned as it is in the file, whatever came before
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_seq(case: u64) {
    warm();
    let mut f = File::new();
    let one = |f: &mut File, k: usize| {
        let key = ["ab", "cd"][k / 4 % 2];
        match k % 4 {
            0 => { f.info(key, scalar(Ty::U16)); }
            1 => { let c = sym::u8(); f.multi(c, key, array(Ty::Char, 2)); }
            2 => { f.param(key, scalar(if k < 8 { Ty::I32 } else { Ty::F32 })); }
            _ => { let t = sym::u8(); f.default(t, key, scalar(if k < 8 { Ty::I32 } else { Ty::F32 })); }
        }
    };
    one(&mut f, case as usize % 8);
    let k = sym::choose(16);
    one(&mut f, k);
    one(&mut f, case as usize % 8);
    formats(&mut f);
    subs(&mut f);
    one(&mut f, k);
    one(&mut f, case as usize / 8);
    data_msg(&mut f, 0);
    one(&mut f, case as usize % 8);
    run(&f);
    sym::reach("end");
}

// ---------------------------------------------------------------- C16 logged text
fn utf8(b: &[u8]) -> bool {
    let c = |i: usize| i < b.len() && b[i] & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x < 0x80 { i += 1; }
        else if x >= 0xc2 && x < 0xe0 { if !c(i + 1) { return false; } i += 2; }
        else if x >= 0xe0 && x < 0xf0 {
            if !c(i + 1) || !c(i + 2) || (x == 0xe0 && b[i + 1] < 0xa0) || (x == 0xed && b[i + 1] >= 0xa0) { return false; }
            i += 3;
        } else if x >= 0xf0 && x < 0xf5 {
            if !c(i + 1) || !c(i + 2) || !c(i + 3) || (x == 0xf0 && b[i + 1] < 0x90) || (x == 0xf4 && b[i + 1] >= 0x90) { return false; }
            i += 4;
        } else { return false; }
    }
    true
}
/// any level, tag, timestamp and text of `case % 8` bytes; case >= 8: tagged
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_text(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    let (lv, t) = (sym::u8(), sym::u64());
    let tag = if case >= 8 { Some(sym::u16()) } else { None };
    let x = sym::vec(case as usize % 8);
    let ok = lv >= b'0' && lv <= b'7' && utf8(&x);
    f.log(lv, tag, t, &x);
    if !ok { *f.exp.last_mut().unwrap() = Exp::Err; sym::reach("refused"); } else { sym::reach("accepted"); }
    f.dropout(sym::u16());
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    let mut out = vec![];
    for m in r.iter().flatten() { out.extend(emit(m)); }
    if ok { sym::check(same(&out, &f.bytes), "re-encoded file differs"); }
    sym::reach("end");
}
/// fixed part cut short
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_short(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    let (t, min) = [(b'L', 9usize), (b'C', 11), (b'O', 2)][case as usize];
    let n = sym::choose(min as u8);
    f.bad(t, &sym::vec(n));
    f.log(b'0' + sym::below(8), None, sym::u64(), b"");
    f.log(b'0' + sym::below(8), Some(sym::u16()), sym::u64(), b"");
    f.dropout(sym::u16());
    run(&f);
    sym::reach("end");
}
/// long texts of characters of 2 to 4 bytes; the last character complete or cut, followed by any byte or not: case = character + 3 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_wide(case: u64) {
    warm();
    let ch = ["\u{e9}", "\u{20ac}", "\u{1d11e}"][case as usize % 3].as_bytes();
    let n = [2usize, 40, 85, 128, 250, 5000][case as usize / 3];
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    let mut x = vec![];
    for i in 0..n { if i % 11 == 10 { x.push(b'a' + (i % 26) as u8) } x.extend(ch) }
    let cut = sym::choose(ch.len() as u8);
    let m = x.len();
    x.truncate(m - cut);
    if sym::choose(2) == 1 { x.push(sym::u8()) }
    // (only the last five bytes are in question)
    let tail = { let mut k = x.len().saturating_sub(6); while x[k] & 0xc0 == 0x80 { k += 1 } k };
    let ok = utf8(&x[tail..]);
    for tag in [None, Some(sym::u16())] { f.log(b'0' + sym::below(8), tag, sym::u64(), &x); if !ok { *f.exp.last_mut().unwrap() = Exp::Err; } }
    if ok { sym::reach("accepted") } else { sym::reach("refused") }
    f.dropout(sym::u16());
    run(&f);
    sym::reach("end");
}
/// long texts
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_long(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    let n = [127usize, 128, 255, 256, 4096, 65524][case as usize];
    let mut x = vec![b'm'; n];
    for i in (0..n).step_by(97) { x[i] = b'\n'; }
    x[0] = ascii(1)[0];
    x[n - 1] = ascii(1)[0];
    f.log(b'6', None, sym::u64(), &x);
    f.log(b'6', Some(sym::u16()), sym::u64(), &x);
    f.dropout(sym::u16());
    run(&f);
    sym::reach("end");
}
harnesses!(c12_twice, c14_lens, c13_names, c13_wide, c14_tail, c14_sizes, c16_wide, c14_seq, c12_header, c12_flags, c12_short, c12_stop, c13_any, c13_edit, c13_edit2, c13_insert, c13_types, c13_sizes, c13_long, c13_utf8, c14_keylen, c14_value, c14_key, c14_types, c14_edges, c16_text, c16_short, c16_long);
