//! C18: encoding of messages built by hand, to writers that misbehave.
use harness::{gen::ascii, harnesses, model::*, sizes::{self, bytes, ident, pick}, sym, ulog};
use std::io::{ErrorKind, Write};
use yule_log::encode::Encode;
use yule_log::model::{def, inst, msg, CChar, Shared};
use yule_log::model::msg::{LogLevel, UlogMessage};

macro_rules! scal { ($t:ident, $w:expr, $b:expr) => { <$t>::from_le_bytes($b[..$w].try_into().unwrap()) } }
macro_rules! arr { ($t:ident, $w:expr, $b:expr) => { $b.chunks_exact($w).map(|c| scal!($t, $w, c)).collect() } }
/// the crate's value for a specified one
#[inline(never)]
fn value(v: &V) -> inst::FieldValue {
    use inst::FieldValue::*;
    match v {
        V::S(t, b) => match t {
            Ty::U8 => ScalarU8(b[0]), Ty::U16 => ScalarU16(scal!(u16, 2, b)), Ty::U32 => ScalarU32(scal!(u32, 4, b)), Ty::U64 => ScalarU64(scal!(u64, 8, b)),
            Ty::I8 => ScalarI8(b[0] as i8), Ty::I16 => ScalarI16(scal!(i16, 2, b)), Ty::I32 => ScalarI32(scal!(i32, 4, b)), Ty::I64 => ScalarI64(scal!(i64, 8, b)),
            Ty::F32 => ScalarF32(f32::from_bits(scal!(u32, 4, b))), Ty::F64 => ScalarF64(f64::from_bits(scal!(u64, 8, b))), Ty::Bool => ScalarBool(b[0] & 1 != 0), Ty::Char => ScalarChar(CChar(b[0])),
        },
        V::A(t, _, b) => match t {
            Ty::U8 => ArrayU8(b.clone()), Ty::U16 => ArrayU16(arr!(u16, 2, b)), Ty::U32 => ArrayU32(arr!(u32, 4, b)), Ty::U64 => ArrayU64(arr!(u64, 8, b)),
            Ty::I8 => ArrayI8(b.iter().map(|x| *x as i8).collect()), Ty::I16 => ArrayI16(arr!(i16, 2, b)), Ty::I32 => ArrayI32(arr!(i32, 4, b)), Ty::I64 => ArrayI64(arr!(i64, 8, b)),
            Ty::F32 => ArrayF32(b.chunks_exact(4).map(|c| f32::from_bits(scal!(u32, 4, c))).collect()), Ty::F64 => ArrayF64(b.chunks_exact(8).map(|c| f64::from_bits(scal!(u64, 8, c))).collect()),
            Ty::Bool => ArrayBool(b.iter().map(|x| x & 1 != 0).collect()), Ty::Char => ArrayChar(b.iter().map(|x| CChar(*x)).collect()),
        },
        V::N(n) => ScalarOther(Shared::new(nested(n))),
        V::AN(_, l) => ArrayOther(l.iter().map(nested).collect()),
    }
}
fn ty(v: &V) -> def::TypeExpr {
    let (base_type, array_size) = match v { V::S(t, _) => (t.base(), None), V::A(t, n, _) => (t.base(), Some(*n)), V::N(n) => (def::BaseType::OTHER(n.name.clone()), None), V::AN(s, l) => (def::BaseType::OTHER(s.clone()), Some(l.len())) };
    def::TypeExpr { base_type, array_size }
}
fn defs(name: &str, fields: &[Fv]) -> def::Format { def::Format { name: name.into(), fields: fields.iter().map(|f| def::Field { name: f.name.as_str().into(), r#type: ty(&f.v) }).collect(), padding: 0 } }
fn nested(n: &Nested) -> inst::Format {
    inst::Format { timestamp: None, name: n.name.as_str().into(), fields: n.fields.iter().map(|f| inst::Field { name: f.name.as_str().into(), r#type: ty(&f.v), value: value(&f.v) }).collect(), multi_id_index: None, def_format: Shared::new(defs(&n.name, &n.fields)) }
}
fn text(n: usize) -> String { String::from_utf8(ascii(n)).unwrap() }
fn key_body(v: &V, key: &str) -> Vec<u8> { let k = format!("{} {}", v.type_text(), key); let mut b = vec![k.len() as u8]; b.extend_from_slice(k.as_bytes()); v.bytes(&mut b); b }
fn leaf() -> Nested { Nested { name: "leaf".into(), fields: vec![fv("p", scalar(Ty::I16)), fv("q", array(Ty::Bool, 2))] } }
fn kind(k: usize) -> V { match k { 0..=11 => scalar(TYS[k]), 12..=23 => array(TYS[k - 12], 2), 24..=35 => V::A(TYS[k - 24], 0, vec![]), 36 => V::N(leaf()), _ => V::AN("leaf".into(), vec![leaf(), leaf()]) } }
const N: usize = 14;
/// a message with symbolic contents and the bytes it must be encoded to
#[inline(never)]
fn message(k: usize, v: V) -> (UlogMessage, Vec<u8>) {
    match k {
        0 => { let (v, t) = (sym::u8(), sym::u64()); (UlogMessage::Header(msg::FileHeader { version: v, timestamp: t }), ulog::header(v, t)) }
        1 => {
            let b = sym::vec(40);
            let m = msg::FlagBits { compat_flags: b[..8].try_into().unwrap(), incompat_flags: b[8..16].try_into().unwrap(), appended_data_offsets: [le64(&b[16..]), le64(&b[24..]), le64(&b[32..])] };
            (UlogMessage::FlagBits(m), ulog::msg(b'B', &b))
        }
        2 => { let f = [fv("timestamp", V::S(Ty::U64, vec![])), fv("x_1", v)]; (UlogMessage::FormatDefinition(defs("name", &f)), ulog::fmt(&format_text("name", &f))) }
        3 => {
            let f = Nested { name: "d".into(), fields: vec![fv("timestamp", scalar(Ty::U64)), fv("x", v), fv("_padding0", array(Ty::U8, 2))] };
            let id = sym::u16();
            let p = payload(&f.fields);
            (UlogMessage::LoggedData(msg::LoggedData { timestamp: sym::u64(), msg_id: id, data: nested(&f) }), ulog::data(id, &p))
        }
        4 => { let (m, i) = (sym::u8(), sym::u16()); (UlogMessage::AddSubscription(msg::Subscription { multi_id: m, msg_id: i, message_name: "sub_1".into() }), ulog::sub(m, i, "sub_1")) }
        5 => { let b = key_body(&v, "key"); (UlogMessage::Info(msg::Info { key: "key".into(), r#type: ty(&v), value: value(&v) }), ulog::msg(b'I', &b)) }
        6 => {
            let c = sym::below(2);
            let mut b = vec![c];
            b.extend(key_body(&v, "key"));
            (UlogMessage::MultiInfo(msg::MultiInfo { is_continued: c == 1, key: "key".into(), r#type: ty(&v), value: value(&v) }), ulog::msg(b'M', &b))
        }
        7 => { let v = scalar(Ty::I32); let V::S(_, x) = &v else { unreachable!() }; let b = key_body(&v, "MC_P"); (UlogMessage::Parameter(msg::Parameter { key: "MC_P".into(), r#type: ty(&v), value: inst::ParameterValue::INT32(le32(x) as i32) }), ulog::msg(b'P', &b)) }
        8 => {
            let v = scalar(Ty::F32);
            let V::S(_, x) = &v else { unreachable!() };
            let t = sym::u8();
            let mut b = vec![t];
            b.extend(key_body(&v, "MC_Q"));
            (UlogMessage::DefaultParameter(msg::DefaultParameter { key: "MC_Q".into(), default_types: t, r#type: ty(&v), value: inst::ParameterValue::FLOAT(f32::from_bits(le32(x))) }), ulog::msg(b'Q', &b))
        }
        9 | 10 => {
            let lv = [LogLevel::Emerg, LogLevel::Alert, LogLevel::Crit, LogLevel::Err, LogLevel::Warning, LogLevel::Notice, LogLevel::Info, LogLevel::Debug];
            let i = sym::choose(8);
            let (g, t, s) = (sym::u16(), sym::u64(), text(3));
            let mut b = vec![b'0' + i as u8];
            if k == 10 { b.extend(g.to_le_bytes()); }
            b.extend(t.to_le_bytes());
            b.extend(s.bytes());
            let m = msg::LoggedString { level: lv[i], tag: if k == 10 { Some(g) } else { None }, timestamp: t, msg: s };
            let m = if k == 10 && sym::choose(2) == 1 { UlogMessage::TaggedLoggedString(m) } else { UlogMessage::LoggedString(m) };
            (m, ulog::msg(if k == 10 { b'C' } else { b'L' }, &b))
        }
        11 => { let t = sym::u8(); let b = sym::vec(5); (UlogMessage::Unhandled { msg_type: t, message_contents: b.clone() }, ulog::msg(t, &b)) }
        12 => { let t = sym::u8(); (UlogMessage::Unhandled { msg_type: t, message_contents: vec![] }, ulog::msg(t, &[])) }
        _ => { let f: [Fv; 0] = []; (UlogMessage::FormatDefinition(defs("empty", &f)), ulog::fmt("empty:")) }
    }
}
/// message kind `case`, with a value of any kind: exactly the specified bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_bytes(case: u64) {
    let k = if matches!(case, 2 | 3 | 5 | 6) { sym::choose(38) } else { 0 };
    let (m, want) = message(case as usize, kind(k));
    let mut out = Vec::new();
    sym::check(m.encode(&mut out).is_ok(), "encoding failed");
    sym::check(same(&out, &want), "encoded bytes");
    // a reference encodes the same, and appends
    sym::check(<&UlogMessage as Encode>::encode(&&m, &mut out).is_ok(), "second encoding failed");
    sym::check(out.len() == 2 * want.len() && same(&out[want.len()..], &want), "appended bytes");
    sym::reach("end");
}
struct Bad { out: Vec<u8>, at: usize, how: u8, failed: bool, calls_after: usize, take: usize }
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.failed { self.calls_after += 1; }
        if b.is_empty() { return Ok(0); }
        let left = self.at.saturating_sub(self.out.len());
        if left == 0 {
            match self.how {
                0 => { self.failed = true; return Err(std::io::Error::from(ErrorKind::StorageFull)); }
                1 => { self.failed = true; return Ok(0); }
                _ => {}
            }
        }
        let n = match self.how {
            2 => 1,
            4 => b.len().min(5),
            5 => b.len(),
            6 => b.len().min(self.take),
            3 => if self.out.len() % 3 == 1 && !self.failed { self.failed = true; self.calls_after = 0; return Err(std::io::Error::from(ErrorKind::Interrupted)) } else { self.failed = false; b.len().min(2) },
            _ => b.len().min(left),
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// writers that fail after any number of bytes, take nothing, take one byte at a time, or are interrupted
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_writer(case: u64) {
    let k = case as usize % N;
    let how = (case as usize / N) as u8;
    let (m, want) = message(k, if k == 3 { V::AN("leaf".into(), vec![leaf(), leaf()]) } else { array(Ty::I32, 2) });
    let at = if how < 2 { sym::choose(want.len() as u8) } else { 0 };
    let mut w = Bad { out: vec![], at, how, failed: false, calls_after: 0, take: 0 };
    let r = m.encode(&mut w);
    if how < 2 {
        match r {
            Ok(()) => sym::fail("success although the writer failed"),
            Err(e) => sym::check(e.kind() == if how == 0 { ErrorKind::StorageFull } else { ErrorKind::WriteZero }, "kind of the error"),
        }
        sym::check(w.calls_after == 0, "writing goes on after an error");
        sym::check(w.out.len() == at && same(&w.out, &want[..at]), "bytes before the error");
    } else {
        sym::check(r.is_ok(), "failure although the writer works");
        sym::check(same(&w.out, &want), "bytes written in pieces");
    }
    sym::reach("end");
}
/// the largest encodable message of each kind, and one byte more: case = kind + 8 * excess
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_limit(case: u64) {
    let over = [0usize, 1, 2, 65536][case as usize / 8];
    let n = 65535 + over;
    let e = sym::u8();
    let fill = |k: usize| { let mut v = vec![b'z'; k]; v[k - 1] = e; v };
    sym::assume(e < 128);
    let s = |k: usize| String::from_utf8(fill(k)).unwrap();
    let id = sym::u16();
    let (m, t, body) = match case % 8 {
        0 => (UlogMessage::Unhandled { msg_type: b'x', message_contents: fill(n) }, b'x', fill(n)),
        1 => (UlogMessage::LoggedString(msg::LoggedString { level: LogLevel::Info, tag: None, timestamp: 7, msg: s(n - 9) }), b'L', [&b"6"[..], &7u64.to_le_bytes(), &fill(n - 9)].concat()),
        2 => (UlogMessage::LoggedString(msg::LoggedString { level: LogLevel::Info, tag: Some(id), timestamp: 7, msg: s(n - 11) }), b'C', [&b"6"[..], &id.to_le_bytes(), &7u64.to_le_bytes(), &fill(n - 11)].concat()),
        3 => (UlogMessage::AddSubscription(msg::Subscription { multi_id: 1, msg_id: id, message_name: s(n - 3) }), b'A', [&[1u8][..], &id.to_le_bytes(), &fill(n - 3)].concat()),
        4 => { let v = V::A(Ty::U8, n - 2, fill(n - 2)); let f = Nested { name: "d".into(), fields: vec![fv("x", v)] }; (UlogMessage::LoggedData(msg::LoggedData { timestamp: 0, msg_id: id, data: nested(&f) }), b'D', [&id.to_le_bytes()[..], &fill(n - 2)].concat()) }
        5 => { let c = n - 1 - format!("uint8_t[{}] k", n).len(); let v = V::A(Ty::U8, c, fill(c)); let b = key_body(&v, "k"); (UlogMessage::Info(msg::Info { key: "k".into(), r#type: ty(&v), value: value(&v) }), b'I', b) }
        6 => { let c = n - 2 - format!("char[{}] k", n).len(); let v = V::A(Ty::Char, c, fill(c)); let mut b = vec![1]; b.extend(key_body(&v, "k")); (UlogMessage::MultiInfo(msg::MultiInfo { is_continued: true, key: "k".into(), r#type: ty(&v), value: value(&v) }), b'M', b) }
        _ => { let f = vec![fv("x", V::S(Ty::U8, vec![]))]; let name = String::from_utf8(vec![b'n'; n - "uint8_t x;".len() - 1]).unwrap(); let b = format_text(&name, &f).into_bytes(); (UlogMessage::FormatDefinition(defs(&name, &f)), b'F', b) }
    };
    let mut out = Vec::new();
    let r = m.encode(&mut out);
    if body.len() <= 65535 {
        sym::check(r.is_ok(), "largest message refused");
        sym::check(out.len() == body.len() + 3 && out[0] as usize + 256 * out[1] as usize == body.len() && out[2] == t, "size and type");
        sym::check(same(&out[3..], &body), "contents");
        sym::reach("fits");
    } else {
        match r { Ok(()) => sym::fail("message too large for its size field encoded"), Err(e) => sym::check(e.kind() == ErrorKind::InvalidInput, "kind of the error") }
        sym::check(out.is_empty(), "bytes written for a message too large");
        sym::reach("refused");
    }
    sym::reach("end");
}
/// keys of 254 to 257 and of 511 to 513 characters: case = kind + 4 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_key(case: u64) {
    let n = [253usize, 254, 255, 256, 257, 511, 512, 513][case as usize / 4];
    let v = scalar(Ty::I32);
    let V::S(_, x) = &v else { unreachable!() };
    let mut key = vec![b'k'; n - "int32_t ".len()];
    key[0] = ascii(1)[0];
    let key = String::from_utf8(key).unwrap();
    let pv = inst::ParameterValue::INT32(le32(x) as i32);
    let c = sym::below(2);
    let pre: &[u8] = if case % 4 % 2 == 1 { &[c] } else { &[] };
    let (m, t) = match case % 4 {
        0 => (UlogMessage::Info(msg::Info { key: key.clone(), r#type: ty(&v), value: value(&v) }), b'I'),
        1 => (UlogMessage::MultiInfo(msg::MultiInfo { is_continued: c == 1, key: key.clone(), r#type: ty(&v), value: value(&v) }), b'M'),
        2 => (UlogMessage::Parameter(msg::Parameter { key: key.clone(), r#type: ty(&v), value: pv }), b'P'),
        _ => (UlogMessage::DefaultParameter(msg::DefaultParameter { key: key.clone(), default_types: c, r#type: ty(&v), value: pv }), b'Q'),
    };
    let mut out = Vec::new();
    let r = m.encode(&mut out);
    if n <= 255 {
        sym::check(r.is_ok(), "longest key refused");
        sym::check(same(&out, &ulog::msg(t, &[pre, &key_body(&v, &key)].concat())), "encoded bytes");
    } else {
        match r { Ok(()) => sym::fail("key too long for its length field encoded"), Err(e) => sym::check(e.kind() == ErrorKind::InvalidInput, "kind of the error") }
        sym::check(out.is_empty(), "bytes written for a key too long");
    }
    sym::reach("end");
}
/// the parts of messages encode on their own to the bytes they contribute
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_parts(case: u64) {
    let v = kind(case as usize);
    let mut want = vec![];
    v.bytes(&mut want);
    let mut out = Vec::new();
    sym::check(value(&v).encode(&mut out).is_ok() && same(&out, &want), "value");
    out.clear();
    sym::check(ty(&v).encode(&mut out).is_ok() && same(&out, v.type_text().as_bytes()), "type");
    out.clear();
    let f = Nested { name: "n".into(), fields: vec![fv("a", v.clone()), fv("b", scalar(Ty::U16))] };
    let g = nested(&f);
    sym::check(g.encode(&mut out).is_ok() && same(&out, &payload(&f.fields)), "record");
    out.clear();
    sym::check(g.fields[0].encode(&mut out).is_ok() && same(&out, &want), "field");
    out.clear();
    sym::check(g.def_format.encode(&mut out).is_ok() && same(&out, f.format_text().as_bytes()), "definition");
    out.clear();
    sym::check(g.def_format.fields[0].encode(&mut out).is_ok() && same(&out, format!("{} a", v.type_text()).as_bytes()), "field definition");
    sym::reach("end");
}
/// long arrays to writers of every kind: case = type (12: nested values) + 13 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_arrays(case: u64) {
    let k = case as usize % 13;
    let n = [17usize, 63, 64, 65, 129, 256, 257, 1000][case as usize / 13];
    let v = long(k, n);
    let mut want = vec![];
    v.bytes(&mut want);
    let x = value(&v);
    let how = sym::choose(6) as u8;
    let at = if how < 2 { [0, 1, want.len() / 2, want.len() - 1][sym::choose(4)] } else { 0 };
    let mut w = Bad { out: vec![], at, how, failed: false, calls_after: 0, take: 0 };
    let r = x.encode(&mut w);
    if how < 2 {
        sym::check(matches!(r, Err(e) if e.kind() == if how == 0 { ErrorKind::StorageFull } else { ErrorKind::WriteZero }), "kind of the error");
        sym::check(w.out.len() == at && same(&w.out, &want[..at]), "bytes before the error");
    } else {
        sym::check(r.is_ok(), "failure although the writer works");
        sym::check(same(&w.out, &want), "bytes of a long array");
    }
    sym::reach("end");
}
/// an array of n elements of type k (12: nested values), one of them symbolic
#[inline(never)]
fn long(k: usize, n: usize) -> V {
    if k < 12 {
        let w = TYS[k].size();
        let mut b: Vec<u8> = (0..n * w).map(|i| if k == 10 { (i % 3 == 1) as u8 } else { (i * 7 + i / 256) as u8 }).collect();
        if n > 0 {
            let at = [0, n / 2, n - 1][sym::choose(3)];
            let V::S(_, x) = scalar(TYS[k]) else { unreachable!() };
            b[at * w..at * w + w].copy_from_slice(&x);
        }
        V::A(TYS[k], n, b)
    } else { let e = leaf(); V::AN("leaf".into(), (0..n).map(|_| e.clone()).collect()) }
}
/// arrays of every type split into scalars and flattened: case = type (12: nested values) + 13 * length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_split(case: u64) {
    split(case as usize % 13, [0usize, 1, 3, 65, 100, 101, 256, 257, 1000][case as usize / 13]);
    sym::reach("end");
}
/// the same with every length: case = type + 13 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_sweep(case: u64) {
    for n in pick(1001, case as usize / 13, 2) { split(case as usize % 13, n) }
    sym::reach("end");
}
#[inline(never)]
#[allow(deprecated)]
fn split(k: usize, n: usize) {
    let v = long(k, n);
    let one = |v: &inst::FieldValue| { let mut o = Vec::new(); sym::check(v.encode(&mut o).is_ok(), "encoding failed"); o };
    let elem = |i: usize| -> Vec<u8> { match &v { V::A(t, _, b) => b[i * t.size()..(i + 1) * t.size()].to_vec(), V::AN(_, l) => { let mut o = vec![]; for f in &l[i].fields { f.v.bytes(&mut o) } o } _ => unreachable!() } };
    let kind = std::mem::discriminant(&value(&if k < 12 { scalar(TYS[k]) } else { V::N(leaf()) }));
    match value(&v).to_scalars() {
        Some(l) => {
            sym::check(l.len() == n, "number of scalars");
            for (i, s) in l.iter().enumerate() { sym::check(std::mem::discriminant(s) == kind, "type of a scalar"); sym::check(same(&one(s), &elem(i)), "scalar"); }
        }
        None => sym::fail("array not split"),
    }
    let s = if k < 12 { scalar(TYS[k]) } else { V::N(leaf()) };
    let mut sb = vec![];
    s.bytes(&mut sb);
    let f = nested(&Nested { name: "top".into(), fields: vec![fv("s", s), fv("arr", v.clone()), fv("e", scalar(Ty::U8))] });
    let mut want: Vec<(String, Vec<u8>)> = vec![];
    let mut put = |p: String, b: &[u8]| if k < 12 { want.push((p, b.to_vec())) } else { want.push((p.clone() + "/p", b[..2].to_vec())); for j in 0..2 { want.push((format!("{}/q.0{}", p, j), b[2 + j..3 + j].to_vec())) } };
    put("top/s".into(), &sb);
    for i in 0..n { put(format!("top/arr.{}{}", if i < 10 { "0" } else { "" }, i), &elem(i)); }
    let got = f.flatten();
    sym::check(got.len() == want.len() + 1, "number of values");
    for ((gp, gv), (wp, wv)) in got.iter().zip(&want) {
        sym::check(same(gp.as_bytes(), wp.as_bytes()), "path");
        sym::check(same(&one(gv), wv), "flattened value");
        sym::check(k == 12 || std::mem::discriminant(gv) == kind, "type of a flattened value");
    }
    sym::check(got[want.len()].0 == "top/e", "path of the last field");
}
/// parts of every size, writers that take any number of bytes per call or fail after any: case = kind + 12 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_sweep(case: u64) {
    for n in pick(65000, case as usize / 12, 4) {
        let k = case as usize % 12;
        if k >= 8 { writers(k, n); continue }
        let small = n.min(240);
        let t = String::from_utf8(sizes::text(n)).unwrap();
        let (m, want) = match k {
            0 => { let (c, b) = (sym::u8(), bytes(n)); (UlogMessage::Unhandled { msg_type: c, message_contents: b.clone() }, ulog::msg(c, &b)) }
            1 => { let b = [&b"4"[..], &9u64.to_le_bytes(), t.as_bytes()].concat(); (UlogMessage::LoggedString(msg::LoggedString { level: LogLevel::Warning, tag: None, timestamp: 9, msg: t }), ulog::msg(b'L', &b)) }
            2 => { let g = sym::u16(); let b = [&b"7"[..], &g.to_le_bytes(), &9u64.to_le_bytes(), t.as_bytes()].concat(); (UlogMessage::LoggedString(msg::LoggedString { level: LogLevel::Debug, tag: Some(g), timestamp: 9, msg: t }), ulog::msg(b'C', &b)) }
            3 => { let x = ident(n); let id = sym::u16(); let w = ulog::sub(3, id, &x); (UlogMessage::AddSubscription(msg::Subscription { multi_id: 3, msg_id: id, message_name: x.as_str().into() }), w) }
            4 => {
                let (key, v) = (ident(small), scalar(Ty::I32));
                let V::S(_, x) = &v else { unreachable!() };
                let d = sym::u8();
                let b = [&[d][..], &key_body(&v, &key)].concat();
                (UlogMessage::DefaultParameter(msg::DefaultParameter { key: key.as_str().into(), default_types: d, r#type: ty(&v), value: inst::ParameterValue::INT32(le32(x) as i32) }), ulog::msg(b'Q', &b))
            }
            5 => { let (key, v) = (ident(small), long(n % 12, n / 8)); let b = key_body(&v, &key); (UlogMessage::Info(msg::Info { key: key.as_str().into(), r#type: ty(&v), value: value(&v) }), ulog::msg(b'I', &b)) }
            6 => { let f: Vec<Fv> = (0..n.min(3000)).map(|i| fv(&format!("f{i}"), match i % 3 { 0 => V::S(TYS[i % 12], vec![]), 1 => V::A(TYS[i % 12], i, vec![]), _ => V::N(Nested { name: format!("T{i}"), fields: vec![] }) })).collect(); (UlogMessage::FormatDefinition(defs("name", &f)), ulog::fmt(&format_text("name", &f))) }
            _ => {
                let l: Vec<Fv> = (0..n.min(3000)).map(|i| fv(&format!("f{i}"), if i == n / 2 { scalar(Ty::U32) } else { match i % 4 { 0 => V::S(Ty::U16, vec![i as u8, 1]), 1 => V::A(Ty::I8, i % 5, vec![i as u8; i % 5]), 2 => V::A(Ty::U64, 1, vec![i as u8; 8]), _ => V::S(Ty::Char, vec![i as u8]) } })).collect();
                let f = Nested { name: "d".into(), fields: l };
                let id = sym::u16();
                (UlogMessage::LoggedData(msg::LoggedData { timestamp: 5, msg_id: id, data: nested(&f) }), ulog::data(id, &payload(&f.fields)))
            }
        };
        let mut out = Vec::new();
        sym::check(m.encode(&mut out).is_ok(), "encoding failed");
        sym::check(same(&out, &want), "encoded bytes");
    }
    sym::reach("end");
}
/// the messages of kind 8.. written to writers limited by n
#[inline(never)]
fn writers(k: usize, n: usize) {
    let (m, want) = match k {
        8 => { let b = bytes(900); (UlogMessage::Unhandled { msg_type: b'y', message_contents: b.clone() }, ulog::msg(b'y', &b)) }
        9 => { let v = long(7, 120); let b = key_body(&v, "key"); (UlogMessage::Info(msg::Info { key: "key".into(), r#type: ty(&v), value: value(&v) }), ulog::msg(b'I', &b)) }
        10 => { let f: Vec<Fv> = (0..60).map(|i| fv(&format!("f{i}"), V::S(TYS[i % 12], vec![]))).collect(); (UlogMessage::FormatDefinition(defs("name", &f)), ulog::fmt(&format_text("name", &f))) }
        _ => {
            let f = Nested { name: "d".into(), fields: (0..120).map(|i| fv(&format!("f{i}"), if i == 60 { scalar(Ty::F64) } else { V::A(Ty::U16, 3, vec![i as u8; 6]) })).collect() };
            (UlogMessage::LoggedData(msg::LoggedData { timestamp: 5, msg_id: 513, data: nested(&f) }), ulog::data(513, &payload(&f.fields)))
        }
    };
    for how in [0, 1, 6] {
        let at = if how < 2 { n } else { 0 };
        if how == 6 && n == 0 || how < 2 && at >= want.len() { continue }
        let mut w = Bad { out: vec![], at, how, failed: false, calls_after: 0, take: n };
        let r = m.encode(&mut w);
        if how < 2 {
            sym::check(matches!(r, Err(e) if e.kind() == if how == 0 { ErrorKind::StorageFull } else { ErrorKind::WriteZero }), "kind of the error");
            sym::check(w.calls_after == 0, "writing goes on after an error");
            sym::check(w.out.len() == at && same(&w.out, &want[..at]), "bytes before the error");
        } else {
            sym::check(r.is_ok(), "failure although the writer works");
            sym::check(same(&w.out, &want), "bytes written in pieces");
        }
    }
}
harnesses!(c18_sweep, c21_sweep, c21_split, c18_arrays, c18_bytes, c18_writer, c18_limit, c18_key, c18_parts);
