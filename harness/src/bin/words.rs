//! Names, keys and texts in which every character is symbolic: nothing may depend on what they say.
use harness::{gen::*, harnesses, model::*, run::*, sizes::*, sym};
use yule_log::model::{def, inst, msg, CChar, CCharSlice, Shared};

fn ts() -> Fv { fv("timestamp", scalar(Ty::U64)) }
#[inline(never)]
fn run(f: &File, o: Opt) { check_all(&parse(&f.bytes, o, f.exp.len()), &filtered(&f.exp, o)); }
#[inline(never)]
fn differ(a: &str, l: &[&str]) { for x in l { if x.len() == a.len() { sym::assume(!same(a.as_bytes(), x.as_bytes())) } } }

/// C13, C05, C06, C07: names of types, fields and messages: case = use + 3 * (length - 1)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_words(case: u64) {
    warm();
    let w = word(1 + case as usize / 3);
    let mut f = File::new();
    match case % 3 {
        0 => {
            for t in TYS { differ(&w, &[t.name()]) }
            differ(&w, &["top"]);
            let n = Nested { name: w.clone(), fields: vec![fv("p", scalar(Ty::I8)), fv("q", scalar(Ty::U16))] };
            let v = vec![ts(), fv("n", V::N(n.clone())), fv("l", V::AN(w.clone(), vec![n.clone(), n.clone()])), fv("z", scalar(Ty::F32))];
            f.format("top", &v);
            f.format(&w, &n.fields);
            f.sub(0, 1, "top");
            f.data(1, "top", None, &v);
        }
        1 => {
            differ(&w, &["timestamp"]);
            if w.len() >= 8 { sym::assume(!same(&w.as_bytes()[..8], b"_padding")) }
            let v = vec![fv(&w, scalar(Ty::U64)), ts(), fv(&w, array(Ty::U8, 2)), fv(&w, scalar(Ty::Bool))];
            f.format("top", &v);
            f.sub(0, 1, "top");
            f.data(1, "top", None, &v);
        }
        _ => {
            differ(&w, &["other"]);
            let v = vec![ts(), fv("x", scalar(Ty::I16))];
            let u = vec![fv("y", scalar(Ty::U8)), ts()];
            f.format(&w, &v);
            f.format("other", &u);
            f.sub(0, 1, &w);
            f.sub(0, 2, "other");
            f.data(1, &w, None, &v);
            f.data(2, "other", None, &u);
        }
    }
    run(&f, ALL);
    sym::reach("end");
}
/// C14: keys of all four kinds, in both sections: case = kind + 4 * (length - 1)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_words(case: u64) {
    warm();
    let k = word(1 + case as usize / 4);
    let mut f = File::new();
    if sym::choose(2) == 1 { f.format("a", &[ts()]); f.sub(0, 1, "a"); }
    let d = sym::u8();
    match case % 4 {
        0 => { f.info(&k, scalar(Ty::U32)); f.info(&k, array(Ty::Char, 4)); f.info(&k, scalar(Ty::U64)); f.info(&k, array(Ty::F32, 1)); }
        1 => { f.multi(1, &k, array(Ty::Char, 4)); f.multi(0, &k, array(Ty::Char, 3)); f.multi(0, &k, scalar(Ty::I32)); f.multi(1, &k, array(Ty::U8, 2)); }
        2 => { f.param(&k, scalar(Ty::I32)); f.param(&k, scalar(Ty::F32)); f.param(&k, scalar(Ty::I32)); }
        _ => { f.default(d, &k, scalar(Ty::F32)); f.param(&k, scalar(Ty::I32)); f.default(3, &k, scalar(Ty::I32)); }
    }
    run(&f, ALL);
    let mut out = vec![];
    for r in parse(&f.bytes, ALL, f.exp.len()) { match r { Ok(m) => out.extend(emit(&m)), Err(_) => sym::fail("error returned for a valid message") } }
    sym::check(same(&out, &f.bytes), "encoded bytes");
    sym::reach("end");
}
/// C09: a name on the allow-list, a message name of its length or near: case = length - 1 + 12 * which
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_words(case: u64) {
    warm();
    let n = 1 + case as usize % 12;
    let a = word(n);
    let v = |x: u8| vec![fv("timestamp", V::S(Ty::U64, [x; 8].to_vec())), fv("x", scalar(Ty::I16))];
    // the name in the file: any other of the same length with one character in common, or the listed one with a character more, less or changed
    let (b, equal) = match case / 12 {
        0 => { let b = word(n); let e = same(a.as_bytes(), b.as_bytes()); (b, e) }
        1 => (format!("{a}{}", ["_", "0", "x", "A"][sym::choose(4)]), false),
        2 => (format!("{}{a}", ["_", "x", "A"][sym::choose(3)]), false),
        _ => { let mut b = a.clone().into_bytes(); let i = sym::choose(n as u8); let c = b[i]; b[i] = sym::u8(); sym::assume(b[i] != c); let x = b[i]; sym::assume((x >= b'a') & (x <= b'z') | (x >= b'A') & (x <= b'Z')); (String::from_utf8(b).unwrap(), false) }
    };
    let mut f = File::new();
    f.format(&b, &v(0));
    differ(&b, &["other"]);
    differ(&a, &["other"]);
    f.format("other", &v(0));
    f.sub(0, 1, &b);
    f.sub(0, 2, "other");
    let i = f.exp.len();
    f.data(1, &b, None, &v(3));
    f.data(2, "other", None, &v(4));
    let mut want = f.exp.clone();
    want[i + 1] = Exp::Ignored(b'D');
    if !equal { want[i] = Exp::Ignored(b'D') }
    check_all(&parse_allow(&f.bytes, &[&a], want.len()), &want);
    sym::reach("end");
}
/// C10, C11: two names, equal or not; the second has several instances: case = length - 1 + 12 * order
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_words(case: u64) {
    warm();
    let n = 1 + case as usize % 12;
    let a = word(n);
    let b = match sym::choose(3) { 0 => { let mut b = a.clone().into_bytes(); let i = sym::choose(n as u8); b[i] = if i == 0 { [b'a', b'Q', b'_'] } else { [b'a', b'7', b'_'] }[sym::choose(3)]; String::from_utf8(b).unwrap() } 1 => format!("{a}0"), _ => format!("_{a}") };
    if a.len() == b.len() { sym::assume(!same(a.as_bytes(), b.as_bytes())) }
    let v = |x: u8| vec![fv("timestamp", V::S(Ty::U64, [x; 8].to_vec())), fv("x", scalar(Ty::I16))];
    let w = |x: u8| vec![fv("y", scalar(Ty::U8)), fv("timestamp", V::S(Ty::U64, [x; 8].to_vec()))];
    let mut f = File::new();
    f.format(&a, &v(0));
    f.format(&b, &w(0));
    if case < 12 { f.sub(0, 1, &a); f.sub(2, 2, &b); } else { f.sub(2, 2, &b); f.sub(0, 1, &a); }
    f.data(1, &a, None, &v(1));
    f.data(2, &b, Some(2), &w(2));
    f.sub(0, 3, &b);
    f.data(3, &b, Some(0), &w(3));
    f.data(1, &a, None, &v(4));
    f.sub(1, 4, &a);
    f.data(1, &a, Some(0), &v(5));
    f.data(4, &a, Some(1), &v(6));
    run(&f, ALL);
    sym::reach("end");
}
/// C16: texts of n characters, all symbolic: case = length - 1 + 48 * tagged
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_words(case: u64) {
    warm();
    let n = 1 + case as usize % 48;
    let mut f = File::new();
    f.format("a", &[ts()]);
    f.sub(0, 1, "a");
    let tag = if case >= 48 { Some(sym::u16()) } else { None };
    f.log(b'0' + sym::choose(8) as u8, tag, sym::u64(), &ascii(n));
    f.log(b'6', tag, sym::u64(), b"z");
    run(&f, ALL);
    sym::reach("end");
}
/// C19: contents of n bytes, all symbolic, of any uninterpreted type in both sections: case = length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_words(case: u64) {
    warm();
    let n = case as usize;
    let mut f = File::new();
    let t = def_unknown_type();
    f.raw(t, &sym::vec(n));
    f.format("a", &[ts()]);
    f.sub(0, 1, "a");
    let t = data_unknown_type();
    f.raw(t, &sym::vec(n));
    f.dropout(sym::u16());
    run(&f, ALL);
    sym::reach("end");
}
fn is(got: String, want: &[u8], what: &str) { sym::check(same(got.as_bytes(), want), what) }
fn cat(l: &[&[u8]]) -> Vec<u8> { l.concat() }
/// C21: what names, keys and texts are does not change the text, but for the release keys: case = length - 1 + 32 * use
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_words(case: u64) {
    use inst::FieldValue::*;
    let n = 1 + case as usize % 32;
    let ty = || def::TypeExpr { base_type: def::BaseType::UINT32, array_size: None };
    let w = if case / 32 < 4 { word(n) } else { String::new() };
    let k = w.as_bytes();
    let values = || -> Vec<(inst::FieldValue, &'static [u8])> { vec![(ScalarU32(0xab12), b"43794"), (ScalarI32(-5), b"-5"), (ScalarU64(0xffffffff), b"4294967295"), (ScalarU8(7), b"7"), (ScalarF32(0.5), b"0.5"), (ScalarBool(true), b"true"), (ArrayU32(vec![0xab12, 1]), b"[43794, 1]"), (ArrayChar(vec![CChar(b'x'), CChar(b'y')]), b"\"xy\"")] };
    match case / 32 {
        0 | 1 => {
            let release = n >= 8 && same(&k[n - 8..], b"_release") && same(&k[..4], b"ver_");
            for (i, (v, t)) in values().into_iter().enumerate() {
                let t = if i == 0 && release { sym::reach("release"); b"0xAB12" } else { t };
                if case < 32 { is(msg::Info { key: w.clone(), r#type: ty(), value: v }.to_string(), &cat(&[k, b": ", t]), "information") }
                else { is(msg::MultiInfo { is_continued: i % 2 == 0, key: w.clone(), r#type: ty(), value: v }.to_string(), &cat(&[k, b": ", t]), "multi information") }
            }
        }
        2 => {
            is(msg::Parameter { key: w.clone(), r#type: ty(), value: inst::ParameterValue::INT32(-70000) }.to_string(), &cat(&[k, b": -70000"]), "parameter");
            is(msg::DefaultParameter { key: w.clone(), default_types: 3, r#type: ty(), value: inst::ParameterValue::FLOAT(1.5) }.to_string(), &cat(&[k, b" (SystemWide|Configuration): 1.5"]), "default parameter");
            is(msg::Subscription { multi_id: 3, msg_id: 513, message_name: w.clone() }.to_string(), &cat(&[b"Subscription: ", k, b" msg_id: 513"]), "subscription");
        }
        3 => {
            let d = |v: Vec<def::Field>| def::Format { name: w.as_str().into(), fields: v, padding: 0 };
            let f = |n: &str, t: def::BaseType, a| def::Field { name: n.into(), r#type: def::TypeExpr { base_type: t, array_size: a } };
            let df = d(vec![f("a", def::BaseType::OTHER(w.clone()), None), f(&w, def::BaseType::UINT64, Some(12)), f(&w, def::BaseType::OTHER(w.clone()), Some(2))]);
            is(df.to_string(), &cat(&[k, b" a; uint64_t[12] ", k, b"; ", k, b"[2] ", k]), "format");
            let r = |m| inst::Format { timestamp: None, name: w.as_str().into(), fields: vec![inst::Field { name: w.as_str().into(), r#type: ty(), value: ScalarU32(9) }], multi_id_index: m, def_format: Shared::new(df.clone()) };
            is(r(None).to_string(), k, "record");
            is(r(Some(112)).to_string(), &cat(&[k, b".112"]), "instance");
            #[allow(deprecated)]
            let l = r(Some(4)).flatten();
            sym::check(l.len() == 1 && same(l[0].0.as_bytes(), &cat(&[k, b".04/", k])) && matches!(l[0].1, ScalarU32(9)), "flattened");
        }
        4 => {
            let t = ascii(n);
            let s = String::from_utf8(t.clone()).unwrap();
            is(msg::LoggedString { level: msg::LogLevel::Warning, tag: None, timestamp: 12, msg: s.clone() }.to_string(), &cat(&[b"WARNING 12: ", &t]), "log string");
            is(msg::LoggedString { level: msg::LogLevel::Debug, tag: Some(7), timestamp: 0, msg: s }.to_string(), &cat(&[b"DEBUG Tag: 7 0: ", &t]), "tagged log string");
        }
        _ => {
            let t = ascii(n);
            let c: Vec<CChar> = t.iter().map(|b| CChar(*b)).collect();
            is(ArrayChar(c.clone()).to_string(), &cat(&[b"\"", &t, b"\""]), "char array");
            is(msg::Info { key: "k".into(), r#type: ty(), value: ArrayChar(c) }.to_string(), &cat(&[b"k: \"", &t, b"\""]), "information");
        }
    }
    sym::reach("end");
}
/// C22: n ASCII characters, all symbolic: case = length
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_words(case: u64) {
    let n = case as usize;
    let t = ascii(n);
    let c: Vec<CChar> = t.iter().map(|b| CChar(*b)).collect();
    is(c.to_string_lossy(), &t, "text");
    sym::check(same(c.as_bytes(), &t), "bytes");
    let mut e = n;
    while e > 0 && t[e - 1] == 0 { e -= 1 }
    is(c.to_string_lossy_trimmed(), &t[..e], "trimmed text");
    let x = c.trim_end_nul();
    sym::check(x.len() == e && same(x.as_bytes(), &t[..e]), "trimmed");
    sym::reach("end");
}
harnesses!(c13_words, c14_words, c09_words, c11_words, c16_words, c19_words, c21_words, c22_words);
