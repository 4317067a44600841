//! C04, C05, C06, C07: field values, nested formats, timestamps, padding.
use harness::{gen::*, harnesses, model::*, run::*, sym, ulog};
use yule_log::errors::ULogError;

fn ts() -> Fv { fv("timestamp", scalar(Ty::U64)) }
#[inline(never)]
fn kind(k: usize) -> V { let t = TYS[k % 12]; match k / 12 { 0 => scalar(t), 1 => array(t, 1), _ => array(t, 2) } }
#[inline(never)]
fn run(f: &File, o: Opt) { check_all(&parse(&f.bytes, o, f.exp.len()), &filtered(&f.exp, o)); }

// ---------------------------------------------------------------- C04 values
/// two fields of any type and shape around the timestamp; the first is of kind `case`
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_pair(case: u64) {
    warm();
    let mut f = File::new();
    let k = sym::choose(36);
    let v = vec![fv("x", kind(case as usize)), ts(), fv("y", kind(k))];
    f.format("a", &v);
    f.sub(0, 1, "a");
    f.data(1, "a", None, &v);
    run(&f, ALL);
    sym::reach("end");
}
/// three fields (thorough): case = 36 * first + second
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_triple(case: u64) {
    warm();
    let mut f = File::new();
    let k = sym::choose(36);
    let v = vec![fv("x", kind(case as usize / 36)), fv("y", kind(case as usize % 36)), fv("z", kind(k)), ts()];
    f.format("a", &v);
    f.sub(0, 1, "a");
    f.data(1, "a", None, &v);
    run(&f, ALL);
    sym::reach("end");
}
/// every type in one message, in an order rotated by `case`
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_all(case: u64) {
    warm();
    let mut f = File::new();
    let mut v = vec![ts()];
    for i in 0..12 {
        let t = TYS[(i + case as usize) % 12];
        v.push(fv(&format!("s{i}"), scalar(t)));
        v.push(fv(&format!("a{i}"), array(t, 2)));
        v.push(fv(&format!("e{i}"), array(t, 0)));
    }
    f.format("a", &v);
    f.sub(0, 1, "a");
    f.data(1, "a", None, &v);
    run(&f, ALL);
    run(&f, NONE);
    sym::reach("end");
}
/// a payload cut anywhere is an error; the next message is unaffected
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_short(case: u64) {
    warm();
    let mut f = File::new();
    let t = TYS[case as usize % 12];
    let mk = || vec![ts(), fv("x", scalar(t)), fv("y", array(t, 2)), fv("z", scalar(Ty::U8))];
    let v = mk();
    f.format("a", &v);
    f.sub(0, 1, "a");
    let p = payload(&v);
    let cut = sym::choose(p.len() as u8);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..cut]); b });
    f.data(1, "a", None, &mk());
    run(&f, ALL);
    sym::reach("end");
}
const SIZES: [usize; 8] = [3, 9, 10, 99, 100, 255, 256, 1000];
/// long arrays: case = type + 12 * size; symbolic first, last and two inner elements
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_big(case: u64) {
    warm();
    let t = TYS[case as usize % 12];
    let n = SIZES[case as usize / 12];
    let mk = || {
        let w = t.size();
        let mut b: Vec<u8> = (0..n * w).map(|i| if t == Ty::Bool { (i % 3 == 0) as u8 } else { (i * 7 + i / 256) as u8 }).collect();
        for at in [0, n / 2, n - 2, n - 1] { let r = raw(t, 1); b[at * w..(at + 1) * w].copy_from_slice(&r); }
        V::A(t, n, b)
    };
    let mut f = File::new();
    let v = vec![ts(), fv("x", mk()), fv("z", scalar(Ty::U16))];
    f.format("a", &v);
    f.info("k", mk());
    f.sub(0, 1, "a");
    f.data(1, "a", None, &v);
    // one byte short
    let p = payload(&v);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..p.len() - 1]); b });
    run(&f, ALL);
    sym::reach("end");
}
/// arrays as long as a message allows: case = type; the longest in a data message and in an information message
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_huge(case: u64) {
    warm();
    let t = TYS[case as usize];
    let mk = |n: usize| {
        let w = t.size();
        let mut b: Vec<u8> = (0..n * w).map(|i| if t == Ty::Bool { (i % 3 == 0) as u8 } else { (i * 7 + i / 256) as u8 }).collect();
        for at in [0, n / 3, n / 2, n - 1] { let r = raw(t, 1); b[at * w..(at + 1) * w].copy_from_slice(&r); }
        V::A(t, n, b)
    };
    let mut f = File::new();
    let n = (65535 - 2 - 8 - 2) / t.size();
    let v = vec![ts(), fv("x", mk(n)), fv("z", scalar(Ty::U16))];
    f.format("a", &v);
    f.info("k", mk((65535 - 30) / t.size()));
    f.sub(0, 1, "a");
    f.data(1, "a", None, &v);
    // the last element short by one byte
    let p = payload(&v);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..p.len() - 3]); b });
    run(&f, ALL);
    sym::reach("end");
}
/// values of info messages, full and cut
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_info(case: u64) {
    warm();
    let mut f = File::new();
    let v = kind(case as usize);
    f.info("k", v.clone());
    let mut b = vec![];
    v.bytes(&mut b);
    let cut = sym::choose(b.len() as u8);
    let k = format!("{} k", v.type_text());
    let mut m = vec![k.len() as u8];
    m.extend_from_slice(k.as_bytes());
    m.extend_from_slice(&b[..cut]);
    f.bad(b'I', &m);
    f.bad(b'M', &[&[1u8][..], &m].concat());
    f.multi(0, "k", v);
    run(&f, ALL);
    sym::reach("end");
}
/// a boolean is true exactly if its byte is not zero: all bytes, scalar and arrays, in data, information and multi-information messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_bool(case: u64) {
    warm();
    let mut f = File::new();
    let n = [1usize, 2, 5, 300][case as usize];
    let mut b = vec![0u8; n];
    for i in 0..n.min(5) { b[n - 1 - i] = sym::u8(); }
    let v = vec![fv("s", V::S(Ty::Bool, sym::vec(1))), ts(), fv("a", V::A(Ty::Bool, n, b.clone())), fv("z", scalar(Ty::U8))];
    f.format("a", &v);
    f.info("k", V::A(Ty::Bool, n, b.clone()));
    f.sub(0, 1, "a");
    f.multi(1, "k", V::S(Ty::Bool, sym::vec(1)));
    f.data(1, "a", None, &v);
    run(&f, ALL);
    sym::reach("end");
}

// ---------------------------------------------------------------- C05 nested formats
fn leaf(n: &str) -> Nested { Nested { name: n.into(), fields: vec![fv("p", scalar(Ty::I16)), fv("q", array(Ty::U8, 2))] } }
/// three levels, definitions in any order, nested values scalar and in arrays
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_order(case: u64) {
    warm();
    let mut f = File::new();
    let mid = || Nested { name: "mid".into(), fields: vec![fv("l", V::N(leaf("leaf"))), fv("c", scalar(Ty::Char)), fv("m", V::AN("leaf".into(), vec![leaf("leaf"), leaf("leaf"), leaf("leaf")]))] };
    let v = vec![fv("a", V::AN("mid".into(), vec![mid(), mid()])), ts(), fv("b", V::N(leaf("leaf"))), fv("c", V::N(mid())), fv("z", scalar(Ty::U8))];
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][case as usize];
    for i in o {
        match i { 0 => f.format("top", &v), 1 => f.format("mid", &mid().fields), _ => f.format("leaf", &leaf("leaf").fields) };
    }
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    run(&f, ALL);
    run(&f, NONE);
    sym::reach("end");
}
/// nested payload cut anywhere
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_short(case: u64) {
    warm();
    let mut f = File::new();
    let arr = |n: usize| (0..n).map(|_| leaf("leaf")).collect::<Vec<_>>();
    let mk = || if case == 0 { vec![ts(), fv("a", V::AN("leaf".into(), arr(3)))] } else { vec![ts(), fv("a", V::N(leaf("leaf"))), fv("b", V::N(leaf("leaf")))] };
    let v = mk();
    f.format("leaf", &leaf("leaf").fields);
    f.format("top", &v);
    f.sub(0, 1, "top");
    let p = payload(&v);
    let cut = sym::choose(p.len() as u8);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..cut]); b });
    f.data(1, "top", None, &mk());
    run(&f, ALL);
    sym::reach("end");
}
/// a chain of nested formats, `case` levels deep
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_deep(case: u64) {
    warm();
    let mut f = File::new();
    let d = [1usize, 2, 3, 4, 8, 16, 32][case as usize];
    let mut n = leaf("n0");
    let mut defs = vec![("n0".to_string(), n.fields.clone())];
    for i in 1..d {
        let name = format!("n{i}");
        n = Nested { name: name.clone(), fields: vec![fv("h", scalar(Ty::U8)), if i % 2 == 0 { fv("i", V::N(n)) } else { let s = n.name.clone(); fv("i", V::AN(s, vec![n])) }] };
        defs.push((name, n.fields.clone()));
    }
    let v = vec![ts(), fv("n", V::N(n)), fv("z", scalar(Ty::U16))];
    defs.reverse();
    for (name, fs) in &defs { f.format(name, fs); }
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    run(&f, ALL);
    sym::reach("end");
}
/// nested types which are undefined, self-recursive, mutually recursive, similarly named, redefined
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_lookup(case: u64) {
    warm();
    let mut f = File::new();
    let other = |n: &str, k: usize| if k == 0 { V::N(Nested { name: n.into(), fields: vec![] }) } else { V::AN(n.into(), (0..k).map(|_| Nested { name: n.into(), fields: vec![] }).collect()) };
    let k = case as usize % 3;
    let u = sym::vec(40);
    let bad = |f: &mut File| { f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&u); b }); };
    match case as usize / 3 {
        0 => { let v = vec![ts(), fv("x", other("nope", k))]; f.format("nopes", &leaf("leaf").fields); f.format("top", &v); f.sub(0, 1, "top"); bad(&mut f); }
        1 => { let v = vec![ts(), fv("x", other("top", k))]; f.format("top", &v); f.sub(0, 1, "top"); bad(&mut f); }
        2 => {
            f.format("b", &[fv("h", V::S(Ty::U8, vec![])), fv("y", other("c", k))]);
            f.format("c", &[fv("y", other("b", 0))]);
            f.format("top", &[ts(), fv("x", other("b", k))]);
            f.sub(0, 1, "top");
            bad(&mut f);
        }
        3 => {
            // names which are prefixes of each other
            let mk = |n: &str, t: Ty| Nested { name: n.into(), fields: vec![fv("p", scalar(t))] };
            let v = vec![ts(), fv("x", V::N(mk("le", Ty::U16))), fv("y", V::N(mk("l", Ty::U8))), fv("z", V::N(mk("lea", Ty::F64)))];
            for i in 0..3 { let j = (i + k) % 3; let t = [Ty::U8, Ty::U16, Ty::F64][j]; f.format(["l", "le", "lea"][j], &[fv("p", V::S(t, vec![]))]); }
            f.format("top", &v);
            f.sub(0, 1, "top");
            f.data(1, "top", None, &v);
        }
        4 => {
            // the latest definition of a name counts
            let v = vec![ts(), fv("x", V::N(leaf("leaf")))];
            f.format("leaf", &[fv("p", V::S(Ty::F64, vec![]))]);
            f.format("top", &v);
            if k == 1 { f.format("top", &[fv("q", V::S(Ty::U8, vec![]))]); f.format("top", &v); }
            f.format("leaf", &leaf("leaf").fields);
            f.sub(0, 1, "top");
            f.data(1, "top", None, &v);
        }
        _ => {
            // nested values in info messages
            f.format("leaf", &leaf("leaf").fields);
            f.info("k", if k == 0 { V::N(leaf("leaf")) } else { V::AN("leaf".into(), (0..k).map(|_| leaf("leaf")).collect()) });
            f.multi(1, "k", V::N(leaf("leaf")));
            f.bad(b'P', b"\x06leaf k\0\0\0\0");
        }
    }
    run(&f, ALL);
    sym::reach("end");
}
/// formats that contain themselves and a message long enough to fill many levels
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_self(case: u64) {
    warm();
    let mut f = File::new();
    let other = |n: &str, k: usize| if k == 0 { V::N(Nested { name: n.into(), fields: vec![] }) } else { V::AN(n.into(), (0..k).map(|_| Nested { name: n.into(), fields: vec![] }).collect()) };
    let k = case as usize % 3;
    match case as usize / 3 {
        0 => { f.format("r", &[fv("h", V::S(Ty::U8, vec![])), fv("y", other("r", k))]); }
        1 => { f.format("r", &[fv("h", V::S(Ty::U8, vec![])), fv("y", other("s", k))]); f.format("s", &[fv("y", other("t", 1))]); f.format("t", &[fv("y", other("r", 0))]); }
        _ => { f.format("r", &[fv("y", other("r", k))]); }
    }
    let v = vec![ts(), fv("x", scalar(Ty::U8))];
    f.format("good", &v);
    f.format("top", &[ts(), fv("x", other("r", 1))]);
    f.sub(0, 1, "top");
    f.sub(0, 2, "good");
    let mut b = vec![7u8; 65000];
    b[..2].copy_from_slice(&[1, 0]);
    let e = sym::vec(8);
    b[2..10].copy_from_slice(&e);
    b[64999] = sym::u8();
    f.bad(b'D', &b);
    f.data(2, "good", None, &v);
    run(&f, ALL);
    sym::reach("end");
}
/// arrays of nested values with many elements: case selects the count
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_many(case: u64) {
    warm();
    let mut f = File::new();
    let n = [0usize, 1, 9, 10, 11, 64, 100, 255, 256, 300][case as usize];
    let mut l: Vec<Nested> = (0..n).map(|i| Nested { name: "leaf".into(), fields: vec![fv("p", V::S(Ty::I16, vec![i as u8, (i / 256) as u8])), fv("q", V::A(Ty::U8, 2, vec![i as u8, 7]))] }).collect();
    if n > 0 { l[0] = leaf("leaf"); l[n - 1] = leaf("leaf"); let m = n / 2; l[m] = leaf("leaf"); }
    let v = vec![ts(), fv("n", V::AN("leaf".into(), l)), fv("z", scalar(Ty::U16))];
    f.format("leaf", &leaf("leaf").fields);
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    let p = payload(&v);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..p.len() - 1]); b });
    run(&f, ALL);
    sym::reach("end");
}
/// records and nested records with many fields: case selects the count
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_wide(case: u64) {
    warm();
    let mut f = File::new();
    let n = [31usize, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000][case as usize];
    let many = |p: &str| -> Vec<Fv> { (0..n).map(|i| fv(&format!("{p}{i}"), match i % 5 { _ if i == 0 || i == n / 2 || i == n - 1 => scalar(Ty::I32), 0 => V::A(Ty::I16, i % 4, vec![i as u8; i % 4 * 2]), 1 => V::S(Ty::Bool, vec![(i % 3 == 0) as u8]), 2 => V::S(Ty::U64, vec![i as u8; 8]), 3 => V::A(Ty::Char, 2, vec![b'a', b'b']), _ => V::S(Ty::U8, vec![i as u8]) })).collect() };
    let wide = || Nested { name: "wide".into(), fields: many("f") };
    let mut v = if case % 2 == 0 { vec![ts()] } else { vec![] };
    v.extend(many("g"));
    v.extend([fv("w", V::N(wide())), fv("y", scalar(Ty::U16)), fv("l", V::AN("wide".into(), vec![wide(), wide()])), fv("z", scalar(Ty::U16))]);
    if case % 2 == 1 { v.push(ts()) }
    f.format("wide", &wide().fields);
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    let p = payload(&v);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..p.len() - 1]); b });
    f.data(1, "top", None, &v);
    run(&f, ALL);
    sym::reach("end");
}

// ---------------------------------------------------------------- C06 timestamps
/// the timestamp at any position among fields of other 64-bit types and similar names
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_pos(case: u64) {
    warm();
    let mut f = File::new();
    let o = Opt { header: true, ts: case & 1 != 0, pad: case & 2 != 0 };
    let inner = || Nested { name: "in".into(), fields: vec![fv("timestamp", scalar(Ty::U64)), fv("v", scalar(Ty::U8))] };
    let mut v = vec![fv("timestamp_sample", scalar(Ty::U64)), fv("n", V::N(inner())), fv("l", V::AN("in".into(), vec![inner(), inner()])), fv("time", scalar(Ty::U64)), fv("_padding0", array(Ty::U8, 3)), fv("Timestamp", scalar(Ty::I64))];
    let at = sym::choose(v.len() as u8 + 1);
    v.insert(at, ts());
    f.format("in", &inner().fields);
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    run(&f, o);
    sym::reach("end");
}
/// formats without a usable timestamp
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_none(case: u64) {
    warm();
    let mut f = File::new();
    let k = sym::choose(36);
    let inner = Nested { name: "in".into(), fields: vec![fv("timestamp", scalar(Ty::U64))] };
    let mut v = match case {
        0 => vec![fv("x", scalar(Ty::U64)), fv("n", V::N(inner.clone()))],
        1 => vec![fv("timestamp_sample", scalar(Ty::U64)), fv("l", V::AN("in".into(), vec![inner.clone()]))],
        // a field of that name with another type
        _ => { sym::assume(k != 3); vec![fv("timestamp", kind(k)), fv("n", V::N(inner.clone()))] }
    };
    if case == 3 { v.push(fv("x", scalar(Ty::U64))); }
    let good = vec![ts(), fv("n", V::N(inner.clone()))];
    f.format("in", &inner.fields);
    f.format("top", &v);
    f.format("good", &good);
    f.sub(0, 1, "top");
    f.sub(0, 2, "good");
    let p = payload(&v);
    f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p); b });
    f.data(2, "good", None, &good);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    let n = r.len();
    sym::check(matches!(r[n - 2], Err(ULogError::MissingTimestamp)), "wrong error for a missing timestamp");
    sym::reach("end");
}
/// `word` with one identifier character changed, inserted or removed at `at`
#[inline(never)]
fn near(word: &str, at: usize) -> String {
    let mut w = word.as_bytes().to_vec();
    let op = sym::choose(3);
    if op == 2 && at < w.len() { w.remove(at); } else {
        let c = sym::u8();
        sym::assume((c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c == b'_') | (c >= b'0') & (c <= b'9') & (at > 0));
        if op == 0 && at < w.len() { w[at] = c } else { w.insert(at, c) }
    }
    String::from_utf8(w).unwrap()
}
fn idents(n: usize, first: bool) -> String {
    let b = sym::vec(n);
    for (i, c) in b.iter().enumerate() { let c = *c; sym::assume((c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c == b'_') | (c >= b'0') & (c <= b'9') & (i > 0 || !first)); }
    String::from_utf8(b).unwrap()
}
/// names around "timestamp": one character different; up to 4 arbitrary characters after or before it; longer fixed ones; arbitrary names
fn stamp_name(k: usize) -> String {
    match k {
        0..=9 => near("timestamp", k),
        10..=12 => format!("timestamp{}", idents(k - 8, false)),
        13..=15 => format!("{}timestamp", idents(k - 12, true)),
        16..=19 => idents(k - 15, true),
        _ => ["timestamp_sample", "timestamp_timestamp", "TIMESTAMP", "time_stamp", "utc_timestamp", "timestamp_utc_usec", "time", "_timestamp_", "padding_timestamp", "_padding_timestamp"][k - 20].to_string(),
    }
}
/// fields with names like "timestamp" are ordinary fields, before or after it or alone
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_names(case: u64) {
    warm();
    let mut f = File::new();
    let n = stamp_name(case as usize);
    sym::assume(!same(n.as_bytes(), b"timestamp"));
    let odd = [fv(&n, scalar(Ty::U64)), fv("x", scalar(Ty::U8))];
    let v = if sym::choose(2) == 0 { vec![fv(&n, scalar(Ty::U64)), ts(), fv("x", scalar(Ty::U8))] } else { vec![fv("x", scalar(Ty::U8)), ts(), fv(&n, scalar(Ty::U64))] };
    f.format("odd", &odd);
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.sub(0, 2, "odd");
    f.data(1, "top", None, &v);
    f.bad(b'D', &{ let mut b = vec![2, 0]; b.extend(payload(&odd)); b });
    run(&f, ALL);
    run(&f, Opt { header: true, ts: false, pad: false });
    sym::reach("end");
}

// ---------------------------------------------------------------- C07 padding
/// padding of several sizes at every position, kept or skipped
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_pos(case: u64) {
    warm();
    let mut f = File::new();
    let o = Opt { header: true, ts: true, pad: case & 1 != 0 };
    let n = [1usize, 2, 7, 12][case as usize / 2];
    let mut v = vec![ts(), fv("padding0", scalar(Ty::U16)), fv("_pad", array(Ty::U8, 2)), fv("z_padding", scalar(Ty::U8))];
    let at = sym::choose(v.len() as u8 + 1);
    v.insert(at, fv("_padding0", array(Ty::U8, n)));
    let at = sym::choose(v.len() as u8 + 1);
    v.insert(at, fv("_padding", array(Ty::U8, 3)));
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    f.data(1, "top", None, &v);
    run(&f, o);
    sym::reach("end");
}
/// trailing padding left out, alone or several, plain and nested
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_trail(case: u64) {
    warm();
    let mut f = File::new();
    let o = Opt { header: true, ts: true, pad: case & 1 != 0 };
    let inner = |last: bool| { let mut v = vec![fv("v", scalar(Ty::I32))]; if !last { v.push(fv("_padding0", array(Ty::U8, 4))) } Nested { name: "in".into(), fields: v } };
    f.format("in", &inner(false).fields);
    let (def, val) = match case / 2 {
        0 => (vec![ts(), fv("x", scalar(Ty::U8)), fv("_padding0", array(Ty::U8, 7))], vec![ts(), fv("x", scalar(Ty::U8))]),
        1 => (vec![ts(), fv("_padding0", array(Ty::U8, 2)), fv("x", scalar(Ty::U8)), fv("_padding1", array(Ty::U8, 5)), fv("_padding2", array(Ty::U8, 1))], vec![ts(), fv("_padding0", array(Ty::U8, 2)), fv("x", scalar(Ty::U8))]),
        2 => (vec![ts(), fv("n", V::N(inner(false)))], vec![ts(), fv("n", V::N(inner(true)))]),
        3 => (vec![ts(), fv("l", V::AN("in".into(), vec![inner(false), inner(false)]))], vec![ts(), fv("l", V::AN("in".into(), vec![inner(false), inner(true)]))]),
        4 => (vec![ts(), fv("x", scalar(Ty::U8)), fv("_padding0", array(Ty::U8, 7))], vec![ts(), fv("x", scalar(Ty::U8)), fv("_padding0", array(Ty::U8, 7))]),
        // first trailing padding present, second left out
        5 => (vec![ts(), fv("_padding0", array(Ty::U8, 3)), fv("_padding1", array(Ty::U8, 5))], vec![ts(), fv("_padding0", array(Ty::U8, 3))]),
        _ => (vec![ts(), fv("n", V::N(inner(false))), fv("_padding1", array(Ty::U8, 260))], vec![ts(), fv("n", V::N(inner(false)))]),
    };
    f.format("top", &def);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &val);
    // data missing before the padding is still an error
    let p = payload(&val);
    let lim = val.iter().filter(|x| !x.name.starts_with('_')).count();
    if lim == val.len() && case / 2 < 2 { f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..p.len() - 1]); b }); }
    f.data(1, "top", None, &val);
    run(&f, o);
    sym::reach("end");
}
/// padding of any declared type takes the size of that type
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_type(case: u64) {
    warm();
    let mut f = File::new();
    let o = Opt { header: true, ts: true, pad: case & 1 != 0 };
    let k = sym::choose(36);
    let v = vec![ts(), fv("_padding0", kind(k)), fv("x", scalar(Ty::U32)), fv("_padding1", kind(k)), fv("y", scalar(Ty::U8))];
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    run(&f, o);
    sym::reach("end");
}
/// padding without size, very long padding, padding of nested types, padding alone; many paddings: case = options + 2 * layout
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_shapes(case: u64) {
    warm();
    let mut f = File::new();
    let o = Opt { header: true, ts: true, pad: case & 1 != 0 };
    let x = || fv("x", scalar(Ty::U16));
    let pad = |i: usize, n: usize| fv(&format!("_padding{i}"), V::A(Ty::U8, n, { let mut b = vec![i as u8; n]; if n > 0 { b[n - 1] = sym::u8() } b }));
    let inn = || Nested { name: "in".into(), fields: vec![fv("v", scalar(Ty::U8)), fv("_padding0", scalar(Ty::U8))] };
    let v = match case / 2 {
        0 => vec![ts(), pad(0, 0), x(), pad(1, 0)],
        1 => vec![pad(0, 0), ts(), pad(1, 300), x()],
        2 => vec![ts(), x(), pad(0, 60000), x()],
        3 => vec![ts(), fv("_padding0", V::N(inn())), x(), fv("_padding1", V::AN("in".into(), vec![inn(), inn()])), x()],
        4 => { let mut v = vec![ts()]; for i in 0..40 { v.push(pad(i, i % 5)); if i % 3 == 0 { v.push(fv(&format!("x{i}"), scalar(Ty::U16))) } } v.push(x()); v }
        5 => vec![fv("_padding0", scalar(Ty::U64)), ts(), fv("_padding1", scalar(Ty::F64)), fv("_padding2", scalar(Ty::Bool)), x(), fv("_padding3", array(Ty::Char, 9)), x()],
        _ => vec![ts(), pad(0, 4), fv("_padding_timestamp", scalar(Ty::U64)), fv("_padding", scalar(Ty::U8)), x()],
    };
    f.format("in", &inn().fields);
    f.format("top", &v);
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    f.data(1, "top", None, &v);
    run(&f, o);
    sym::reach("end");
}
/// which names are padding: case < 9: one character of "_padding" changed; then 0 to 2 arbitrary characters after it; then longer endings
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_names(case: u64) {
    warm();
    let k = case as usize;
    let n = match k {
        0..=8 => near("_padding", k),
        9..=11 => { let mut s = String::from("_padding"); for _ in 9..k { s = near(&s, s.len()); } s }
        _ => format!("_padding{}", ["10", "100", "65536", "_", "_x_", "s", "0123456789abcdefghijklmnopqrstuvwxyz_", "_padding"][k - 12]),
    };
    let pad = n.starts_with("_padding");
    let v = vec![fv(&n, array(Ty::U8, 3)), ts(), fv("x", scalar(Ty::U16))];
    let tail = vec![ts(), fv("x", scalar(Ty::U16)), fv(&n, array(Ty::U8, 2))];
    let cut = vec![ts(), fv("x", scalar(Ty::U16))];
    let mut f = File::new();
    f.format("top", &v);
    f.format("tail", &tail);
    f.sub(0, 1, "top");
    f.sub(0, 2, "tail");
    f.data(1, "top", None, &v);
    f.data(2, "tail", None, &tail);
    if pad { f.data(2, "tail", None, &cut); sym::reach("padding"); } else { f.bad(b'D', &{ let mut b = vec![2, 0]; b.extend(payload(&cut)); b }); sym::reach("ordinary"); }
    run(&f, ALL);
    run(&f, Opt { header: true, ts: true, pad: false });
    sym::reach("end");
}
/// one of twelve definitions of a format, which differ from each other in one thing
fn shape(k: usize) -> Vec<Fv> {
    let l = |n: &str| Nested { name: n.into(), fields: vec![fv("p", scalar(if n == "twig" { Ty::I16 } else { Ty::I8 }))] };
    let a = || fv("a", array(Ty::U8, 2));
    match k {
        0 => vec![a()],
        1 => vec![fv("a", array(Ty::U8, 1))],
        2 => vec![fv("a", scalar(Ty::U8))],
        3 => vec![fv("a", array(Ty::I8, 2))],
        4 => vec![fv("b", array(Ty::U8, 2))],
        5 => vec![a(), fv("c", scalar(Ty::U16))],
        6 => vec![fv("c", scalar(Ty::U16)), a()],
        7 => vec![fv("a", V::N(l("leaf")))],
        8 => vec![fv("a", V::AN("leaf".into(), vec![l("leaf"), l("leaf")]))],
        9 => vec![fv("a", V::N(l("twig")))],
        10 => vec![fv("a", scalar(Ty::F32))],
        _ => vec![fv("_padding0", array(Ty::U8, 2)), fv("a", scalar(Ty::U8))],
    }
}
/// a format defined again, with any one thing changed; the latest definition counts, for nested and for top-level use
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_again(case: u64) {
    warm();
    let mut f = File::new();
    let first = sym::choose(12);
    let top = sym::choose(2) == 1;
    let back = sym::choose(2) == 1;
    let full = |k: usize| { let mut v = shape(k); if top { v.push(ts()) } v };
    let name = if top { "top" } else { "n" };
    f.format("twig", &[fv("p", scalar(Ty::I16))]);
    f.format("leaf", &[fv("p", scalar(Ty::I8))]);
    if back { f.format(name, &full(case as usize)); }
    f.format(name, &full(first));
    let v = if top { full(case as usize) } else { vec![ts(), fv("x", V::N(Nested { name: "n".into(), fields: shape(case as usize) })), fv("y", scalar(Ty::U8))] };
    if !top { f.format("top", &v); }
    f.format(name, &full(case as usize));
    f.sub(0, 1, "top");
    f.data(1, "top", None, &v);
    run(&f, ALL);
    sym::reach("end");
}
harnesses!(c05_again, c05_wide, c04_huge, c07_shapes, c04_bool, c05_self, c06_names, c07_names, c04_pair, c04_triple, c04_all, c04_short, c04_big, c04_info, c05_order, c05_short, c05_deep, c05_lookup, c05_many, c06_pos, c06_none, c07_pos, c07_trail, c07_type);
#[allow(dead_code)]
fn unused() { let _ = (ulog::MAGIC, N_DEF); }
