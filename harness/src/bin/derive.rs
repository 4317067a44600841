//! C23, C24, C25: structs and enums derived with ULogData and ULogMessages.
#![allow(dead_code)]
use harness::{gen, harnesses, model::*, run::*, sizes::{self, pick, word}, sym, ulog};
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;
use yule_log::model::CChar;
use yule_log::{ULogData, ULogMessages};

/// the little-endian bytes of a derived value
trait Le { fn le(&self, o: &mut Vec<u8>); }
macro_rules! le_num { ($($t:ty),*) => { $( impl Le for $t { fn le(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) } } )* } }
le_num!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Le for f32 { fn le(&self, o: &mut Vec<u8>) { Le::le(&self.to_bits(), o) } }
impl Le for f64 { fn le(&self, o: &mut Vec<u8>) { Le::le(&self.to_bits(), o) } }
impl Le for bool { fn le(&self, o: &mut Vec<u8>) { o.push(*self as u8) } }
impl Le for CChar { fn le(&self, o: &mut Vec<u8>) { o.push(self.0) } }
impl<T: Le> Le for Vec<T> { fn le(&self, o: &mut Vec<u8>) { for x in self { Le::le(x, o) } } }
macro_rules! le_struct { ($n:ident: $($f:ident),*) => { impl Le for $n { fn le(&self, o: &mut Vec<u8>) { $( Le::le(&self.$f, o); )* } } } }
fn eq<T: Le>(got: &T, want: &V, what: &str) { let (mut g, mut w) = (vec![], vec![]); Le::le(got, &mut g); want.bytes(&mut w); sym::check(same(&g, &w), what) }
fn eqs<T: Le>(got: &Vec<T>, want: &V, what: &str) {
    let n = match want { V::A(_, n, _) => *n, V::AN(_, l) => l.len(), _ => 0 };
    sym::check(got.len() == n, "length of a mapped array");
    eq(got, want, what)
}
/// the fields of `l` in a rotated and possibly reversed order
fn order(l: &[Fv], rot: usize, rev: bool) -> Vec<Fv> {
    let n = l.len();
    (0..n).map(|i| l[if rev { n - 1 - (i + rot) % n } else { (i + rot) % n }].clone()).collect()
}
fn field<'a>(l: &'a [Fv], n: &str) -> &'a V { match l.iter().find(|f| f.name == n) { Some(f) => &f.v, None => sym::fail("harness: field") } }
fn nested(name: &str, fields: &[Fv]) -> V { V::N(Nested { name: name.into(), fields: fields.to_vec() }) }
fn put_data(f: &mut Vec<u8>, id: u16, fields: &[Fv]) { f.extend(ulog::data(id, &payload(fields))) }

// ---------------------------------------------------------------- C23: values

#[derive(ULogData)]
pub struct Scalars { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: f32, j: f64, k: bool, l: CChar, timestamp: u64 }
#[derive(ULogData)]
pub struct Arrays { a: Vec<u8>, b: Vec<u16>, c: Vec<u32>, d: Vec<u64>, e: Vec<i8>, f: Vec<i16>, g: Vec<i32>, h: Vec<i64>, i: Vec<f32>, j: Vec<f64>, k: Vec<bool>, l: Vec<CChar>, timestamp: u64 }
#[derive(ULogData)]
pub struct Options { a: Option<u8>, b: Option<u16>, c: Option<u32>, d: Option<u64>, e: Option<i8>, f: Option<i16>, g: Option<i32>, h: Option<i64>, i: Option<f32>, j: Option<f64>, k: Option<bool>, l: Option<CChar>, m: Option<Vec<u16>>, n: Option<Leaf>, o: Option<Vec<Leaf>>, timestamp: Option<u64> }
#[derive(ULogData)]
pub struct Leaf { k: i16 }
#[derive(ULogData)]
pub struct Inner { k: i16, c: Vec<CChar>, deep: Leaf, q: Option<u8> }
#[derive(ULogData)]
pub struct Outer { n: Inner, l: Vec<Inner>, o: Option<Inner>, p: Option<Vec<Inner>>, timestamp: u64 }
#[derive(ULogMessages)]
pub enum Values {
    Scalars(Scalars),
    #[yule_log(forward_other)]
    Rest(UlogMessage),
    Arrays(Arrays),
    Options(Options),
    Outer(Outer),
}
const ABC: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
/// fields no struct maps, with names close to mapped ones
fn extras() -> Vec<Fv> { vec![fv("a_", array(Ty::U8, 3)), fv("n", nested("leaf", &[fv("k", scalar(Ty::I16))])), fv("timestamp_sample", scalar(Ty::U64)), fv("aa", scalar(Ty::F64))] }
fn leaf_format(f: &mut Vec<u8>) { f.extend(ulog::fmt("leaf:int16_t k;")) }
fn next(p: &mut impl Iterator<Item = Result<Values, ULogError>>) -> Values {
    match p.next() { Some(Ok(v)) => v, Some(Err(_)) => sym::fail("error instead of a mapped message"), None => sym::fail("mapped message missing") }
}
fn formats_pass(p: &mut impl Iterator<Item = Result<Values, ULogError>>, n: usize) {
    for _ in 0..n { sym::check(matches!(next(p), Values::Rest(UlogMessage::FormatDefinition(_))), "format definition not passed on") }
}
/// all scalar types, file order by case: rotation + 17 * reversed
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_scalars(case: u64) {
    warm();
    let c = case as usize;
    let one = || {
        let mut m: Vec<Fv> = (0..12).map(|i| fv(ABC[i], scalar(TYS[i]))).collect();
        m.push(fv("timestamp", scalar(Ty::U64)));
        m
    };
    let msgs: Vec<(Vec<Fv>, Vec<Fv>)> = (0..2).map(|_| { let m = one(); let mut all = m.clone(); for (i, e) in extras().into_iter().enumerate() { all.insert(3 * i, e) } (m, order(&all, c % 17, c / 17 == 1)) }).collect();
    let mut f = ulog::header(1, 5);
    leaf_format(&mut f);
    f.extend(ulog::fmt(&format_text("scalars", &msgs[0].1)));
    f.extend(ulog::sub(0, 0x0102, "scalars"));
    for (_, a) in &msgs { put_data(&mut f, 0x0102, a) }
    let mut p = match Values::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    formats_pass(&mut p, 2);
    for (m, _) in &msgs {
        match next(&mut p) {
            Values::Scalars(s) => {
                eq(&s.a, &m[0].v, "u8 field"); eq(&s.b, &m[1].v, "u16 field"); eq(&s.c, &m[2].v, "u32 field"); eq(&s.d, &m[3].v, "u64 field");
                eq(&s.e, &m[4].v, "i8 field"); eq(&s.f, &m[5].v, "i16 field"); eq(&s.g, &m[6].v, "i32 field"); eq(&s.h, &m[7].v, "i64 field");
                eq(&s.i, &m[8].v, "f32 field"); eq(&s.j, &m[9].v, "f64 field"); eq(&s.k, &m[10].v, "bool field"); eq(&s.l, &m[11].v, "char field");
                eq(&s.timestamp, &m[12].v, "timestamp field");
            }
            _ => sym::fail("wrong variant"),
        }
    }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
/// all array types, lengths 0 to 3 (and one of 40) by case
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_arrays(case: u64) {
    warm();
    let c = case as usize;
    arrays(c, |i| array(TYS[i], if i == c % 12 { [0, 40][c / 12 % 2] } else { [0, 1, 2, 3][(i + c) % 4] }));
    sym::reach("end");
}
/// arrays of every length: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_sweep(case: u64) {
    warm();
    for n in pick(1025, case as usize, 8) { arrays(n, |i| sizes::arr(TYS[i], n)) }
    sym::reach("end");
}
#[inline(never)]
fn arrays(c: usize, a: impl Fn(usize) -> V) {
    let mut m: Vec<Fv> = (0..12).map(|i| fv(ABC[i], a(i))).collect();
    m.push(fv("timestamp", scalar(Ty::U64)));
    let mut all = m.clone();
    for (i, e) in extras().into_iter().enumerate() { all.insert(4 * i, e) }
    let all = order(&all, c % 17, c % 2 == 1);
    let mut f = ulog::header(1, 5);
    leaf_format(&mut f);
    f.extend(ulog::fmt(&format_text("arrays", &all)));
    f.extend(ulog::sub(0, 7, "arrays"));
    put_data(&mut f, 7, &all);
    let mut p = match Values::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    formats_pass(&mut p, 2);
    match next(&mut p) {
        Values::Arrays(s) => {
            eqs(&s.a, &m[0].v, "u8 array"); eqs(&s.b, &m[1].v, "u16 array"); eqs(&s.c, &m[2].v, "u32 array"); eqs(&s.d, &m[3].v, "u64 array");
            eqs(&s.e, &m[4].v, "i8 array"); eqs(&s.f, &m[5].v, "i16 array"); eqs(&s.g, &m[6].v, "i32 array"); eqs(&s.h, &m[7].v, "i64 array");
            eqs(&s.i, &m[8].v, "f32 array"); eqs(&s.j, &m[9].v, "f64 array"); eqs(&s.k, &m[10].v, "bool array"); eqs(&s.l, &m[11].v, "char array");
            eq(&s.timestamp, &m[12].v, "timestamp field");
        }
        _ => sym::fail("wrong variant"),
    }
    sym::check(p.next().is_none(), "result after the end");
}
fn opt<T: Le>(got: &Option<T>, want: Option<&V>, what: &str) {
    match (got, want) { (Some(g), Some(w)) => eq(g, w, what), (None, None) => {}, (Some(_), None) => sym::fail("value for a field the format lacks"), (None, Some(_)) => sym::fail("no value for a field the format has") }
}
le_struct!(Leaf: k);
/// optional fields: only field `case` present, or all but it
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_optional(case: u64) {
    warm();
    let (k, only) = (case as usize % 16, case < 16);
    let leaf = || Nested { name: "leaf".into(), fields: vec![fv("k", scalar(Ty::I16))] };
    let mut m: Vec<Fv> = (0..12).map(|i| fv(ABC[i], scalar(TYS[i]))).collect();
    m.push(fv("m", array(Ty::U16, 2)));
    m.push(fv("n", V::N(leaf())));
    m.push(fv("o", V::AN("leaf".into(), vec![leaf(), leaf()])));
    let has: Vec<bool> = (0..15).map(|i| (i == k) == only).collect();
    let mut all: Vec<Fv> = (0..15).filter(|i| has[*i]).map(|i| m[i].clone()).collect();
    // close names must not count
    all.push(fv("a_", scalar(Ty::U8)));
    all.push(fv("timestamp", scalar(Ty::U64)));
    if k % 2 == 0 { all.insert(0, fv("B", scalar(Ty::U16))); }
    let all = order(&all, k, only);
    let mut f = ulog::header(1, 5);
    leaf_format(&mut f);
    f.extend(ulog::fmt(&format_text("options", &all)));
    f.extend(ulog::sub(0, 7, "options"));
    put_data(&mut f, 7, &all);
    let mut p = match Values::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    formats_pass(&mut p, 2);
    let w = |i: usize| if has[i] { Some(&m[i].v) } else { None };
    match next(&mut p) {
        Values::Options(s) => {
            opt(&s.a, w(0), "u8 option"); opt(&s.b, w(1), "u16 option"); opt(&s.c, w(2), "u32 option"); opt(&s.d, w(3), "u64 option");
            opt(&s.e, w(4), "i8 option"); opt(&s.f, w(5), "i16 option"); opt(&s.g, w(6), "i32 option"); opt(&s.h, w(7), "i64 option");
            opt(&s.i, w(8), "f32 option"); opt(&s.j, w(9), "f64 option"); opt(&s.k, w(10), "bool option"); opt(&s.l, w(11), "char option");
            opt(&s.m, w(12), "array option"); opt(&s.n, w(13), "nested option"); opt(&s.o, w(14), "nested array option");
            if let (Some(l), true) = (&s.o, has[14]) { sym::check(l.len() == 2, "length of a nested array"); }
            opt(&s.timestamp, Some(field(&all, "timestamp")), "timestamp option");
        }
        _ => sym::fail("wrong variant"),
    }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
/// one Inner: file fields in an order of its own
fn inner(c: usize) -> Nested {
    let l = [fv("k", scalar(Ty::I16)), fv("c", array(Ty::Char, 2)), fv("deep", nested("leaf", &[fv("k", scalar(Ty::I16))])), fv("kk", scalar(Ty::U32)), fv("q", scalar(Ty::U8))];
    Nested { name: "inner".into(), fields: order(&l[..if c % 2 == 0 { 5 } else { 4 }], c % 4, c / 4 % 2 == 1) }
}
fn check_inner(g: &Inner, w: &Nested, c: usize) {
    eq(&g.k, field(&w.fields, "k"), "field of a nested struct");
    eqs(&g.c, field(&w.fields, "c"), "array of a nested struct");
    match field(&w.fields, "deep") { V::N(d) => eq(&g.deep.k, &d.fields[0].v, "field of a doubly nested struct"), _ => sym::fail("harness: deep") }
    opt(&g.q, if c % 2 == 0 { Some(field(&w.fields, "q")) } else { None }, "option of a nested struct");
}
/// nested structs as scalar, array, option and option of array: case = orders 0..8 + 8 * (which options are present)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_nested(case: u64) {
    warm();
    let (c, has) = (case as usize % 8, case as usize / 8);
    let (n, o) = (inner(c), inner(c));
    let l: Vec<Nested> = (0..c % 3).map(|_| inner(c)).collect();
    let q: Vec<Nested> = (0..(c + 1) % 3).map(|_| inner(c)).collect();
    let ts = scalar(Ty::U64);
    let mut all = vec![fv("n", V::N(n.clone())), fv("x", scalar(Ty::U16)), fv("l", V::AN("inner".into(), l.clone())), fv("timestamp", ts.clone()), fv("y", V::N(inner(c)))];
    if has & 1 != 0 { all.push(fv("o", V::N(o.clone()))); }
    if has & 2 != 0 { all.push(fv("p", V::AN("inner".into(), q.clone()))); }
    let all = order(&all, c, c % 2 == 1);
    let mut f = ulog::header(1, 5);
    // definition order does not matter
    let fs = [ulog::fmt(&format_text("outer", &all)), ulog::fmt(&n.format_text()), ulog::fmt("leaf:int16_t k;")];
    for i in 0..3 { f.extend(&fs[(i + c) % 3]) }
    f.extend(ulog::sub(0, 7, "outer"));
    put_data(&mut f, 7, &all);
    let mut p = match Values::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    formats_pass(&mut p, 3);
    match next(&mut p) {
        Values::Outer(s) => {
            check_inner(&s.n, &n, c);
            sym::check(s.l.len() == l.len(), "length of a nested array");
            for (g, w) in s.l.iter().zip(&l) { check_inner(g, w, c) }
            match (&s.o, has & 1 != 0) { (Some(g), true) => check_inner(g, &o, c), (None, false) => {}, _ => sym::fail("nested option") }
            match (&s.p, has & 2 != 0) {
                (Some(g), true) => { sym::check(g.len() == q.len(), "length of an optional nested array"); for (g, w) in g.iter().zip(&q) { check_inner(g, w, c) } }
                (None, false) => {}
                _ => sym::fail("option of a nested array"),
            }
            eq(&s.timestamp, &ts, "timestamp field");
        }
        _ => sym::fail("wrong variant"),
    }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}

#[derive(ULogData)]
#[yule_log(subscription_name = "vehicle_x")]
pub struct Abc {
    #[yule_log(field_name = "timestamp")]
    t: u64,
    #[yule_log(field_name = "b")]
    a: u16,
    #[yule_log(field_name = "a")]
    b: u16,
    #[yule_log(field_name = "C_d")]
    cd: Option<i32>,
    #[yule_log(field_name = "_padding0")]
    pad: Option<Vec<u8>>,
}
#[derive(ULogData)]
pub struct Esc2Status { timestamp: u64, a: u16, after: Option<u8> }
#[derive(ULogData)]
pub struct VehicleGPSPosition { timestamp: u64, a: u16 }
#[derive(ULogMessages)]
pub enum Names { Abc(Abc), Second(Esc2Status), Vehicle(VehicleGPSPosition) }
/// names of structs and fields, overridden and by default; three kinds of messages in alternation
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_names(case: u64) {
    warm();
    let c = case as usize;
    let a = || order(&[fv("timestamp", scalar(Ty::U64)), fv("a", scalar(Ty::U16)), fv("b", scalar(Ty::U16)), fv("C_d", scalar(Ty::I32)), fv("cd", scalar(Ty::I32)), fv("t", scalar(Ty::U64)), fv("_padding0", array(Ty::U8, 2))], c, false);
    let e = || vec![fv("_padding0", array(Ty::U8, 3)), fv("a", scalar(Ty::U16)), fv("_padding1", array(Ty::U8, 1)), fv("timestamp", scalar(Ty::U64)), fv("after", scalar(Ty::U8)), fv("_padding2", array(Ty::U8, 4))];
    let v = || vec![fv("timestamp", scalar(Ty::U64)), fv("b", scalar(Ty::U16)), fv("a", scalar(Ty::U16))];
    let mut f = ulog::header(1, 5);
    for (n, l) in [("vehicle_x", a()), ("esc2_status", e()), ("vehicle_gps_position", v()), ("abc", v()), ("Esc2Status", v())] { f.extend(ulog::fmt(&format_text(n, &l))) }
    let ids: [u16; 5] = [0, 1, 0x100, 2, 3];
    for (i, n) in ["vehicle_x", "esc2_status", "vehicle_gps_position", "abc", "Esc2Status"].iter().enumerate() { f.extend(ulog::sub(0, ids[i], n)) }
    let mut want = vec![];
    for i in 0..6 {
        let k = (i + c) % 5;
        let l = match k { 0 => a(), 1 => e(), _ => v() };
        // trailing padding may be left out of the file
        let m = if k == 1 && i % 2 == 1 { 5 } else { l.len() };
        put_data(&mut f, ids[k], &l[..m]);
        if k < 3 { want.push((k, l)); }
    }
    let mut p = match Names::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    for (k, l) in &want {
        match (k, p.next()) {
            (0, Some(Ok(Names::Abc(s)))) => {
                eq(&s.t, field(l, "timestamp"), "renamed timestamp");
                eq(&s.a, field(l, "b"), "renamed field");
                eq(&s.b, field(l, "a"), "renamed field");
                opt(&s.cd, Some(field(l, "C_d")), "renamed option");
                opt(&s.pad, Some(field(l, "_padding0")), "renamed padding");
            }
            (1, Some(Ok(Names::Second(s)))) => { eq(&s.timestamp, field(l, "timestamp"), "timestamp"); eq(&s.a, field(l, "a"), "field after padding"); opt(&s.after, Some(field(l, "after")), "option after padding") }
            (2, Some(Ok(Names::Vehicle(s)))) => { eq(&s.timestamp, field(l, "timestamp"), "timestamp"); eq(&s.a, field(l, "a"), "field") }
            _ => sym::fail("wrong message"),
        }
    }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
/// a mapped record with many other fields before, between and after the mapped ones: case = place + 4 * count
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_wide(case: u64) {
    warm();
    let n = [15usize, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300, 512, 1000][case as usize / 4];
    let fill = |p: &str, on: bool| -> Vec<Fv> { if on { (0..n).map(|i| fv(&format!("{p}{i}"), if i % 2 == 0 { V::S(Ty::U8, vec![i as u8]) } else { V::A(Ty::U16, i % 3, vec![7; i % 3 * 2]) })).collect() } else { vec![] } };
    let p = case % 4;
    let mut l = fill("f", p == 0 || p == 3);
    l.push(fv("a", scalar(Ty::U16)));
    l.extend(fill("g", p == 1 || p == 3));
    l.push(fv("timestamp", scalar(Ty::U64)));
    l.extend(fill("h", p == 2 || p == 3));
    let with = sym::choose(2) == 1;
    if with { l.push(fv("after", scalar(Ty::U8))) }
    let v = vec![fv("timestamp", scalar(Ty::U64)), fv("a", scalar(Ty::U16))];
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt(&format_text("esc2_status", &l)));
    f.extend(ulog::fmt(&format_text("vehicle_gps_position", &v)));
    f.extend(ulog::sub(0, 7, "esc2_status"));
    f.extend(ulog::sub(0, 8, "vehicle_gps_position"));
    put_data(&mut f, 7, &l);
    put_data(&mut f, 8, &v);
    put_data(&mut f, 7, &l);
    let mut s = match Names::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    for i in 0..3 {
        match (i, s.next()) {
            (1, Some(Ok(Names::Vehicle(s)))) => { eq(&s.timestamp, field(&v, "timestamp"), "timestamp"); eq(&s.a, field(&v, "a"), "field") }
            (0 | 2, Some(Ok(Names::Second(s)))) => { eq(&s.timestamp, field(&l, "timestamp"), "timestamp"); eq(&s.a, field(&l, "a"), "field"); opt(&s.after, if with { Some(field(&l, "after")) } else { None }, "option") }
            _ => sym::fail("wrong message"),
        }
    }
    sym::check(s.next().is_none(), "result after the end");
    sym::reach("end");
}

// ---------------------------------------------------------------- C24: dispatch

#[derive(ULogData)]
pub struct Alpha { timestamp: u64, x: i16 }
#[derive(ULogData)]
#[yule_log(subscription_name = "alpha", multi_id = 1)]
pub struct Alpha1 { timestamp: u64, x: i16 }
#[derive(ULogData)]
pub struct Beta { timestamp: u64, y: Vec<u8> }
#[derive(ULogMessages)]
pub enum All {
    A(Alpha),
    Beta(Beta),
    #[yule_log(forward_other)]
    Remaining(UlogMessage),
    A1(Alpha1),
}
#[derive(ULogMessages)]
pub enum Mapped { A1(Alpha1), A(Alpha), B(Beta) }

const NAMES: [&str; 3] = ["alpha", "beta", "gamma"];
fn view(n: usize, b: &[u8]) -> Vec<Fv> {
    let ts = |i: usize| fv("timestamp", V::S(Ty::U64, b[i..i + 8].to_vec()));
    match n {
        0 => vec![ts(0), fv("x", V::S(Ty::I16, b[8..10].to_vec()))],
        1 => vec![fv("y", V::A(Ty::U8, 3, b[..3].to_vec())), ts(3)],
        _ => vec![fv("z", V::S(Ty::U8, b[..1].to_vec())), ts(1)],
    }
}
/// what the derived stream returns
enum Ev { Map(usize, Vec<Fv>), Other(Exp), Err }
#[derive(Clone, Copy)]
struct Cfg { extra: bool, fwd: bool, other: bool }
struct Run { f: Vec<u8>, hist: Vec<(u16, Option<(usize, u8)>)>, subs: Vec<(usize, u8)>, want: Vec<Ev>, cfg: Cfg }
impl Run {
    fn new(cfg: Cfg) -> Run {
        let mut r = Run { f: ulog::header(1, 5), hist: vec![], subs: vec![], want: vec![], cfg };
        for n in 0..3 {
            let l = view(n, &[0; 12]);
            r.f.extend(ulog::fmt(&format_text(NAMES[n], &l)));
            r.other(Exp::Format { name: NAMES[n].into(), fields: l });
        }
        r
    }
    fn other(&mut self, e: Exp) { if self.cfg.other { self.want.push(Ev::Other(e)) } }
    /// which variant a subscription maps to: 0 alpha, 1 beta, 3 second alpha
    fn variant(n: usize, m: u8) -> Option<usize> {
        match n { 0 => if m == 0 { Some(0) } else if m == 1 { Some(3) } else { None }, 1 => if m == 0 { Some(1) } else { None }, _ => None }
    }
    #[inline(never)]
    fn sub(&mut self, n: usize, m: u8, id: u16) {
        self.f.extend(ulog::sub(m, id, NAMES[n]));
        if Run::variant(n, m).is_none() && self.cfg.fwd { self.other(Exp::Sub { multi: m, id, name: NAMES[n].into() }) }
        self.hist.push((id, Some((n, m))));
        self.subs.push((n, m));
    }
    #[inline(never)]
    fn data(&mut self, id: u16) {
        let b = sym::vec(12);
        self.f.extend(ulog::data(id, &b));
        let mut bound = None;
        for (i, x) in self.hist.iter().rev() { if *i == id { bound = *x; break; } }
        match bound {
            None => self.want.push(Ev::Err),
            Some((n, m)) => {
                let fields = view(n, &b);
                match Run::variant(n, m) {
                    Some(v) => self.want.push(Ev::Map(v, fields)),
                    None if n == 2 && !self.cfg.extra => self.other(Exp::Ignored(b'D')),
                    None => {
                        let mut multi = None;
                        for (k, x) in &self.subs { if *k == n && *x != 0 { multi = Some(m); break; } }
                        let ts = match field(&fields, "timestamp") { V::S(_, b) => le64(b), _ => 0 };
                        self.other(Exp::Data { id, ts, name: NAMES[n].into(), multi, fields });
                    }
                }
            }
        }
    }
    /// 0 to 2: subscribe to that name; 3: remove; 4: data
    #[inline(never)]
    fn event(&mut self, k: usize) { self.event_on(k, sym::u16()) }
    #[inline(never)]
    fn event_on(&mut self, k: usize, id: u16) {
        match k {
            0..=2 => { let m = sym::u8(); self.sub(k, m, id) }
            3 => { self.f.extend(ulog::msg(b'R', &id.to_le_bytes())); self.other(Exp::Raw(b'R', id.to_le_bytes().to_vec())); self.hist.push((id, None)) }
            _ => self.data(id),
        }
    }
    #[inline(never)]
    fn check(&self) {
        if self.cfg.other {
            let mut b = All::builder(&self.f[..]);
            if self.cfg.extra { b = match b.add_subscription("gamma") { Ok(b) => b, Err(_) => sym::fail("add_subscription refused") } }
            if self.cfg.fwd { b = match b.forward_subscriptions(true) { Ok(b) => b, Err(_) => sym::fail("forward_subscriptions refused") } }
            if !self.cfg.extra && !self.cfg.fwd { self.check_all(match All::stream(&self.f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") }) }
            else { self.check_all(match b.stream() { Ok(p) => p, Err(_) => sym::fail("no stream") }) }
        } else {
            let mut p = match Mapped::stream(&self.f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
            for w in &self.want {
                match (w, p.next()) {
                    (Ev::Err, Some(Err(_))) => {}
                    (Ev::Map(0, l), Some(Ok(Mapped::A(s)))) => { eq(&s.timestamp, &l[0].v, "timestamp"); eq(&s.x, &l[1].v, "field of alpha") }
                    (Ev::Map(3, l), Some(Ok(Mapped::A1(s)))) => { eq(&s.timestamp, &l[0].v, "timestamp"); eq(&s.x, &l[1].v, "field of the second alpha") }
                    (Ev::Map(1, l), Some(Ok(Mapped::B(s)))) => { eq(&s.timestamp, &l[1].v, "timestamp"); eqs(&s.y, &l[0].v, "field of beta") }
                    _ => sym::fail("wrong message or variant"),
                }
            }
            sym::check(p.next().is_none(), "result after the end");
        }
    }
    #[inline(never)]
    fn check_all(&self, mut p: impl Iterator<Item = Result<All, ULogError>>) {
        for w in &self.want {
            match (w, p.next()) {
                (Ev::Err, Some(Err(_))) => {}
                (Ev::Map(0, l), Some(Ok(All::A(s)))) => { eq(&s.timestamp, &l[0].v, "timestamp"); eq(&s.x, &l[1].v, "field of alpha") }
                (Ev::Map(3, l), Some(Ok(All::A1(s)))) => { eq(&s.timestamp, &l[0].v, "timestamp"); eq(&s.x, &l[1].v, "field of the second alpha") }
                (Ev::Map(1, l), Some(Ok(All::Beta(s)))) => { eq(&s.timestamp, &l[1].v, "timestamp"); eqs(&s.y, &l[0].v, "field of beta") }
                (Ev::Other(e), Some(Ok(All::Remaining(m)))) => check_msg(&m, e),
                _ => sym::fail("wrong message or variant"),
            }
        }
        sym::check(p.next().is_none(), "result after the end");
    }
}
const CFGS: [Cfg; 5] = [Cfg { extra: false, fwd: false, other: true }, Cfg { extra: true, fwd: false, other: true }, Cfg { extra: false, fwd: true, other: true }, Cfg { extra: true, fwd: true, other: true }, Cfg { extra: false, fwd: false, other: false }];
/// a subscription, an event, data; every id and multi id symbolic: case = configuration + 5 * (name + 3 * event)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_seq(case: u64) {
    warm();
    let c = case as usize;
    let mut r = Run::new(CFGS[c % 5]);
    r.event(c / 5 % 3);
    r.event(c / 15 % 5);
    r.event(4);
    r.check();
    sym::reach("end");
}
/// two arbitrary events between (thorough): case as above + 75 * second event
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_long(case: u64) {
    warm();
    let c = case as usize;
    let mut r = Run::new(CFGS[c % 5]);
    r.event(c / 5 % 3);
    r.event(c / 15 % 5);
    r.event(c / 75 % 5);
    r.event(4);
    r.check();
    sym::reach("end");
}
/// n subscriptions, n messages, removal of every fifth: case = configuration + 5 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_sweep(case: u64) {
    warm();
    for n in pick(300, case as usize / 5, 4) {
        if n == 0 { continue }
        let mut r = Run::new(CFGS[case as usize % 5]);
        let id = |i: usize| (i * 37 % 65521) as u16;
        let m = sym::u8();
        for i in 0..n { r.sub(i % 3, if i == n / 2 { m } else { (i / 3 % 3) as u8 }, id(i)); }
        for i in 0..n { if i % 5 == 4 { r.event_on(3, id(i)) } if i + 8 > n || i % 16 == 0 { r.data(id(i)) } }
        r.data(id(n));
        r.check();
    }
    sym::reach("end");
}
/// any three events on two ids, then data on both: case = configuration + 5 * first event
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_deep(case: u64) { deep(case as usize, 2) }
/// any four events (thorough)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_deeper(case: u64) { deep(case as usize, 3) }
#[inline(never)]
fn deep(c: usize, n: usize) {
    warm();
    let mut r = Run::new(CFGS[c % 5]);
    r.sub(1, 0, 2);
    step(&mut r, c / 5);
    for _ in 0..n { let k = sym::choose(16); step(&mut r, k); }
    r.data(1);
    r.data(0x100);
    r.check();
    sym::reach("end");
}
/// one of 16 events on two ids: subscriptions to the first name with multi id 0, 1, any other, to the second with 0, any other, to the third; removal, data
#[inline(never)]
fn step(r: &mut Run, k: usize) {
    let id = [1u16, 0x100][k & 1];
    match k / 2 {
        0 => r.sub(0, 0, id),
        1 => r.sub(0, 1, id),
        2 => { let m = sym::u8(); sym::assume(m > 1); r.sub(0, m, id) }
        3 => r.sub(1, 0, id),
        4 => { let m = sym::u8(); sym::assume(m > 0); r.sub(1, m, id) }
        5 => r.sub(2, 0, id),
        j => r.event_on(j - 3, id),
    }
}
/// three subscriptions with fixed ids to any names and multi ids, the first id bound again, data on each: case = configuration + 5 * (names in base 3)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_rebind(case: u64) {
    warm();
    let c = case as usize;
    let mut r = Run::new(CFGS[c % 5]);
    let (n0, n1, n2) = (c / 5 % 3, c / 15 % 3, c / 45 % 3);
    let (m0, m1, m2) = (sym::below(3), sym::below(2), sym::below(3));
    r.sub(n0, m0, 4);
    r.sub(n1, m1, 0x104);
    r.data(4);
    r.sub(n2, m2, 4);
    r.data(4);
    r.data(0x104);
    r.check();
    sym::reach("end");
}
/// every other kind of message passes through, or is dropped without a catch-all variant: case = configuration + 5 * kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_pass(case: u64) {
    warm();
    let (c, k) = (case as usize % 5, case as usize / 5);
    let mut r = Run::new(CFGS[c]);
    let mut f = File::new();
    let skip = if k < gen::N_DEF { gen::def_msg(&mut f, k); 1 } else { gen::data_msg(&mut f, [3usize, 4, 5, 6, 7, 8, 9, 10, 12][k - gen::N_DEF]); 1 };
    let put = |r: &mut Run| { r.f.extend(&f.bytes[f.ends[0]..]); for e in &f.exp[skip..] { r.other(e.clone()) } };
    if k < gen::N_DEF { put(&mut r) }
    r.sub(0, 0, 4);
    r.data(4);
    if k >= gen::N_DEF { put(&mut r) }
    r.data(4);
    // a damaged message is reported by every stream
    r.f.extend(ulog::msg(b'O', &sym::vec(1)));
    r.want.push(Ev::Err);
    r.data(4);
    r.check();
    sym::reach("end");
}
/// builder options set several times and in any order: the last value counts, requested names add up
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_options(case: u64) {
    warm();
    let sets: Vec<usize> = match case { 0 => vec![], n if n < 4 => (0..n).map(|_| sym::choose(4)).collect(), n => (0..n - 1).map(|_| sym::choose(2)).collect() };
    let mut r = Run::new(Cfg { extra: sets.contains(&2), fwd: sets.iter().rev().find(|k| **k < 2) == Some(&1), other: true });
    let m = sym::below(3);
    r.sub(2, m, 4);
    r.sub(0, 0, 5);
    r.sub(1, 7, 6);
    for id in 4..7 { r.data(id) }
    r.sub(2, 0, 5);
    r.data(5);
    let mut b = All::builder(&r.f[..]);
    for k in sets {
        let n = match k {
            0 => b.forward_subscriptions(false),
            1 => b.forward_subscriptions(true),
            2 => b.add_subscription("gamma"),
            _ => b.extend_subscriptions(["delta", "alpha", "delta"]),
        };
        b = match n { Ok(b) => b, Err(_) => sym::fail("configuration refused") };
    }
    match b.stream() { Ok(p) => r.check_all(p), Err(_) => sym::fail("no stream") }
    sym::reach("end");
}
/// configuration: case 0: refused without a catch-all variant; 1: accepted with one; 2: extend_subscriptions
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_builder(case: u64) {
    warm();
    let mut r = Run::new(Cfg { extra: true, fwd: false, other: true });
    let m = sym::below(3);
    r.sub(2, m, 4);
    r.sub(0, 0, 5);
    r.data(4);
    r.data(5);
    match case {
        0 => {
            sym::check(matches!(Mapped::builder(&r.f[..]).add_subscription("gamma"), Err(ULogError::InvalidConfiguration(_))), "add_subscription accepted");
            sym::check(matches!(Mapped::builder(&r.f[..]).extend_subscriptions(["gamma"]), Err(ULogError::InvalidConfiguration(_))), "extend_subscriptions accepted");
            sym::check(matches!(Mapped::builder(&r.f[..]).forward_subscriptions(true), Err(ULogError::InvalidConfiguration(_))), "forward_subscriptions accepted");
            let b = match Mapped::builder(&r.f[..]).forward_subscriptions(false) { Ok(b) => b, Err(_) => sym::fail("forward_subscriptions(false) refused") };
            let mut p = match b.stream() { Ok(p) => p, Err(_) => sym::fail("no stream") };
            sym::check(matches!(p.next(), Some(Ok(Mapped::A(_)))), "mapped message");
            sym::check(p.next().is_none(), "result after the end");
        }
        1 => {
            let b = All::builder(&r.f[..]).forward_subscriptions(false).and_then(|b| b.add_subscription("beta")).and_then(|b| b.add_subscription(String::from("gamma")));
            match b.and_then(|b| b.stream()) { Ok(p) => r.check_all(p), Err(_) => sym::fail("configuration refused") }
        }
        2 => {
            let b = All::builder(&r.f[..]).extend_subscriptions(["delta", "gamma"]).and_then(|b| b.extend_subscriptions(vec![String::from("x")]));
            match b.and_then(|b| b.stream()) { Ok(p) => r.check_all(p), Err(_) => sym::fail("configuration refused") }
        }
        _ => {
            let b = All::builder(&r.f[..]).add_subscription("gamma").and_then(|b| b.extend_subscriptions(["delta"]));
            match b.and_then(|b| b.stream()) { Ok(p) => r.check_all(p), Err(_) => sym::fail("configuration refused") }
        }
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- C25: mismatches

#[derive(ULogData)]
pub struct Need { timestamp: u64, a: u16, b: Option<i32>, c: f32 }
#[derive(ULogMessages)]
pub enum Needs {
    Need(Need),
    Beta(Beta),
    #[yule_log(forward_other)]
    Other(UlogMessage),
}
#[derive(ULogMessages)]
pub enum OnlyNeeds { Need(Need), Beta(Beta) }
/// any subset of the mapped fields is present: case = subset + 16 * other fields present + 32 * without catch-all variant
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_missing(case: u64) {
    warm();
    let c = case as usize;
    let m = [fv("a", scalar(Ty::U16)), fv("b", scalar(Ty::I32)), fv("c", scalar(Ty::F32)), fv("timestamp", scalar(Ty::U64))];
    let mut l: Vec<Fv> = (0..4).filter(|i| c >> i & 1 == 1).map(|i| m[i].clone()).collect();
    if c & 16 != 0 { l.insert(0, fv("A", scalar(Ty::U16))); l.push(fv("cc", scalar(Ty::U8))); }
    let y = array(Ty::U8, 3);
    let ts = scalar(Ty::U64);
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt("beta:uint8_t[3] y;uint64_t timestamp;"));
    f.extend(ulog::fmt(&format_text("need", &l)));
    f.extend(ulog::sub(0, 4, "need"));
    f.extend(ulog::sub(0, 5, "beta"));
    put_data(&mut f, 4, &l);
    put_data(&mut f, 5, &[fv("y", y.clone()), fv("timestamp", ts.clone())]);
    let whole = c & 13 == 13;
    let missing: Vec<&str> = [(1, "a"), (4, "c"), (8, "timestamp")].iter().filter(|(b, _)| c & b == 0).map(|x| x.1).collect();
    let named = |s: &str| missing.iter().all(|n| s.contains(&format!(" {n}")));
    let fits = |s: &Need| { eq(&s.a, &m[0].v, "field"); opt(&s.b, if c & 2 != 0 { Some(&m[1].v) } else { None }, "option"); eq(&s.c, &m[2].v, "field"); eq(&s.timestamp, &m[3].v, "timestamp") };
    if c & 32 == 0 {
        let mut p = match Needs::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
        for _ in 0..2 { sym::check(matches!(p.next(), Some(Ok(Needs::Other(UlogMessage::FormatDefinition(_))))), "format definition not passed on") }
        if !whole {
            match p.next() { Some(Err(ULogError::InvalidFieldName(s))) => sym::check(named(&s), "missing field not named"), _ => sym::fail("missing field not reported") }
            match p.next() {
                Some(Ok(Needs::Other(UlogMessage::LoggedData(d)))) => { sym::check(c & 8 != 0, "data without timestamp"); check_fields(&d.data.fields, &l) }
                Some(Err(ULogError::MissingTimestamp)) => sym::check(c & 8 == 0, "timestamp missing"),
                _ => sym::fail("data of a subscription which does not fit"),
            }
        } else { match p.next() { Some(Ok(Needs::Need(s))) => fits(&s), _ => sym::fail("mapped message") } }
        match p.next() { Some(Ok(Needs::Beta(s))) => { eqs(&s.y, &y, "other message"); eq(&s.timestamp, &ts, "other timestamp") } _ => sym::fail("other message") }
        sym::check(p.next().is_none(), "result after the end");
    } else {
        let mut p = match OnlyNeeds::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
        if !whole {
            match p.next() { Some(Err(ULogError::InvalidFieldName(s))) => sym::check(named(&s), "missing field not named"), _ => sym::fail("missing field not reported") }
            if c & 8 == 0 { sym::check(matches!(p.next(), Some(Err(ULogError::MissingTimestamp))), "timestamp missing"); }
        } else { match p.next() { Some(Ok(OnlyNeeds::Need(s))) => fits(&s), _ => sym::fail("mapped message") } }
        match p.next() { Some(Ok(OnlyNeeds::Beta(s))) => { eqs(&s.y, &y, "other message"); eq(&s.timestamp, &ts, "other timestamp") } _ => sym::fail("other message") }
        sym::check(p.next().is_none(), "result after the end");
    }
    sym::reach("end");
}

#[derive(ULogData)]
pub struct Types { timestamp: Option<u64>, a: Option<u8>, b: Option<u16>, c: Option<u32>, d: Option<u64>, e: Option<i8>, f: Option<i16>, g: Option<i32>, h: Option<i64>, i: Option<f32>, j: Option<f64>, k: Option<bool>, l: Option<CChar> }
#[derive(ULogData)]
pub struct TypesA { timestamp: u64, a: Option<Vec<u8>>, b: Option<Vec<u16>>, c: Option<Vec<u32>>, d: Option<Vec<u64>>, e: Option<Vec<i8>>, f: Option<Vec<i16>>, g: Option<Vec<i32>>, h: Option<Vec<i64>>, i: Option<Vec<f32>>, j: Option<Vec<f64>>, k: Option<Vec<bool>>, l: Option<Vec<CChar>>, m: Option<Leaf>, n: Option<Vec<Leaf>> }
#[derive(ULogData)]
pub struct Need1 { timestamp: u64, a: u16 }
#[derive(ULogData)]
pub struct Need2 { timestamp: u64, a: Vec<u16> }
#[derive(ULogData)]
pub struct Need3 { timestamp: u64, a: Leaf }
#[derive(ULogData)]
pub struct Need4 { timestamp: u64, a: Vec<Leaf> }
#[derive(ULogMessages)]
pub enum Typed {
    Types(Types), TypesA(TypesA), Need1(Need1), Need2(Need2), Need3(Need3), Need4(Need4), Beta(Beta),
    #[yule_log(forward_other)]
    Other(UlogMessage),
}
/// every target type (12 scalars, 12 arrays, nested, nested array, all optional; 4 required ones) against a field of
/// kind `case % 28` (12 scalars, 12 arrays, nested, nested array, both also with another type inside), one of 4 concrete contents where it does not fit
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_type(case: u64) {
    warm();
    let c = case as usize;
    for target in 0..30 { one_type(target, c % 28, c / 28); }
    sym::reach("end");
}
#[inline(never)]
fn one_type(target: usize, kind: usize, pat: usize) {
    // targets 26 to 29: required u16, Vec<u16>, Leaf, Vec<Leaf>
    let equiv = match target { 26 => 1, 27 => 13, 28 => 24, 29 => 25, t => t };
    let fits = equiv == kind;
    if fits && pat > 0 { return; }
    let (sub, name) = match target { 0..=11 => ("types", ABC[target]), 12..=23 => ("types_a", ABC[target - 12]), 24 => ("types_a", "m"), 25 => ("types_a", "n"), 26 => ("need1", "a"), 27 => ("need2", "a"), 28 => ("need3", "a"), _ => ("need4", "a") };
    let conc = |t: Ty, n: usize| {
        let mut b = vec![[1u8, 0, 255, 0x41][pat]; t.size() * n];
        if pat == 3 { for (i, x) in b.iter_mut().enumerate() { if i % t.size() > 0 { *x = 0 } } }
        if t == Ty::Bool { for x in &mut b { *x &= 1 } }
        b
    };
    let bad = kind >= 26;
    let leaf = || Nested { name: "leaf".into(), fields: vec![fv("k", if fits { scalar(Ty::I16) } else if bad { V::S(Ty::U16, conc(Ty::U16, 1)) } else { V::S(Ty::I16, conc(Ty::I16, 1)) })] };
    let v = match kind {
        0..=11 => if fits { scalar(TYS[kind]) } else { V::S(TYS[kind], conc(TYS[kind], 1)) },
        12..=23 => { let n = if pat == 1 { 1 } else { 2 }; if fits { array(TYS[kind - 12], n) } else { V::A(TYS[kind - 12], n, conc(TYS[kind - 12], n)) } }
        24 | 26 => V::N(leaf()),
        _ => V::AN("leaf".into(), if pat == 1 { vec![leaf()] } else { vec![leaf(), leaf()] }),
    };
    let l = vec![fv("x", scalar(Ty::U16)), fv(name, v.clone()), fv("timestamp", scalar(Ty::U64))];
    let (y, ts) = (array(Ty::U8, 3), scalar(Ty::U64));
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt(if bad { "leaf:uint16_t k;" } else { "leaf:int16_t k;" }));
    f.extend(ulog::fmt("beta:uint8_t[3] y;uint64_t timestamp;"));
    f.extend(ulog::fmt(&format_text(sub, &l)));
    f.extend(ulog::sub(0, 4, sub));
    f.extend(ulog::sub(0, 5, "beta"));
    put_data(&mut f, 4, &l);
    put_data(&mut f, 5, &[fv("y", y.clone()), fv("timestamp", ts.clone())]);
    put_data(&mut f, 4, &l);
    let mut p = match Typed::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    for _ in 0..3 { sym::check(matches!(p.next(), Some(Ok(Typed::Other(UlogMessage::FormatDefinition(_))))), "format definition not passed on") }
    typed(p.next(), target, fits, &l);
    match p.next() { Some(Ok(Typed::Beta(s))) => { eqs(&s.y, &y, "other message"); eq(&s.timestamp, &ts, "other timestamp") } _ => sym::fail("other message") }
    typed(p.next(), target, fits, &l);
    sym::check(p.next().is_none(), "result after the end");
}
#[inline(never)]
fn typed(r: Option<Result<Typed, ULogError>>, target: usize, fits: bool, l: &[Fv]) {
    if !fits {
        sym::check(matches!(r, Some(Err(ULogError::TypeMismatch(_)))), "type mismatch not reported");
        return;
    }
    let w = |t: usize| if t == target { Some(&l[1].v) } else { None };
    match r {
        Some(Ok(Typed::Types(s))) if target < 12 => {
            opt(&s.a, w(0), "u8"); opt(&s.b, w(1), "u16"); opt(&s.c, w(2), "u32"); opt(&s.d, w(3), "u64"); opt(&s.e, w(4), "i8"); opt(&s.f, w(5), "i16"); opt(&s.g, w(6), "i32"); opt(&s.h, w(7), "i64");
            opt(&s.i, w(8), "f32"); opt(&s.j, w(9), "f64"); opt(&s.k, w(10), "bool"); opt(&s.l, w(11), "char");
            opt(&s.timestamp, Some(&l[2].v), "timestamp");
        }
        Some(Ok(Typed::TypesA(s))) if target < 26 => {
            opt(&s.a, w(12), "u8s"); opt(&s.b, w(13), "u16s"); opt(&s.c, w(14), "u32s"); opt(&s.d, w(15), "u64s"); opt(&s.e, w(16), "i8s"); opt(&s.f, w(17), "i16s"); opt(&s.g, w(18), "i32s"); opt(&s.h, w(19), "i64s");
            opt(&s.i, w(20), "f32s"); opt(&s.j, w(21), "f64s"); opt(&s.k, w(22), "bools"); opt(&s.l, w(23), "chars"); opt(&s.m, w(24), "nested"); opt(&s.n, w(25), "nested array");
            eq(&s.timestamp, &l[2].v, "timestamp");
        }
        Some(Ok(Typed::Need1(s))) if target == 26 => eq(&s.a, &l[1].v, "required field"),
        Some(Ok(Typed::Need2(s))) if target == 27 => eqs(&s.a, &l[1].v, "required array"),
        Some(Ok(Typed::Need3(s))) if target == 28 => eq(&s.a, &l[1].v, "required nested"),
        Some(Ok(Typed::Need4(s))) if target == 29 => eqs(&s.a, &l[1].v, "required nested array"),
        _ => sym::fail("mapped message"),
    }
}

#[derive(ULogData)]
pub struct Part { timestamp: u64, #[yule_log(field_name = "_padding0")] pad: Vec<u8> }
#[derive(ULogData)]
pub struct PartOpt { timestamp: u64, #[yule_log(field_name = "_padding0")] pad: Option<Vec<u8>> }
#[derive(ULogData)]
pub struct Sub { k: i16, missing: u8 }
#[derive(ULogData)]
pub struct Has { timestamp: u64, s: Sub }
#[derive(ULogData)]
pub struct HasList { timestamp: u64, s: Vec<Sub> }
#[derive(ULogData)]
pub struct HasOpt { timestamp: u64, s: Option<Sub> }
#[derive(ULogMessages)]
pub enum Parts {
    Part(Part), PartOpt(PartOpt), Has(Has), HasList(HasList), HasOpt(HasOpt), Beta(Beta),
    #[yule_log(forward_other)]
    Other(UlogMessage),
}
/// omitted trailing padding that is mapped, nested structs without a required field, undefined formats, short payloads
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_late(case: u64) {
    warm();
    let (y, ts, t0) = (array(Ty::U8, 3), scalar(Ty::U64), scalar(Ty::U64));
    let pad = array(Ty::U8, 2);
    let (name, text, last): (&str, &str, Fv) = match case {
        0 | 1 => ("part", "part:uint64_t timestamp;uint8_t[2] _padding0;", fv("_padding0", pad.clone())),
        2 | 3 => ("part_opt", "part_opt:uint64_t timestamp;uint8_t[2] _padding0;", fv("_padding0", pad.clone())),
        4 => ("has", "has:uint64_t timestamp;leaf s;", fv("s", scalar(Ty::I16))),
        5 => ("has_list", "has_list:uint64_t timestamp;leaf[1] s;", fv("s", scalar(Ty::I16))),
        6 => ("has_opt", "has_opt:uint64_t timestamp;leaf s;", fv("s", scalar(Ty::I16))),
        7 => ("has_list", "has_list:uint64_t timestamp;leaf[0] s;", fv("s", array(Ty::I16, 0))),
        8 => ("has", "has:uint64_t timestamp;leaf s;", fv("s", scalar(Ty::U8))),
        _ => ("has", "", fv("s", scalar(Ty::U16))),
    };
    let omit = case == 1 || case == 3;
    let l = if omit { vec![fv("timestamp", t0.clone())] } else { vec![fv("timestamp", t0.clone()), last] };
    let mut f = ulog::header(1, 5);
    leaf_format(&mut f);
    f.extend(ulog::fmt("beta:uint8_t[3] y;uint64_t timestamp;"));
    if case < 9 { f.extend(ulog::fmt(text)); }
    f.extend(ulog::sub(0, 4, name));
    f.extend(ulog::sub(0, 5, "beta"));
    put_data(&mut f, 4, &l);
    put_data(&mut f, 5, &[fv("y", y.clone()), fv("timestamp", ts.clone())]);
    let mut p = match Parts::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    for _ in 0..if case < 9 { 3 } else { 2 } { sym::check(matches!(p.next(), Some(Ok(Parts::Other(UlogMessage::FormatDefinition(_))))), "format definition not passed on") }
    if case == 9 { sym::check(matches!(p.next(), Some(Err(ULogError::UndefinedFormat(_)))), "undefined format"); }
    match (case, p.next()) {
        (0, Some(Ok(Parts::Part(s)))) => { eqs(&s.pad, &pad, "mapped padding"); eq(&s.timestamp, &t0, "timestamp") }
        (2, Some(Ok(Parts::PartOpt(s)))) => { opt(&s.pad, Some(&pad), "mapped padding"); eq(&s.timestamp, &t0, "timestamp") }
        (3, Some(Ok(Parts::PartOpt(s)))) => { sym::check(s.pad.is_none(), "padding the message lacks"); eq(&s.timestamp, &t0, "timestamp") }
        (1, Some(Err(ULogError::InvalidFieldName(_)))) => {}
        (4 | 5 | 6, Some(Err(ULogError::InvalidFieldName(s)))) => sym::check(s.contains("missing"), "missing field not named"),
        (7, Some(Ok(Parts::HasList(s)))) => { sym::check(s.s.is_empty(), "empty nested array"); eq(&s.timestamp, &t0, "timestamp") }
        (8 | 9, Some(Err(_))) => {}
        _ => sym::fail("result of a message which does not fit"),
    }
    match p.next() { Some(Ok(Parts::Beta(s))) => { eqs(&s.y, &y, "other message"); eq(&s.timestamp, &ts, "other timestamp") } _ => sym::fail("other message") }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
// ---------------------------------------------------------------- names in which every character is symbolic
#[inline(never)]
fn differ(a: &str, l: &[&str]) { for x in l { if x.len() == a.len() { sym::assume(!same(a.as_bytes(), x.as_bytes())) } } }
/// C23: fields of any other name around the mapped ones: case = length - 1 + 16 * place
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_words(case: u64) {
    warm();
    let w = word(1 + case as usize % 16);
    differ(&w, &["timestamp", "a", "after"]);
    if w.len() >= 8 { sym::assume(!same(&w.as_bytes()[..8], b"_padding")) }
    let o = fv(&w, if case % 2 == 0 { array(Ty::U16, 1) } else { scalar(Ty::U16) });
    let mut l = vec![fv("a", scalar(Ty::U16)), fv("timestamp", scalar(Ty::U64))];
    match case / 16 { 0 => l.insert(0, o), 1 => l.push(o), _ => { l.insert(1, o.clone()); l.insert(0, o); l.push(fv("after", scalar(Ty::U8))) } }
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt(&format_text("esc2_status", &l)));
    f.extend(ulog::sub(0, 7, "esc2_status"));
    put_data(&mut f, 7, &l);
    let mut s = match Names::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    match s.next() {
        Some(Ok(Names::Second(s))) => { eq(&s.timestamp, field(&l, "timestamp"), "timestamp"); eq(&s.a, field(&l, "a"), "field"); opt(&s.after, if case >= 32 { Some(field(&l, "after")) } else { None }, "option") }
        _ => sym::fail("wrong message"),
    }
    sym::check(s.next().is_none(), "result after the end");
    sym::reach("end");
}
/// C24: messages of any other name: case = length - 1 + 12 * configuration
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_words(case: u64) {
    warm();
    let w = word(1 + case as usize % 12);
    differ(&w, &["alpha", "beta", "gamma"]);
    let l = vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    let a = vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt(&format_text(&w, &l)));
    f.extend(ulog::fmt(&format_text("alpha", &a)));
    let m = sym::choose(2) as u8;
    f.extend(ulog::sub(m, 3, &w));
    f.extend(ulog::sub(0, 4, "alpha"));
    put_data(&mut f, 3, &l);
    put_data(&mut f, 4, &a);
    put_data(&mut f, 3, &l);
    let mapped = |s: &Alpha| { eq(&s.timestamp, &a[0].v, "timestamp"); eq(&s.x, &a[1].v, "field of alpha") };
    if case / 12 == 0 {
        let mut p = match Mapped::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
        match p.next() { Some(Ok(Mapped::A(s))) => mapped(&s), _ => sym::fail("wrong message") }
        sym::check(p.next().is_none(), "result after the end");
    } else {
        let b = All::builder(&f[..]);
        let (fwd, extra) = (case / 12 == 2, case / 12 == 3);
        let b = match b.forward_subscriptions(fwd) { Ok(b) => b, Err(_) => sym::fail("refused") };
        let b = if extra { match b.add_subscription(w.clone()) { Ok(b) => b, Err(_) => sym::fail("refused") } } else { b };
        let mut p = match b.stream() { Ok(p) => p, Err(_) => sym::fail("no stream") };
        let mut other = |e: &Exp| match p.next() { Some(Ok(All::Remaining(m))) => check_msg(&m, e), Some(Ok(All::A(s))) => { if !matches!(e, Exp::Dropout(_)) { sym::fail("wrong variant") } mapped(&s) } _ => sym::fail("wrong message") };
        other(&Exp::Format { name: w.clone(), fields: l.clone() });
        other(&Exp::Format { name: "alpha".into(), fields: a.clone() });
        if fwd { other(&Exp::Sub { multi: m, id: 3, name: w.clone() }) }
        let d = if extra { Exp::Data { id: 3, ts: match &l[0].v { V::S(_, b) => le64(b), _ => 0 }, name: w.clone(), multi: if m > 0 { Some(m) } else { None }, fields: l.clone() } } else { Exp::Ignored(b'D') };
        other(&d);
        other(&Exp::Dropout(0));
        other(&d);
        sym::check(p.next().is_none(), "result after the end");
    }
    sym::reach("end");
}
/// C25: another name instead of a required one: case = length - 1 + 12 * which
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_words(case: u64) {
    warm();
    let w = word(1 + case as usize % 12);
    differ(&w, &["timestamp", "a", "b", "c"]);
    if w.len() >= 8 { sym::assume(!same(&w.as_bytes()[..8], b"_padding")) }
    let n = ["a", "c"][case as usize / 12];
    let mut l = vec![fv("timestamp", scalar(Ty::U64)), fv("a", scalar(Ty::U16)), fv("b", scalar(Ty::I32)), fv("c", scalar(Ty::F32))];
    l[1 + 2 * (case as usize / 12)].name = w.clone();
    let y = array(Ty::U8, 3);
    let ts = scalar(Ty::U64);
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt("beta:uint8_t[3] y;uint64_t timestamp;"));
    f.extend(ulog::fmt(&format_text("need", &l)));
    f.extend(ulog::sub(0, 4, "need"));
    f.extend(ulog::sub(0, 5, "beta"));
    put_data(&mut f, 5, &[fv("y", y.clone()), fv("timestamp", ts.clone())]);
    let mut p = match OnlyNeeds::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    match p.next() { Some(Err(ULogError::InvalidFieldName(s))) => sym::check(s.contains(&format!(" {n}")), "missing field not named"), _ => sym::fail("missing field not reported") }
    match p.next() { Some(Ok(OnlyNeeds::Beta(s))) => { eqs(&s.y, &y, "other message"); eq(&s.timestamp, &ts, "other timestamp") } _ => sym::fail("other message") }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
// ---------------------------------------------------------------- default names and instances
macro_rules! named { ($($n:ident),*) => {
    $( #[derive(ULogData)] pub struct $n { timestamp: u64, v: u16 } )*
    #[derive(ULogMessages)]
    pub enum Named { $( $n($n) ),* }
    fn named(m: &Named) -> (&'static str, u64, u16) { match m { $( Named::$n(s) => (stringify!($n), s.timestamp, s.v) ),* } }
} }
named!(A, AbC, X1, Imu2Raw, GPSRaw, RawGPS, Raw4GPS, ESC, V2, snake_name, Mixed_Name, Camel2Case3, HTTPServer2, Yaw10Deg, UAVState, VehicleAngularVelocitySetpoint);
/// struct name, the message it maps, messages it does not map
const NAMED: [(&str, &str, [&str; 3]); 16] = [
    ("A", "a", ["A", "aa", "a_"]), ("AbC", "ab_c", ["abc", "AbC", "a_b_c"]), ("X1", "x1", ["x_1", "X1", "x"]), ("Imu2Raw", "imu2_raw", ["imu_2_raw", "imu2raw", "imu_2raw"]),
    ("GPSRaw", "gps_raw", ["g_p_s_raw", "gpsraw", "GPSRaw"]), ("RawGPS", "raw_gps", ["raw_g_p_s", "rawgps", "RawGPS"]), ("Raw4GPS", "raw4_gps", ["raw_4_gps", "raw4gps", "raw_4gps"]), ("ESC", "esc", ["e_s_c", "ESC", "Esc"]),
    ("V2", "v2", ["v_2", "V2", "v"]), ("snake_name", "snake_name", ["snakename", "SnakeName", "snake_nam"]), ("Mixed_Name", "mixed_name", ["mixed__name", "Mixed_Name", "mixedname"]), ("Camel2Case3", "camel2_case3", ["camel_2_case_3", "camel2case3", "camel2_case_3"]),
    ("HTTPServer2", "http_server2", ["httpserver2", "http_server_2", "h_t_t_p_server2"]), ("Yaw10Deg", "yaw10_deg", ["yaw_10_deg", "yaw10deg", "yaw_10deg"]), ("UAVState", "uav_state", ["uavstate", "u_a_v_state", "UAVState"]),
    ("VehicleAngularVelocitySetpoint", "vehicle_angular_velocity_setpoint", ["vehicle_angular_velocity_setpoin", "vehicle_angular_velocity", "VehicleAngularVelocitySetpoint"]),
];
/// C23: the name a struct maps by default, and close names that it does not map: case = struct
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_default(case: u64) {
    warm();
    let (s, name, not) = NAMED[case as usize];
    let mut f = ulog::header(1, 5);
    let l: Vec<Fv> = vec![fv("v", scalar(Ty::U16)), fv("timestamp", scalar(Ty::U64))];
    let (id, other) = (sym::u16(), sym::u16());
    sym::assume(id != other);
    for n in not.iter().chain([&name]) { f.extend(ulog::fmt(&format_text(n, &l))) }
    for n in not { f.extend(ulog::sub(0, other, n)); put_data(&mut f, other, &l); }
    f.extend(ulog::sub(0, id, name));
    put_data(&mut f, id, &l);
    put_data(&mut f, other, &l);
    let mut p = match Named::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    match p.next() {
        Some(Ok(m)) => { let (n, t, v) = named(&m); sym::check(same(n.as_bytes(), s.as_bytes()), "wrong variant"); eq(&t, &l[1].v, "timestamp"); eq(&v, &l[0].v, "field") }
        _ => sym::fail("message of the struct's name not mapped"),
    }
    sym::check(p.next().is_none(), "message of another name mapped");
    sym::reach("end");
}

macro_rules! instances { ($($n:ident $m:literal),*) => {
    $( #[derive(ULogData)] #[yule_log(subscription_name = "alpha", multi_id = $m)] pub struct $n { timestamp: u64, x: i16 } )*
    #[derive(ULogMessages)]
    pub enum Instances { $( $n($n), )* #[yule_log(forward_other)] Other(UlogMessage) }
    #[derive(ULogMessages)]
    pub enum Bare { $( $n($n), )* }
    fn instance(m: &Instances) -> Option<(u8, u64, i16)> { match m { $( Instances::$n(s) => Some(($m, s.timestamp, s.x)), )* _ => None } }
    fn bare(m: &Bare) -> (u8, u64, i16) { match m { $( Bare::$n(s) => ($m, s.timestamp, s.x), )* } }
} }
instances!(I255 255, I0 0, I7 7, I127 127, I128 128, I8 8, I254 254, I64 64);
const INSTANCES: [u8; 8] = [255, 0, 7, 127, 128, 8, 254, 64];
/// C24: eight instances of one message and the other 248: case = 0 with, 1 without a catch-all variant, + 2 if a second subscription has any other multi id
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_instances(case: u64) {
    warm();
    let l = || vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    let (m, id) = (sym::u8(), sym::u16());
    let mut f = ulog::header(1, 5);
    f.extend(ulog::fmt(&format_text("alpha", &l())));
    f.extend(ulog::sub(m, id, "alpha"));
    let mut all = vec![(m, id, l())];
    if case >= 2 {
        let (m2, id2) = (sym::u8(), sym::u16());
        sym::assume((m2 != m) & (id2 != id));
        f.extend(ulog::sub(m2, id2, "alpha"));
        all.insert(0, (m2, id2, l()));
    }
    for (_, id, l) in &all { put_data(&mut f, *id, l) }
    let known = |m: u8| INSTANCES.iter().any(|i| *i == m);
    let fits = |r: (u8, u64, i16), (m, _, l): &(u8, u16, Vec<Fv>)| { sym::check(r.0 == *m, "wrong instance"); eq(&r.1, &l[0].v, "timestamp"); eq(&r.2, &l[1].v, "field") };
    if case % 2 == 0 {
        let mut p = match Instances::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
        sym::check(matches!(p.next(), Some(Ok(Instances::Other(UlogMessage::FormatDefinition(_))))), "format definition not passed on");
        for a in &all {
            match p.next() {
                Some(Ok(r)) => match (instance(&r), known(a.0)) {
                    (Some(r), true) => fits(r, a),
                    (None, false) => if let Instances::Other(m) = &r {
                        // the other subscription comes second in the file, and a name has a multi id if any subscription to it does
                        let multi = if case >= 2 || a.0 != 0 { Some(a.0) } else { None };
                        check_msg(m, &Exp::Data { id: a.1, ts: match &a.2[0].v { V::S(_, b) => le64(b), _ => 0 }, name: "alpha".into(), multi, fields: a.2.clone() })
                    },
                    _ => sym::fail("wrong variant"),
                },
                _ => sym::fail("message missing"),
            }
        }
        sym::check(p.next().is_none(), "result after the end");
    } else {
        let mut p = match Bare::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
        for a in &all { if known(a.0) { match p.next() { Some(Ok(r)) => fits(bare(&r), a), _ => sym::fail("message missing") } } }
        sym::check(p.next().is_none(), "result after the end");
    }
    sym::reach("end");
}

#[derive(ULogData)]
pub struct Renamed {
    timestamp: u64,
    #[yule_log(field_name = "maybe_leaf")] a: Option<Leaf>,
    #[yule_log(field_name = "Leaves")] b: Vec<Leaf>,
    #[yule_log(field_name = "the_leaf")] c: Leaf,
    #[yule_log(field_name = "some_leaves")] d: Option<Vec<Leaf>>,
    #[yule_log(field_name = "Arr0")] e: Option<Vec<f32>>,
    #[yule_log(field_name = "e")] f: Vec<u8>,
}
#[derive(ULogMessages)]
pub enum Renames { Renamed(Renamed) }
/// C23: fields mapped under another name, of every shape; optional ones present or not: case = present (3 bits) + 8 * order
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_renamed(case: u64) {
    warm();
    let leaf = || Nested { name: "leaf".into(), fields: vec![fv("k", scalar(Ty::I16))] };
    let mut all = vec![fv("maybe_leaf", V::N(leaf())), fv("some_leaves", V::AN("leaf".into(), vec![leaf(), leaf(), leaf()])), fv("Arr0", array(Ty::F32, 2))];
    for i in 0..3 { if case >> i & 1 == 0 { all[i].name = ["a", "d", "e_"][i].into() } }
    all.extend([fv("Leaves", V::AN("leaf".into(), vec![leaf(), leaf()])), fv("the_leaf", V::N(leaf())), fv("e", array(Ty::U8, 3)), fv("timestamp", scalar(Ty::U64)), fv("b", scalar(Ty::U8)), fv("c", scalar(Ty::U8)), fv("f", scalar(Ty::U16))]);
    let l = order(&all, case as usize / 8, case / 8 % 2 == 1);
    let mut f = ulog::header(1, 5);
    leaf_format(&mut f);
    f.extend(ulog::fmt(&format_text("renamed", &l)));
    f.extend(ulog::sub(0, 9, "renamed"));
    put_data(&mut f, 9, &l);
    let mut p = match Renames::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    let w = |i: usize| if case >> i & 1 == 1 { Some(&all[i].v) } else { None };
    match p.next() {
        Some(Ok(Renames::Renamed(s))) => {
            eq(&s.timestamp, field(&l, "timestamp"), "timestamp");
            opt(&s.a, w(0), "renamed optional nested"); opt(&s.d, w(1), "renamed optional nested array"); opt(&s.e, w(2), "renamed optional array");
            eqs(&s.b, field(&l, "Leaves"), "renamed nested array"); eq(&s.c, field(&l, "the_leaf"), "renamed nested"); eqs(&s.f, field(&l, "e"), "renamed array");
        }
        _ => sym::fail("wrong message"),
    }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}

macro_rules! elements { ($($n:ident $t:ty, $f:ident),*) => {
    $( #[derive(ULogData)] pub struct $n { k: $t } le_struct!($n: k); )*
    #[derive(ULogData)]
    pub struct Elements { timestamp: u64, $( $f: Vec<$n>, )* all: Vec<Mixed> }
    #[derive(ULogData)]
    pub struct OptElements { timestamp: u64, $( $f: Option<Vec<$n>>, )* all: Option<Vec<Mixed>> }
    #[derive(ULogMessages)]
    pub enum Lists { Elements(Elements), OptElements(OptElements) }
    #[inline(never)]
    fn lists(m: Lists, opt: bool, l: &[Fv]) {
        match m {
            Lists::Elements(s) if !opt => { $( eqs(&s.$f, field(l, stringify!($f)), "elements"); )* eqs(&s.all, field(l, "all"), "elements of several fields"); eq(&s.timestamp, field(l, "timestamp"), "timestamp") }
            Lists::OptElements(s) if opt => {
                $( match &s.$f { Some(v) => eqs(v, field(l, stringify!($f)), "elements"), None => sym::fail("elements missing") } )*
                match &s.all { Some(v) => eqs(v, field(l, "all"), "elements of several fields"), None => sym::fail("elements missing") }
                eq(&s.timestamp, field(l, "timestamp"), "timestamp")
            }
            _ => sym::fail("wrong variant"),
        }
    }
} }
#[derive(ULogData)]
pub struct Mixed { a: u8, b: u8, c: bool, d: CChar }
le_struct!(Mixed: a, b, c, d);
elements!(L0 u8, e0, L1 u16, e1, L2 u32, e2, L3 u64, e3, L4 i8, e4, L5 i16, e5, L6 i32, e6, L7 i64, e7, L8 f32, e8, L9 f64, e9, L10 bool, e10, L11 CChar, e11);
/// C23: arrays of nested structs with a field of every type, all values symbolic: case = elements 0 to 3 + 4 * optional + 8 if the records end in padding
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_elements(case: u64) {
    warm();
    let (n, opt, pad) = (case as usize % 4, case & 4 != 0, case >= 8);
    let name = if opt { "opt_elements" } else { "elements" };
    let mut f = ulog::header(1, 5);
    let rec = |i: usize| -> Vec<Fv> {
        let mut l = if i < 12 { vec![fv("k", scalar(TYS[i]))] } else { vec![fv("a", scalar(Ty::U8)), fv("b", scalar(Ty::U8)), fv("c", scalar(Ty::Bool)), fv("d", scalar(Ty::Char))] };
        if pad { l.push(fv("_padding0", V::A(Ty::U8, 2, vec![0; 2]))) }
        l
    };
    let mut l = vec![fv("timestamp", scalar(Ty::U64))];
    for i in 0..13 {
        let t = format!("t{i}");
        f.extend(ulog::fmt(&format_text(&t, &rec(i))));
        l.push(fv(&if i < 12 { format!("e{i}") } else { "all".into() }, V::AN(t.clone(), (0..n).map(|_| Nested { name: t.clone(), fields: rec(i) }).collect())));
    }
    f.extend(ulog::fmt(&format_text(name, &l)));
    f.extend(ulog::sub(0, 3, name));
    put_data(&mut f, 3, &l);
    // what is mapped: the records without their padding
    for x in &mut l { if let V::AN(_, v) = &mut x.v { for r in v { r.fields.retain(|f| f.name != "_padding0") } } }
    let mut p = match Lists::stream(&f[..]) { Ok(p) => p, Err(_) => sym::fail("no stream") };
    match p.next() { Some(Ok(m)) => lists(m, opt, &l), _ => sym::fail("mapped message missing") }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}

/// C24: tens of thousands of messages of one kind, then others: case = configuration + 5 * kind + 20 * count
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_ages(case: u64) {
    warm();
    let c = case as usize;
    let n = [1100usize, 66000][c / 20];
    let mut r = Run::new(CFGS[c % 5]);
    r.sub(0, 0, 4);
    r.sub(2, 3, 5);
    let (head, seen) = (r.f.len(), r.want.len());
    match c / 5 % 4 { 0 => r.data(4), 1 => r.data(5), 2 => r.sub(0, 0, 4), _ => { r.f.extend(ulog::msg(b'O', &sym::vec(1))); r.want.push(Ev::Err) } }
    let (body, each) = (r.f.len(), r.want.len() - seen);
    r.sub(0, 1, 6);
    r.sub(1, 0, 5);
    for id in [4, 5, 6] { r.data(id) }
    r.event_on(3, 4);
    r.data(4);
    let mut p = Repeat { head: &r.f[..head], body: &r.f[head..body], times: n, tail: &r.f[body..], at: 0 };
    let total = |i: usize| if i < seen { i } else if i < seen + each * n { seen } else { i - each * n + each };
    let count = r.want.len() - each + each * n;
    let mut i = 0;
    let mut step = |m: Option<Got>| {
        let Some(m) = m else { sym::check(i == count, "messages missing"); return false };
        sym::check(i < count, "result after the end");
        let w = &r.want[total(i)];
        let brief = each > 0 && i > seen + 2 && i + 2 < seen + n && i % 4096 != 0;
        match (w, m) {
            (Ev::Err, Got::Err) => {}
            (Ev::Map(k, l), Got::Map(g, t, x, y)) if *k == g => if !brief {
                match y { Some(y) => { eqs(&y, &l[0].v, "field of beta"); eq(&t, &l[1].v, "timestamp") } None => { eq(&t, &l[0].v, "timestamp"); eq(&x, &l[1].v, "field of alpha") } }
            },
            (Ev::Other(e), Got::Other(m)) => if !brief { check_msg(&m, e) },
            _ => sym::fail("wrong message or variant"),
        }
        i += 1;
        true
    };
    if r.cfg.other {
        let mut b = All::builder(&mut p);
        if r.cfg.extra { b = match b.add_subscription("gamma") { Ok(b) => b, Err(_) => sym::fail("add_subscription refused") } }
        if r.cfg.fwd { b = match b.forward_subscriptions(true) { Ok(b) => b, Err(_) => sym::fail("forward_subscriptions refused") } }
        let mut s = match b.stream() { Ok(p) => p, Err(_) => sym::fail("no stream") };
        while step(s.next().map(|m| match m {
            Err(_) => Got::Err, Ok(All::A(s)) => Got::Map(0, s.timestamp, s.x, None), Ok(All::A1(s)) => Got::Map(3, s.timestamp, s.x, None),
            Ok(All::Beta(s)) => Got::Map(1, s.timestamp, 0, Some(s.y)), Ok(All::Remaining(m)) => Got::Other(m),
        })) {}
    } else {
        let mut s = match Mapped::stream(&mut p) { Ok(p) => p, Err(_) => sym::fail("no stream") };
        while step(s.next().map(|m| match m {
            Err(_) => Got::Err, Ok(Mapped::A(s)) => Got::Map(0, s.timestamp, s.x, None), Ok(Mapped::A1(s)) => Got::Map(3, s.timestamp, s.x, None),
            Ok(Mapped::B(s)) => Got::Map(1, s.timestamp, 0, Some(s.y)),
        })) {}
    }
    sym::reach("end");
}
enum Got { Err, Map(usize, u64, i16, Option<Vec<u8>>), Other(UlogMessage) }
harnesses!(c24_ages, c23_elements, c23_default, c24_instances, c23_renamed, c23_words, c24_words, c25_words, c23_sweep, c24_sweep, c23_wide, c23_scalars, c23_arrays, c23_optional, c23_nested, c23_names, c24_seq, c24_long, c24_deep, c24_deeper, c24_rebind, c24_pass, c24_builder, c24_options, c25_missing, c25_type, c25_late);
