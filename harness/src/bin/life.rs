//! C10, C11: subscriptions over time, multi ids, accessors.
use harness::{harnesses, model::*, run::*, sym, ulog};
use yule_log::errors::ULogError;
use yule_log::parser::ULogParser;

const NAMES: [&str; 2] = ["a", "ab"];
/// the fields of format `n` read from the first bytes of `b`
fn view(n: usize, b: &[u8]) -> Vec<Fv> {
    let ts = fv("timestamp", V::S(Ty::U64, b[..8].to_vec()));
    if n == 0 { vec![ts, fv("x", V::S(Ty::I16, b[8..10].to_vec()))] } else { vec![fv("y", V::A(Ty::U8, 3, b[..3].to_vec())), fv("timestamp", V::S(Ty::U64, b[3..11].to_vec()))] }
}
#[derive(Clone, Copy)]
struct Ev { id: u16, bound: Option<(usize, u8)> }
/// the latest event on `id` decides
#[inline(never)]
fn lookup(h: &[Ev], id: u16) -> Option<(usize, u8)> {
    for e in h.iter().rev() { if e.id == id { return e.bound; } }
    None
}
struct Run { allow: Option<Vec<&'static str>>, f: File, hist: Vec<Ev>, subs: Vec<(usize, u8)>, after: Vec<(u16, Option<(usize, u8)>)>, multi: bool, any: bool }
impl Run {
    fn new(multi: bool) -> Run {
        let mut f = File::new();
        let z = [0u8; 12];
        f.format(NAMES[0], &view(0, &z));
        f.format(NAMES[1], &view(1, &z));
        Run { allow: None, f, hist: vec![], subs: vec![], after: vec![(0, None); 3], multi, any: false }
    }
    fn multi_of(&self, n: usize, m: u8) -> Option<u8> {
        for (k, x) in &self.subs { if *k == n && *x != 0 { return Some(m); } }
        None
    }
    fn sub(&mut self, n: usize) {
        let m = if self.multi { sym::u8() } else { 0 };
        self.sub_as(n, sym::u16(), m);
    }
    #[inline(never)]
    fn sub_as(&mut self, n: usize, id: u16, m: u8) {
        self.f.sub(m, id, NAMES[n]);
        self.hist.push(Ev { id, bound: Some((n, m)) });
        self.subs.push((n, m));
        self.after.push((id, Some((n, m))));
    }
    /// 0, 1: subscribe; 2: remove; 3: data; 4: refused subscription
    #[inline(never)]
    fn event(&mut self, k: usize) { if k < 2 { self.sub(k) } else { self.event_on(k, sym::u16()) } }
    #[inline(never)]
    fn event_on(&mut self, k: usize, id: u16) {
        match k {
            2 => {
                self.f.raw(b'R', &id.to_le_bytes());
                self.hist.push(Ev { id, bound: None });
                self.after.push((id, None));
            }
            3 => {
                let b = sym::vec(12);
                let l = lookup(&self.hist, id);
                let m = ulog::data(id, &b);
                match l {
                    None => { self.f.push(m, Exp::Err); }
                    Some((n, mu)) => {
                        let fields = view(n, &b);
                        let ts = fields.iter().find(|f| f.name == "timestamp").map(|f| match &f.v { V::S(_, b) => le64(b), _ => 0 }).unwrap();
                        let multi = self.multi_of(n, mu);
                        self.f.push(m, Exp::Data { id, ts, name: NAMES[n].into(), multi, fields });
                    }
                }
                self.after.push((id, l));
            }
            _ => {
                let mut b = vec![1];
                b.extend(id.to_le_bytes());
                b.extend(b"abc");
                self.f.bad(b'A', &b);
                let l = lookup(&self.hist, id);
                self.after.push((id, l));
            }
        }
    }
    #[inline(never)]
    fn check(&self) {
        let mut p = match &self.allow { None => parser(&self.f.bytes[..], ALL), Some(l) => parser_allow(&self.f.bytes[..], l) };
        for i in 0..self.f.exp.len() {
            let hidden = matches!((&self.allow, &self.f.exp[i]), (Some(l), Exp::Data { name, .. }) if !l.contains(&name.as_str()));
            match p.next() { Some(r) => check_result(&r, if hidden { &Exp::Ignored(b'D') } else { &self.f.exp[i] }), None => sym::fail("message missing") }
            if i >= 3 { let (id, b) = self.after[i]; accessor(&p, id, b); }
        }
        sym::check(p.next().is_none(), "result after the end");
        if self.any { let id = sym::u16(); accessor(&p, id, lookup(&self.hist, id)); }
    }
}
#[inline(never)]
fn accessor(p: &ULogParser<&[u8]>, id: u16, want: Option<(usize, u8)>) {
    match (p.get_subscription(id), want) {
        (Ok(s), Some((n, m))) => check_sub(s, m, id, NAMES[n]),
        (Err(ULogError::UndefinedSubscription(i)), None) => sym::check(i == id, "id in the error"),
        (Ok(_), None) => sym::fail("subscription returned for an id without one"),
        (Err(_), _) => sym::fail("subscription not found"),
    }
}
/// subscription, event `case % 5`, event of any kind, data: all ids symbolic
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_seq(case: u64) {
    warm();
    let mut r = Run::new(false);
    r.event(case as usize / 5 % 2);
    r.event(case as usize % 5);
    let k = sym::choose(5);
    r.event(k);
    r.event(3);
    r.check();
    sym::reach("end");
}
/// as above without data, then the accessor with any id
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_access(case: u64) {
    warm();
    let mut r = Run::new(false);
    r.any = true;
    r.event(case as usize / 5 % 2);
    r.event([0, 1, 2, 4, 4][case as usize % 5]);
    let k = [0, 1, 2, 4][sym::choose(4)];
    r.event(k);
    r.check();
    sym::reach("end");
}
/// three arbitrary events between subscription and data (thorough): case = first + 2 * (second + 5 * third)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_long(case: u64) {
    warm();
    let mut r = Run::new(false);
    let c = case as usize;
    r.event(c % 2);
    r.event(c / 2 % 5);
    r.event(c / 10 % 5);
    let k = sym::choose(5);
    r.event(k);
    r.event(3);
    r.check();
    sym::reach("end");
}
/// one of 14 events on two ids: 0 to 7 subscription to either name, multi id 0 or any other; then removal, data, refused subscription
#[inline(never)]
fn step(r: &mut Run, k: usize) {
    let id = [0x0001u16, 0x0100][k & 1];
    match k / 2 {
        0 | 1 => r.sub_as(k / 2, id, 0),
        2 | 3 => { let m = sym::u8(); sym::assume(m != 0); r.sub_as(k / 2 - 2, id, m) }
        j => r.event_on(j - 2, id),
    }
}
#[inline(never)]
fn deep(case: usize, n: usize) { deep_allow(case, n, None) }
#[inline(never)]
fn deep_allow(case: usize, n: usize, allow: Option<Vec<&'static str>>) {
    warm();
    let mut r = Run::new(true);
    r.allow = allow;
    r.sub_as(1, 2, 0);
    step(&mut r, case % 14);
    if n > 3 { step(&mut r, case / 14 % 14); }
    for _ in 0..3.min(n) { let k = sym::choose(14); step(&mut r, k); }
    step(&mut r, 10);
    step(&mut r, 11);
    r.check();
    sym::reach("end");
}
/// any four events on two ids, then data on both: case = first event
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_deep(case: u64) { deep(case as usize, 3) }
/// any five events (thorough): case = first event + 14 * second
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_deeper(case: u64) { deep(case as usize, 4) }
/// any three events (thorough entry: four) on two ids under an allow-list, then data on both: case = first event + 14 * list
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_deep(case: u64) { deep_allow(case as usize % 14, 2, list(case as usize / 14)) }
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_deeper(case: u64) { deep_allow(case as usize % 14, 3, list(case as usize / 14)) }
#[inline(never)]
fn list(k: usize) -> Option<Vec<&'static str>> { Some([vec!["a"], vec!["ab"], vec![], vec!["ab", "abc", "a"], vec!["abc", "", "A"]][k].clone()) }
/// subscription, any two events, data under an allow-list, every id and multi id free: case = first name + 2 * event + 10 * list
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_seq(case: u64) {
    warm();
    let mut r = Run::new(true);
    let c = case as usize;
    r.allow = list(c / 10);
    r.event(c % 2);
    r.event(c / 2 % 5);
    r.event(3);
    r.check();
    sym::reach("end");
}
/// removal messages with extra bytes; removal of an unknown id; re-subscription after removal
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_remove(case: u64) {
    warm();
    let mut r = Run::new(false);
    r.sub(0);
    let id = sym::u16();
    let mut b = id.to_le_bytes().to_vec();
    b.extend(sym::vec(case as usize));
    r.f.raw(b'R', &b);
    r.hist.push(Ev { id, bound: None });
    r.after.push((id, None));
    let x = sym::vec(1);
    r.f.bad(b'R', &x[..0]);
    r.after.push((id, None));
    r.f.bad(b'R', &x);
    r.after.push((id, None));
    r.event(3);
    r.sub(1);
    r.event(3);
    r.check();
    sym::reach("end");
}
/// many subscriptions: 2 + case of them, with concrete ids of any pattern, then a symbolic one, then data on a symbolic id
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_many(case: u64) {
    warm();
    let mut r = Run::new(false);
    let n = [10usize, 100, 300][case as usize];
    for i in 0..n {
        let id = (i as u16).wrapping_mul(257).wrapping_add(3);
        r.f.sub(0, id, NAMES[i % 2]);
        r.hist.push(Ev { id, bound: Some((i % 2, 0)) });
        r.after.push((id, Some((i % 2, 0))));
    }
    let pick = (sym::choose(4) * (n / 4)) as u16;
    let id = pick.wrapping_mul(257).wrapping_add(3);
    let other = sym::below(2) as u16;
    r.f.sub(0, id.wrapping_add(other), NAMES[1]);
    r.hist.push(Ev { id: id.wrapping_add(other), bound: Some((1, 0)) });
    r.after.push((id.wrapping_add(other), Some((1, 0))));
    let b = sym::vec(12);
    let l = lookup(&r.hist, id).unwrap().0;
    let fields = view(l, &b);
    let ts = fields.iter().find(|f| f.name == "timestamp").map(|f| match &f.v { V::S(_, b) => le64(b), _ => 0 }).unwrap();
    r.f.push(ulog::data(id, &b), Exp::Data { id, ts, name: NAMES[l].into(), multi: None, fields });
    r.after.push((id, Some((l, 0))));
    r.check();
    sym::reach("end");
}
/// accessors for formats: latest definition, undefined names, names differing in one character
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_formats(case: u64) {
    warm();
    let mut f = File::new();
    let v = |t: Ty| vec![fv("timestamp", V::S(Ty::U64, vec![])), fv("q", V::S(t, vec![]))];
    let c = sym::u8();
    sym::assume((c >= b'a' && c <= b'z') as u8 | (c == b'_') as u8 != 0);
    let n2 = String::from_utf8(vec![b'f', c]).unwrap();
    f.format("fa", &v(Ty::U8));
    f.format(&n2, &v(Ty::U16));
    if case == 1 { f.bad(b'F', b"fa:int8_t"); }
    if case == 2 { f.format("f", &v(Ty::U32)); }
    let mut p = parser(&f.bytes[..], NONE);
    sym::check(matches!(p.get_format("fa"), Err(ULogError::UndefinedFormat(_))), "format before its definition");
    let mut seen = 0;
    for w in &f.exp[1..] {
        match p.next() { Some(r) => check_result(&r, w), None => sym::fail("message missing") }
        seen += 1;
        match p.get_format("fa") { Ok(d) => check_def(&d, "fa", &v(if seen >= 2 && c == b'a' { Ty::U16 } else { Ty::U8 })), Err(_) => sym::fail("format not found") }
        if seen >= 2 { match p.get_format(&n2) { Ok(d) => check_def(&d, &n2, &v(Ty::U16)), Err(_) => sym::fail("second format not found") } }
    }
    match p.get_format("f") {
        Ok(d) if case == 2 => check_def(&d, "f", &v(Ty::U32)),
        Err(ULogError::UndefinedFormat(n)) if case != 2 => sym::check(n == "f", "name in the error"),
        _ => sym::fail("undefined format"),
    }
    sym::check(matches!(p.get_format(""), Err(ULogError::UndefinedFormat(_))), "empty name");
    sym::check(matches!(p.get_format("faa"), Err(ULogError::UndefinedFormat(_))), "longer name");
    sym::reach("end");
}
/// multi ids: subscription, event `case % 5`, another subscription, any event, data; all ids and multi ids symbolic
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_seq(case: u64) {
    warm();
    let mut r = Run::new(true);
    r.event(case as usize / 5 % 2);
    r.event(3);
    r.event(case as usize % 5);
    r.event(3);
    r.check();
    sym::reach("end");
}
/// as above with one more event of any kind (thorough: case up to 50)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_long(case: u64) {
    warm();
    let mut r = Run::new(true);
    let c = case as usize;
    r.event(c % 2);
    r.event(c / 2 % 5);
    r.event(c / 10 % 5);
    r.event(3);
    r.check();
    sym::reach("end");
}
/// fixed pattern of names with symbolic multi ids, data on every subscription
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_all(case: u64) {
    warm();
    let mut r = Run::new(true);
    for i in 0..3u16 {
        let n = case as usize >> i & 1;
        let m = sym::u8();
        r.f.sub(m, i * 256 + 1, NAMES[n]);
        r.hist.push(Ev { id: i * 256 + 1, bound: Some((n, m)) });
        r.subs.push((n, m));
        r.after.push((i * 256 + 1, Some((n, m))));
    }
    for i in 0..3u16 {
        let id = i * 256 + 1;
        let (n, m) = lookup(&r.hist, id).unwrap();
        let b = sym::vec(12);
        let fields = view(n, &b);
        let ts = fields.iter().find(|f| f.name == "timestamp").map(|f| match &f.v { V::S(_, b) => le64(b), _ => 0 }).unwrap();
        let multi = r.multi_of(n, m);
        r.f.push(ulog::data(id, &b), Exp::Data { id, ts, name: NAMES[n].into(), multi, fields });
        r.after.push((id, Some((n, m))));
    }
    r.check();
    sym::reach("end");
}
harnesses!(c09_deep, c09_deeper, c09_seq, c10_seq, c10_access, c10_long, c10_deep, c10_deeper, c10_remove, c10_many, c10_formats, c11_seq, c11_long, c11_all);
