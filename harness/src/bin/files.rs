//! C01, C03, C08, C09, C15, C17, C19: whole files.
use harness::{gen::*, harnesses, model::*, run::*, sym, ulog};
use std::io::{ErrorKind, Read};
use yule_log::errors::ULogError;

// ---------------------------------------------------------------- C01 round trip
#[inline(never)]
fn roundtrip(f: &File) {
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    let mut out = Vec::with_capacity(f.bytes.len());
    for m in r.iter().flatten() { out.extend(emit(m)); }
    sym::check(same(&out, &f.bytes), "re-encoded file differs");
    sym::reach("end");
}
/// definitions `a` then any other, then the formats and one data message
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_defs(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    def_msg(&mut f, case as usize);
    formats(&mut f);
    let k = sym::choose(N_DEF as u8);
    def_msg(&mut f, k);
    subs(&mut f);
    data_msg(&mut f, 0);
    roundtrip(&f);
}
/// data message `case` then any other
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_data(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    formats(&mut f);
    subs(&mut f);
    data_msg(&mut f, case as usize);
    let k = sym::choose(N_DATA as u8);
    data_msg(&mut f, k);
    roundtrip(&f);
}
/// thorough: case = definition * 13 + first data kind; one more definition and two more data messages of any kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_long(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    def_msg(&mut f, case as usize / N_DATA);
    formats(&mut f);
    let k = sym::choose(N_DEF as u8);
    def_msg(&mut f, k);
    subs(&mut f);
    data_msg(&mut f, case as usize % N_DATA);
    for _ in 0..2 { let k = sym::choose(N_DATA as u8); data_msg(&mut f, k); }
    roundtrip(&f);
}
/// messages at the size boundaries of the format: concrete bulk, symbolic edges
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_big(case: u64) {
    warm();
    let mut f = File::with_header(1, sym::u64());
    let bulk = |n: usize| { let mut v = vec![b'q'; n]; let e = ascii(2); v[0] = e[0]; v[n - 1] = e[1]; v };
    let sizes = [255usize, 256, 257, 32767, 32768, 65535 - 2];
    let n = sizes[case as usize / 4];
    match case % 4 {
        0 => {
            let t = V::A(Ty::U8, n, vec![]);
            f.format("a", &[fv("timestamp", V::S(Ty::U64, vec![])), fv("x", V::A(Ty::U8, n - 8, vec![]))]);
            f.sub(sym::below(1), 0xfffe, "a");
            let _ = t;
            f.data(0xfffe, "a", None, &[fv("timestamp", scalar(Ty::U64)), fv("x", V::A(Ty::U8, n - 8, bulk(n - 8)))]);
        }
        1 => { f.info("k", V::A(Ty::Char, n - 20, bulk(n - 20))); f.multi(1, "k", V::A(Ty::Char, n - 20, bulk(n - 20))); f.param("p", scalar(Ty::I32)); }
        2 => {
            f.format("a", &[fv("timestamp", V::S(Ty::U64, vec![]))]);
            f.sub(0, 1, "a");
            f.log(b'3', None, sym::u64(), &bulk(n - 9));
            f.log(b'4', Some(sym::u16()), sym::u64(), &bulk(n - 11));
            f.raw(b'S', &bulk(n));
        }
        _ => {
            // long names: format name, field name, key up to 255 characters
            let long = |c: u8, k: usize| String::from_utf8(vec![c; k]).unwrap();
            let k = n.min(255 - 8);
            f.format(&long(b'a', k), &[fv("timestamp", V::S(Ty::U64, vec![])), fv(&long(b'b', k), V::S(Ty::U16, vec![]))]);
            f.info(&long(b'c', k), scalar(Ty::U8));
            f.param(&long(b'd', 255 - 8), scalar(Ty::I32));
            f.sub(0, 7, &long(b'a', k));
            f.data(7, &long(b'a', k), None, &[fv("timestamp", scalar(Ty::U64)), fv(&long(b'b', k), scalar(Ty::U16))]);
        }
    }
    f.dropout(sym::u16());
    if f.exp.iter().all(|e| !matches!(e, Exp::Sub { .. })) { f.exp.pop(); f.ends.pop(); let n = *f.ends.last().unwrap(); f.bytes.truncate(n); f.raw(b'O', &sym::vec(2)); }
    roundtrip(&f);
}

/// long files: `case` selects how many messages of all kinds, in cycles of different order
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_many(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    let n = [60usize, 300, 700][case as usize];
    // one message of each kind, symbolic
    let mut d = File::new();
    for k in 0..N_DEF - 1 { def_msg(&mut d, k) }
    let mut t = File::new();
    for k in 0..N_DATA { data_msg(&mut t, k) }
    let put = |f: &mut File, g: &File, k: usize| { let b = g.bytes[g.ends[k]..g.ends[k + 1]].to_vec(); f.push(b, g.exp[k + 1].clone()); };
    for i in 0..n { put(&mut f, &d, (i * 5 + i / 8) % (N_DEF - 1)); }
    formats(&mut f);
    subs(&mut f);
    for i in 0..n { put(&mut f, &t, (i * 5 + i / 13) % N_DATA); }
    roundtrip(&f);
}

/// arrays of no, one and two elements of every type and of nested values, in every kind of message that declares them: case = section
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_kinds(case: u64) {
    warm();
    let mut f = File::with_header(1, sym::u64());
    let el = || Nested { name: "el".into(), fields: vec![fv("k", scalar(Ty::U16)), fv("c", array(Ty::Char, 1))] };
    let ts = || fv("timestamp", scalar(Ty::U64));
    let nested = |n: usize| V::AN("el".into(), (0..n).map(|_| el()).collect());
    let keyed = |f: &mut File| for t in TYS { for n in 0..3 { f.info(&format!("i{n}"), array(t, n)); f.multi(sym::below(2), &format!("m{n}"), array(t, n)); } };
    if case == 0 { keyed(&mut f); }
    let recs: Vec<Vec<Fv>> = (0..12).map(|i| vec![fv("a", array(TYS[i], i % 3)), ts(), fv("n", if i == 3 { V::N(el()) } else { nested(i % 4) }), fv("b", array(TYS[i], (i + 1) % 3)), fv("c", nested((i + 1) % 3)), fv("d", array(TYS[i], 1))]).collect();
    f.format("el", &el().fields);
    for (i, r) in recs.iter().enumerate() { f.format(&format!("r{i}"), r); }
    for i in 0..12 { f.sub(0, i, &format!("r{i}")); }
    if case == 1 { keyed(&mut f); }
    for (i, r) in recs.iter().enumerate() { f.data(i as u16, &format!("r{i}"), None, r); }
    roundtrip(&f);
    sym::reach("end");
}
/// shapes no other entry has: long keys, formats without and with hundreds of fields, long arrays of nested values, hundreds of formats, empty texts
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_shapes(case: u64) {
    warm();
    let mut f = File::with_header(1, sym::u64());
    let id = |c: u8, k: usize| String::from_utf8((0..k).map(|i| if i % 7 == 6 { b'0' + (i % 10) as u8 } else { c }).collect()).unwrap();
    let ts = || fv("timestamp", scalar(Ty::U64));
    match case {
        0 => for data in 0..2 {
            for k in [100usize, 118, 127, 128, 200, 246] {
                f.info(&id(b'i', k - 1), scalar(Ty::I16));
                f.multi(sym::below(2), &id(b'm', k), scalar(Ty::U32));
                f.multi(sym::below(2), &id(b'm', k - 5), array(Ty::Char, 2));
                f.param(&id(b'p', k), scalar(Ty::I32));
                f.param(&id(b'P', k), scalar(Ty::F32));
                let t = sym::u8();
                f.default(t, &id(b'q', k), scalar(Ty::F32));
                f.default(t, &id(b'Q', k), scalar(Ty::I32));
            }
            if data == 0 { formats(&mut f); subs(&mut f); }
        },
        1 => {
            let many: Vec<Fv> = (0..300).map(|i| fv(&format!("f{i}"), if i % 3 == 0 { V::S(Ty::U8, vec![i as u8]) } else { V::A(Ty::I16, i % 4, vec![7; i % 4 * 2]) })).chain([ts()]).collect();
            f.format("empty", &[]);
            f.format("many", &many);
            f.format("one", &[ts()]);
            f.sub(0, 1, "empty");
            f.sub(0, 2, "many");
            f.sub(0, 3, "one");
            f.data(2, "many", None, &many);
            f.data(3, "one", None, &[ts()]);
        }
        2 => {
            let el = |i: usize| Nested { name: "el".into(), fields: vec![fv("k", V::S(Ty::U16, vec![i as u8, (i >> 8) as u8])), fv("c", if i % 100 == 0 { array(Ty::Char, 3) } else { V::A(Ty::Char, 3, vec![b'a'; 3]) })] };
            let top = vec![ts(), fv("l", V::AN("el".into(), (0..300).map(el).collect())), fv("z", scalar(Ty::Bool))];
            f.format("top", &top);
            f.format("el", &el(1).fields);
            f.sub(0, 300, "top");
            f.data(300, "top", None, &top);
            f.data(300, "top", None, &top);
        }
        3 => {
            let n = |i: usize| format!("fmt_{i}");
            for i in 0..400 { f.format(&n(i), &[ts_concrete(i), fv(&format!("v{i}"), V::S(Ty::U8, vec![i as u8]))]); }
            for i in 0..400 { f.sub(0, (i * 163) as u16, &n(i)); }
            for i in 0..400 { let k = (i * 7) % 400; f.data((k * 163) as u16, &n(k), None, &[ts_concrete(i), fv(&format!("v{k}"), if i % 40 == 0 { scalar(Ty::U8) } else { V::S(Ty::U8, vec![i as u8]) })]); }
        }
        _ => {
            f.info("e", array(Ty::Char, 0));
            f.multi(sym::below(2), "e", array(Ty::U64, 0));
            f.raw(b'Z', &[]);
            f.format("a", &[ts(), fv("n", V::A(Ty::F64, 0, vec![])), fv("o", V::AN("in".into(), vec![]))]);
            f.format("in", &[fv("k", scalar(Ty::U8))]);
            f.sub(0, 0xffff, "a");
            f.data(0xffff, "a", None, &[ts(), fv("n", V::A(Ty::F64, 0, vec![])), fv("o", V::AN("in".into(), vec![]))]);
            f.log(b'0', None, sym::u64(), b"");
            f.log(b'7', Some(sym::u16()), sym::u64(), b"");
            f.info("e", array(Ty::I8, 0));
            f.raw(b'R', &[1, 0]);
            f.raw(b'S', &[]);
            f.raw(0xff, &[]);
        }
    }
    f.raw(b'Z', &sym::vec(3));
    roundtrip(&f);
}
fn ts_concrete(i: usize) -> Fv { fv("timestamp", V::S(Ty::U64, (i as u64 * 0x0101_0003).to_le_bytes().to_vec())) }

// ---------------------------------------------------------------- C03 truncation
#[inline(never)]
fn every_kind(f: &mut File, from: usize, n: usize) {
    for k in 0..N_DEF { if k >= from && k < from + n { def_msg(f, k) } }
    formats(f);
    subs(f);
    for k in 0..N_DATA { if k + N_DEF >= from && k + N_DEF < from + n { data_msg(f, k) } }
}
fn cut_check(f: &File, cut: usize) { cut_result(f, cut, parse(&f.bytes[..cut], ALL, f.exp.len() + 1)) }
#[inline(never)]
fn cut_result(f: &File, cut: usize, r: Vec<Res>) { cut_items(&f.exp, &f.ends, cut, r) }
/// `ends` are the offsets after the messages `exp`
#[inline(never)]
fn cut_items(exp: &[Exp], ends: &[usize], cut: usize, r: Vec<Res>) {
    let whole = ends.iter().filter(|e| **e <= cut).count();
    sym::check(r.len() >= whole, "a complete message before the cut is missing");
    check_all(&r[..whole], &exp[..whole]);
    let end = if whole > 0 { ends[whole - 1] } else if cut < 16 { 0 } else { 16 };
    if cut >= 16 && cut - end < 2 { sym::check(r.len() == whole, "result after the last complete message"); }
    else {
        sym::check(r.len() == whole + 1, "no single error for the truncated message");
        match &r[whole] {
            Err(ULogError::UnexpectedEndOfFile) => sym::check(cut >= 16, "wrong error for a truncated header"),
            Err(ULogError::InvalidHeader) => sym::check(cut < 16, "wrong error for a truncated message"),
            Err(_) => sym::fail("truncation reported as a different error"),
            Ok(_) => sym::fail("message made up from truncated data"),
        }
    }
    sym::reach("end");
}
/// the same cuts with nothing included (case < 8) and with an allow-list of one name or none
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_opts(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    every_kind(&mut f, case as usize % 8 * 3, 3);
    let n = f.bytes.len() + 1;
    let cut = sym::choose((n / 128 + 1) as u8) * 128 + sym::choose(128);
    if cut >= n { return; }
    let b = &f.bytes[..cut];
    match case / 8 {
        0 => { let want = filtered(&f.exp, NONE); cut_items(&want, &f.ends[1..], cut, parse(b, NONE, f.exp.len() + 1)) }
        k => {
            let l: &[&str] = if k == 1 { &["b"] } else { &[] };
            let want = want_allowed(&f.exp, &|n| l.contains(&n));
            cut_items(&want, &f.ends, cut, parse_allow(b, l, f.exp.len() + 1))
        }
    }
}
/// file with message kinds 3*case..3*case+3, cut at every byte
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_cut(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    every_kind(&mut f, case as usize * 3, 3);
    let n = f.bytes.len() + 1;
    let hi = sym::choose((n / 128 + 1) as u8);
    let lo = sym::choose(128);
    let cut = hi * 128 + lo;
    if cut >= n { return; }
    cut_check(&f, cut);
}
/// the same with a reader that delivers three bytes at a time, then one, then nothing
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_reader(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    every_kind(&mut f, case as usize * 3, 3);
    let n = f.bytes.len() + 1;
    let hi = sym::choose((n / 128 + 1) as u8);
    let lo = sym::choose(128);
    let cut = hi * 128 + lo;
    if cut >= n { return; }
    struct Three<'a>(&'a [u8], usize);
    impl Read for Three<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            self.1 += 1;
            let n = buf.len().min(self.0.len()).min(if self.1 % 2 == 0 { 1 } else { 3 });
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let mut p = parser(Three(&f.bytes[..cut], 0), ALL);
    let mut r = vec![];
    for x in &mut p { r.push(x); sym::check(r.len() <= f.exp.len() + 1, "more results than messages"); }
    for _ in 0..2 { sym::check(p.next().is_none(), "result after the end"); }
    cut_result(&f, cut, r);
}
/// large messages cut near the boundaries
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_big(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    let n = [300usize, 33000][case as usize];
    let mut t = vec![b'x'; n];
    t[n - 1] = ascii(1)[0];
    f.log(b'1', None, sym::u64(), &t);
    f.dropout(sym::u16());
    let n = f.ends.len();
    let (a, b) = (f.ends[n - 3], f.ends[n - 2]);
    let cuts = [a, a + 1, a + 2, a + 3, a + 4, a + 255, a + 256, a + 258, a + 259, b - 1, b, b + 1, b + 2, b + 3, b + 4, b + 5];
    cut_check(&f, cuts[sym::choose(16)]);
}

// ---------------------------------------------------------------- C08 options
/// every combination of the options against every kind of message
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_opts(case: u64) {
    warm();
    let o = Opt { header: case & 1 != 0, ts: case & 2 != 0, pad: case & 4 != 0 };
    let mut f = File::with_header(sym::u8(), sym::u64());
    let k = sym::choose(N_DEF as u8 + 1);
    if k < N_DEF { def_msg(&mut f, k); }
    formats(&mut f);
    subs(&mut f);
    let k = sym::choose(N_DATA as u8);
    data_msg(&mut f, k);
    data_msg(&mut f, 0);
    let want = filtered(&f.exp, o);
    check_all(&parse(&f.bytes, o, f.exp.len()), &want);
    sym::reach("end");
}
/// padding and timestamps at several depths
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_nested(case: u64) {
    warm();
    let o = Opt { header: case & 1 != 0, ts: case & 2 != 0, pad: case & 4 != 0 };
    let mut f = File::new();
    let inner = || Nested { name: "in".into(), fields: vec![fv("timestamp", scalar(Ty::U64)), fv("_padding0", array(Ty::U8, 3)), fv("v", scalar(Ty::I32))] };
    let two = || V::AN("in".into(), vec![inner(), inner()]);
    let mid = || Nested { name: "mid".into(), fields: vec![fv("_padding1", array(Ty::U8, 1)), fv("l", V::AN("in".into(), vec![inner(), inner()])), fv("timestamp", scalar(Ty::U64))] };
    let top = vec![fv("timestamp_sample", scalar(Ty::U64)), fv("m", V::N(mid())), fv("_padding0", array(Ty::U8, 2)), fv("timestamp", scalar(Ty::U64)), fv("i", V::N(inner())), fv("one", V::AN("in".into(), vec![inner()])), fv("pad", array(Ty::U8, 2)), fv("two", two()), fv("none", V::AN("in".into(), vec![])), fv("_padding1", array(Ty::U8, 4))];
    f.format("top", &top);
    f.format("mid", &mid().fields);
    f.format("in", &inner().fields);
    f.sub(0, 9, "top");
    f.data(9, "top", None, &top);
    let want = filtered(&f.exp, o);
    check_all(&parse(&f.bytes, o, f.exp.len()), &want);
    sym::reach("end");
}

/// records made of one to three of: the timestamp, padding, a number, a nested value (a timestamp alone, padding alone, or a number)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_records(case: u64) {
    warm();
    let o = Opt { header: case & 1 != 0, ts: case & 2 != 0, pad: case & 4 != 0 };
    let mut f = File::new();
    let inner = [vec![fv("timestamp", scalar(Ty::U64))], vec![fv("_padding0", array(Ty::U8, 2))], vec![fv("v", scalar(Ty::U8))]];
    let names = ["onlyts", "onlypad", "onlyv"];
    for i in 0..3 { f.format(names[i], &inner[i]); }
    let at = sym::choose(3);
    let part = |k: usize, i: usize| match k {
        0 => fv("timestamp", scalar(Ty::U64)),
        1 => fv(["_padding0", "_padding1", "_padding2"][i], array(Ty::U8, 1 + i)),
        2 => fv(["x", "y", "z"][i], scalar(Ty::U8)),
        _ => fv(["m", "n", "o"][i], if i == 1 { V::AN(names[at].into(), vec![Nested { name: names[at].into(), fields: inner[at].clone() }]) } else { V::N(Nested { name: names[at].into(), fields: inner[at].clone() }) }),
    };
    let mut all = vec![];
    for len in 1..=3u32 {
        for c in 0..4usize.pow(len) {
            let ks: Vec<usize> = (0..len).map(|i| c / 4usize.pow(i) % 4).collect();
            if ks.iter().filter(|k| **k == 0).count() == 1 { all.push(ks.iter().enumerate().map(|(i, k)| part(*k, i)).collect::<Vec<_>>()); }
        }
    }
    for (i, r) in all.iter().enumerate() { f.format(&format!("r{}", i), r); }
    for i in 0..all.len() { f.sub(0, i as u16, &format!("r{}", i)); }
    for (i, r) in all.iter().enumerate() { f.data(i as u16, &format!("r{}", i), None, r); }
    let want = filtered(&f.exp, o);
    check_all(&parse(&f.bytes, o, f.exp.len()), &want);
    sym::reach("end");
}

/// malformed messages under every combination of options: case = options + 8 * (definitions or data section)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_bad(case: u64) {
    warm();
    let o = Opt { header: case & 1 != 0, ts: case & 2 != 0, pad: case & 4 != 0 };
    let mut f = File::with_header(sym::u8(), sym::u64());
    formats(&mut f);
    if case < 8 { let k = sym::choose(N_BAD_DEF as u8); bad_def(&mut f, k); def_msg(&mut f, 0); }
    subs(&mut f);
    if case >= 8 { let k = sym::choose(N_BAD_DATA as u8); bad_data(&mut f, k); }
    data_msg(&mut f, 0);
    let want = filtered(&f.exp, o);
    check_all(&parse(&f.bytes, o, f.exp.len()), &want);
    sym::reach("end");
}
/// an invalid or truncated header is reported whatever the options
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_header(case: u64) {
    warm();
    let o = Opt { header: case & 1 != 0, ts: case & 2 != 0, pad: case & 4 != 0 };
    let mut h = sym::vec(16);
    let good = same(&h[..7], &ulog::MAGIC);
    let n = [16usize, 15, 7, 1, 0][sym::choose(5)];
    h.truncate(n);
    let mut p = parser(&h[..], o);
    let r = p.next();
    if n == 16 && good {
        if o.header { match r { Some(Ok(yule_log::model::msg::UlogMessage::Header(x))) => sym::check(x.version == h[7] && x.timestamp == le64(&h[8..]), "header"), _ => sym::fail("no header") } }
        else { sym::check(r.is_none(), "result for a file without messages") }
    } else { sym::check(matches!(r, Some(Err(ULogError::InvalidHeader))), "invalid header not reported") }
    if !(n == 16 && !good) { sym::check(p.next().is_none(), "result after the end"); }
    sym::reach("end");
}
/// the builder: options in any order, set once or repeatedly, with an allow-list set before, between, after or twice
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_builder(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    formats(&mut f);
    subs(&mut f);
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    data_msg(&mut f, 5);
    let order = [[0usize, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1], [3, 0, 1, 2], [0, 3, 2, 1]][case as usize % 6];
    let repeat = case as usize / 6;
    let (h, t, p) = (sym::choose(2) == 1, sym::choose(2) == 1, sym::choose(2) == 1);
    let list: [&[&str]; 3] = [&["a"], &["b"], &[]];
    let l = sym::choose(4);
    let mut b = yule_log::builder::ULogParserBuilder::new(&f.bytes[..]);
    for round in 0..=repeat {
        let last = round == repeat;
        for k in order {
            b = match k {
                0 => b.include_header(h == last),
                1 => b.include_timestamp(t == last),
                2 => b.include_padding(p == last),
                _ if l == 3 => b,
                _ => b.set_subscription_allow_list(list[if last { l } else { (l + 1) % 3 }].iter().map(|s| s.to_string())),
            }
        }
    }
    let want = filtered(&f.exp, Opt { header: h, ts: t, pad: p });
    let want = if l < 3 { want_allowed(&want, &|n| list[l].contains(&n)) } else { want };
    let r: Vec<Res> = b.build().unwrap().collect();
    check_all(&r, &want);
    sym::reach("end");
}

// ---------------------------------------------------------------- C09 allow list
fn want_allowed(exp: &[Exp], allowed: &dyn Fn(&str) -> bool) -> Vec<Exp> {
    exp.iter().map(|e| match e { Exp::Data { name, .. } if !allowed(name) => Exp::Ignored(b'D'), e => e.clone() }).collect()
}
/// three formats, any allow list over them, any order of subscriptions and data messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_list(case: u64) {
    warm();
    let mut f = File::new();
    let names = ["a", "ab", "b"];
    let allow: Vec<&str> = (0..3).filter(|i| case >> i & 1 != 0).map(|i| names[i]).collect();
    let fields = || vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    for n in names { f.format(n, &fields()); }
    f.info("sys", scalar(Ty::U16));
    // ids in use: sub[i] = index of the name
    let mut bound: Vec<(u16, usize)> = vec![];
    let i1 = sym::u16();
    let n1 = sym::choose(3);
    f.sub(0, i1, names[n1]);
    bound.push((i1, n1));
    for _ in 0..2 {
        let id = sym::u16();
        let n = sym::choose(3);
        f.sub(0, id, names[n]);
        bound.push((id, n));
        let j = sym::choose(bound.len() as u8);
        let id = bound[j].0;
        // the latest binding of the id counts
        let mut cur = bound[j].1;
        for k in j + 1..bound.len() { if bound[k].0 == id { cur = bound[k].1 } }
        f.data(id, names[cur], None, &fields());
    }
    f.log(b'4', None, sym::u64(), b"t");
    f.dropout(sym::u16());
    f.param("P", scalar(Ty::I32));
    let un = sym::u16();
    for b in &bound { sym::assume(b.0 != un) }
    f.bad(b'D', &{ let mut b = un.to_le_bytes().to_vec(); b.extend(sym::vec(10)); b });
    let want = want_allowed(&f.exp, &|n| allow.contains(&n));
    check_all(&parse_allow(&f.bytes, &allow, f.exp.len()), &want);
    sym::reach("end");
}
/// list entries that differ from the name in one character or length: case = position + 9 * (changed, inserted, removed)
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_exact(case: u64) {
    warm();
    let name = "Ab_c9Zz";
    let mut n: Vec<u8> = name.bytes().collect();
    let (at, how) = (case as usize % 8, case as usize / 8);
    let c = sym::u8();
    sym::assume(c < 128);
    match how { 0 => if at < 7 { n[at] = c }, 1 => n.insert(at, c), _ => if at < 7 { n.remove(at); } }
    let hit = same(&n, name.as_bytes());
    let n = String::from_utf8(n).unwrap();
    let mut f = File::new();
    let fields = || vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    f.format(name, &fields());
    f.format("other", &fields());
    let (i, j) = (sym::u16(), sym::u16());
    sym::assume(i != j);
    f.sub(0, i, name);
    f.sub(0, j, "other");
    f.data(i, name, None, &fields());
    f.data(j, "other", None, &fields());
    let want = want_allowed(&f.exp, &|x| x == name && hit);
    check_all(&parse_allow(&f.bytes, &[&n], f.exp.len()), &want);
    sym::reach("end");
}
/// lists with hundreds of entries, repeated, empty and long ones; names of 1 to 250 characters; data before and after other kinds of messages
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_large(case: u64) {
    warm();
    let mut f = File::new();
    let fields = || vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    let c = case as usize;
    let n = 60;
    let name = |i: usize| match i % 4 { 0 => format!("n{i}"), 1 => "L".repeat(190 + i), 2 => format!("_{}_{i}", "a".repeat(i)), _ => format!("n{}", i + 1000) };
    for i in 0..n { f.format(&name(i), &fields()); }
    let base = sym::u8() as u16;
    for i in 0..n { f.sub(0, (i as u16) << 8 | base, &name(i)); }
    // (short payload: an error for allowed names only is not specified, so all payloads are complete)
    for i in 0..n { let k = (i * 13) % n; f.data((k as u16) << 8 | base, &name(k), None, &fields()); if i % 16 == 0 { data_plain(&mut f, i / 16) } }
    let mut list: Vec<String> = vec![];
    for i in 0..n { if match c { 0 => i % 2 == 0, 1 => i % 5 == 1, 2 => true, 3 => i == 59, _ => false } { list.push(name(i)); if i % 3 == 0 { list.push(name(i)) } } }
    for i in 0..300 { list.push(format!("other{i}")) }
    list.push(String::new());
    list.push(name(0).to_uppercase());
    list.push(format!(" {}", name(1)));
    let l: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
    let want = want_allowed(&f.exp, &|x| l.contains(&x));
    check_all(&parse_allow(&f.bytes, &l, f.exp.len()), &want);
    sym::reach("end");
}
fn data_plain(f: &mut File, k: usize) {
    match k % 4 { 0 => { f.dropout(sym::u16()); } 1 => { f.log(b'4', Some(3), sym::u64(), b"t"); } 2 => { f.raw(b'S', &sym::vec(2)); } _ => { f.info("k", scalar(Ty::U8)); } }
}
/// the deprecated setter on the parser filters the same way; no list means no filtering
#[no_mangle]
#[inline(never)]
#[allow(deprecated)]
pub extern "C" fn c09_setter(case: u64) {
    warm();
    let mut f = File::new();
    let fields = || vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::I16))];
    f.format("a", &fields());
    f.format("vehicle_heartbeat", &fields());
    let (i, j) = (sym::u16(), sym::u16());
    f.sub(sym::below(1), i, "a");
    f.sub(0, j, "vehicle_heartbeat");
    f.data(j, "vehicle_heartbeat", None, &fields());
    if i != j { f.data(i, "a", None, &fields()); }
    let mut p = parser(&f.bytes[..], ALL);
    let allow: Vec<&str> = if case & 1 != 0 { vec!["vehicle_heartbeat", "nothing"] } else { vec!["nothing"] };
    let mut want = f.exp.clone();
    if case < 2 { p.set_subscription_allow_list(allow.iter().map(|s| s.to_string()).collect()); want = want_allowed(&f.exp, &|n| allow.contains(&n)); }
    check_all(&p.collect::<Vec<_>>(), &want);
    sym::reach("end");
}

// ---------------------------------------------------------------- C15 error containment
const N_BAD_DEF: usize = 14;
#[inline(never)]
fn bad_def(f: &mut File, kind: usize) {
    let u = sym::vec(2);
    match kind {
        0 => { f.bad(b'F', b"a"); }
        1 => { f.bad(b'F', b"a:int8_t x"); }
        2 => { sym::assume(u[0] >= 0x80 && u[0] < 0xc2); f.bad(b'F', &[b'a', b':', u[0], b';']); }
        3 => { let mut b = vec![6 + sym::below(200)]; b.extend_from_slice(b"int8_t"); f.bad(b'I', &b); }
        4 => { f.bad(b'I', &{ let mut b = vec![10]; b.extend_from_slice(b"uint32_t k"); b.extend(sym::vec(3)); b }); }
        5 => { f.bad(b'M', &[u[0]]); }
        6 => { f.bad(b'M', &{ let mut b = vec![u[0], 9]; b.extend_from_slice(b"char[3] k"); b.extend(sym::vec(2)); b }); }
        7 => { f.bad(b'P', &{ let mut b = vec![9]; b.extend_from_slice(b"uint8_t k"); b.extend(sym::vec(4)); b }); }
        8 => { f.bad(b'Q', &{ let mut b = vec![u[0], 11]; b.extend_from_slice(b"int32_t[1]k"); b.extend(sym::vec(4)); b }); }
        9 => { f.bad(b'B', &sym::vec(39)); }
        10 => { let mut b = sym::vec(40); let mut x = b[8] & 0xfe; for i in 9..16 { x |= b[i] } sym::assume(x != 0); b[0] = 1; f.bad(b'B', &b); }
        11 => { let id = sym::u16().to_le_bytes(); f.bad(b'A', &[u[0], id[0], id[1], b'n', b'o']); }
        12 => { f.bad(b'A', &u); }
        _ => { f.bad(b'P', &[]); }
    }
}
const N_BAD_DATA: usize = 14;
#[inline(never)]
fn bad_data(f: &mut File, kind: usize) {
    let u = sym::vec(2);
    match kind {
        0 => { let id = sym::u16(); sym::assume((id != ID_A) & (id != ID_B) & (id != 77)); let mut b = id.to_le_bytes().to_vec(); b.extend(sym::vec(20)); f.bad(b'D', &b); }
        1 => { let mut b = ID_A.to_le_bytes().to_vec(); b.extend(sym::vec(18)); f.bad(b'D', &b); }
        2 => { f.bad(b'D', &u[..1]); }
        3 => { sym::assume(u[0] < b'0' || u[0] > b'7'); let mut b = vec![u[0]]; b.extend(sym::vec(8)); f.bad(b'L', &b); }
        4 => { let mut b = vec![b'3']; b.extend(sym::vec(7)); f.bad(b'L', &b); }
        5 => { sym::assume(u[0] >= 0x80 && u[0] < 0xc2); let mut b = vec![b'3']; b.extend(sym::vec(8)); b.push(u[0]); f.bad(b'L', &b); }
        6 => { let mut b = vec![b'3']; b.extend(sym::vec(9)); f.bad(b'C', &b); }
        7 => { f.bad(b'O', &u[..1]); }
        8 => { f.bad(b'R', &u[..1]); }
        9 => { let id = sym::u16().to_le_bytes(); f.bad(b'A', &[u[0], id[0], id[1], b'a', b'a']); }
        10 => { let id = ID_A.to_le_bytes(); sym::assume(u[1] >= 0xf8); f.bad(b'A', &[u[0], id[0], id[1], u[1]]); }
        11 => { f.bad(b'Q', &{ let mut b = vec![u[0], 8]; b.extend_from_slice(b"double k"); b.extend(sym::vec(8)); b }); }
        12 => { f.bad(b'I', &{ let mut b = vec![8]; b.extend_from_slice(b"double k"); b.extend(sym::vec(7)); b }); }
        _ => { let mut b = ID_B.to_le_bytes().to_vec(); b.extend(sym::vec(19)); f.bad(b'D', &b); }
    }
}
/// a malformed message yields one error and leaves the rest of the file as it would be without it
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_defs(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    bad_def(&mut f, case as usize);
    let k = sym::choose(N_BAD_DEF as u8 + N_DEF as u8);
    if k < N_BAD_DEF { bad_def(&mut f, k) } else { def_msg(&mut f, k - N_BAD_DEF) }
    // still in the definitions section
    f.format("late", &[fv("timestamp", V::S(Ty::U64, vec![])), fv("q", V::S(Ty::U8, vec![]))]);
    subs(&mut f);
    f.sub(0, 77, "late");
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    f.data(77, "late", None, &[fv("timestamp", scalar(Ty::U64)), fv("q", scalar(Ty::U8))]);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_data(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    bad_data(&mut f, case as usize);
    let k = sym::choose(N_BAD_DATA as u8 + N_DATA as u8);
    if k < N_BAD_DATA { bad_data(&mut f, k) } else { data_msg(&mut f, k - N_BAD_DATA) }
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    data_msg(&mut f, 5);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// six malformed messages in a row, of consecutive kinds (case < 28) or of one kind; even cases in the definitions section
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_many(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    let k = case as usize / 2;
    let (k, step) = (k % 14, (k < 14) as usize);
    if case % 2 == 0 { for i in 0..6 { bad_def(&mut f, (k + i * step) % N_BAD_DEF) } }
    f.format("late", &[fv("timestamp", V::S(Ty::U64, vec![])), fv("q", V::S(Ty::U8, vec![]))]);
    def_msg(&mut f, k % N_DEF);
    subs(&mut f);
    f.sub(0, 77, "late");
    if case % 2 == 1 { for i in 0..6 { bad_data(&mut f, (k + i * step) % N_BAD_DATA) } }
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    f.data(77, "late", None, &[fv("timestamp", scalar(Ty::U64)), fv("q", scalar(Ty::U8))]);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// hundreds of malformed messages in both sections among well-formed ones
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_flood(case: u64) {
    warm();
    let mut f = File::new();
    let n = [20usize, 300, 700][case as usize];
    formats(&mut f);
    let bad: [(u8, &[u8]); 8] = [(b'F', b"a"), (b'F', b"a:int8_t x"), (b'I', b"\x09int8_t k"), (b'M', b"\x01"), (b'P', b"\x09uint8_t k1234"), (b'B', b"12345"), (b'A', b"\x00\x03\x00no"), (b'A', b"x")];
    for i in 0..n { let (t, b) = bad[i % 8]; f.bad(t, b); if i % 50 == 0 { def_msg(&mut f, i / 50 % 2) } }
    subs(&mut f);
    let bad: [(u8, &[u8]); 8] = [(b'D', b"\x07\x00abcdefghijklmnopqrstuv"), (b'D', b"\x03\x00abcdefgh"), (b'D', b"\x03"), (b'L', b"912345678"), (b'C', b"312345678"), (b'O', b"1"), (b'R', b"1"), (b'A', b"\x01\x03\x00b0")];
    for i in 0..n { let (t, b) = bad[i % 8]; f.bad(t, b); if i % 50 == 0 { data_msg(&mut f, i / 50 % 2 * 5) } }
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// a failed re-definition or re-subscription leaves the earlier one in force
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_keep(case: u64) {
    warm();
    let mut f = File::new();
    let v = || vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::U16))];
    f.format("a", &v());
    let b = sym::u8();
    sym::assume(b >= 0x80);
    if case == 0 { f.bad(b'F', b"a:uint64_t timestamp;int8_t"); }
    if case == 1 { f.bad(b'F', &[b"a:uint64_t timestamp;".as_slice(), &[b]].concat()); }
    let id = sym::u16();
    f.sub(0, id, "a");
    if case == 2 { f.bad(b'A', &[&[1u8][..], &id.to_le_bytes(), b"nope"].concat()); }
    if case == 3 { f.bad(b'A', &[&[1u8][..], &id.to_le_bytes(), &[b]].concat()); }
    if case == 4 { f.bad(b'R', &id.to_le_bytes()[..1]); }
    f.data(id, "a", None, &v());
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}

// ---------------------------------------------------------------- C17 streaming
struct Chunky<'a> { b: &'a [u8], pos: usize, calls: usize, from: usize, to: usize, modes: u8 }
impl Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let max = buf.len().min(self.b.len() - self.pos);
        let mut n = max;
        self.calls += 1;
        if self.calls > self.from && self.calls <= self.to && max > 0 {
            match sym::choose(self.modes) {
                0 => {}
                1 => n = 1,
                2 => return Err(std::io::Error::from(ErrorKind::Interrupted)),
                _ => n = (max - 1).max(1),
            }
        }
        if self.modes == 0 { n = max.min(1); }
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn small(k: usize) -> File {
    let mut f = File::with_header(sym::u8(), sym::u64());
    formats(&mut f);
    subs(&mut f);
    data_msg(&mut f, k);
    data_msg(&mut f, 0);
    f
}
/// short reads and interruptions at any of a window of read calls change nothing
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_chunks(case: u64) {
    warm();
    let f = small(case as usize % N_DATA);
    let w = case as usize / N_DATA;
    let mut rd = Chunky { b: &f.bytes, pos: 0, calls: 0, from: w * 4, to: w * 4 + 4, modes: 4 };
    let mut p = parser(&mut rd, ALL);
    let mut r = vec![];
    for x in &mut p { r.push(x); sym::check(r.len() <= f.exp.len(), "more results than messages"); }
    check_all(&r, &f.exp);
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
/// large messages through a reader that delivers few bytes at a time and interrupts; case = size + 4 * pattern
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_large(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    let n = [300usize, 5000, 33000, 65524][case as usize % 4];
    let mut t = vec![b'x'; n];
    t[0] = ascii(1)[0];
    t[n / 2] = ascii(1)[0];
    t[n - 1] = ascii(1)[0];
    f.info("k", V::A(Ty::Char, n / 2, t[..n / 2].to_vec()));
    formats(&mut f);
    subs(&mut f);
    f.log(b'1', None, sym::u64(), &t);
    data_msg(&mut f, 0);
    f.log(b'2', Some(sym::u16()), sym::u64(), &t);
    f.dropout(sym::u16());
    struct Steps<'a>(&'a [u8], usize, usize);
    impl Read for Steps<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            self.1 += 1;
            let (max, every) = [(1021, 3), (4096, 2), (8191, 5), (255, 7), (buf.len() / 2 + 1, 4)][self.2];
            if self.1 % every == 0 { return Err(std::io::Error::from(ErrorKind::Interrupted)); }
            let n = buf.len().min(self.0.len()).min(max);
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let r: Vec<Res> = parser(Steps(&f.bytes, 0, case as usize / 4), ALL).collect();
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// 100 interruptions in a row at the read call `case`, or at every one of several
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_stall(case: u64) {
    warm();
    let f = small(case as usize % N_DATA);
    struct Stall<'a> { b: &'a [u8], call: usize, at: usize, left: usize, n: usize }
    impl Read for Stall<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if self.call >= self.at && self.left > 0 { self.left -= 1; return Err(std::io::Error::from(ErrorKind::Interrupted)); }
            self.call += 1;
            if self.call > self.at { self.left = self.n; self.at += 5; }
            let n = buf.len().min(self.b.len()).min(1 + self.call % 6);
            buf[..n].copy_from_slice(&self.b[..n]);
            self.b = &self.b[n..];
            Ok(n)
        }
    }
    let n = [100, 12, 3, 40][sym::choose(4)];
    let at = sym::choose(10);
    let r: Vec<Res> = parser(Stall { b: &f.bytes, call: 0, at, left: n, n }, ALL).collect();
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// one byte per read
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_single(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    if case == 0 { every_kind(&mut f, 0, 100); } else { formats(&mut f); subs(&mut f); }
    if case > 0 { let mut t = vec![b'x'; 700]; t[699] = ascii(1)[0]; f.log(b'1', None, sym::u64(), &t); f.dropout(3); }
    let rd = Chunky { b: &f.bytes, pos: 0, calls: 0, from: 0, to: 0, modes: 0 };
    let r: Vec<Res> = parser(rd, ALL).collect();
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// a message is returned without reading past its end
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_ahead(case: u64) {
    warm();
    let mut f = File::with_header(sym::u8(), sym::u64());
    every_kind(&mut f, case as usize * 6, 6);
    let pos = std::cell::Cell::new(0usize);
    struct Tr<'a>(&'a [u8], &'a std::cell::Cell<usize>);
    impl Read for Tr<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let n = buf.len().min(self.0.len() - self.1.get());
            buf[..n].copy_from_slice(&self.0[self.1.get()..self.1.get() + n]);
            self.1.set(self.1.get() + n);
            Ok(n)
        }
    }
    let mut p = parser(Tr(&f.bytes, &pos), ALL);
    for i in 0..f.exp.len() {
        match p.next() {
            Some(x) => { check_result(&x, &f.exp[i]); sym::check(pos.get() == f.ends[i], "bytes read when the message was returned"); }
            None => sym::fail("message missing"),
        }
    }
    for _ in 0..3 { sym::check(p.next().is_none(), "result after the end"); }
    sym::reach("end");
}
/// an I/O error at any byte is reported after the messages before it
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_ioerr(case: u64) {
    warm();
    let f = small(case as usize);
    let n = f.bytes.len();
    let at = sym::choose(((n + 1) / 2) as u8) * 2 + sym::choose(2);
    if at > n { return; }
    struct Fail<'a>(&'a [u8], usize, ErrorKind);
    // (every kind at every position over the 13 cases; not UnexpectedEof, which is how readers report the end)
    use ErrorKind::*;
    let kind = [PermissionDenied, ConnectionReset, BrokenPipe, ConnectionAborted, TimedOut, WouldBlock, InvalidData, Other, WriteZero, InvalidInput, NotFound, OutOfMemory, NotConnected][(case as usize + at) % 13];
    impl Read for Fail<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if self.0.len() == self.1 { return Err(std::io::Error::from(self.2)); }
            let n = buf.len().min(self.0.len() - self.1);
            buf[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
            self.1 += n;
            Ok(n)
        }
    }
    let mut p = parser(Fail(&f.bytes[..at], 0, kind), ALL);
    let whole = f.ends.iter().filter(|e| **e <= at).count();
    for i in 0..whole {
        match p.next() { Some(x) => check_result(&x, &f.exp[i]), None => sym::fail("message before the error is missing") }
    }
    match p.next() {
        Some(Err(ULogError::Io(e))) => sym::check(e.kind() == kind && whole > 0, "kind of the I/O error"),
        Some(Err(ULogError::InvalidHeader)) => sym::check(whole == 0, "invalid header reported later"),
        Some(Err(_)) => sym::fail("I/O error reported as something else"),
        Some(Ok(_)) => sym::fail("message returned instead of the I/O error"),
        None => sym::fail("I/O error reported as end of file"),
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- C19 unknown types, sections
/// any type byte and contents in the definitions section
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_defs(case: u64) {
    warm();
    let mut f = File::new();
    let n = [0usize, 1, 7, 40][case as usize];
    let t = def_unknown_type();
    let b = sym::vec(n);
    f.raw(t, &b);
    formats(&mut f);
    let t = def_unknown_type();
    let b = sym::vec(n);
    f.raw(t, &b);
    // still definitions: a format is accepted and usable
    f.format("late", &[fv("timestamp", V::S(Ty::U64, vec![]))]);
    f.sub(0, 5, "late");
    f.data(5, "late", None, &[fv("timestamp", scalar(Ty::U64))]);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    for m in r.iter().flatten() { let _ = m; }
    let mut out = vec![];
    for m in r.iter().flatten() { out.extend(emit(m)); }
    sym::check(same(&out, &f.bytes), "re-encoded file differs");
    sym::reach("end");
}
/// unknown messages of up to 65535 bytes in both sections
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_big(case: u64) {
    warm();
    let mut f = File::new();
    let n = [256usize, 4096, 32768, 65535][case as usize];
    let bulk = || { let mut v: Vec<u8> = (0..n).map(|i| (i * 31) as u8).collect(); for i in [0, 1, n / 2, n - 1] { v[i] = sym::u8() } v };
    let t = def_unknown_type();
    f.raw(t, &bulk());
    formats(&mut f);
    subs(&mut f);
    let t = data_unknown_type();
    sym::assume(t != b'F');
    f.raw(t, &bulk());
    f.raw(t, &[]);
    data_msg(&mut f, 0);
    roundtrip(&f);
}
/// any type byte and contents in the data section; formats and flags there are not interpreted
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_data(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    let n = [0usize, 1, 7, 300][case as usize];
    let t = data_unknown_type();
    // (format definitions: c19_late)
    sym::assume(t != b'F');
    let b = sym::vec(n);
    f.raw(t, &b);
    data_msg(&mut f, 0);
    f.raw(b'F', b"a:uint64_t timestamp;");
    f.raw(b'B', &{ let mut b = vec![0u8; 40]; b[8] = 1; b[16] = 1; b });
    f.raw(b'S', &sym::vec(8));
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// format definitions and flag bits in the data section define nothing, whatever they say
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_late(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    if case & 1 != 0 { f.bad(b'A', b"\x00\x09\x00nw"); }
    subs(&mut f);
    let x = sym::u8();
    sym::assume((x >= b'a') & (x <= b'z'));
    let nw = [b'n', x];
    // a new name
    f.raw(b'F', &[&nw[..], b":uint64_t timestamp;uint8_t v;"].concat());
    f.bad(b'A', &[&[0u8, 9, 0][..], &nw].concat());
    f.bad(b'D', &[&[9u8, 0][..], &sym::vec(9)].concat());
    // a name in use, also for a nested value
    if case & 2 != 0 { f.raw(b'F', b"a:uint64_t timestamp;"); f.raw(b'F', b"in:int8_t k;"); } else { f.raw(b'F', b"b:uint64_t timestamp;"); f.raw(b'F', b"in:"); }
    let mut b = vec![0u8; 40];
    b[8] = sym::below(4);
    b[16] = sym::u8();
    f.raw(b'B', &b);
    f.raw(b'F', &[b'a', x]);
    data_msg(&mut f, 0);
    data_msg(&mut f, 1);
    f.sub(0, 600, "a");
    f.data(600, "a", None, &a_value());
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}
/// data-section types before the first subscription are handed through unparsed
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_early(case: u64) {
    warm();
    let mut f = File::new();
    formats(&mut f);
    let t = b"DLCORS"[case as usize];
    f.raw(t, &sym::vec(3));
    f.raw(t, &[]);
    def_msg(&mut f, 0);
    subs(&mut f);
    data_msg(&mut f, 0);
    let r = parse(&f.bytes, ALL, f.exp.len());
    check_all(&r, &f.exp);
    sym::reach("end");
}


/// a last message of any type, cut short: case = announced bytes - 1 + 24 * section; it is never taken for complete, whatever it holds
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_tiny(case: u64) {
    warm();
    let n = 1 + case as usize % 24;
    let mut f = File::new();
    f.format("a", &[fv("timestamp", scalar(Ty::U64))]);
    if case >= 24 { f.sub(0, 1, "a"); }
    let keep = 1 + sym::choose(n as u8 + 1);
    let mut b = (n as u16).to_le_bytes().to_vec();
    b.push(sym::u8());
    b.extend(sym::vec(n));
    f.bytes.extend(&b[..1 + keep]);
    let cut = f.bytes.len();
    cut_result(&f, cut, parse(&f.bytes, ALL, f.exp.len() + 2));
}

/// tens of thousands of messages of one kind, then others: case = kind + 12 * count
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_ages(case: u64) {
    warm();
    let n = [1100usize, 66000][case as usize / 12];
    let k = case as usize % 12;
    let mut f = File::new();
    formats(&mut f);
    let mut body = File::new();
    body.bytes.clear();
    let early = k >= 8;
    if !early { subs(&mut f); }
    match k {
        0 => { data_msg(&mut body, 0); }
        1 => { body.log(b'6', None, sym::u64(), b"ab"); }
        2 => { body.dropout(sym::u16()); }
        3 => { body.raw(b'S', &sym::vec(3)); }
        4 => { body.info("key", V::S(Ty::U16, sym::vec(2))); }
        5 => { body.bad(b'O', &sym::vec(1)); }
        6 => { body.sub(0, ID_A, "a"); }
        7 => { body.bad(b'D', b"\x07\x00abcdefgh"); }
        8 => { body.param("key", V::S(Ty::I32, sym::vec(4))); }
        9 => { body.raw(b'X', &sym::vec(3)); }
        10 => { body.bad(b'F', b"a"); }
        _ => { body.format("again", &[fv("timestamp", scalar(Ty::U64))]); }
    }
    let want = body.exp.last().unwrap().clone();
    let mut t = File::new();
    if early { subs(&mut t); }
    data_msg(&mut t, 0);
    data_msg(&mut t, 1);
    t.info("k2", V::S(Ty::U8, sym::vec(1)));
    t.bad(b'O', b"1");
    t.log(b'2', None, sym::u64(), b"end");
    let head = t.ends[0];
    let mut p = parser(Repeat { head: &f.bytes, body: &body.bytes, times: n, tail: &t.bytes[head..], at: 0 }, ALL);
    let mut get = || match p.next() { Some(r) => r, None => sym::fail("message missing") };
    for w in &f.exp { check_result(&get(), w) }
    for i in 0..n {
        let r = get();
        if i < 3 || i % 4096 > 4093 || i + 3 > n { check_result(&r, &want) }
        else { sym::check(r.is_err() == matches!(want, Exp::Err), "result of a repeated message") }
    }
    for w in &t.exp[1..] { check_result(&get(), w) }
    sym::check(p.next().is_none(), "result after the end");
    sym::reach("end");
}
harnesses!(c01_ages, c03_tiny, c01_kinds, c08_records, c01_shapes, c03_opts, c08_bad, c08_header, c08_builder, c09_large, c17_stall, c19_big, c01_many, c03_reader, c15_many, c15_flood, c17_large, c01_defs, c01_data, c01_long, c01_big, c03_cut, c03_big, c08_opts, c08_nested, c09_list, c09_exact, c09_setter, c15_defs, c15_data, c15_keep, c17_chunks, c17_single, c17_ahead, c17_ioerr, c19_defs, c19_data, c19_late, c19_early);
#[allow(dead_code)]
fn unused() { let _ = ulog::MAGIC; }
