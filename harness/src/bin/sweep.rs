//! Lengths and counts of every size from 0 to 260 and around all larger powers of two; the size is chosen symbolically from a block (one path each).
use harness::{gen::*, harnesses, model::*, run::*, sizes::*, sym, ulog};
use std::io::{ErrorKind, Read};
use yule_log::encode::Encode;
use yule_log::message_buf::MessageBuf;
use yule_log::model::{CChar, CCharSlice};

fn ts() -> Fv { fv("timestamp", scalar(Ty::U64)) }
#[inline(never)]
fn run(f: &File, o: Opt) { check_all(&parse(&f.bytes, o, f.exp.len()), &filtered(&f.exp, o)); }
/// what is returned is encoded back to the same bytes
#[inline(never)]
fn back(f: &File) {
    let mut out = vec![];
    for r in parse(&f.bytes, ALL, f.exp.len()) { match r { Ok(m) => if m.encode(&mut out).is_err() { sym::fail("encoding failed") }, Err(_) => sym::fail("error returned for a valid message") } }
    sym::check(same(&out, &f.bytes), "encoded bytes");
}

/// C01: messages of every size written back: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_sweep(case: u64) {
    warm();
    let k = case as usize / 8;
    for n in pick(65400, case as usize % 8, 8) {
        let mut f = File::new();
        match k {
            0 => { f.info("key", arr(Ty::Char, n)); f.multi(1, "key", arr(Ty::U8, n)); f.format("a", &[ts(), fv("x", V::A(Ty::U8, n, vec![]))]); f.sub(0, 1, "a"); f.data(1, "a", None, &[ts(), fv("x", arr(Ty::U8, n))]); f.log(b'4', None, 9, &text(n)); }
            _ => { f.raw(b'!', &bytes(n)); f.format("a", &[ts(), fv("x", V::A(Ty::F64, n / 8, vec![]))]); f.sub(0, 1, "a"); f.data(1, "a", None, &[ts(), fv("x", arr(Ty::F64, n / 8))]); f.log(b'4', Some(7), 9, &text(n)); f.raw(b'S', &bytes(n)); f.info("k", arr(Ty::I16, n / 2)); }
        }
        back(&f);
    }
    sym::reach("end");
}
/// C03: log strings of every size cut just before, inside and just after: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_sweep(case: u64) {
    warm();
    for n in pick(65500, case as usize, 8) {
        let mut f = File::new();
        formats(&mut f);
        subs(&mut f);
        data_msg(&mut f, 0);
        f.log(b'4', None, sym::u64(), &text(n));
        f.dropout(sym::u16());
        let i = f.ends.len() - 3;
        let (a, b) = (f.ends[i], f.ends[i + 1]);
        for cut in [a, a + 1, a + 2, a + 3, a + 4, (a + b) / 2, b - 1 - n / 3, b - 2, b - 1, b, b + 1, b + 2, b + 3, b + 4] {
            if cut < a { continue }
            let got = parse(&f.bytes[..cut], ALL, f.exp.len() + 1);
            let whole = f.ends.iter().filter(|e| **e <= cut).count();
            for j in 0..whole { match got.get(j) { Some(g) => check_result(g, &f.exp[j]), None => sym::fail("complete message missing") } }
            let rest = cut - f.ends[whole - 1];
            let want = whole + (rest >= 2) as usize;
            sym::check(got.len() == want, "number of results");
            if rest >= 2 { sym::check(matches!(got[whole], Err(yule_log::errors::ULogError::UnexpectedEndOfFile)), "cut message not reported as unexpected end"); }
        }
    }
    sym::reach("end");
}
/// C04: arrays of every size of every type, complete and one byte short: case = type + 12 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_sweep(case: u64) {
    warm();
    let t = TYS[case as usize % 12];
    for n in pick(60000 / t.size(), case as usize / 12, 2) {
        let mut f = File::new();
        let v = vec![fv("x", arr(t, n)), ts(), fv("y", arr(t, n / 20)), fv("z", scalar(t))];
        f.format("a", &v);
        f.info("k", arr(t, n));
        f.sub(0, 1, "a");
        f.data(1, "a", None, &v);
        let p = payload(&v);
        f.bad(b'D', &{ let mut b = vec![1, 0]; b.extend_from_slice(&p[..p.len() - 1]); b });
        f.data(1, "a", None, &v);
        run(&f, ALL);
    }
    sym::reach("end");
}
/// C05: nested arrays of every size, chains of every depth up to 32: case = block; 8 = depths
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_sweep(case: u64) {
    warm();
    if case < 8 {
        for n in pick(4097, case as usize, 8) {
            let mut f = File::new();
            let el = |i: usize| Nested { name: "el".into(), fields: if i == 0 || i == n / 2 || i == n - 1 { vec![fv("p", scalar(Ty::I16)), fv("q", array(Ty::Char, 1))] } else { vec![fv("p", V::S(Ty::I16, vec![i as u8, 3])), fv("q", V::A(Ty::Char, 1, vec![i as u8]))] } };
            let l: Vec<Nested> = (0..n).map(el).collect();
            let v = vec![ts(), fv("l", V::AN("el".into(), l)), fv("z", scalar(Ty::U16))];
            f.format("top", &v);
            f.format("el", &el(0).fields);
            f.sub(0, 1, "top");
            f.data(1, "top", None, &v);
            run(&f, ALL);
        }
    } else {
        for d in Some(1 + sym::choose(32)) {
            let mut f = File::new();
            let mut v = Nested { name: format!("f{d}"), fields: vec![fv("p", scalar(Ty::I16))] };
            for i in (0..d).rev() {
                f.format(&v.name, &v.fields);
                let n = format!("f{i}");
                let mut fields = vec![fv("a", scalar(Ty::U8)), fv("n", if i % 3 == 2 { V::AN(v.name.clone(), vec![v.clone()]) } else { V::N(v.clone()) }), fv("b", scalar(Ty::U8))];
                if i == 0 { fields.insert(1, ts()) }
                v = Nested { name: n, fields };
            }
            f.format(&v.name, &v.fields);
            f.sub(0, 1, "f0");
            f.data(1, "f0", None, &v.fields);
            run(&f, ALL);
        }
    }
    sym::reach("end");
}
/// C06, C08: the timestamp at any position among n fields, every option: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_sweep(case: u64) {
    warm();
    for n in pick(300, case as usize, 8) {
        let mut f = File::new();
        let mut v: Vec<Fv> = (0..n).map(|i| match i % 4 { 0 => fv(&format!("_padding{i}"), V::A(Ty::U8, 1, vec![i as u8])), 1 => fv(&format!("timestamp{i}"), V::S(Ty::U64, vec![i as u8; 8])), 2 => fv(&format!("x{i}"), V::S(Ty::U64, vec![i as u8; 8])), _ => fv(&format!("y{i}"), V::A(Ty::U16, 2, vec![i as u8; 4])) }).collect();
        v.push(ts());
        v.push(fv("z", scalar(Ty::U16)));
        f.format("top", &v);
        f.sub(0, 1, "top");
        f.data(1, "top", None, &v);
        for o in 0..8 { if o == 7 || o == n % 8 || n % 16 == 0 { run(&f, Opt { header: o & 1 != 0, ts: o & 2 != 0, pad: o & 4 != 0 }); } }
    }
    sym::reach("end");
}
/// C07: padding of every size in the middle and at the end, the latter present or not: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_sweep(case: u64) {
    warm();
    for n in pick(60000, case as usize, 8) {
        let mut f = File::new();
        let mut v = vec![fv("a", scalar(Ty::U8)), fv("_padding0", arr(Ty::U8, n)), ts(), fv("z", scalar(Ty::U16)), fv("_padding1", arr(Ty::U8, n % 5000))];
        f.format("top", &v);
        f.sub(0, 1, "top");
        f.data(1, "top", None, &v);
        if n % 5000 > 0 { v.pop(); f.data(1, "top", None, &v); }
        for pad in [true, false] { run(&f, Opt { header: true, ts: n % 2 == 0, pad }); }
    }
    sym::reach("end");
}
/// C09, C10, C11: n subscriptions to two names in turn, an allow-list of n names, removal of every third: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_sweep(case: u64) {
    warm();
    for n in pick(300, case as usize, 8) {
        if n == 0 { continue }
        let mut f = File::new();
        let v = |x: u8| vec![fv("timestamp", V::S(Ty::U64, [x; 8].to_vec())), fv("x", V::S(Ty::U8, [x].to_vec()))];
        f.format("a", &v(0));
        f.format("b", &v(0));
        f.format("c", &v(0));
        let (mx, x) = (sym::u8(), sym::u8());
        sym::assume(mx > 0);
        let id = |i: usize| (i * 37 % 65521) as u16;
        for i in 0..n { f.sub(if i == n / 2 { mx } else { 0 }, id(i), ["a", "b", "c"][i % 3]) ; }
        let mut hidden = vec![];
        for i in 0..n {
            let multi = if i % 3 == n / 2 % 3 { Some(if i == n / 2 { mx } else { 0 }) } else { None };
            if i % 4 == 3 { f.raw(b'R', &id(i).to_le_bytes()); f.bad(b'D', &{ let mut b = id(i).to_le_bytes().to_vec(); b.extend([0u8; 9]); b }); }
            else { if i % 3 != 1 { hidden.push(f.exp.len()); } f.data(id(i), ["a", "b", "c"][i % 3], multi, &v(if i == n - 1 || i == 0 { x } else { i as u8 })); }
        }
        run(&f, ALL);
        // an allow-list of n names, only the last of them in the file
        let names: Vec<String> = (0..n).map(|i| if i == n - 1 { "b".to_string() } else { format!("b{i}") }).collect();
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let mut want = f.exp.clone();
        for h in hidden { want[h] = Exp::Ignored(b'D'); }
        check_all(&parse_allow(&f.bytes, &names, want.len()), &want);
    }
    sym::reach("end");
}
/// C12: flag bits with n extra bytes, and reading that stops after messages of n bytes: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_sweep(case: u64) {
    warm();
    for n in pick(65000, case as usize, 8) {
        let mut f = File::new();
        let c = bytes(8);
        let at = 16 + 3 + 40 + n as u64 + 3 + n as u64;
        let mut inc = vec![0u8; 8];
        inc[0] = 1;
        f.flags(&c, &inc, &[0, at, 1], &bytes(n));
        f.raw(b'!', &bytes(n));
        let end = f.bytes.len() as u64;
        sym::check(end == at, "harness: offset");
        f.raw(b'O', &bytes(2));
        let keep = f.exp.len() - 1;
        f.exp.truncate(keep);
        check_all(&parse(&f.bytes, ALL, f.exp.len()), &f.exp);
        // one byte further, the next message still counts
        let mut g = File::new();
        g.flags(&c, &inc, &[at + 1, at, 0], &bytes(n));
        g.raw(b'!', &bytes(n));
        g.raw(b'O', &bytes(2));
        g.raw(b'O', &bytes(2));
        let keep = g.exp.len() - 1;
        g.exp.truncate(keep);
        check_all(&parse(&g.bytes, ALL, g.exp.len()), &g.exp);
    }
    sym::reach("end");
}
/// C13: names, type names, white space of n characters, n fields, arrays of n: case = kind + 5 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_sweep(case: u64) {
    warm();
    let k = case as usize % 5;
    for n in pick(if k == 1 { 600 } else { 5000 }, case as usize / 5, 4) {
        if n == 0 && k != 1 && k != 3 { continue }
        let mut f = File::new();
        let mut name = ident(n.max(1)).into_bytes();
        // any of three characters in the middle, of the name or of the white space
        let at = n / 2;
        let c = if k == 1 { b'a' } else if k == 3 { [b' ', b'\t', b'\n'][sym::choose(3)] } else { [b'a', b'Z', b'_'][sym::choose(3)] };
        if at < name.len() { name[at] = c }
        let name = String::from_utf8(name).unwrap();
        let v: Vec<Fv> = match k {
            0 => vec![fv("a", V::S(Ty::U8, vec![])), fv(&name, V::A(Ty::I16, n, vec![])), fv("b", V::N(Nested { name: name.clone(), fields: vec![] }))],
            1 => (0..n).map(|i| fv(&format!("f{}", i * 7 % 1000), match i % 3 { 0 => V::S(TYS[i % 12], vec![]), 1 => V::A(TYS[i % 12], i, vec![]), _ => V::N(Nested { name: format!("T{i}"), fields: vec![] }) })).collect(),
            2 => vec![fv("x", V::A(Ty::F64, n * n, vec![])), fv("y", V::N(Nested { name: ident(n), fields: vec![] }))],
            _ => vec![fv("timestamp", V::S(Ty::U64, vec![])), fv("x", V::A(Ty::Char, 3, vec![]))],
        };
        match k {
            0 | 1 | 2 => { f.format(if k == 0 { &name } else { "a" }, &v); }
            3 => { let mut w = vec![b' '; n]; if at < n { w[at] = c } let w = String::from_utf8(w).unwrap(); f.push(ulog::fmt(&format!("a:{w}uint64_t {w}timestamp{w};char{w}[{w}3{w}]{w} x;{w}")), Exp::Format { name: "a".into(), fields: v }); }
            // no semicolon after n fields; a character that is no identifier after n
            _ => { let mut s = String::from("a:"); for i in 0..n.min(300) { s.push_str(&format!("int8_t f{i};")); } let t = format!("{s}bool z"); f.bad(b'F', t.as_bytes()); let t = format!("{s}bool 1z;"); f.bad(b'F', t.as_bytes()); let t = format!("a:bool {}-;", name); f.bad(b'F', t.as_bytes()); }
        }
        run(&f, ALL);
        if k < 3 { back(&f); }
    }
    sym::reach("end");
}
/// C14: keys of every length and values of every length in both sections, and one byte missing: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_sweep(case: u64) {
    warm();
    for n in Some(1 + case as usize % 4 + 4 * sym::choose(62)) {
        if n > 246 { continue }
        let mut f = File::new();
        let key = ident(n);
        if case >= 4 { f.format("a", &[ts()]); f.sub(0, 1, "a"); }
        f.info(&key, scalar(Ty::U32));
        if n <= 240 { f.info(&key, arr(Ty::Char, n)); f.multi(1, &key, arr(Ty::I16, n)); f.bad(b'I', &{ let k = format!("char[{}] {}", n + 1, key); let mut b = vec![k.len() as u8]; b.extend_from_slice(k.as_bytes()); b.extend(bytes(n)); b }); }
        f.param(&key, scalar(Ty::I32));
        f.default(sym::u8(), &key, scalar(Ty::F32));
        f.bad(b'P', &{ let k = format!("int32_t {}", key); let mut b = vec![k.len() as u8]; b.extend_from_slice(k.as_bytes()); b.extend(bytes(3)); b });
        f.multi(0, &key, scalar(Ty::U8));
        run(&f, ALL);
        back(&{ let mut g = File::new(); for i in 1..f.exp.len() { if !matches!(f.exp[i], Exp::Err) { g.push(f.bytes[f.ends[i - 1]..f.ends[i]].to_vec(), f.exp[i].clone()); } } g });
    }
    sym::reach("end");
}
/// C16: texts of every length: case = tagged + 2 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_sweep(case: u64) {
    warm();
    for n in pick(65524, case as usize / 2, 4) {
        let mut f = File::new();
        formats(&mut f);
        subs(&mut f);
        let tag = if case % 2 == 1 { Some(sym::u16()) } else { None };
        f.log(b'0' + (n % 8) as u8, tag, sym::u64(), &text(n));
        // a last character of two bytes, complete and not
        let mut t = vec![b'a'; n.max(2)];
        let l = t.len();
        let x = sym::u8();
        sym::assume(x & 0xc0 == 0x80);
        t[l - 2] = 0xc3;
        t[l - 1] = x;
        f.log(b'3', tag, sym::u64(), &t);
        let mut b = vec![b'3'];
        if let Some(t) = tag { b.extend(t.to_le_bytes()) }
        b.extend([0u8; 8]);
        b.extend_from_slice(&t[..l - 1]);
        f.bad(if tag.is_some() { b'C' } else { b'L' }, &b);
        run(&f, ALL);
    }
    sym::reach("end");
}
/// C17: a reader that delivers n bytes at a time, messages of many sizes: case = interrupted + 2 * block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_sweep(case: u64) {
    warm();
    struct Steps<'a> { b: &'a [u8], n: usize, stop: bool, calls: usize }
    impl Read for Steps<'_> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            self.calls += 1;
            if self.stop && self.calls % 2 == 0 { return Err(std::io::Error::from(ErrorKind::Interrupted)); }
            let n = buf.len().min(self.b.len()).min(self.n);
            buf[..n].copy_from_slice(&self.b[..n]);
            self.b = &self.b[n..];
            Ok(n)
        }
    }
    let mut f = File::new();
    formats(&mut f);
    subs(&mut f);
    for k in 0..N_DATA { data_msg(&mut f, k); }
    for n in [0usize, 1, 30, 64, 127, 128, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 2047, 3000, 4096] { f.log(b'4', None, sym::u64(), &text(n)); f.raw(b'!', &bytes(n)); }
    for n in pick(70000, case as usize / 2, 8) {
        if n == 0 { continue }
        let r: Vec<Res> = parser(Steps { b: &f.bytes, n, stop: case % 2 == 1, calls: 0 }, ALL).collect();
        check_all(&r, &f.exp);
    }
    sym::reach("end");
}
/// C19: uninterpreted messages of every size in both sections: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_sweep(case: u64) {
    warm();
    for n in pick(65535, case as usize, 8) {
        let mut f = File::new();
        let t = def_unknown_type();
        f.raw(t, &bytes(n));
        formats(&mut f);
        subs(&mut f);
        let t = data_unknown_type();
        f.raw(t, &bytes(n));
        data_msg(&mut f, 0);
        f.raw(b'F', &bytes(n));
        data_msg(&mut f, 0);
        run(&f, NONE);
    }
    sym::reach("end");
}
/// C20: buffers of every length: everything is there, one more is not: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_sweep(case: u64) {
    for n in pick(70000, case as usize, 4) {
        let d = bytes(n);
        for at in [0usize, 1, n / 2, n.saturating_sub(9), n.saturating_sub(3), n] {
            if at > n { continue }
            let mut m = MessageBuf::new(d.clone());
            match m.advance(at) { Ok(b) => sym::check(same(b, &d[..at]), "bytes"), Err(_) => sym::fail("error although the bytes are there") }
            let left = n - at;
            sym::check(m.advance(left + 1).is_err(), "advanced past the end");
            sym::check(m.skip(left + 1).is_err(), "skipped past the end");
            sym::check((m.len() == left) & (m.is_empty() == (left == 0)), "length");
            macro_rules! num { ($f:ident, $w:expr, $le:expr) => { let mut m = MessageBuf::from_vec(d.clone()); let _ = m.skip(at); match m.$f() { Ok(x) => { if left < $w { sym::fail("value made up") } sym::check(x as u64 == $le, "value"); sym::check(m.len() == left - $w, "length") } Err(_) => sym::check(left < $w && m.len() == left, "error although the bytes are there") } } }
            num!(take_u8, 1, d[at] as u64);
            num!(take_u16, 2, le16(&d[at..]) as u64);
            num!(take_u32, 4, le32(&d[at..]) as u64);
            num!(take_u64, 8, le64(&d[at..]));
            sym::check(same(&m.into_remaining_bytes(), &d[at..]), "remaining bytes");
        }
    }
    sym::reach("end");
}
/// C22: character arrays of every length with every number of trailing NULs: case = block
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_sweep(case: u64) {
    for n in pick(5000, case as usize, 8) {
        for z in [0, 1, 2, 3, 7, 8, 9, n / 2, n.saturating_sub(1), n] {
            if z > n { continue }
            let mut b = text(n);
            for x in &mut b[n - z..] { *x = 0 }
            if n > z { let x = sym::u8(); sym::assume((x > 0) & (x < 128)); b[n - z - 1] = x; }
            let v: Vec<CChar> = b.iter().map(|x| CChar(*x)).collect();
            sym::check(same(v.as_bytes(), &b), "bytes");
            sym::check(same(v.to_string_lossy().as_bytes(), &b), "string");
            sym::check(v.trim_end_nul().len() == n - z && same(v.trim_end_nul().as_bytes(), &b[..n - z]), "without trailing NULs");
            sym::check(same(v.to_string_lossy_trimmed().as_bytes(), &b[..n - z]), "trimmed string");
        }
    }
    sym::reach("end");
}
harnesses!(c01_sweep, c03_sweep, c04_sweep, c05_sweep, c06_sweep, c07_sweep, c10_sweep, c12_sweep, c13_sweep, c14_sweep, c16_sweep, c17_sweep, c19_sweep, c20_sweep, c22_sweep);
