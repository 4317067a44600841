//! Drivers of the crate under test.
use crate::model::*;
use crate::sym;
use yule_log::builder::ULogParserBuilder;
use yule_log::encode::Encode;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;

#[derive(Clone, Copy)]
pub struct Opt { pub header: bool, pub ts: bool, pub pad: bool }
pub const ALL: Opt = Opt { header: true, ts: true, pad: true };
pub const NONE: Opt = Opt { header: false, ts: false, pad: false };
pub type Res = Result<UlogMessage, ULogError>;

/// builds the tokenizer's regular expression once, before the paths split
#[inline(never)]
pub fn warm() {
    let mut f = crate::ulog::header(1, 0);
    f.extend(crate::ulog::fmt("w:uint8_t[2] a;"));
    let n = ULogParserBuilder::new(&f[..]).build().unwrap().count();
    sym::check(n == 1, "format definition not returned");
}
#[inline(never)]
pub fn parser<R: std::io::Read>(r: R, o: Opt) -> yule_log::parser::ULogParser<R> {
    ULogParserBuilder::new(r).include_header(o.header).include_timestamp(o.ts).include_padding(o.pad).build().unwrap()
}
/// all results, at most `max` of them
#[inline(never)]
pub fn parse(bytes: &[u8], o: Opt, max: usize) -> Vec<Res> {
    let mut v = Vec::new();
    for r in parser(bytes, o) { v.push(r); sym::check(v.len() <= max, "more results than messages"); }
    v
}
/// the results are exactly the expected messages
#[inline(never)]
pub fn check_all(got: &[Res], want: &[Exp]) {
    for (g, w) in got.iter().zip(want) { check_result(g, w) }
    sym::check(got.len() == want.len(), "number of messages");
}
#[inline(never)]
pub fn emit(m: &UlogMessage) -> Vec<u8> {
    let mut out = Vec::new();
    if m.encode(&mut out).is_err() { sym::fail("encoding failed") }
    out
}

/// what a parser with options `o` must return, given what it returns with everything included
#[inline(never)]
pub fn filtered(exp: &[Exp], o: Opt) -> Vec<Exp> {
    let mut v = vec![];
    for e in exp {
        match e {
            Exp::Header { .. } if !o.header => {}
            Exp::Data { id, ts, name, multi, fields } => {
                let fields = fields.iter().filter(|f| (o.ts || f.name != "timestamp") && (o.pad || !f.name.starts_with("_padding"))).map(|f| if o.pad { f.clone() } else { Fv { name: f.name.clone(), v: unpad(&f.v) } }).collect();
                v.push(Exp::Data { id: *id, ts: *ts, name: name.clone(), multi: *multi, fields });
            }
            e => v.push(e.clone()),
        }
    }
    v
}
/// the value without padding fields at any depth
fn unpad(v: &V) -> V {
    fn n(x: &Nested) -> Nested { Nested { name: x.name.clone(), fields: x.fields.iter().filter(|f| !f.name.starts_with("_padding")).map(|f| Fv { name: f.name.clone(), v: unpad(&f.v) }).collect() } }
    match v { V::N(x) => V::N(n(x)), V::AN(s, l) => V::AN(s.clone(), l.iter().map(n).collect()), v => v.clone() }
}
/// header included, timestamps and padding included, plus an allow list
#[inline(never)]
pub fn parse_allow(bytes: &[u8], names: &[&str], max: usize) -> Vec<Res> {
    let p = parser_allow(bytes, names);
    let mut v = Vec::new();
    for r in p { v.push(r); sym::check(v.len() <= max, "more results than messages"); }
    v
}
#[inline(never)]
pub fn parser_allow<R: std::io::Read>(r: R, names: &[&str]) -> yule_log::parser::ULogParser<R> {
    ULogParserBuilder::new(r).include_header(true).include_timestamp(true).include_padding(true).set_subscription_allow_list(names.iter().map(|s| s.to_string())).build().unwrap()
}
/// a reader that repeats a part of the file
pub struct Repeat<'a> { pub head: &'a [u8], pub body: &'a [u8], pub times: usize, pub tail: &'a [u8], pub at: usize }
impl std::io::Read for Repeat<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        loop {
            let cur = if !self.head.is_empty() { &mut self.head } else if self.times > 0 {
                let left = &self.body[self.at..];
                let n = left.len().min(buf.len());
                buf[..n].copy_from_slice(&left[..n]);
                self.at += n;
                if self.at == self.body.len() { self.at = 0; self.times -= 1 }
                return Ok(n);
            } else { &mut self.tail };
            let n = cur.len().min(buf.len());
            buf[..n].copy_from_slice(&cur[..n]);
            *cur = &cur[n..];
            return Ok(n);
        }
    }
}
