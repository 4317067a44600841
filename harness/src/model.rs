//! Reference model: ULog values and messages as the file-format specification defines them,
//! generators with symbolic contents, and comparison against what the crate under test returned.
//! Nothing here uses the crate's own decoding or encoding code.
use crate::{sym, ulog};
use yule_log::model::{def, inst, msg};
use yule_log::model::msg::UlogMessage;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Bool, Char }
pub const TYS: [Ty; 12] = [Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::Bool, Ty::Char];
impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::U8 => "uint8_t", Ty::U16 => "uint16_t", Ty::U32 => "uint32_t", Ty::U64 => "uint64_t", Ty::I8 => "int8_t", Ty::I16 => "int16_t", Ty::I32 => "int32_t", Ty::I64 => "int64_t",
            Ty::F32 => "float", Ty::F64 => "double", Ty::Bool => "bool", Ty::Char => "char",
        }
    }
    pub fn size(self) -> usize {
        match self { Ty::U8 | Ty::I8 | Ty::Bool | Ty::Char => 1, Ty::U16 | Ty::I16 => 2, Ty::U32 | Ty::I32 | Ty::F32 => 4, _ => 8 }
    }
    pub fn base(self) -> def::BaseType {
        use def::BaseType::*;
        match self {
            Ty::U8 => UINT8, Ty::U16 => UINT16, Ty::U32 => UINT32, Ty::U64 => UINT64, Ty::I8 => INT8, Ty::I16 => INT16, Ty::I32 => INT32, Ty::I64 => INT64,
            Ty::F32 => FLOAT, Ty::F64 => DOUBLE, Ty::Bool => BOOL, Ty::Char => CHAR,
        }
    }
}

/// a value as the file holds it: raw little-endian bytes
#[derive(Clone, Debug)]
pub enum V { S(Ty, Vec<u8>), A(Ty, usize, Vec<u8>), N(Nested), AN(String, Vec<Nested>) }
#[derive(Clone, Debug)]
pub struct Nested { pub name: String, pub fields: Vec<Fv> }
#[derive(Clone, Debug)]
pub struct Fv { pub name: String, pub v: V }

pub fn fv(name: &str, v: V) -> Fv { Fv { name: name.to_string(), v } }
/// symbolic bytes; a bool holds 0 or 1
pub fn raw(t: Ty, n: usize) -> Vec<u8> {
    let b = sym::vec(t.size() * n);
    if t == Ty::Bool { for x in &b { sym::assume(*x <= 1) } }
    b
}
pub fn scalar(t: Ty) -> V { V::S(t, raw(t, 1)) }
pub fn array(t: Ty, n: usize) -> V { V::A(t, n, raw(t, n)) }
impl V {
    pub fn bytes(&self, out: &mut Vec<u8>) {
        match self {
            V::S(_, b) | V::A(_, _, b) => out.extend_from_slice(b),
            V::N(n) => n.bytes(out),
            V::AN(_, l) => for n in l { n.bytes(out) },
        }
    }
    pub fn type_text(&self) -> String {
        match self {
            V::S(t, _) => t.name().to_string(),
            V::A(t, n, _) => format!("{}[{}]", t.name(), n),
            V::N(n) => n.name.clone(),
            V::AN(s, l) => format!("{}[{}]", s, l.len()),
        }
    }
}
impl Nested {
    pub fn bytes(&self, out: &mut Vec<u8>) { for f in &self.fields { f.v.bytes(out) } }
    pub fn format_text(&self) -> String { format_text(&self.name, &self.fields) }
}
pub fn format_text(name: &str, fields: &[Fv]) -> String {
    let mut s = String::from(name);
    s.push(':');
    for f in fields { s.push_str(&f.v.type_text()); s.push(' '); s.push_str(&f.name); s.push(';'); }
    s
}
pub fn payload(fields: &[Fv]) -> Vec<u8> { let mut o = vec![]; for f in fields { f.v.bytes(&mut o) } o }

pub fn le16(b: &[u8]) -> u16 { b[0] as u16 | (b[1] as u16) << 8 }
pub fn le32(b: &[u8]) -> u32 { b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24 }
pub fn le64(b: &[u8]) -> u64 { le32(b) as u64 | (le32(&b[4..]) as u64) << 32 }

/// bytes equal, decided as one condition
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

macro_rules! each { ($arr:expr, $n:expr, $b:expr, $w:expr, $what:expr, $f:expr) => {{
    sym::check($arr.len() == $n, $what);
    let mut ok = true;
    for (i, x) in $arr.iter().enumerate() { ok &= $f(*x, &$b[i * $w..(i + 1) * $w]); }
    sym::check(ok, $what);
}}}

/// the value the crate returned equals the specified one: same type, same length, same bits
pub fn check_value(got: &inst::FieldValue, want: &V) {
    use inst::FieldValue::*;
    match (want, got) {
        (V::S(Ty::U8, b), ScalarU8(x)) => sym::check(*x == b[0], "u8 value"),
        (V::S(Ty::U16, b), ScalarU16(x)) => sym::check(*x == le16(b), "u16 value"),
        (V::S(Ty::U32, b), ScalarU32(x)) => sym::check(*x == le32(b), "u32 value"),
        (V::S(Ty::U64, b), ScalarU64(x)) => sym::check(*x == le64(b), "u64 value"),
        (V::S(Ty::I8, b), ScalarI8(x)) => sym::check(*x as u8 == b[0], "i8 value"),
        (V::S(Ty::I16, b), ScalarI16(x)) => sym::check(*x as u16 == le16(b), "i16 value"),
        (V::S(Ty::I32, b), ScalarI32(x)) => sym::check(*x as u32 == le32(b), "i32 value"),
        (V::S(Ty::I64, b), ScalarI64(x)) => sym::check(*x as u64 == le64(b), "i64 value"),
        (V::S(Ty::F32, b), ScalarF32(x)) => sym::check(x.to_bits() == le32(b), "f32 value"),
        (V::S(Ty::F64, b), ScalarF64(x)) => sym::check(x.to_bits() == le64(b), "f64 value"),
        (V::S(Ty::Bool, b), ScalarBool(x)) => sym::check(*x == (b[0] != 0), "bool value"),
        (V::S(Ty::Char, b), ScalarChar(x)) => sym::check(x.0 == b[0], "char value"),
        (V::A(Ty::U8, n, b), ArrayU8(a)) => each!(a, *n, b, 1, "u8 array", |x: u8, s: &[u8]| x == s[0]),
        (V::A(Ty::U16, n, b), ArrayU16(a)) => each!(a, *n, b, 2, "u16 array", |x: u16, s: &[u8]| x == le16(s)),
        (V::A(Ty::U32, n, b), ArrayU32(a)) => each!(a, *n, b, 4, "u32 array", |x: u32, s: &[u8]| x == le32(s)),
        (V::A(Ty::U64, n, b), ArrayU64(a)) => each!(a, *n, b, 8, "u64 array", |x: u64, s: &[u8]| x == le64(s)),
        (V::A(Ty::I8, n, b), ArrayI8(a)) => each!(a, *n, b, 1, "i8 array", |x: i8, s: &[u8]| x as u8 == s[0]),
        (V::A(Ty::I16, n, b), ArrayI16(a)) => each!(a, *n, b, 2, "i16 array", |x: i16, s: &[u8]| x as u16 == le16(s)),
        (V::A(Ty::I32, n, b), ArrayI32(a)) => each!(a, *n, b, 4, "i32 array", |x: i32, s: &[u8]| x as u32 == le32(s)),
        (V::A(Ty::I64, n, b), ArrayI64(a)) => each!(a, *n, b, 8, "i64 array", |x: i64, s: &[u8]| x as u64 == le64(s)),
        (V::A(Ty::F32, n, b), ArrayF32(a)) => each!(a, *n, b, 4, "f32 array", |x: f32, s: &[u8]| x.to_bits() == le32(s)),
        (V::A(Ty::F64, n, b), ArrayF64(a)) => each!(a, *n, b, 8, "f64 array", |x: f64, s: &[u8]| x.to_bits() == le64(s)),
        (V::A(Ty::Bool, n, b), ArrayBool(a)) => each!(a, *n, b, 1, "bool array", |x: bool, s: &[u8]| x == (s[0] != 0)),
        (V::A(Ty::Char, n, b), ArrayChar(a)) => each!(a, *n, b, 1, "char array", |x: yule_log::model::CChar, s: &[u8]| x.0 == s[0]),
        (V::N(n), ScalarOther(f)) => check_nested(f, n),
        (V::AN(_, l), ArrayOther(a)) => {
            sym::check(a.len() == l.len(), "nested array length");
            for (g, w) in a.iter().zip(l) { check_nested(g, w) }
        }
        _ => sym::fail("value has the wrong type"),
    }
}
pub fn check_type(got: &def::TypeExpr, want: &V) {
    let (base, n) = match want {
        V::S(t, _) => (t.base(), None),
        V::A(t, n, _) => (t.base(), Some(*n)),
        V::N(n) => (def::BaseType::OTHER(n.name.clone()), None),
        V::AN(s, l) => (def::BaseType::OTHER(s.clone()), Some(l.len())),
    };
    sym::check(got.base_type == base, "base type");
    sym::check(got.array_size == n, "array size");
}
pub fn check_fields(got: &[inst::Field], want: &[Fv]) {
    sym::check(got.len() == want.len(), "number of fields");
    for (g, w) in got.iter().zip(want) {
        sym::check(same(g.name.as_bytes(), w.name.as_bytes()), "field name");
        check_type(&g.r#type, &w.v);
        check_value(&g.value, &w.v);
    }
}
pub fn check_nested(got: &inst::Format, want: &Nested) {
    sym::check(same(got.name.as_bytes(), want.name.as_bytes()), "nested format name");
    check_fields(&got.fields, &want.fields);
}

/// what a message must be decoded to
#[derive(Clone, Debug)]
pub enum Exp {
    Header { version: u8, ts: u64 },
    Flags { compat: Vec<u8>, incompat: Vec<u8>, offsets: Vec<u64> },
    Format { name: String, fields: Vec<Fv> },
    Info { key: String, v: V },
    Multi { cont: bool, key: String, v: V },
    Param { key: String, v: V },
    Default { types: u8, key: String, v: V },
    Sub { multi: u8, id: u16, name: String },
    Data { id: u16, ts: u64, name: String, multi: Option<u8>, fields: Vec<Fv> },
    Log { level: u8, tag: Option<u16>, ts: u64, text: Vec<u8> },
    Dropout(u16),
    Raw(u8, Vec<u8>),
    Ignored(u8),
    Err,
}
pub fn check_msg(got: &UlogMessage, want: &Exp) {
    match (want, got) {
        (Exp::Header { version, ts }, UlogMessage::Header(h)) => { sym::check(h.version == *version, "header version"); sym::check(h.timestamp == *ts, "header timestamp") }
        (Exp::Flags { compat, incompat, offsets }, UlogMessage::FlagBits(f)) => {
            sym::check(same(&f.compat_flags, compat), "compat flags");
            sym::check(same(&f.incompat_flags, incompat), "incompat flags");
            for i in 0..3 { sym::check(f.appended_data_offsets[i] == offsets[i], "appended offset") }
        }
        (Exp::Format { name, fields }, UlogMessage::FormatDefinition(f)) => check_def(f, name, fields),
        (Exp::Info { key, v }, UlogMessage::Info(m)) => { sym::check(same(m.key.as_bytes(), key.as_bytes()), "info key"); check_type(&m.r#type, v); check_value(&m.value, v) }
        (Exp::Multi { cont, key, v }, UlogMessage::MultiInfo(m)) => {
            sym::check(m.is_continued == *cont, "is_continued");
            sym::check(same(m.key.as_bytes(), key.as_bytes()), "multi info key");
            check_type(&m.r#type, v);
            check_value(&m.value, v)
        }
        (Exp::Param { key, v }, UlogMessage::Parameter(m)) => { sym::check(same(m.key.as_bytes(), key.as_bytes()), "parameter key"); check_type(&m.r#type, v); check_param(&m.value, v) }
        (Exp::Default { types, key, v }, UlogMessage::DefaultParameter(m)) => {
            sym::check(m.default_types == *types, "default types");
            let d = m.get_default_type();
            sym::check(d.system_wide == (types & 1 != 0), "system wide default");
            sym::check(d.configuration == (types & 2 != 0), "configuration default");
            sym::check(same(m.key.as_bytes(), key.as_bytes()), "default parameter key");
            check_type(&m.r#type, v);
            check_param(&m.value, v)
        }
        (Exp::Sub { multi, id, name }, UlogMessage::AddSubscription(m)) => check_sub(m, *multi, *id, name),
        (Exp::Data { id, ts, name, multi, fields }, UlogMessage::LoggedData(d)) => {
            sym::check(d.msg_id == *id, "data msg_id");
            sym::check(d.timestamp == *ts, "data timestamp");
            sym::check(same(d.data.name.as_bytes(), name.as_bytes()), "data name");
            sym::check(d.data.multi_id_index == *multi, "multi_id index");
            check_fields(&d.data.fields, fields);
        }
        (Exp::Log { level, tag, ts, text }, UlogMessage::LoggedString(l)) | (Exp::Log { level, tag, ts, text }, UlogMessage::TaggedLoggedString(l)) => {
            sym::check(l.level as u8 == *level, "log level");
            sym::check(l.tag == *tag, "log tag");
            sym::check(l.timestamp == *ts, "log timestamp");
            sym::check(same(l.msg.as_bytes(), text), "log text");
        }
        (Exp::Dropout(d), UlogMessage::DropoutMark(g)) => {
            // the duration is only visible as text and in the encoding
            let mut out = Vec::new();
            yule_log::encode::Encode::encode(g, &mut out).unwrap();
            sym::check(same(&out, &d.to_le_bytes()), "dropout duration");
        }
        (Exp::Raw(t, b), UlogMessage::Unhandled { msg_type, message_contents }) => { sym::check(*msg_type == *t, "unhandled type"); sym::check(same(message_contents, b), "unhandled contents") }
        (Exp::Ignored(t), UlogMessage::Ignored { msg_type }) => sym::check(*msg_type == *t, "ignored type"),
        _ => sym::fail("message has the wrong kind"),
    }
}
pub fn check_sub(m: &msg::Subscription, multi: u8, id: u16, name: &str) {
    sym::check(m.multi_id == multi, "multi_id");
    sym::check(m.msg_id == id, "subscription msg_id");
    sym::check(same(m.message_name.as_bytes(), name.as_bytes()), "subscription name");
}
pub fn check_param(got: &inst::ParameterValue, want: &V) {
    match (want, got) {
        (V::S(Ty::I32, b), inst::ParameterValue::INT32(x)) => sym::check(*x as u32 == le32(b), "int parameter"),
        (V::S(Ty::F32, b), inst::ParameterValue::FLOAT(x)) => sym::check(x.to_bits() == le32(b), "float parameter"),
        _ => sym::fail("parameter has the wrong type"),
    }
}
pub fn check_def(f: &def::Format, name: &str, fields: &[Fv]) {
    sym::check(same(f.name.as_bytes(), name.as_bytes()), "format name");
    sym::check(f.fields.len() == fields.len(), "format field count");
    for (g, w) in f.fields.iter().zip(fields) {
        sym::check(same(g.name.as_bytes(), w.name.as_bytes()), "format field name");
        check_type(&g.r#type, &w.v);
    }
}
pub fn check_result(got: &Result<UlogMessage, yule_log::errors::ULogError>, want: &Exp) {
    match (want, got) {
        (Exp::Err, Err(_)) => {}
        (Exp::Err, Ok(_)) => sym::fail("message accepted, error expected"),
        (_, Ok(m)) => check_msg(m, want),
        (_, Err(_)) => sym::fail("error returned for a valid message"),
    }
}

/// A file under construction together with what it must decode to.
pub struct File { pub bytes: Vec<u8>, pub exp: Vec<Exp>, pub ends: Vec<usize> }
fn keyed(v: &V, key: &str) -> Vec<u8> {
    let k = format!("{} {}", v.type_text(), key);
    let mut b = vec![k.len() as u8];
    b.extend_from_slice(k.as_bytes());
    v.bytes(&mut b);
    b
}
impl File {
    /// header with concrete contents
    pub fn new() -> File { File::with_header(1, 0x0102030405060708) }
    pub fn with_header(version: u8, ts: u64) -> File { let b = ulog::header(version, ts); let n = b.len(); File { bytes: b, exp: vec![Exp::Header { version, ts }], ends: vec![n] } }
    pub fn push(&mut self, b: Vec<u8>, e: Exp) -> &mut File { self.bytes.extend_from_slice(&b); self.exp.push(e); self.ends.push(self.bytes.len()); self }
    pub fn flags(&mut self, compat: &[u8], incompat: &[u8], offsets: &[u64], extra: &[u8]) -> &mut File {
        let mut b = compat.to_vec();
        b.extend_from_slice(incompat);
        for o in offsets { b.extend_from_slice(&o.to_le_bytes()) }
        b.extend_from_slice(extra);
        self.push(ulog::msg(b'B', &b), Exp::Flags { compat: compat.to_vec(), incompat: incompat.to_vec(), offsets: offsets.to_vec() })
    }
    pub fn format(&mut self, name: &str, fields: &[Fv]) -> &mut File { self.push(ulog::fmt(&format_text(name, fields)), Exp::Format { name: name.into(), fields: fields.to_vec() }) }
    pub fn info(&mut self, key: &str, v: V) -> &mut File { self.push(ulog::msg(b'I', &keyed(&v, key)), Exp::Info { key: key.into(), v }) }
    pub fn multi(&mut self, cont: u8, key: &str, v: V) -> &mut File { let mut b = vec![cont]; b.extend(keyed(&v, key)); self.push(ulog::msg(b'M', &b), Exp::Multi { cont: cont != 0, key: key.into(), v }) }
    pub fn param(&mut self, key: &str, v: V) -> &mut File { self.push(ulog::msg(b'P', &keyed(&v, key)), Exp::Param { key: key.into(), v }) }
    pub fn default(&mut self, types: u8, key: &str, v: V) -> &mut File { let mut b = vec![types]; b.extend(keyed(&v, key)); self.push(ulog::msg(b'Q', &b), Exp::Default { types, key: key.into(), v }) }
    pub fn sub(&mut self, multi: u8, id: u16, name: &str) -> &mut File { self.push(ulog::sub(multi, id, name), Exp::Sub { multi, id, name: name.into() }) }
    /// a data message; `fields` is everything the payload holds, in order (include_timestamp and include_padding on)
    pub fn data(&mut self, id: u16, name: &str, multi: Option<u8>, fields: &[Fv]) -> &mut File {
        let ts = fields.iter().find(|f| f.name == "timestamp").map(|f| match &f.v { V::S(Ty::U64, b) => le64(b), _ => 0 }).unwrap_or(0);
        self.push(ulog::data(id, &payload(fields)), Exp::Data { id, ts, name: name.into(), multi, fields: fields.to_vec() })
    }
    pub fn log(&mut self, level: u8, tag: Option<u16>, ts: u64, text: &[u8]) -> &mut File {
        let mut b = vec![level];
        if let Some(t) = tag { b.extend_from_slice(&t.to_le_bytes()) }
        b.extend_from_slice(&ts.to_le_bytes());
        b.extend_from_slice(text);
        self.push(ulog::msg(if tag.is_some() { b'C' } else { b'L' }, &b), Exp::Log { level, tag, ts, text: text.to_vec() })
    }
    pub fn dropout(&mut self, d: u16) -> &mut File { self.push(ulog::msg(b'O', &d.to_le_bytes()), Exp::Dropout(d)) }
    pub fn raw(&mut self, t: u8, b: &[u8]) -> &mut File { self.push(ulog::msg(t, b), Exp::Raw(t, b.to_vec())) }
    pub fn bad(&mut self, t: u8, b: &[u8]) -> &mut File { self.push(ulog::msg(t, b), Exp::Err) }
}
