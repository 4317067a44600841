//! Generators: one message of a chosen kind with symbolic contents.
use crate::model::*;
use crate::sym;

pub const N_DEF: usize = 9;
pub const N_DATA: usize = 13;

pub fn ascii(n: usize) -> Vec<u8> { let v = sym::vec(n); for b in &v { sym::assume(*b < 128) } v }
/// a type byte the definitions section does not interpret
pub fn def_unknown_type() -> u8 {
    let t = sym::u8();
    for k in b"FIMPQAB" { sym::assume(t != *k) }
    t
}
/// a type byte the data section does not interpret
pub fn data_unknown_type() -> u8 {
    let t = sym::u8();
    for k in b"DIMPQARLCO" { sym::assume(t != *k) }
    t
}
/// a message of the definitions section
#[inline(never)]
pub fn def_msg(f: &mut File, kind: usize) {
    match kind {
        0 => { f.info("sys_uuid", scalar(Ty::U32)); }
        1 => { f.info("ver_sw", array(Ty::Char, 3)); }
        2 => { let c = sym::below(2); f.multi(c, "perf", array(Ty::Char, 2)); }
        3 => { f.param("MC_X", scalar(Ty::I32)); }
        4 => { f.param("MC_Y", scalar(Ty::F32)); }
        5 => { let t = sym::u8(); f.default(t, "MC_Z", scalar(if t & 4 == 0 { Ty::I32 } else { Ty::F32 })); }
        6 => { let t = def_unknown_type(); let b = sym::vec(2); f.raw(t, &b); }
        7 => { f.format("z", &[fv("timestamp", scalar(Ty::U64)), fv("n", V::N(Nested { name: "zz".into(), fields: vec![] })), fv("a", V::A(Ty::I16, 12, vec![])), fv("m", V::AN("yy".into(), vec![]))]); }
        _ => { let c = sym::vec(8); let mut i = vec![0u8; 8]; i[0] = 0; let o = [sym::u64(), sym::u64(), sym::u64()]; f.flags(&c, &i, &o, &[]); }
    }
}
/// the formats the data section of a generated file uses
#[inline(never)]
pub fn formats(f: &mut File) {
    f.format("in", &in_fields());
    f.format("a", &a_fields());
    f.format("b", &b_fields());
}
fn in_fields() -> Vec<Fv> { vec![fv("k", V::S(Ty::I16, vec![])), fv("c", V::A(Ty::Char, 2, vec![]))] }
fn in_value() -> Nested { Nested { name: "in".into(), fields: vec![fv("k", scalar(Ty::I16)), fv("c", array(Ty::Char, 2))] } }
fn a_fields() -> Vec<Fv> { vec![fv("timestamp", V::S(Ty::U64, vec![])), fv("x", V::S(Ty::F32, vec![])), fv("y", V::A(Ty::U16, 2, vec![])), fv("_padding0", V::A(Ty::U8, 2, vec![])), fv("z", V::S(Ty::Bool, vec![]))] }
pub fn a_value() -> Vec<Fv> { vec![fv("timestamp", scalar(Ty::U64)), fv("x", scalar(Ty::F32)), fv("y", array(Ty::U16, 2)), fv("_padding0", array(Ty::U8, 2)), fv("z", scalar(Ty::Bool))] }
fn b_fields() -> Vec<Fv> {
    let n = Nested { name: "in".into(), fields: in_fields() };
    vec![fv("n", V::N(n.clone())), fv("timestamp", V::S(Ty::U64, vec![])), fv("l", V::AN("in".into(), vec![n.clone(), n]))]
}
pub fn b_value() -> Vec<Fv> { vec![fv("n", V::N(in_value())), fv("timestamp", scalar(Ty::U64)), fv("l", V::AN("in".into(), vec![in_value(), in_value()]))] }

/// subscriptions the data messages below refer to
pub const ID_A: u16 = 3;
pub const ID_B: u16 = 0x0203;
#[inline(never)]
pub fn subs(f: &mut File) { f.sub(0, ID_A, "a"); f.sub(0, ID_B, "b"); }

/// a message of the data section
#[inline(never)]
pub fn data_msg(f: &mut File, kind: usize) {
    match kind {
        0 => { f.data(ID_A, "a", None, &a_value()); }
        1 => { f.data(ID_B, "b", None, &b_value()); }
        2 => { let id = sym::u16(); sym::assume(id != ID_A && id != ID_B); f.sub(0, id, "a"); }
        3 => { let l = sym::below(2) + b'5'; let t = sym::u64(); let x = ascii(2); f.log(l, None, t, &x); }
        4 => { let l = sym::below(2) + b'5'; let g = sym::u16(); let t = sym::u64(); let x = ascii(2); f.log(l, Some(g), t, &x); }
        5 => { let d = sym::u16(); f.dropout(d); }
        6 => { f.info("sys_uuid", scalar(Ty::F64)); }
        7 => { let c = sym::below(2); f.multi(c, "perf", array(Ty::U8, 2)); }
        8 => { f.param("MC_X", scalar(Ty::F32)); }
        9 => { f.param("MC_Y", scalar(Ty::I32)); }
        10 => { let t = sym::u8(); f.default(t, "MC_Z", scalar(Ty::I32)); }
        11 => { let id = sym::u16(); sym::assume(id != ID_A && id != ID_B); let mut b = id.to_le_bytes().to_vec(); b.extend(sym::vec(1)); f.raw(b'R', &b); }
        _ => { let t = data_unknown_type(); let b = sym::vec(3); f.raw(t, &b); }
    }
}
