//! Independent builders for ULog byte streams (written from the ULog file-format
//! specification, not from the crate under test).
pub const MAGIC: [u8; 7] = [0x55, 0x4c, 0x6f, 0x67, 0x01, 0x12, 0x35];
pub fn header(version: u8, ts: u64) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.push(version);
    v.extend_from_slice(&ts.to_le_bytes());
    v
}
pub fn msg(t: u8, body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u16).to_le_bytes().to_vec();
    v.push(t);
    v.extend_from_slice(body);
    v
}
pub fn fmt(s: &str) -> Vec<u8> { msg(b'F', s.as_bytes()) }
pub fn sub(multi: u8, id: u16, name: &str) -> Vec<u8> {
    let mut b = vec![multi];
    b.extend_from_slice(&id.to_le_bytes());
    b.extend_from_slice(name.as_bytes());
    msg(b'A', &b)
}
pub fn data(id: u16, payload: &[u8]) -> Vec<u8> {
    let mut b = id.to_le_bytes().to_vec();
    b.extend_from_slice(payload);
    msg(b'D', &b)
}
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> { parts.concat() }
