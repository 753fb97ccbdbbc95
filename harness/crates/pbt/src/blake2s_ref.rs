//! BLAKE2s from RFC 7693 and the BLAKE2 parameter block, and BLAKE2Xs from the BLAKE2X paper.
const IV: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
pub struct Param { pub digest_length: u8, pub fanout: u8, pub depth: u8, pub leaf_length: u32, pub node_offset: u64, pub node_depth: u8, pub inner_length: u8, pub personal: [u8; 8] }
fn g(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}
fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 { m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]); }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last { v[14] = !v[14]; }
    for s in &SIGMA {
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
}
pub fn blake2s(p: &Param, msg: &[u8]) -> Vec<u8> {
    let mut pb = [0u8; 32];
    pb[0] = p.digest_length;
    pb[2] = p.fanout;
    pb[3] = p.depth;
    pb[4..8].copy_from_slice(&p.leaf_length.to_le_bytes());
    pb[8..14].copy_from_slice(&p.node_offset.to_le_bytes()[..6]);
    pb[14] = p.node_depth;
    pb[15] = p.inner_length;
    pb[24..32].copy_from_slice(&p.personal);
    let mut h = IV;
    for i in 0..8 { h[i] ^= u32::from_le_bytes([pb[4 * i], pb[4 * i + 1], pb[4 * i + 2], pb[4 * i + 3]]); }
    let mut off = 0;
    while msg.len() - off > 64 {
        let mut b = [0u8; 64];
        b.copy_from_slice(&msg[off..off + 64]);
        off += 64;
        compress(&mut h, &b, off as u64, false);
    }
    let mut b = [0u8; 64];
    b[..msg.len() - off].copy_from_slice(&msg[off..]);
    compress(&mut h, &b, msg.len() as u64, true);
    let mut out = vec![];
    for x in &h { out.extend_from_slice(&x.to_le_bytes()); }
    out.truncate(p.digest_length as usize);
    out
}
fn personal(domain: &[u8]) -> [u8; 8] {
    let mut d = [0u8; 8];
    d[..domain.len()].copy_from_slice(domain);
    d
}
/// The root hash: BLAKE2s-256 in sequential mode, with the length of the extended output in its parameter block.
pub fn crh(domain: &[u8], msg: &[u8], xof_len: usize) -> Vec<u8> {
    blake2s(&Param { digest_length: 32, fanout: 1, depth: 1, leaf_length: 0, node_offset: (xof_len as u64) << 32, node_depth: 0, inner_length: 0, personal: personal(domain) }, msg)
}
/// The expansion: 32-byte leaves B2(i, ..), the last one of the remaining length.
pub fn xof(domain: &[u8], h0: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0u64;
    while out.len() < len {
        let n = (len - out.len()).min(32);
        out.extend(blake2s(&Param { digest_length: n as u8, fanout: 0, depth: 0, leaf_length: 32, node_offset: i | ((len as u64) << 32), node_depth: 0, inner_length: 32, personal: personal(domain) }, h0));
        i += 1;
    }
    out
}
pub fn hash(domain: &[u8], msg: &[u8], len: usize) -> Vec<u8> { xof(domain, &crh(domain, msg, len), len) }
