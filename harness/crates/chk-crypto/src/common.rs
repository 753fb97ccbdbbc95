use pbt::Case;
pub fn domain(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[1, 3, 3]) { 0 => vec![], 1 => c.pick(&[&b"ULforxof"[..], b"ULforpop", b"ULforout"]).to_vec(), _ => { let n = c.size(0, 8); c.bytes(n) } }
}
pub fn message(c: &mut Case) -> Vec<u8> {
    if c.chance(1, 60) { let n = c.count(600, 1500, oracle::BH_MAX - 100); return c.random_bytes(n); }
    let cap = if c.chance(1, 8) { 600 } else { 150 };
    let n = c.len_near(&[31, 32, 63, 64, 96, 128], cap);
    c.bytes(n)
}
pub fn extra(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[2, 4]) { 0 => vec![], _ => { let n = if c.chance(1, 40) { c.count(0, 300, 3000) } else { c.len_near(&[8, 32, 63], 80) }; c.bytes(n) } }
}
