//! C01 (BLAKE2s/BLAKE2Xs hasher) and C10 (bit/byte conversions).
//! Compiled from /repo's sources without the arkworks stand-ins.
use lite_crypto::hashers::{DirectHasher, Hasher};
use lite_crypto::BLSError;
use lite_gadgets::utils::*;
use pbt::{blake2s_ref as b2, ensure, ensure_eq, fail, hexs, no_panic, Case, Outcome, Part, Property};

fn domain(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[2, 2, 6]) {
        0 => vec![],
        1 => c.pick(&[&b"ULforxof"[..], b"ULforpop", b"UL_prngs", b"a", b"\0\0\0\0\0\0\0\0", b"\0\0\0\0\0\0\0x"]).to_vec(),
        _ => { let n = c.size(0, 8); c.bytes(n) }
    }
}
fn message(c: &mut Case) -> Vec<u8> {
    // now and then a very long one, next to a power of two or anywhere
    if c.chance(1, if c.thorough { 60 } else { 150 }) {
        let n = match c.weighted(&[4, 2, 1]) { 0 => { let k = c.size(10, 17); ((1usize << k) + c.size(0, 132)).saturating_sub(66) } 1 => c.size(3_000, 140_000), _ => { let k = c.size(17, 20); ((1usize << k) + c.size(0, 132)).saturating_sub(66) } };
        c.label("very long message");
        return c.random_bytes(n);
    }
    let max = if c.thorough { 70_000 } else { 3_000 };
    let cap = if c.chance(1, 10) { max } else { 300 };
    let n = c.len_near(&[32, 64, 96, 128, 192, 256, 512, 1024], cap);
    c.bytes(n)
}
/// output lengths up to 65535, the largest that the two-byte length field can hold
fn out_len(c: &mut Case) -> usize {
    match c.weighted(&[4, 4, 2, 1]) {
        0 => c.size(0, 130),
        1 => { let k = c.size(0, 40); let d = c.size(0, 4) as i64 - 2; (32 * k as i64 + d).max(0) as usize }
        2 => c.size(0, 2048),
        _ => { let k = c.size(0, 2047); let d = c.size(0, 33); (32 * k + d).min(65535) }
    }
}
fn nontriv(c: &mut Case, d: &[u8], m: &[u8], n: usize) {
    if n > 0 && (m.len() > 64 || n % 32 != 0 || n > 32 || !d.is_empty()) { c.nontrivial_here(); }
    if n % 32 != 0 { c.label("partial last block"); }
    if n > 8192 { c.label("more than 256 output blocks"); }
    if m.len() > 64 { c.label("message longer than one block"); }
    if m.len() % 64 == 0 && !m.is_empty() { c.label("message ends on a block boundary"); }
}
fn p_crh(c: &mut Case) -> Outcome {
    let (d, m) = (domain(c), message(c));
    let n = if c.chance(1, 3) { c.size(0, 65535) } else { out_len(c) };
    c.log(format!("crh domain={} message={} length={}", hexs(&d), hexs(&m), n));
    nontriv(c, &d, &m, n);
    let r = no_panic(|| DirectHasher.crh(&d, &m, n)).or_else(|e| fail("crh-panic", e))?;
    match r { Ok(v) => ensure_eq!(hexs(&v), hexs(&b2::crh(&d, &m, n)), "crh-output", "root hash"), Err(e) => return fail("crh-error", format!("{:?}", e)) }
    Ok(())
}
fn p_xof(c: &mut Case) -> Outcome {
    let (d, m, n) = (domain(c), if c.bool() { c.bytes(32) } else { message(c) }, out_len(c));
    c.log(format!("xof domain={} input={} length={}", hexs(&d), hexs(&m), n));
    nontriv(c, &d, &m, n);
    let r = no_panic(|| DirectHasher.xof(&d, &m, n)).or_else(|e| fail("xof-panic", e))?;
    match r {
        Ok(v) => { ensure_eq!(v.len(), n, "xof-length", "output length"); ensure!(v == b2::xof(&d, &m, n), "xof-output", "expansion differs from BLAKE2Xs: got {}, expected {}", hexs(&v), hexs(&b2::xof(&d, &m, n))) }
        Err(e) => return fail("xof-error", format!("{:?}", e)),
    }
    Ok(())
}
fn p_hash(c: &mut Case) -> Outcome {
    let (d, m, n) = (domain(c), message(c), out_len(c));
    c.log(format!("hash domain={} message={} length={}", hexs(&d), hexs(&m), n));
    nontriv(c, &d, &m, n);
    let r = no_panic(|| DirectHasher.hash(&d, &m, n)).or_else(|e| fail("hash-panic", e))?;
    match r {
        Ok(v) => { ensure_eq!(v.len(), n, "hash-length", "output length"); ensure!(v == b2::hash(&d, &m, n), "hash-output", "hash differs from BLAKE2Xs(BLAKE2s): got {}, expected {}", hexs(&v), hexs(&b2::hash(&d, &m, n))) }
        Err(e) => return fail("hash-error", format!("{:?}", e)),
    }
    Ok(())
}
fn p_domain(c: &mut Case) -> Outcome {
    let n = if c.chance(1, 10) { c.count(9, 300, 100_000) } else { c.size(9, 40) };
    let d = c.bytes(n);
    let (m, len) = (message(c), if c.bool() { out_len(c) } else { c.size(0, 64) });
    c.log(format!("domain of {} bytes={} message={} length={}", n, hexs(&d), hexs(&m), len));
    c.nontrivial_here();
    for (name, r) in [
        ("crh", no_panic(|| DirectHasher.crh(&d, &m, len))),
        ("xof", no_panic(|| DirectHasher.xof(&d, &m, len))),
        ("hash", no_panic(|| DirectHasher.hash(&d, &m, len))),
    ] {
        match r {
            Ok(Err(BLSError::DomainTooLarge(k))) => ensure_eq!(k, n, format!("domain-length-{}", name), "length in the error of {}", name),
            Ok(Err(e)) => return fail(&format!("domain-error-{}", name), format!("{} of an overlong domain fails with {:?}", name, e)),
            Ok(Ok(v)) => return fail(&format!("domain-accepted-{}", name), format!("{} accepts an overlong domain and returns {}", name, hexs(&v))),
            Err(p) => return fail(&format!("domain-panic-{}", name), format!("{} of an overlong domain panics: {}", name, p)),
        }
    }
    Ok(())
}
/// Several calls in a row whose messages, domains and lengths are related to one another: what a
/// call returns depends on its own arguments alone.
fn p_related(c: &mut Case) -> Outcome {
    let (mut d, mut m, mut n) = (domain(c), if c.bool() { c.bytes(32) } else { let k = c.len_near(&[32, 64, 128, 192], 300); c.bytes(k) }, c.size(0, 130));
    let steps = 2 + c.size(0, 5);
    c.nontrivial_here();
    for i in 0..steps {
        let what = if i == 0 { 99 } else { c.below(12) };
        match what {
            0 => if !m.is_empty() { let k = c.size(0, m.len() - 1); m[k] ^= 1 << c.below(8) },
            1 => if !m.is_empty() { let k = m.len() - 1; m[k] ^= 1 << c.below(8) },
            2 => { let b = c.u8() & 1; m.push(b) }
            3 => { m.pop(); }
            4 => { let k = c.size(1, 70); m.resize(m.len() + k, 0) }
            5 => { let k = (!m.is_empty()) as usize; m.rotate_right(k) }
            6 => if !d.is_empty() { let k = c.size(0, d.len() - 1); d[k] ^= 1 << c.below(8) },
            7 => { if d.len() < 8 { d.push(c.u8() | 1) } else { { let k = c.size(0, 7); d.truncate(k) } } }
            8 => n = (n + [1usize, 32, 256, 31][c.below(4) as usize]).min(65535),
            9 => n = if c.bool() { n.saturating_sub(1) } else { 32 * (n / 32) },
            10 => { let k = d.len().min(m.len()); m[..k].copy_from_slice(&d[..k]) }
            11 => { let h = b2::crh(&d, &m, n); m = h }
            _ => {}
        }
        let op = c.below(3);
        c.log(format!("{} domain={} message={} length={}", ["crh", "xof", "hash"][op as usize], hexs(&d), hexs(&m), n));
        let (r, want, name) = match op {
            0 => (no_panic(|| DirectHasher.crh(&d, &m, n)), b2::crh(&d, &m, n), "related-crh"),
            1 => (no_panic(|| DirectHasher.xof(&d, &m, n)), b2::xof(&d, &m, n), "related-xof"),
            _ => (no_panic(|| DirectHasher.hash(&d, &m, n)), b2::hash(&d, &m, n), "related-hash"),
        };
        match r.or_else(|e| fail("related-panic", e))? { Ok(v) => ensure!(v == want, name, "call {}: got {}, expected {}", i, hexs(&v), hexs(&want)), Err(e) => return fail("related-error", format!("{:?}", e)) }
    }
    Ok(())
}
/// The same from several threads at once.
fn p_threads(c: &mut Case) -> Outcome {
    let t = 2 + c.size(0, 4);
    let shared = c.bytes(64);
    let jobs: Vec<Vec<(Vec<u8>, Vec<u8>, usize)>> = (0..t).map(|_| (0..12).map(|_| { let m = if c.bool() { shared.clone() } else { message(c) }; (domain(c), m, c.size(0, 200)) }).collect()).collect();
    c.log(format!("{} threads of 12 calls each: {}", t, jobs.iter().flatten().take(4).map(|(d, m, n)| format!("({}, {}, {})", hexs(d), hexs(m), n)).collect::<Vec<_>>().join(" ")));
    c.nontrivial_here();
    let hs: Vec<_> = jobs.into_iter().map(|j| std::thread::spawn(move || {
        for (d, m, n) in j {
            let (h, x) = (DirectHasher.hash(&d, &m, n).map_err(|e| format!("{:?}", e))?, DirectHasher.xof(&d, &m, n).map_err(|e| format!("{:?}", e))?);
            if h != b2::hash(&d, &m, n) { return Err(format!("hash of {} under {} to {} bytes is {}", hexs(&m), hexs(&d), n, hexs(&h))); }
            if x != b2::xof(&d, &m, n) { return Err(format!("xof of {} under {} to {} bytes is {}", hexs(&m), hexs(&d), n, hexs(&x))); }
        }
        Ok(())
    })).collect();
    for h in hs { match h.join() { Err(_) => return fail("threads-panic", "a thread panicked"), Ok(Err(e)) => return fail("threads", e), Ok(Ok(())) => {} } }
    Ok(())
}
/// Outputs under different domains or output lengths are unrelated: no prefix or truncation relation.
fn p_separation(c: &mut Case) -> Outcome {
    let (d1, m, n1) = (domain(c), message(c), c.size(32, 400));
    let (d2, n2) = if c.bool() {
        let mut d = d1.clone();
        d.resize(8, 0);
        let i = c.size(0, 7);
        d[i] ^= 1 << c.below(8);
        (d, n1)
    } else { (d1.clone(), loop { let n = c.size(32, 400); if n != n1 { break n; } if c.chance(1, 1000) { break n1 + 1; } }) };
    c.log(format!("domains {} / {} message={} lengths {} / {}", hexs(&d1), hexs(&d2), hexs(&m), n1, n2));
    c.nontrivial_here();
    let run = |d: &[u8], n: usize| -> Result<(Vec<u8>, Vec<u8>), pbt::Fail> {
        let e = |e: BLSError| pbt::Fail { sig: "error".into(), msg: format!("{:?}", e) };
        Ok((DirectHasher.hash(d, &m, n).map_err(e)?, DirectHasher.xof(d, &m, n).map_err(e)?))
    };
    let ((h1, x1), (h2, x2)) = (run(&d1, n1)?, run(&d2, n2)?);
    ensure!(h1[..32] != h2[..32], "hash-separation", "hash shares its first block");
    ensure!(x1[..32] != x2[..32], "xof-separation", "xof shares its first block");
    Ok(())
}

// ---- C10
fn bits(c: &mut Case) -> Vec<bool> {
    let cap = if c.thorough { 5000 } else { 800 };
    let n = if c.chance(1, 40) { c.count(0, 2000, 70_000) } else { c.len_near(&[8, 16, 64, 254, 377, 384, 512, 768], cap) };
    let b = c.bytes((n + 7) / 8);
    (0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn show(b: &[bool]) -> String { let s: String = b.iter().take(80).map(|x| if *x { '1' } else { '0' }).collect(); format!("{}{} ({} bits)", s, if b.len() > 80 { ".." } else { "" }, b.len()) }
fn ref_bytes(le: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (le.len() + 7) / 8];
    for (i, b) in le.iter().enumerate() { if *b { v[i / 8] |= 1 << (i % 8); } }
    v
}
fn p_to_bytes(c: &mut Case) -> Outcome {
    let b = bits(c);
    c.log(show(&b));
    if b.len() > 8 && b.iter().any(|x| *x) { c.nontrivial_here(); }
    if b.len() % 8 != 0 { c.label("partial byte"); }
    let rev: Vec<bool> = b.iter().rev().copied().collect();
    let exp = ref_bytes(&b);
    ensure_eq!(no_panic(|| bits_le_to_bytes_le(&b)).or_else(|e| fail("panic", e))?, exp, "le-bits-to-bytes", "little-endian bits to bytes");
    ensure_eq!(no_panic(|| bits_be_to_bytes_le(&rev)).or_else(|e| fail("panic", e))?, exp, "be-bits-to-bytes", "big-endian bits to bytes");
    Ok(())
}
fn p_to_bits(c: &mut Case) -> Outcome {
    let n = if c.chance(1, 40) { c.count(0, 300, 9_000) } else { c.len_near(&[32, 48, 64, 96, 100], if c.thorough { 700 } else { 120 }) };
    let b = c.bytes(n);
    let k = match c.weighted(&[4, 6, 2, 2, 1]) { 4 => *c.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 7, usize::MAX / 8, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + 3, 65536, 256]), 0 => 8 * n, 1 => c.size(0, 8 * n), 2 => 8 * n + c.size(0, 20), _ => { let d = c.size(0, 9); (8 * n).saturating_sub(d) } };
    c.log(format!("bytes={} bits_to_take={}", hexs(&b), k));
    if n > 1 && k > 8 { c.nontrivial_here(); }
    if k > 8 * n { c.label("more bits asked for than there are"); }
    if k % 8 != 0 { c.label("cut inside a byte"); }
    let exp: Vec<bool> = (0..k.min(8 * n)).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect();
    let rev: Vec<bool> = exp.iter().rev().copied().collect();
    let le = no_panic(|| bytes_le_to_bits_le(&b, k)).or_else(|e| fail("panic", e))?;
    let be = no_panic(|| bytes_le_to_bits_be(&b, k)).or_else(|e| fail("panic", e))?;
    ensure!(le == exp, "bytes-to-le-bits", "got {}, expected {}", show(&le), show(&exp));
    ensure!(be == rev, "bytes-to-be-bits", "got {}, expected {}", show(&be), show(&rev));
    Ok(())
}
fn p_round(c: &mut Case) -> Outcome {
    let b = bits(c);
    c.log(show(&b));
    if b.len() > 8 { c.nontrivial_here(); }
    let n = b.len();
    let le = bytes_le_to_bits_le(&bits_le_to_bytes_le(&b), n);
    ensure!(le == b, "round-trip-le", "got {}", show(&le));
    let be = bytes_le_to_bits_be(&bits_be_to_bytes_le(&b), n);
    ensure!(be == b, "round-trip-be", "got {}", show(&be));
    let bytes = { let n = c.size(0, 120); c.bytes(n) };
    ensure_eq!(bits_le_to_bytes_le(&bytes_le_to_bits_le(&bytes, 8 * bytes.len())), bytes, "round-trip-bytes-le", "bytes");
    ensure_eq!(bits_be_to_bytes_le(&bytes_le_to_bits_be(&bytes, 8 * bytes.len())), bytes, "round-trip-bytes-be", "bytes");
    Ok(())
}
/// A history of conversions of bit strings that differ in little.
fn p_related_bits(c: &mut Case) -> Outcome {
    let mut b = bits(c);
    b.truncate(700);
    c.log(show(&b));
    c.nontrivial_here();
    for i in 0..2 + c.size(0, 4) {
        let n = b.len();
        if i > 0 { match c.below(8) {
            0 | 1 if n > 0 => { let k = c.size(0, n - 1); b[k] ^= true; }
            2 => { let x = c.bool(); b.push(x); }
            3 => { b.pop(); }
            4 => { let k = c.size(1, 70); b.resize(n + k, false); }
            5 => b.reverse(),
            6 if n > 0 => b.rotate_left(1),
            _ => for x in b.iter_mut() { *x ^= true; },
        } }
        let n = b.len();
        let rev: Vec<bool> = b.iter().rev().copied().collect();
        let exp = ref_bytes(&b);
        match c.below(4) {
            0 => ensure_eq!(no_panic(|| bits_le_to_bytes_le(&b)).or_else(|e| fail("panic", e))?, exp, "related-bits", "call {}: little-endian bits to bytes", i),
            1 => ensure_eq!(no_panic(|| bits_be_to_bytes_le(&rev)).or_else(|e| fail("panic", e))?, exp, "related-bits", "call {}: big-endian bits to bytes", i),
            2 => { let k = if c.bool() { n } else { c.size(0, n) }; let r = no_panic(|| bytes_le_to_bits_le(&exp, k)).or_else(|e| fail("panic", e))?; ensure!(r == b[..k], "related-bits", "call {}: bytes to {} little-endian bits", i, k) }
            _ => { let k = if c.bool() { n } else { c.size(0, n) }; let r = no_panic(|| bytes_le_to_bits_be(&exp, k)).or_else(|e| fail("panic", e))?; ensure!(r == rev[n - k..], "related-bits", "call {}: bytes to {} big-endian bits", i, k) }
        }
    }
    Ok(())
}

fn main() {
    pbt::main(vec![
        Property { id: "C01", rule: "non-empty output and (domain non-empty, message over one 64-byte block, output over one 32-byte block, or a partial last block); every overlong-domain and separation case", assumptions: &["the oracle is a BLAKE2s/BLAKE2Xs written from the specification in the harness; it agrees with the library's published test vectors"],
            parts: vec![Part::new("crh", 150_000, 600_000, p_crh), Part::new("xof", 120_000, 600_000, p_xof), Part::new("hash", 120_000, 600_000, p_hash), Part::new("overlong-domain", 20_000, 100_000, p_domain), Part::new("separation", 20_000, 100_000, p_separation), Part::new("related-calls", 60_000, 600_000, p_related), Part::new("threads", 2_000, 20_000, p_threads)] },
        Property { id: "C10", rule: "more than eight bits (and, for packing, not all zero)", assumptions: &[],
            parts: vec![Part::new("bits-to-bytes", 400_000, 3_000_000, p_to_bytes), Part::new("bytes-to-bits", 400_000, 1_000_000, p_to_bits), Part::new("round-trip", 300_000, 500_000, p_round), Part::new("related-calls", 100_000, 500_000, p_related_bits)] },
    ]);
}
