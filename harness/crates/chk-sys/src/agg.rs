//! C23: aggregation and batches.
use crate::ffi::*;
use ark_bls12_377::{Fr, G1Projective};
use ark_ff::{One, Zero};
use ark_ec::{AffineCurve, ProjectiveCurve};
use bls_crypto::{PublicKey, Signature};
use bls_snark_sys::serialization as se;
use bls_snark_sys::signatures as f;
use bls_snark_sys::utils::{BatchMessageFFI, Buffer, Message, MessageFFI};
use oracle::{h2g1, nonzero_scalar, scalar, smul};
use pbt::{ensure, ensure_eq, fail, hexs, Case, Outcome};
use std::collections::BTreeSet;
use std::sync::OnceLock;

const POOL: usize = 150;
struct Pool { sk: Vec<Fr>, pk: Vec<PublicKey>, bytes: Vec<Vec<u8>> }
fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut k = Fr::from(0x7777_5678_9abc_def1u64);
        let mut p = Pool { sk: vec![], pk: vec![], bytes: vec![] };
        for _ in 0..POOL { k = match p.sk.len() % 6 { 2 => oracle::lambda() * k, 4 => -k, _ => k * k + Fr::from(7u64) }; let g = smul(&oracle::g2(), &k); p.bytes.push(oracle::compress(&g)); p.sk.push(k); p.pk.push(PublicKey::from(g.into_affine().into_projective())); }
        p
    })
}
fn sum(v: impl IntoIterator<Item = Fr>) -> Fr { v.into_iter().fold(Fr::zero(), |a, b| a + b) }
/// A history of calls that share the library's cache of keys, while other threads use it too.
pub fn keys(c: &mut Case) -> Outcome {
    let p = pool();
    let mut cur: Vec<usize> = vec![];
    let mut log = vec![];
    let ops = c.size(1, if c.thorough { 30 } else { 12 });
    for _ in 0..ops {
        for _ in 0..c.size(0, 3) { if !cur.is_empty() { let i = c.size(0, cur.len() - 1); cur.remove(i); } }
        if c.chance(1, 12) { let n = c.count(0, 30, 150); for _ in 0..n { cur.push(c.size(0, POOL - 1)); } } else { for _ in 0..c.size(0, 3) { cur.push(c.size(0, 15)); } }
        if c.chance(1, 8) { cur.clear(); }
        let perm = c.permutation(cur.len());
        cur = perm.iter().map(|i| cur[*i]).collect();
        let set: BTreeSet<usize> = cur.iter().copied().collect();
        let s = sum(set.iter().map(|i| p.sk[*i]));
        // the keys come from memory, or decoded with or without the cache
        let how = c.below(3);
        let mut own = vec![];
        if how > 0 { for i in &cur { let b = &p.bytes[*i]; let k = public(|o| if how == 1 { se::deserialize_public_key(b.as_ptr(), 96, o) } else { se::deserialize_public_key_cached(b.as_ptr(), 96, o) })?; match k { Some(k) => own.push(k), None => return fail("decode", "a key does not decode") } } }
        let ptrs: Vec<*const PublicKey> = if how > 0 { own.iter().map(|k| k.0 as *const PublicKey).collect() } else { cur.iter().map(|i| &p.pk[*i] as *const PublicKey).collect() };
        let (q, n) = raw(c, &ptrs);
        match c.below(3) {
            0 | 1 => {
                log.push(format!("aggregate{:?}", cur));
                let r = public(|o| f::aggregate_public_keys(q, n, o))?;
                ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g2(), &s)) == Some(true), "aggregate-keys", "after {}: not the sum of the {} distinct keys", log.join(" "), set.len());
            }
            _ => {
                let t = if c.bool() { s } else { scalar(c) };
                log.push(format!("subtract{:?}", cur));
                let a = pk(c, &t);
                let r = public(|o| f::aggregate_public_keys_subtract(&a, q, n, o))?;
                ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g2(), &(t - s))) == Some(true), "subtract-keys", "after {}: not the key minus the sum of the {} distinct keys", log.join(" "), set.len());
            }
        }
        if cur.len() > 1 { c.nontrivial_here(); }
    }
    c.log(log.join(" "));
    Ok(())
}
/// Several threads at once; each gets its own result.
pub fn threads(c: &mut Case) -> Outcome {
    let p = pool();
    let n = c.size(2, 6);
    let plans: Vec<Vec<(bool, Vec<usize>)>> = (0..n).map(|_| (0..c.size(1, 8)).map(|_| (c.chance(1, 3), (0..c.size(0, 6)).map(|_| c.size(0, 15)).collect())).collect()).collect();
    c.log(format!("{} threads: {:?}", n, plans));
    c.nontrivial_here();
    let results: Vec<Outcome> = std::thread::scope(|s| {
        let hs: Vec<_> = plans.iter().map(|plan| s.spawn(move || -> Outcome {
            for (subtract, v) in plan {
                let mut own = vec![];
                for i in v { match public(|o| se::deserialize_public_key_cached(p.bytes[*i].as_ptr(), 96, o))? { Some(k) => { ensure!(*k == p.pk[*i], "decode", "another key is decoded"); own.push(k) } None => return fail("decode", "a key does not decode") } }
                let ptrs: Vec<*const PublicKey> = own.iter().map(|k| k.0 as *const PublicKey).collect();
                let set: BTreeSet<usize> = v.iter().copied().collect();
                let s = sum(set.iter().map(|i| p.sk[*i]));
                let one = PublicKey::from(oracle::g2());
                let r = public(|o| if *subtract { f::aggregate_public_keys_subtract(&one, ptrs.as_ptr(), ptrs.len() as i32, o) } else { f::aggregate_public_keys(ptrs.as_ptr(), ptrs.len() as i32, o) })?;
                let want = if *subtract { Fr::one() - s } else { s };
                ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g2(), &want)) == Some(true), "concurrent", "a thread gets another aggregate than the one it asked for");
            }
            Ok(())
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("panic", "a thread panics"))).collect()
    });
    results.into_iter().find(|r| r.is_err()).unwrap_or(Ok(()))
}
pub fn signatures(c: &mut Case) -> Outcome {
    let n = c.count(0, 12, 200);
    let mut v: Vec<Fr> = vec![];
    for i in 0..n { let s = if i > 0 && c.chance(1, 4) { let j = c.size(0, i - 1); if c.bool() { v[j] } else { -v[j] } } else { scalar(c) }; v.push(s); }
    c.log(format!("{} signatures", n));
    if n > 1 { c.nontrivial_here(); }
    let sigs: Vec<Signature> = v.iter().map(|s| { let p = smul(&oracle::g1(), s); sig(c, p) }).collect();
    let share = c.bool();
    let ptrs: Vec<*const Signature> = (0..n).map(|i| &sigs[if share { (0..=i).find(|j| v[*j] == v[i]).unwrap() } else { i }] as *const Signature).collect();
    let (q, l) = raw(c, &ptrs);
    let r = signature(|o| f::aggregate_signatures(q, l, o))?;
    ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g1(), &sum(v.iter().copied()))) == Some(true), "aggregate-signatures", "not the sum of the {} signatures", n);
    Ok(())
}
fn buffer(c: &mut Case, b: &[u8]) -> Buffer { if b.is_empty() && c.bool() { Buffer { ptr: std::ptr::null(), len: 0 } } else { Buffer::from(b) } }
/// one signature per message, verified together
pub fn batch(c: &mut Case) -> Outcome {
    let n = c.count(0, 6, 70);
    let fl = flags(c);
    let mut a: Vec<Fr> = (0..n).map(|_| scalar(c)).collect();
    let mut ms: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for i in 0..n {
        let m = match c.weighted(&[6, 2, 1]) { 1 if i > 0 => ms[c.size(0, i - 1)].clone(), 2 if i > 0 => { let j = if c.bool() { i - 1 } else { c.size(0, i - 1) }; a[i] = a[j]; ms[j].clone() } _ => (short(c), extra(c)) };
        ms.push(m);
    }
    // what the signatures really sign
    let mut signed = ms.clone();
    let mut off: Vec<Fr> = vec![Fr::zero(); n];
    let what = match c.below(8) {
        3 if n > 0 => { let i = c.size(0, n - 1); off[i] = nonzero_scalar(c); "one wrong" }
        4 if n > 1 => { let p = c.permutation(n); let t = nonzero_scalar(c); off[p[0]] = t; off[p[1]] = -t; "two errors that cancel in the sum" }
        5 if n > 0 => { let i = c.size(0, n - 1); signed[i].0.push(1); "one signs another message" }
        6 if n > 0 => { let i = c.size(0, n - 1); let (m, e) = &mut signed[i]; let all = [&e[..], &m[..]].concat(); let k = c.size(0, all.len()); *e = all[..k].to_vec(); *m = all[k..].to_vec(); "boundary between extra data and message moved" }
        7 if n > 1 => { let p = c.permutation(n); signed.swap(p[0], p[1]); "two messages exchanged" }
        _ => "unchanged",
    };
    c.log(format!("{} messages {}: {}", n, show(fl), what));
    if n > 1 { c.nontrivial_here(); }
    let h = mode(fl.0, fl.1);
    let hh = h.unwrap_or(oracle::Hash::Direct);
    let sigs: Vec<G1Projective> = (0..n).map(|i| smul(&h2g1(hh, SIG, &signed[i].0, &signed[i].1), &a[i]) + smul(&oracle::g1(), &off[i])).collect();
    let total = sigs.iter().fold(G1Projective::zero(), |x, y| x + y);
    let target = (0..n).fold(G1Projective::zero(), |t, i| t + smul(&h2g1(hh, SIG, &ms[i].0, &ms[i].1), &a[i]));
    let expect = h.map(|_| total == target);
    c.label(match expect { None => "flags that choose no hash", Some(true) => "accepting", Some(false) => "rejecting" });
    let (pks, sgs): (Vec<PublicKey>, Vec<Signature>) = (0..n).map(|i| (pk(c, &a[i]), sig(c, sigs[i]))).unzip();
    // equal objects may be one object
    let share = c.bool();
    let at = |i: usize, same: &dyn Fn(usize) -> bool| if share { (0..=i).find(|j| same(*j)).unwrap() } else { i };
    let list: Vec<MessageFFI> = (0..n).map(|i| MessageFFI { data: buffer(c, &ms[i].0), extra: buffer(c, &ms[i].1), public_key: &pks[at(i, &|j| a[j] == a[i])], sig: &sgs[at(i, &|j| sigs[j] == sigs[i])] }).collect();
    let (q, l) = raw(c, &list);
    let v = flag(c, |o| f::batch_verify_signature(q, l as usize, fl.0, fl.1, o))?;
    ensure_eq!(v, expect, "batch", "{}", what);
    for i in 0..n {
        let m = Message::from(&list[i]);
        ensure!(m.data == &ms[i].0[..] && m.extra == &ms[i].1[..] && *m.public_key == pks[i] && *m.sig == sgs[i], "message", "a message differs after conversion");
        let back = MessageFFI::from(&m);
        ensure!(Message::from(&back) == m, "message", "a message differs after two conversions");
    }
    Ok(())
}
/// many keys and signatures for each message, each verified
pub fn strict(c: &mut Case) -> Outcome {
    let nb = c.count(0, 4, 20);
    let fl = flags(c);
    let h = mode(fl.0, fl.1);
    let hh = h.unwrap_or(oracle::Hash::Direct);
    struct B { m: Vec<u8>, e: Vec<u8>, pks: Vec<PublicKey>, sgs: Vec<Signature>, pp: Vec<*const PublicKey>, sp: Vec<*const Signature>, ok: bool }
    let mut log = vec![];
    let mut bs = vec![];
    for _ in 0..nb {
        let n = c.count(0, 5, 70);
        let (m, e) = (short(c), extra(c));
        let mut a: Vec<Fr> = (0..n).map(|_| scalar(c)).collect();
        if c.chance(1, 4) { for i in 1..n { if c.bool() { a[i] = a[c.size(0, i - 1)]; } } }
        let mut off: Vec<Fr> = vec![Fr::zero(); n];
        let hp = h2g1(hh, SIG, &m, &e);
        let what = match c.below(9) {
            3 if n > 0 => { let i = c.size(0, n - 1); off[i] = nonzero_scalar(c); "one wrong" }
            4 if n > 1 => { let p = c.permutation(n); let t = nonzero_scalar(c); off[p[0]] = t; off[p[1]] = -t; "two errors that cancel" }
            5 if n > 1 => { let p = c.permutation(n); off[p[0]] = a[p[1]] - a[p[0]]; off[p[1]] = a[p[0]] - a[p[1]]; "two exchanged" }
            6 => "another message signed",
            7 => "a key more",
            8 => "a signature more",
            _ => "valid",
        };
        let signed = if what == "another message signed" { let mut m = m.clone(); m.push(9); h2g1(hh, SIG, &m, &e) } else { hp };
        let mut pks: Vec<PublicKey> = a.iter().map(|a| pk(c, a)).collect();
        let mut sgs: Vec<Signature> = (0..n).map(|i| { let p = smul(&signed, &(a[i] + off[i])); sig(c, p) }).collect();
        if what == "a key more" { let k = scalar(c); pks.push(pk(c, &k)); }
        if what == "a signature more" { let k = scalar(c); sgs.push(sig(c, smul(&hp, &k))); }
        let ok = h.is_some() && pks.len() == sgs.len() && (0..n).all(|i| smul(&signed, &(a[i] + off[i])) == smul(&hp, &a[i]));
        log.push(format!("{} of {} [{}]", what, n, hexs(&m)));
        c.label(what);
        bs.push(B { m, e, pp: vec![], sp: vec![], pks, sgs, ok });
    }
    // equal objects may be one object
    let share = c.bool();
    for b in bs.iter_mut() {
        b.pp = (0..b.pks.len()).map(|i| &b.pks[if share { (0..=i).find(|j| b.pks[*j] == b.pks[i]).unwrap() } else { i }] as *const PublicKey).collect();
        b.sp = (0..b.sgs.len()).map(|i| &b.sgs[if share { (0..=i).find(|j| b.sgs[*j] == b.sgs[i]).unwrap() } else { i }] as *const Signature).collect();
    }
    c.log(format!("{} batches {}: {}", nb, show(fl), log.join(", ")));
    if nb > 0 { c.nontrivial_here(); }
    let mut list = vec![];
    for b in &bs {
        let (pq, pl) = raw(c, &b.pp);
        let (sq, sl) = raw(c, &b.sp);
        list.push(BatchMessageFFI { data: buffer(c, &b.m), extra: buffer(c, &b.e), public_keys: pq, public_keys_len: pl as usize, signatures: sq, signatures_len: sl as usize });
    }
    let (q, l) = raw(c, &list);
    let mut out: Vec<bool> = (0..nb).map(|_| c.bool()).collect();
    let r = f::batch_verify_strict(q, l as usize, fl.0, fl.1, if nb == 0 && c.bool() { std::ptr::null_mut() } else { out.as_mut_ptr() });
    let want: Vec<bool> = bs.iter().map(|b| b.ok).collect();
    ensure_eq!(out, want, "strict-results", "results of the batches");
    ensure_eq!(r, want.iter().all(|x| *x), "strict-verdict", "verdict");
    Ok(())
}

/// A history of sums over arrays of objects that are overwritten in place.
pub fn related_sums(c: &mut Case) -> Outcome {
    let n = c.size(1, 5);
    let mut a = oracle::scalars(c, n);
    // in affine form, as decoding yields them: the library compares keys by their representation
    let key = |x: &Fr| PublicKey::from(smul(&oracle::g2(), x).into_affine().into_projective());
    let mut pks: Vec<PublicKey> = a.iter().map(&key).collect();
    let mut sgs: Vec<Signature> = a.iter().map(|x| { let p = smul(&oracle::g1(), x); sig(c, p) }).collect();
    let mut t = scalar(c);
    let mut from = Box::new(pk(c, &t));
    let mut order: Vec<usize> = (0..n).collect();
    c.nontrivial_here();
    for i in 0..3 + c.size(0, 5) {
        if i > 0 { match c.below(7) {
            0 | 1 | 2 => { let k = c.size(0, n - 1); a[k] = match c.below(4) { 0 => -a[k], 1 => oracle::random_scalar(c), 2 => a[c.size(0, n - 1)], _ => oracle::related(c, &a[k]) }; let x = a[k]; pks[k] = key(&x); let p = smul(&oracle::g1(), &x); sgs[k] = sig(c, p); }
            3 => { t = scalar(c); *from = pk(c, &t); }
            4 => { let k = c.size(0, order.len()); let j = c.size(0, n - 1); order.insert(k, j); }
            5 => { if !order.is_empty() { let k = c.size(0, order.len() - 1); order.remove(k); } }
            _ => {}
        } }
        // keys are added once each, signatures as often as they are given
        let mut once: Vec<Fr> = vec![];
        for k in &order { if !once.contains(&a[*k]) { once.push(a[*k]); } }
        let pp: Vec<*const PublicKey> = order.iter().map(|k| &pks[*k] as *const _).collect();
        let sp: Vec<*const Signature> = order.iter().map(|k| &sgs[*k] as *const _).collect();
        let op = c.below(3);
        c.log(format!("{}{:?}", ["aggregate keys ", "subtract keys ", "aggregate signatures "][op as usize], order));
        let l = order.len() as i32;
        match op {
            0 => { let r = public(|o| f::aggregate_public_keys(pp.as_ptr(), l, o))?; ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g2(), &sum(once))) == Some(true), "related-sum", "call {}: not the sum of the distinct keys", i); }
            1 => { let r = public(|o| f::aggregate_public_keys_subtract(&*from, pp.as_ptr(), l, o))?; ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g2(), &(t - sum(once)))) == Some(true), "related-sum", "call {}: not the key minus the sum of the distinct keys", i); }
            _ => { let r = signature(|o| f::aggregate_signatures(sp.as_ptr(), l, o))?; ensure!(r.map(|r| *r.as_ref() == smul(&oracle::g1(), &sum(order.iter().map(|k| a[*k])))) == Some(true), "related-sum", "call {}: not the sum of the signatures", i); }
        }
    }
    Ok(())
}
/// A history of batch verifications, by message and by batch, over arrays that are overwritten in place.
pub fn related_batches(c: &mut Case) -> Outcome {
    let n = c.size(1, 4);
    let mut fl = *c.pick(&[(false, false), (false, false), (true, true), (true, false)]);
    let mut a = oracle::scalars(c, n);
    let mut ms: Vec<(Vec<u8>, Vec<u8>)> = vec![(short(c), { let k = c.size(0, 20); c.bytes(k) })];
    ms[0].0.truncate(200);
    while ms.len() < n { let mut x = ms[c.size(0, ms.len() - 1)].clone(); let t = &mut x; c.relate(&mut [&mut t.0, &mut t.1]); ms.push(x); }
    let mut bufs: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|_| (Vec::with_capacity(600), Vec::with_capacity(600))).collect();
    let mut points: Vec<G1Projective> = vec![G1Projective::zero(); n];
    let mut sgs: Vec<Signature> = points.iter().map(|p| Signature::from(*p)).collect();
    let mut pks: Vec<PublicKey> = a.iter().map(|x| pk(c, x)).collect();
    c.nontrivial_here();
    for i in 0..3 + c.size(0, 4) {
        let k = c.size(0, n - 1);
        if i > 0 { match c.below(8) {
            0 => { a[k] = -a[k]; let x = a[k]; pks[k] = pk(c, &x); }
            1 => { let x = oracle::related(c, &a[k]); a[k] = x; pks[k] = pk(c, &x); }
            2 | 3 => { let t = &mut ms[k]; c.relate(&mut [&mut t.0, &mut t.1]); }
            4 => { let j = c.size(0, n - 1); ms.swap(k, j); }
            5 => fl = *c.pick(&[(false, false), (true, true), (true, false)]),
            _ => {}
        } }
        let h = mode(fl.0, fl.1).unwrap();
        for (b, m) in bufs.iter_mut().zip(ms.iter_mut()) { m.0.truncate(500); m.1.truncate(500); b.0.clear(); b.0.extend_from_slice(&m.0); b.1.clear(); b.1.extend_from_slice(&m.1); }
        let right: Vec<G1Projective> = (0..n).map(|j| smul(&h2g1(h, SIG, &ms[j].0, &ms[j].1), &a[j])).collect();
        // signatures are renewed, or stay, or get an error that another makes up for
        match c.below(6) { 0 | 1 | 2 => points = right.clone(), 3 => points[k] = right[k], 4 => { let j = c.size(0, n - 1); let d = smul(&oracle::g1(), &nonzero_scalar(c)); points[k] = points[k] + d; points[j] = points[j] - d; } _ => {} }
        for j in 0..n { let p = points[j]; sgs[j] = sig(c, p); }
        if c.bool() {
            let list: Vec<MessageFFI> = (0..n).map(|j| MessageFFI { data: Buffer::from(&bufs[j].0[..]), extra: Buffer::from(&bufs[j].1[..]), public_key: &pks[j], sig: &sgs[j] }).collect();
            let ok = points.iter().zip(&right).fold(G1Projective::zero(), |t, (p, q)| t + p - q).is_zero();
            c.log(format!("batch of {} {}: {}", n, show(fl), ok));
            c.label(if ok { "related: accepting" } else { "related: rejecting" });
            let v = flag(c, |o| f::batch_verify_signature(list.as_ptr(), n, fl.0, fl.1, o))?;
            ensure_eq!(v, Some(ok), "related-batch", "call {}", i);
        } else {
            let pp: Vec<*const PublicKey> = pks.iter().map(|p| p as *const _).collect();
            let sp: Vec<*const Signature> = sgs.iter().map(|p| p as *const _).collect();
            let list: Vec<BatchMessageFFI> = (0..n).map(|j| BatchMessageFFI { data: Buffer::from(&bufs[j].0[..]), extra: Buffer::from(&bufs[j].1[..]), public_keys: &pp[j], public_keys_len: 1, signatures: &sp[j], signatures_len: 1 }).collect();
            let want: Vec<bool> = (0..n).map(|j| points[j] == right[j]).collect();
            c.log(format!("{} strict batches {}: {:?}", n, show(fl), want));
            let mut out: Vec<bool> = (0..n).map(|_| c.bool()).collect();
            let r = f::batch_verify_strict(list.as_ptr(), n, fl.0, fl.1, out.as_mut_ptr());
            ensure_eq!(out, want, "related-strict", "call {}: results", i);
            ensure_eq!(r, want.iter().all(|x| *x), "related-strict", "call {}: verdict", i);
        }
    }
    Ok(())
}

/// batches whose entries are windows into one pool of message buffers, keys and signatures: entries share addresses,
/// overlap, repeat, and differ in one of these only
pub fn shared_batches(c: &mut Case) -> Outcome {
    let fl = *c.pick(&[(false, false), (false, false), (true, true), (true, false)]);
    let h = mode(fl.0, fl.1).unwrap();
    let nm = c.size(1, 3);
    let mut ms: Vec<(Vec<u8>, Vec<u8>)> = vec![(short(c), { let k = c.size(0, 20); c.bytes(k) })];
    ms[0].0.truncate(200);
    while ms.len() < nm { let mut x = ms[0].clone(); match c.below(4) { 0 => x.0 = short(c), 1 => { let k = c.size(0, 20); x.1 = c.bytes(k) } _ => { let t = &mut x; c.relate(&mut [&mut t.0, &mut t.1]) } } x.0.truncate(300); ms.push(x); }
    let mut a = { let q = c.size(1, 4); oracle::scalars(c, q) };
    if c.chance(1, 3) { let x = -a[0]; a.push(x); }
    let q = a.len();
    let pks: Vec<PublicKey> = a.iter().map(|x| pk(c, x)).collect();
    let hs: Vec<G1Projective> = ms.iter().map(|m| h2g1(h, SIG, &m.0, &m.1)).collect();
    // row m: every key's signature on message m, some with an error
    let mut points: Vec<G1Projective> = vec![];
    for m in 0..nm { for k in 0..q { points.push(smul(&hs[m], &a[k])); } }
    let good = points.clone();
    if c.chance(1, 3) { let (i, j) = (c.size(0, points.len() - 1), c.size(0, points.len() - 1)); let d = smul(&oracle::g1(), &nonzero_scalar(c)); points[i] = points[i] + d; points[j] = points[j] - d; }
    let sgs: Vec<Signature> = points.iter().map(|p| sig(c, *p)).collect();
    let pp: Vec<*const PublicKey> = pks.iter().map(|p| p as *const _).collect();
    let sp: Vec<*const Signature> = sgs.iter().map(|p| p as *const _).collect();
    c.nontrivial_here();
    let strict = c.bool();
    let e = c.size(1, 5);
    // (message, message of the extra data, first key, keys, row, first signature, signatures)
    let mut es: Vec<[usize; 7]> = vec![];
    for _ in 0..e {
        let mut x = if !es.is_empty() && c.chance(2, 3) { es[c.size(0, es.len() - 1)] } else { let m = c.size(0, nm - 1); let s = c.size(0, q - 1); let l = c.size(1, q - s); [m, m, s, l, m, s, l] };
        match c.below(9) {
            0 => { let m = c.size(0, nm - 1); x[0] = m; }
            1 => { let m = c.size(0, nm - 1); x[1] = m; }
            2 => { let m = c.size(0, nm - 1); x[4] = m; }
            3 => { let m = c.size(0, nm - 1); x[0] = m; x[1] = m; x[4] = m; }
            4 => { let s = c.size(0, q - 1); x[2] = s; x[3] = x[3].min(q - s); x[6] = x[3]; x[5] = x[5].min(q - x[6]); }
            5 => { let s = c.size(0, q - 1); x[5] = s; x[6] = x[6].min(q - s); x[3] = x[6]; x[2] = x[2].min(q - x[3]); }
            6 => { let s = c.size(0, q - 1); let l = c.size(1, q - s); x[2] = s; x[3] = l; x[5] = s; x[6] = l; }
            7 => { let l = c.size(1, q - x[2]); x[3] = l; }
            _ => {}
        }
        if x[3] != x[6] && (x[3] == 0 || c.bool()) { x[6] = x[3].min(q - x[5]); }
        es.push(x);
    }
    let hash = |m: usize, x: usize| if m == x { hs[m] } else { h2g1(h, SIG, &ms[m].0, &ms[x].1) };
    c.log(format!("{} {} of {:?} over {} messages and {} keys{}", show(fl), if strict { "strict batches" } else { "batch" }, es, nm, q, if good != points { ", with an error" } else { "" }));
    if strict {
        let want: Vec<bool> = es.iter().map(|x| x[3] == x[6] && { let hh = hash(x[0], x[1]); (0..x[3]).all(|t| points[x[4] * q + x[5] + t] == smul(&hh, &a[x[2] + t])) }).collect();
        c.label(if want.iter().all(|x| *x) { "shared: accepting" } else { "shared: rejecting" });
        let list: Vec<BatchMessageFFI> = es.iter().map(|x| BatchMessageFFI { data: Buffer::from(&ms[x[0]].0[..]), extra: Buffer::from(&ms[x[1]].1[..]), public_keys: &pp[x[2]], public_keys_len: x[3], signatures: &sp[x[4] * q + x[5]], signatures_len: x[6] }).collect();
        let mut out: Vec<bool> = (0..e).map(|_| c.bool()).collect();
        let r = f::batch_verify_strict(list.as_ptr(), e, fl.0, fl.1, out.as_mut_ptr());
        ensure_eq!(out, want, "shared-strict", "results");
        ensure_eq!(r, want.iter().all(|x| *x), "shared-strict", "verdict");
    } else {
        let list: Vec<MessageFFI> = es.iter().map(|x| MessageFFI { data: Buffer::from(&ms[x[0]].0[..]), extra: Buffer::from(&ms[x[1]].1[..]), public_key: &pks[x[2]], sig: &sgs[x[4] * q + x[5]] }).collect();
        let ok = es.iter().fold(G1Projective::zero(), |t, x| t + points[x[4] * q + x[5]] - smul(&hash(x[0], x[1]), &a[x[2]])).is_zero();
        c.label(if ok { "shared: accepting" } else { "shared: rejecting" });
        let v = flag(c, |o| f::batch_verify_signature(list.as_ptr(), e, fl.0, fl.1, o))?;
        ensure_eq!(v, Some(ok), "shared-batch", "verdict");
    }
    Ok(())
}
