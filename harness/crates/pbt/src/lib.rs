//! Property-based testing engine of /verif.
//!
//! A property is a function of a `Case`: it draws every choice it makes from the case, and returns
//! `Err(Fail)` when its oracle disagrees with the code under test. The choices of case `i` come from
//! ChaCha8 seeded with (VERIF_SEED, property, part, i), so a run depends on VERIF_SEED alone and not on
//! thread scheduling. The sequence of choices is recorded; a failing case is shrunk by editing that
//! sequence (dropping blocks, lowering values) and re-running the property on it, and what remains is
//! written as the replay file.
pub mod blake2s_ref;
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Fail { pub sig: String, pub msg: String }
pub type Outcome = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { sig: sig.to_string(), msg: msg.into() }) }

/// `ensure!(cond, "signature", "format", args..)`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::fail(&$sig, format!($($a)*)); } };
}
/// `ensure_eq!(left, right, "signature", "format", args..)`
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $sig:expr, $($a:tt)*) => { { let (l, r) = (&$l, &$r); if !(*l == *r) { return $crate::fail(&$sig, format!("{}: got {:?}, expected {:?}", format!($($a)*), l, r)); } } };
}

enum Source { Random(ChaCha8Rng), Replay }
pub struct Case {
    src: Source,
    choices: Vec<u64>,
    pos: usize,
    log: Vec<String>,
    labels: Vec<&'static str>,
    nontrivial: Option<u64>,
    /// choices are also written here as they are drawn, for a case that may end the process
    record: Option<std::fs::File>,
    pub thorough: bool,
    pub index: usize,
}
fn fnv(h: u64, b: &[u8]) -> u64 { let mut h = h; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); } h }

impl Case {
    fn random(seed: u64, part: &str, index: usize, thorough: bool) -> Case {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&seed.to_le_bytes());
        s[8..16].copy_from_slice(&fnv(0xcbf29ce484222325, part.as_bytes()).to_le_bytes());
        s[16..24].copy_from_slice(&(index as u64).to_le_bytes());
        Case { src: Source::Random(ChaCha8Rng::from_seed(s)), choices: vec![], pos: 0, log: vec![], labels: vec![], nontrivial: None, record: None, thorough, index }
    }
    pub fn replay(choices: Vec<u64>, thorough: bool) -> Case {
        Case { src: Source::Replay, choices, pos: 0, log: vec![], labels: vec![], nontrivial: None, record: None, thorough, index: 0 }
    }
    /// A choice in 0..n (n = 0 means any u64). Smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Source::Random(r) => { let v = r.next_u64(); let v = if n == 0 { v } else { ((v as u128 * n as u128) >> 64) as u64 }; self.choices.push(v); v }
            Source::Replay => { let v = self.choices.get(self.pos).copied().unwrap_or(0); if n == 0 { v } else if v >= n { v % n } else { v } }
        };
        self.pos += 1;
        if let Some(f) = &mut self.record { use std::io::Write; let _ = f.write_all(&v.to_le_bytes()); }
        v
    }
    pub fn u64(&mut self) -> u64 { self.below(0) }
    pub fn u32(&mut self) -> u32 { self.below(1 << 32) as u32 }
    pub fn u16(&mut self) -> u16 { self.below(1 << 16) as u16 }
    pub fn u8(&mut self) -> u8 { self.below(256) as u8 }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// true with probability num/den; false is simpler
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { assert!(lo <= hi); if lo == 0 && hi == u64::MAX { self.u64() } else { lo + self.below(hi - lo + 1) } }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, k) in w.iter().enumerate() { if x < *k { return i; } x -= k; }
        w.len() - 1
    }
    /// bytes with a mix of random, constant and sparse content
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        match self.weighted(&[2, 2, 2, 9, 2]) {
            4 if len > 1 => {
                // a run of one value, or the beginning repeated
                let mut v = self.random_bytes(len);
                let (i, j) = (self.below(len as u64 + 1) as usize, self.below(len as u64 + 1) as usize);
                let (i, j) = match self.below(4) { 0 => (0, j), 1 => (i, len), _ => (i.min(j), i.max(j)) };
                match self.below(4) { 0 | 1 => for x in &mut v[i..j] { *x = 0 }, 2 => for x in &mut v[i..j] { *x = 0xff }, _ => { let k = 1 + i % len; for t in k..len { v[t] = v[t - k]; } } }
                v
            }
            0 => vec![0; len],
            1 => vec![0xff; len],
            2 => { let b = self.u8(); let mut v = vec![0; len]; if len > 0 { let i = self.below(len as u64) as usize; v[i] = b; } v }
            _ => self.random_bytes(len),
        }
    }
    pub fn random_bytes(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len + 8);
        if len > 64 {
            // long strings come from a seeded stream, so that the choice sequence stays short
            let mut s = [0u8; 32];
            s[..8].copy_from_slice(&self.u64().to_le_bytes());
            v.resize(len, 0);
            ChaCha8Rng::from_seed(s).fill_bytes(&mut v);
            return v;
        }
        while v.len() < len { v.extend_from_slice(&self.u64().to_le_bytes()); }
        v.truncate(len);
        v
    }
    /// a length biased to 0, 1 and the neighbourhoods of the given boundaries
    pub fn len_near(&mut self, bounds: &[usize], max: usize) -> usize {
        match self.weighted(&[1, 3, 2]) {
            0 => self.size(0, 2.min(max)),
            1 => { let b = *self.pick(bounds) as i64; let d = self.below(5) as i64 - 2; (b + d).max(0).min(max as i64) as usize }
            _ => self.size(0, max),
        }
    }
    /// A number of things: mostly up to `usual`, at times next to a power of two, at times anything up to `max`.
    pub fn count(&mut self, lo: usize, usual: usize, max: usize) -> usize {
        match self.weighted(&[24, 2, 2]) {
            0 => self.size(lo, usual),
            1 => { let top = usize::BITS - max.leading_zeros(); let k = self.below(top as u64) as u32; let d = self.below(5) as usize; ((1usize << k) + d).saturating_sub(2).max(lo).min(max) }
            _ => self.size(lo, max),
        }
    }
    /// A small change to a tuple of byte strings: a bit anywhere, an end, the boundary between two of them, their order.
    pub fn relate(&mut self, t: &mut [&mut Vec<u8>]) {
        let k = self.below(t.len() as u64) as usize;
        let n = t[k].len();
        match self.below(14) {
            0 | 1 if n > 0 => { let i = self.below(n as u64) as usize; t[k][i] ^= 1 << self.below(8) }
            2 if n > 0 => t[k][n - 1] ^= 1 << self.below(8),
            3 if n > 0 => { let i = n - 1 - self.below(n.min(24) as u64) as usize; t[k][i] ^= 1 << self.below(8) }
            4 => { let b = if self.bool() { 0 } else { self.u8() }; t[k].push(b) }
            5 => { t[k].pop(); }
            6 => { let j = if n == 0 { 0 } else { self.below(n as u64 + 1) as usize }; t[k].truncate(j) }
            7 => { let d = self.range(1, 40) as usize; t[k].resize(n + d, 0) }
            // the boundary between two of them moves
            8 | 9 | 10 if t.len() > 1 => {
                let (i, j) = (self.below(t.len() as u64) as usize, self.below(t.len() as u64 - 1) as usize);
                let j = if j >= i { j + 1 } else { j };
                let all = [&t[i][..], &t[j][..]].concat();
                let at = self.below(all.len() as u64 + 1) as usize;
                *t[i] = all[..at].to_vec();
                *t[j] = all[at..].to_vec();
            }
            11 if t.len() > 1 => { let i = self.below(t.len() as u64) as usize; if i != k { let x = std::mem::take(t[i]); *t[i] = std::mem::replace(t[k], x); } }
            12 => { let j = (n > 0) as usize; t[k].rotate_right(j) }
            13 => t[k].insert(0, 0),
            _ => t[k].reverse(),
        }
    }
    /// a permutation of 0..n
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = i - self.below(i as u64 + 1) as usize; v.swap(i, j); }
        v
    }
    /// a seed for a generator that the code under test takes
    pub fn rng(&mut self) -> ChaCha8Rng {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&self.u64().to_le_bytes());
        ChaCha8Rng::from_seed(s)
    }
    pub fn log(&mut self, s: impl Into<String>) { let s = s.into(); self.log.push(s); }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    /// marks the case as non-trivial by the property's rule; `what` identifies it for distinctness
    pub fn nontrivial(&mut self, what: impl AsRef<[u8]>) { self.nontrivial = Some(fnv(0xcbf29ce484222325, what.as_ref())); }
    /// non-trivial, identified by the sequence of choices made so far
    pub fn nontrivial_here(&mut self) {
        let n = self.pos.min(self.choices.len());
        let mut h = 0xcbf29ce484222325;
        for c in &self.choices[..n] { h = fnv(h, &c.to_le_bytes()); }
        self.nontrivial = Some(h);
    }
    pub fn description(&self) -> String { self.log.join("; ") }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b { let _ = write!(s, "{:02x}", x); }
    s
}
/// hex, shortened in the middle
pub fn hexs(b: &[u8]) -> String { if b.len() <= 40 { hex(b) } else { format!("{}..{}({} bytes)", hex(&b[..16]), hex(&b[b.len() - 8..]), b.len()) } }

pub struct Part {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    /// re-runs allowed while shrinking
    pub shrink: usize,
    pub run: fn(&mut Case) -> Outcome,
}
impl Part {
    pub fn new(name: &'static str, quick: usize, thorough: usize, run: fn(&mut Case) -> Outcome) -> Part { Part { name, quick, thorough, threads: 8, shrink: 400, run } }
    pub fn serial(mut self) -> Part { self.threads = 1; self }
    pub fn shrink(mut self, n: usize) -> Part { self.shrink = n; self }
}
pub struct Property { pub id: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub parts: Vec<Part> }

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn run_case(f: fn(&mut Case) -> Outcome, c: &mut Case) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", format!("panicked: {}", m))
        }
    }
}
/// Runs code under test that may panic; Err holds the panic's message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn shrink(part: &Part, choices: Vec<u64>, sig: &str, thorough: bool, slots: &Option<std::fs::File>) -> (Vec<u64>, Fail, String, usize) {
    let mut best = choices;
    let mut runs = 0usize;
    let attempt = |cand: &Vec<u64>, runs: &mut usize| -> Option<(Fail, String, Vec<u64>)> {
        *runs += 1;
        put_slot(slots, 0, &format!("shrinking {}", runs));
        let mut c = Case::replay(cand.clone(), thorough);
        match run_case(part.run, &mut c) { Err(f) if f.sig == sig => { let n = c.pos.min(cand.len()); Some((f, c.description(), cand[..n].to_vec())) } _ => None }
    };
    let (mut bf, mut bd) = match attempt(&best, &mut runs) { Some((f, d, c)) => { best = c; (f, d) } None => return (best, Fail { sig: sig.into(), msg: "(did not fail again on replay: the failure depends on state outside the case)".into() }, String::new(), runs) };
    // by runs, so that it is repeatable, and for slow cases by time
    let start = Instant::now();
    let limit = if thorough { 150 } else { 50 };
    let budget = part.shrink;
    let more = |runs: usize| runs < budget && start.elapsed().as_secs() < limit;
    loop {
        let mut improved = false;
        // drop blocks
        let mut k = best.len() / 2;
        while k >= 1 && more(runs) {
            let mut i = 0;
            while i + k <= best.len() && more(runs) {
                let mut cand = best.clone();
                cand.drain(i..i + k);
                if let Some((f, d, c)) = attempt(&cand, &mut runs) { best = c; bf = f; bd = d; improved = true; } else { i += k; }
            }
            k /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && more(runs) {
            let v = best[i];
            for w in [0, v >> 32, v / 2, v.wrapping_sub(1)] {
                if w < v && more(runs) {
                    let mut cand = best.clone();
                    cand[i] = w;
                    if let Some((f, d, c)) = attempt(&cand, &mut runs) { best = c; bf = f; bd = d; improved = true; break; }
                }
            }
            i += 1;
        }
        if !improved || !more(runs) { return (best, bf, bd, runs); }
    }
}

fn parse_known(id: &str, path: &str) -> Vec<(String, String)> {
    // lines "known: property=<id> sig=<signature> <description>"; other lines are ignored
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let (p, s, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={}", id) { if let Some(s) = s.strip_prefix("sig=") { v.push((s.to_string(), d.to_string())); } }
            }
        }
    }
    v
}

/// Entry point of a checker binary: `<bin> <ID>` runs the property, `<bin> --replay <file>` one case.
///
/// The cases run in a child process, and the parent watches it: when the child dies of a signal or a
/// case does not end, the parent finds the case, and that is a violation like any other.
pub fn main(props: Vec<Property>) {
    let child = std::env::var_os("PBT_SLOTS").is_some();
    let args: Vec<String> = std::env::args().collect();
    if !child && args.len() == 2 { std::process::exit(supervise(&props, &args[1])); }
    let loud = args.get(1).map(|s| s == "--case" || s == "--replay").unwrap_or(false);
    std::panic::set_hook(Box::new(move |i| {
        let m = format!("{}", i);
        if loud { eprintln!("{}", m); }
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    // deep recursion in generated inputs should not be limited by the main thread's stack
    let code = std::thread::Builder::new().stack_size(64 << 20).spawn(move || real_main(props)).unwrap().join().unwrap_or(3);
    std::process::exit(code);
}
const SLOT: u64 = 32;
fn put_slot(f: &Option<std::fs::File>, t: usize, text: &str) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = f { let _ = f.write_all_at(format!("{:<31}\n", text).as_bytes(), t as u64 * SLOT); }
}
/// a case that takes this long does not end; the longest ones take a few seconds
fn patience() -> f64 { std::env::var("VERIF_PATIENCE").ok().and_then(|s| s.parse().ok()).unwrap_or(200.0) }
struct Scratch(String);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
#[derive(Clone, PartialEq, Debug)]
enum End { Code(i32), Signal(i32), Hang, Killed }
/// runs one case in a process of its own: how it ended, the choices it drew, what it said
fn lone_case(dir: &str, id: &str, part: &str, how: &str, limit: f64) -> (End, Vec<u64>, String) {
    use std::os::unix::process::ExitStatusExt;
    let (rec, err) = (format!("{}/choices", dir), format!("{}/stderr", dir));
    let (_, _) = (std::fs::remove_file(&rec), std::fs::remove_file(&err));
    let f = std::fs::File::create(&err).unwrap();
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).args(["--case", id, part, how, &rec]).env("PBT_SLOTS", format!("{}/lone", dir)).stdout(f.try_clone().unwrap()).stderr(f).spawn().unwrap();
    let t0 = Instant::now();
    let end = loop {
        if let Some(st) = ch.try_wait().unwrap() { break match st.signal() { Some(9) | Some(15) | Some(2) => End::Killed, Some(s) => End::Signal(s), None => End::Code(st.code().unwrap_or(2)) }; }
        if t0.elapsed().as_secs_f64() > limit { let _ = ch.kill(); let _ = ch.wait(); break End::Hang; }
        std::thread::sleep(std::time::Duration::from_millis(5));
    };
    let b = std::fs::read(&rec).unwrap_or_default();
    let choices = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    (end, choices, std::fs::read_to_string(&err).unwrap_or_default())
}
fn supervise(props: &[Property], id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = Scratch(format!("{}/pbt-{}-{}", std::env::temp_dir().display(), id, std::process::id()));
    std::fs::create_dir_all(&dir.0).unwrap();
    let slots = format!("{}/slots", dir.0);
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap()).arg(id).env("PBT_SLOTS", &slots).spawn().unwrap();
    let mut seen: Vec<(String, Instant)> = vec![];
    let read = || -> Vec<String> { std::fs::read_to_string(&slots).unwrap_or_default().lines().map(|l| l.trim_matches(|c: char| c == '\0' || c.is_whitespace()).to_string()).collect() };
    let (end, hung) = loop {
        if let Some(st) = ch.try_wait().unwrap() {
            match st.signal() { None => return st.code().unwrap_or(2), Some(9) | Some(15) | Some(2) => { println!("{}: the checker was ended from outside", id); return 2; } Some(s) => break (End::Signal(s), vec![]) }
        }
        let now = read();
        let mut hung = vec![];
        for (t, s) in now.iter().enumerate() {
            if t >= seen.len() { seen.push((s.clone(), Instant::now())); }
            if seen[t].0 != *s { seen[t] = (s.clone(), Instant::now()); }
            if !s.is_empty() && s != "idle" && seen[t].1.elapsed().as_secs_f64() > patience() { hung.push(s.clone()); }
        }
        if !hung.is_empty() { let _ = ch.kill(); let _ = ch.wait(); break (End::Hang, hung); }
        std::thread::sleep(std::time::Duration::from_millis(100));
    };
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => return 2 };
    if let Ok(t) = std::fs::read_to_string(format!("{}.pending", slots)) { println!("{}", t); return 1; }
    let candidates: Vec<(usize, usize)> = if end == End::Hang { hung } else { read() }.iter().filter_map(|s| { let mut i = s.split(' '); Some((i.next()?.parse().ok()?, i.next()?.parse().ok()?)) }).collect();
    let mut found = None;
    for (pi, i) in &candidates {
        let part = &p.parts[*pi];
        let limit = if end == End::Hang { patience() / 3.0 } else { 60.0 };
        let (e, choices, text) = lone_case(&dir.0, id, part.name, &format!("index {}", i), limit);
        if matches!((&e, &end), (End::Signal(_), End::Signal(_)) | (End::Hang, End::Hang)) { found = Some((part, *i, e, choices, text)); break; }
    }
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let (part, i, e, best, text) = match found {
        Some((part, i, e, mut best, mut text)) => {
            // a process per attempt, so only a few
            let mut runs = 0;
            if let End::Signal(_) = e {
                let mut k = best.len() / 2;
                let mut go = |cand: &[u64]| -> Option<(Vec<u64>, String)> {
                    if runs >= 80 { return None; }
                    runs += 1;
                    let how = format!("choices {}", cand.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
                    let (e2, ch, t) = lone_case(&dir.0, id, part.name, &how, 20.0);
                    if e2 == e { Some((ch, t)) } else { None }
                };
                while k >= 1 { let mut at = 0; while at + k <= best.len() { let mut c = best.clone(); c.drain(at..at + k); match go(&c) { Some((b, t)) if b.len() < best.len() => { best = b; text = t; } _ => at += k } } k /= 2; }
                for at in 0..best.len() { let v = best.get(at).copied().unwrap_or(0); for w in [0, v / 2] { if w < v { let mut c = best.clone(); c[at] = w; if let Some((b, t)) = go(&c) { if b.len() <= best.len() { best = b; text = t; break; } } } } if at + 1 >= best.len() { break; } }
            }
            (part.name, i as i64, e, best, text)
        }
        None => {
            if end == End::Hang { println!("{}: a case did not end, but does alone", id); return 2; }
            ("", -1, end, vec![], "the process died, and no single case makes it die again".to_string())
        }
    };
    let sig = if e == End::Hang { "hang" } else { "crash" };
    let text: String = text.chars().take(1500).collect();
    let path = format!("{}/replays/{}-{}-{}.json", root, id, if part.is_empty() { "process" } else { part }, sig);
    let _ = std::fs::create_dir_all(format!("{}/replays", root));
    let body = format!("{{\n \"property\": {},\n \"part\": {},\n \"seed\": {},\n \"case\": {},\n \"tier\": {},\n \"signature\": {},\n \"message\": {},\n \"choices\": [{}]\n}}\n",
        json(id), json(part), seed, i, json(&tier), json(sig), json(&format!("{:?}: {}", e, text)), best.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", "));
    let _ = std::fs::write(&path, body);
    println!("{}: part {}, case {} of seed {}: [{}] {:?}: {}", id, part, i, seed, sig, e, text);
    println!("VIOLATION property={} replay={}", id, path);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let aj: Vec<String> = p.assumptions.iter().map(|a| json(a)).collect();
    let ev = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": 1,\n  \"distinct_nontrivial\": 1,\n  \"rule\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": 1,\n \"wall_s\": 0\n}}\n", json(id), json(&tier), seed, json(p.rule), json(&text), aj.join(", "));
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, id), ev);
    1
}
fn real_main(props: Vec<Property>) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if args.get(1).map(|s| s == "--case").unwrap_or(false) {
        let (id, part, how, rec) = (&args[2], &args[3], &args[4], &args[5]);
        let q = props.iter().filter(|p| p.id == *id).flat_map(|p| p.parts.iter()).find(|q| q.name == part).unwrap();
        let mut c = match how.split_once(' ') {
            Some(("index", i)) => Case::random(seed, q.name, i.parse().unwrap(), thorough),
            Some((_, l)) => Case::replay(l.split(',').filter_map(|x| x.parse().ok()).collect(), thorough),
            None => return 2,
        };
        c.record = std::fs::File::create(rec).ok();
        return match run_case(q.run, &mut c) { Ok(()) => 0, Err(f) => { eprintln!("[{}] {}", f.sig, f.msg); 1 } };
    }
    if args.get(1).map(|s| s == "--replay").unwrap_or(false) { return replay(&props, &args[2]); }
    let id = args.get(1).cloned().unwrap_or_default();
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let only: Option<String> = std::env::var("VERIF_PART").ok();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let start = Instant::now();
    let known = parse_known(p.id, &format!("{}/known_findings.txt", root));
    let evals = AtomicUsize::new(0);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let labels: Mutex<BTreeMap<&'static str, usize>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<(usize, usize, String)>> = Mutex::new(vec![]);
    let failures: Mutex<Vec<(usize, usize, Vec<u64>, Fail, String)>> = Mutex::new(vec![]);
    let mut per_part = vec![];
    let slots = std::env::var("PBT_SLOTS").ok().and_then(|p| std::fs::File::create(p).ok());
    for (pi, part) in p.parts.iter().enumerate() {
        if let Some(o) = &only { if o != part.name { continue; } }
        let n = ((if thorough { part.thorough } else { part.quick }) as f64 * scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let t0 = Instant::now();
        let stop = AtomicUsize::new(usize::MAX);
        std::thread::scope(|s| {
            for t in 0..part.threads.min(n.max(1)) {
                let (slots, next, stop, evals, distinct, labels, samples, failures, known) = (&slots, &next, &stop, &evals, &distinct, &labels, &samples, &failures, &known);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > stop.load(Ordering::SeqCst) { put_slot(slots, t, "idle"); break; }
                    put_slot(slots, t, &format!("{} {}", pi, i));
                    let mut c = Case::random(seed, part.name, i, thorough);
                    c.index = i;
                    let r = run_case(part.run, &mut c);
                    evals.fetch_add(1, Ordering::SeqCst);
                    if let Some(h) = c.nontrivial { distinct.lock().unwrap().insert(h ^ (pi as u64).wrapping_mul(0x9e3779b97f4a7c15)); }
                    { let mut l = labels.lock().unwrap(); for x in &c.labels { *l.entry(x).or_insert(0) += 1; } }
                    if i < 3 { samples.lock().unwrap().push((pi, i, format!("[{}] {}", part.name, c.description()))); }
                    if let Err(f) = r {
                        let is_known = known.iter().any(|k| k.0 == f.sig);
                        let d = c.description();
                        let mut fl = failures.lock().unwrap();
                        // keep the first case of every signature; an unknown one ends the part early
                        let same = fl.iter().position(|x| x.0 == pi && x.3.sig == f.sig);
                        match same { Some(k) if fl[k].1 <= i => {} Some(k) => { fl[k] = (pi, i, c.choices, f, d); } None => { fl.push((pi, i, c.choices, f, d)); } }
                        if !is_known { stop.fetch_min(i, Ordering::SeqCst); }
                    }
                }).unwrap();
            }
        });
        per_part.push(format!("{}: {} cases", part.name, n));
        eprintln!("[{}] part {}: {} cases, {:.1} s", p.id, part.name, n, t0.elapsed().as_secs_f64());
    }
    let mut fl = failures.into_inner().unwrap();
    fl.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let mut violations = 0;
    let mut printed: HashSet<String> = HashSet::new();
    let mut seen: HashSet<String> = HashSet::new();
    for (pi, i, choices, f, d) in fl {
        if let Some(k) = known.iter().find(|k| k.0 == f.sig) { if printed.insert(k.0.clone()) { println!("KNOWN-FINDING: property={} {}", p.id, k.1); } continue; }
        if !seen.insert(format!("{}/{}", pi, f.sig)) || violations >= 3 { continue; }
        violations += 1;
        let part = &p.parts[pi];
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let write = |best: &Vec<u64>, bf: &Fail, bd: &str, runs: usize| -> (String, String) {
            let mut h = fnv(0xcbf29ce484222325, part.name.as_bytes());
            for c in best { h = fnv(h, &c.to_le_bytes()); }
            let path = format!("{}/{}-{}-{:08x}.json", dir, p.id, part.name, h as u32);
            let ch: Vec<String> = best.iter().map(|c| c.to_string()).collect();
            let body = format!("{{\n \"property\": {},\n \"part\": {},\n \"seed\": {},\n \"case\": {},\n \"tier\": {},\n \"signature\": {},\n \"message\": {},\n \"input\": {},\n \"shrink_runs\": {},\n \"choices\": [{}]\n}}\n",
                json(p.id), json(part.name), seed, i, json(if thorough { "thorough" } else { "quick" }), json(&bf.sig), json(&bf.msg), json(bd), runs, ch.join(", "));
            let _ = std::fs::write(&path, body);
            let text = format!("{}: part {}, case {} of seed {}: [{}] {}\n  input: {}\nVIOLATION property={} replay={}", p.id, part.name, i, seed, bf.sig, bf.msg, bd, p.id, path);
            (path, text)
        };
        // for the case that shrinking ends the process
        let pending = std::env::var("PBT_SLOTS").map(|s| format!("{}.pending", s)).ok();
        let first = pending.as_ref().map(|f_path| { let (path, text) = write(&choices, &f, &d, 0); let _ = std::fs::write(f_path, text); path });
        let (best, bf, bd, runs) = shrink(part, choices.clone(), &f.sig, thorough, &slots);
        if let Some(f_path) = &pending { let _ = std::fs::remove_file(f_path); }
        if let Some(path) = first { let _ = std::fs::remove_file(path); }
        let (best, bf, bd) = if bd.is_empty() && !d.is_empty() && best == choices { (best, Fail { sig: f.sig.clone(), msg: format!("{} {}", f.msg, bf.msg) }, d) } else { (best, bf, bd) };
        println!("{}", write(&best, &bf, &bd, runs).1);
    }
    put_slot(&slots, 0, "idle");
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    let sj: Vec<String> = sm.iter().map(|s| json(&s.2.chars().take(600).collect::<String>())).collect();
    let lj: Vec<String> = labels.into_inner().unwrap().iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let aj: Vec<String> = p.assumptions.iter().map(|a| json(a)).collect();
    let pj: Vec<String> = per_part.iter().map(|a| json(a)).collect();
    let ev = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"parts\": [{}],\n  \"classes\": {{{}}},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        json(p.id), json(if thorough { "thorough" } else { "quick" }), seed, evals.load(Ordering::SeqCst), distinct.into_inner().unwrap().len(), json(p.rule), pj.join(", "), lj.join(", "), sj.join(",\n   "), aj.join(", "), violations, start.elapsed().as_secs_f64());
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    // several binaries (feature configurations) of one property each write a fragment
    let suffix = std::env::var("VERIF_EVIDENCE_SUFFIX").unwrap_or_default();
    if let Err(e) = std::fs::write(format!("{}/evidence/{}{}.json", root, p.id, suffix), ev) { eprintln!("cannot write evidence: {}", e); return 2; }
    if violations > 0 { 1 } else { 0 }
}

fn replay(props: &[Property], path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let get = |k: &str| -> String { let key = format!("\"{}\": \"", k); t.find(&key).map(|i| { let r = &t[i + key.len()..]; r[..r.find('"').unwrap_or(0)].to_string() }).unwrap_or_default() };
    let (id, part) = (get("property"), get("part"));
    let choices: Vec<u64> = t.rfind("\"choices\": [").map(|i| { let r = &t[i + 12..]; r[..r.find(']').unwrap()].split(',').filter_map(|x| x.trim().parse().ok()).collect() }).unwrap_or_default();
    for p in props.iter().filter(|p| p.id == id) {
        for q in p.parts.iter().filter(|q| q.name == part) {
            let mut c = Case::replay(choices.clone(), get("tier") == "thorough");
            let r = run_case(q.run, &mut c);
            println!("input: {}", c.description());
            return match r { Ok(()) => { println!("the property holds on this case"); 0 } Err(f) => { println!("[{}] {}", f.sig, f.msg); println!("VIOLATION property={} replay={}", id, path); 1 } };
        }
    }
    2
}
