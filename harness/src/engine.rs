//! The explorer: enumerates cases (whole operation sequences / inputs / fault patterns), runs each on the
//! real code next to a reference model, counts what was covered and records violations as replayable files.
//!
//! * A *case* is one complete trace replayed against the implementation. Enumeration order is deterministic;
//!   the case number is the replay handle (`--only N`).
//! * `Run::step` counts one implementation/model transition, `Run::state` records a reference-model state.
//! * The case number is mirrored to a memory-mapped breadcrumb so the supervisor can tell which case was
//!   running when the code under test aborted, overflowed its stack or hung.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { let h = self.0; (h ^ (h >> 32)).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95); }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fx::default(); t.hash(&mut h); h.finish() }
type Set = HashSet<u64, BuildHasherDefault<Fx>>;

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

/// Upper bound on remembered hashes per counter; reaching it is reported in the evidence.
const SET_CAP: usize = 12_000_000;

#[derive(Default)]
pub struct Run { pub transitions: u64, states: Vec<u64>, outcomes: Vec<u64>, pub key: Option<String> }
impl Run {
    #[inline] pub fn step(&mut self) { self.transitions += 1 }
    #[inline] pub fn steps(&mut self, n: u64) { self.transitions += n }
    #[inline] pub fn state(&mut self, h: u64) { self.states.push(h) }
    #[inline] pub fn st<T: Hash + ?Sized>(&mut self, t: &T) { self.states.push(hash(t)) }
    #[inline] pub fn outcome(&mut self, h: u64) { self.outcomes.push(h) }
}

struct Section { name: String, bound: String, cases: u64, transitions: u64, exhaustive: bool }

pub struct Ctx {
    pub prop: String, pub thorough: bool, pub seed: u64,
    pub only: Option<u64>, pub verbose: bool,
    case_no: u64, sections: Vec<Section>,
    states: Set, outcomes: Set, cap_hit: bool,
    transitions: u64, traces: u64, samples: Vec<(u64, String)>, per_section_samples: usize,
    violations: Vec<(u64, String, String, String)>, pub max_violations: usize,
    known: HashMap<String, String>, known_seen: BTreeMap<String, (u64, String)>,
    crumb: *mut u64, pub notes: Vec<String>,
    pub stop: bool,
    shard: (u64, u64),
}

thread_local! { static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); static QUIET: RefCell<bool> = RefCell::new(false); }

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !QUIET.with(|q| *q.borrow()) { default(i) }
    }));
}

/// Runs `f`, turning a panic into Err((location, message)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

pub struct Opts { pub shard: (u64, u64), pub prop: String, pub thorough: bool, pub seed: u64, pub only: Option<u64>, pub crumb: Option<String>, pub known: HashMap<String, String> }

impl Ctx {
    pub fn new(o: Opts) -> Ctx {
        let crumb = o.crumb.map(|p| unsafe {
            use std::os::unix::io::AsRawFd;
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(&p).unwrap();
            f.set_len(64).unwrap();
            let m = libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
            assert!(m != libc::MAP_FAILED); m as *mut u64
        }).unwrap_or(std::ptr::null_mut());
        Ctx { prop: o.prop, thorough: o.thorough, seed: o.seed, verbose: o.only.is_some(), only: o.only, case_no: 0, sections: vec![],
            states: Set::default(), outcomes: Set::default(), cap_hit: false, transitions: 0, traces: 0, samples: vec![], per_section_samples: 0,
            violations: vec![], max_violations: 8, known: o.known, known_seen: BTreeMap::new(), crumb, notes: vec![], stop: false, shard: o.shard }
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
    pub fn section(&mut self, name: &str, bound: impl Into<String>) {
        self.per_section_samples = 0;
        self.sections.push(Section { name: name.into(), bound: bound.into(), cases: 0, transitions: 0, exhaustive: true });
    }
    /// The current section is a fixed list of witnesses (large sizes, long runs), not a complete space.
    pub fn witness(&mut self) { self.sections.last_mut().unwrap().exhaustive = false }
    fn crumb(&self, n: u64) { if !self.crumb.is_null() { unsafe { std::ptr::write_volatile(self.crumb, n) } } }

    /// Runs one case. `desc` writes the whole case out; `body` replays it on the real code and the model.
    pub fn case(&mut self, desc: impl Fn() -> String, body: impl FnOnce(&mut Run) -> Res) {
        if self.stop { return }
        let n = self.case_no; self.case_no += 1;
        if let Some(o) = self.only { if o != n { return } }
        else if n % self.shard.1 != self.shard.0 { return }
        self.crumb(n);
        let sec = self.sections.len() - 1;
        if self.only.is_some() { println!("REPLAY case={} section={} :: {}", n, self.sections[sec].name, desc()); }
        let mut run = Run::default();
        let r = guarded(|| body(&mut run));
        self.traces += 1; self.transitions += run.transitions; let first = self.sections[sec].cases == 0;
        self.sections[sec].cases += 1; self.sections[sec].transitions += run.transitions;
        if self.states.len() < SET_CAP { self.states.extend(run.states.drain(..)) } else { self.cap_hit = true }
        if self.outcomes.len() < SET_CAP { self.outcomes.extend(run.outcomes.drain(..)) } else { self.cap_hit = true }
        // remember a few non-initial cases per section, written out
        if self.per_section_samples < 2 && (first || self.sections[sec].cases.is_power_of_two() && self.sections[sec].cases >= 64) {
            self.per_section_samples += 1;
            self.samples.push((n, format!("{} #{}: {}", self.sections[sec].name, n, desc())));
        }
        let (key, msg) = match r {
            Ok(Ok(())) => { if self.only.is_some() { println!("REPLAY result: held") } return }
            Ok(Err(m)) => (run.key.clone(), m),
            Err((loc, m)) => (Some(run.key.clone().unwrap_or_else(|| format!("panic@{}", strip(&loc)))), format!("panicked at {}: {}", loc, m)),
        };
        if self.only.is_some() { println!("REPLAY result: key={:?} {}", key, msg); }
        if let Some(k) = key.as_ref() { if self.known.contains_key(k) {
            let what = self.known[k].clone();
            self.known_seen.entry(k.clone()).or_insert((0, what)).0 += 1;
            return;
        } }
        let key = key.unwrap_or_default();
        let d = desc(); let s = self.sections[sec].name.clone();
        self.violations.push((n, s, d, format!("{} [key={}]", msg, key)));
        if self.violations.len() >= self.max_violations { self.stop = true; }
    }

    /// Writes what this worker covered; `absorb` adds it to another worker's.
    pub fn dump(&self, path: &str) {
        let mut b: Vec<u8> = vec![];
        fn n(b: &mut Vec<u8>, x: u64) { b.extend(&x.to_le_bytes()) }
        fn s(b: &mut Vec<u8>, x: &str) { n(b, x.len() as u64); b.extend(x.as_bytes()) }
        n(&mut b, self.sections.len() as u64);
        for x in &self.sections { s(&mut b, &x.name); s(&mut b, &x.bound); n(&mut b, x.cases); n(&mut b, x.transitions); n(&mut b, x.exhaustive as u64) }
        for set in [&self.states, &self.outcomes] { n(&mut b, set.len() as u64); for x in set { n(&mut b, *x) } }
        n(&mut b, self.cap_hit as u64); n(&mut b, self.stop as u64); n(&mut b, self.transitions); n(&mut b, self.traces);
        n(&mut b, self.samples.len() as u64); for x in &self.samples { n(&mut b, x.0); s(&mut b, &x.1) }
        n(&mut b, self.violations.len() as u64); for x in &self.violations { n(&mut b, x.0); s(&mut b, &x.1); s(&mut b, &x.2); s(&mut b, &x.3) }
        n(&mut b, self.known_seen.len() as u64); for (k, v) in &self.known_seen { s(&mut b, k); n(&mut b, v.0); s(&mut b, &v.1) }
        n(&mut b, self.notes.len() as u64); for x in &self.notes { s(&mut b, x) }
        std::fs::write(path, b).expect("cannot write partial result");
    }
    pub fn absorb(&mut self, path: &str) {
        let b = std::fs::read(path).expect("partial result"); let mut p = 0usize;
        fn n(b: &[u8], p: &mut usize) -> u64 { let x = u64::from_le_bytes(b[*p..*p + 8].try_into().unwrap()); *p += 8; x }
        fn s(b: &[u8], p: &mut usize) -> String { let l = n(b, p) as usize; let x = String::from_utf8_lossy(&b[*p..*p + l]).into_owned(); *p += l; x }
        for i in 0..n(&b, &mut p) as usize {
            let x = Section { name: s(&b, &mut p), bound: s(&b, &mut p), cases: n(&b, &mut p), transitions: n(&b, &mut p), exhaustive: n(&b, &mut p) != 0 };
            if i < self.sections.len() { let y = &mut self.sections[i]; assert!(y.name == x.name && y.bound == x.bound, "shards disagree about section {}", x.name); y.cases += x.cases; y.transitions += x.transitions; y.exhaustive &= x.exhaustive } else { self.sections.push(x) }
        }
        for k in 0..2 { let c = n(&b, &mut p); let set = if k == 0 { &mut self.states } else { &mut self.outcomes };
            for _ in 0..c { let x = n(&b, &mut p); if set.len() < 3 * SET_CAP { set.insert(x); } else { self.cap_hit = true } } }
        self.cap_hit |= n(&b, &mut p) != 0; self.stop |= n(&b, &mut p) != 0; self.transitions += n(&b, &mut p); self.traces += n(&b, &mut p);
        for _ in 0..n(&b, &mut p) { let k = n(&b, &mut p); self.samples.push((k, s(&b, &mut p))) }
        for _ in 0..n(&b, &mut p) { let k = n(&b, &mut p); self.violations.push((k, s(&b, &mut p), s(&b, &mut p), s(&b, &mut p))) }
        for _ in 0..n(&b, &mut p) { let k = s(&b, &mut p); let c = n(&b, &mut p); let w = s(&b, &mut p); self.known_seen.entry(k).or_insert((0, w)).0 += c }
        for _ in 0..n(&b, &mut p) { let x = s(&b, &mut p); if !self.notes.contains(&x) { self.notes.push(x) } }
    }

    pub fn finish(mut self, wall: f64, evid: Option<&str>, replay_dir: &str, level: &str, assumptions: &[&str]) -> i32 {
        // one or two written-out samples per section, the first ones
        self.samples.sort(); self.violations.sort(); self.violations.truncate(self.max_violations);
        let mut per: HashMap<String, usize> = HashMap::new();
        self.samples.retain(|x| { let k = x.1.split(" #").next().unwrap_or("").to_string(); let c = per.entry(k).or_insert(0); *c += 1; *c <= 2 });
        for (k, (n, what)) in &self.known_seen { println!("KNOWN-FINDING: property={} {} (key={}, {} cases of this run)", self.prop, what, k, n); }
        let mut j = String::new();
        let mut exh = !self.cap_hit;
        let secs: Vec<String> = self.sections.iter().map(|s| {
            exh &= s.exhaustive;
            format!("{{\"section\":{},\"bound\":{},\"cases\":{},\"transitions\":{},\"complete\":{}}}", q(&s.name), q(&s.bound), s.cases, s.transitions, s.exhaustive && !self.stop) }).collect();
        j += &format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},", q(&self.prop), q(if self.thorough { "thorough" } else { "quick" }), self.seed, q(level));
        let kind = if level == "model_checking" {
            format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},", self.states.len(), self.transitions, self.traces, self.outcomes.len())
        } else {
            format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"steps\":{},\"rule\":{},", self.traces, self.outcomes.len(), self.transitions,
                q("every case listed under sections is enumerated in a fixed order and run on the implementation; a case is non-trivial and counted once per distinct observed outcome signature (returned values, error and bytes/samples produced)"))
        };
        j += &format!("\"coverage\":{{{}\"hash_cap_hit\":{},\"exhaustive\":{},\"exhaustive_note\":{},\"sections\":[{}],\"samples\":[{}],\"notes\":[{}]}},", kind,
            self.cap_hit, exh && !self.stop,
            q("exhaustive is true only when every section is a complete finite space; sections with complete=false are fixed witness lists (large sizes, long runs) that go beyond the complete spaces"),
            secs.join(","), self.samples.iter().map(|s| q(&s.1.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(","),
            self.notes.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        j += &format!("\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n", assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(","), wall, self.violations.len());
        if self.only.is_none() { if let Some(e) = evid { std::fs::write(e, j).expect("cannot write evidence") } }
        println!("{}: cases={} transitions={} states={} outcomes={} violations={} wall={:.1}s", self.prop, self.traces, self.transitions, self.states.len(), self.outcomes.len(), self.violations.len(), wall);
        if self.violations.is_empty() { return 0 }
        for (n, s, d, m) in &self.violations {
            let p = write_replay(replay_dir, &self.prop, self.thorough, *n, s, d, m);
            println!("VIOLATION property={} replay={}", self.prop, p);
            println!("  section {}; {}; {}", s, d.chars().take(600).collect::<String>(), m);
        }
        1
    }
}

pub fn write_replay(dir: &str, prop: &str, thorough: bool, n: u64, s: &str, d: &str, m: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let p = format!("{}/{}-{}-{}.txt", dir, prop, if thorough { "thorough" } else { "quick" }, n);
    let _ = std::fs::write(&p, format!("property: {}\nsection: {}\ncase: {}\ntier: {}\nsteps: {}\nresult: {}\nreplay with: /verif/check.sh {} --replay {}\n",
        prop, s, n, if thorough { "thorough" } else { "quick" }, d, m, prop, p));
    p
}

/// panic locations without machine-specific prefixes
pub fn strip(loc: &str) -> String {
    if let Some(i) = loc.find("/registry/src/") { let r = &loc[i + 14..]; return r.split_once('/').map(|x| x.1.to_string()).unwrap_or_else(|| r.to_string()) }
    if let Some(i) = loc.find("/library/") { return format!("std{}", &loc[i..]) }
    loc.to_string()
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}

/// Every word of length `len` over `0..k` (odometer order, simplest first).
pub fn words(k: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut w = vec![0usize; len];
    if k == 0 && len > 0 { return }
    loop {
        f(&w);
        let mut i = len;
        loop {
            if i == 0 { return }
            i -= 1;
            w[i] += 1;
            if w[i] < k { break }
            w[i] = 0;
        }
    }
}

/// One sequence over 0..k that contains every word of length n (de Bruijn, unrolled by n-1): for driving a
/// single long-lived object through every window of n consecutive operations.
pub fn debruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n { if n % p == 0 { out.extend_from_slice(&a[1..=p]) } return }
        a[t] = a[t - p]; db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k { a[t] = j; db(t + 1, t, k, n, a, out) }
    }
    let mut out = vec![]; db(1, 1, k, n, &mut vec![0; n + 1], &mut out);
    for i in 0..n.saturating_sub(1) { let x = out[i % out.len()]; out.push(x) }
    out
}

/// Run lengths up to `top` around which counters and thresholds tend to sit: all up to 40, then around powers of two and round numbers.
pub fn stretches(top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    for k in 6..=24 { for j in 0..4 { v.push((1usize << k) - 1 + j) } }
    for b in [50usize, 100, 200, 480, 500, 1_000, 4_800, 5_000, 10_000, 44_100, 48_000, 100_000, 480_000, 1_000_000] { for j in 0..3 { v.push(b - 1 + j) } }
    v.retain(|x| *x <= top); v.sort(); v.dedup(); v
}

/// Every permutation of 0..n.
pub fn perms(n: usize, f: &mut impl FnMut(&[usize])) {
    fn rec(p: &mut Vec<usize>, used: &mut Vec<bool>, f: &mut impl FnMut(&[usize])) {
        if p.len() == used.len() { f(p); return }
        for i in 0..used.len() { if !used[i] { used[i] = true; p.push(i); rec(p, used, f); p.pop(); used[i] = false; } }
    }
    rec(&mut vec![], &mut vec![false; n], f);
}

pub fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }

/// Runs `f` in a forked child with a time limit. Ok(true/false) is f's verdict; Err says how the child died.
pub fn forked(limit_ms: u64, f: impl FnOnce() -> bool) -> Result<bool, String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| { QUIET.with(|q| *q.borrow_mut() = true); f() }));
            libc::_exit(match r { Ok(true) => 0, Ok(false) => 1, Err(_) => 2 });
        }
        let t0 = std::time::Instant::now();
        loop {
            let mut st = 0;
            let w = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if w == pid {
                if libc::WIFEXITED(st) { return match libc::WEXITSTATUS(st) { 0 => Ok(true), 1 => Ok(false), _ => Err("panic".into()) } }
                return Err(format!("signal {}", libc::WTERMSIG(st)));
            }
            if t0.elapsed().as_millis() as u64 > limit_ms { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); return Err("hang".into()) }
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
    }
}

/// Equal as values: numbers equal, or both not a number.
pub fn same(a: f32, b: f32) -> bool { a == b || a.is_nan() && b.is_nan() }
/// 2^k, exact down to the smallest number there is (`f32::powi` gives 0 below 2^-127).
pub fn pow2(k: i32) -> f32 { 2f64.powi(k) as f32 }
