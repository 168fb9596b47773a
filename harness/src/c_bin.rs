//! C30: the bin2str program, run as a black box in scratch directories.
use crate::engine::*;
use crate::{ensure, Check};
use std::collections::{BTreeMap, VecDeque};
use std::os::unix::fs::symlink;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub fn checks() -> Vec<Check> { vec![Check { one_process: false, id: "C30", level: "model_checking", run: c30, assumptions: &["the file system stores what write(2) accepted", "a file size limit (RLIMIT_FSIZE) is a faithful stand-in for a destination that fills up"] }] }

fn exe() -> PathBuf { PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into())).join("harness/target/b2s/debug/bin2str") }
struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Runs the program in `d`; true: it reported success. `fsize`: no file may grow beyond this many bytes.
fn run(d: &Dir, fsize: Option<u64>) -> Result<bool, String> {
    let mut c = Command::new(exe());
    c.current_dir(&d.0).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(k) = fsize { unsafe { c.pre_exec(move || { libc::signal(libc::SIGXFSZ, libc::SIG_IGN); let l = libc::rlimit { rlim_cur: k, rlim_max: k }; libc::setrlimit(libc::RLIMIT_FSIZE, &l); Ok(()) }); } }
    let mut ch = c.spawn().map_err(|e| format!("cannot start bin2str: {}", e))?;
    for i in 0..20_000u32 {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? { return Ok(s.success()) }
        std::thread::sleep(std::time::Duration::from_micros(if i < 50 { 100 } else { 1000 }));
    }
    let _ = ch.kill(); let _ = ch.wait(); Err("bin2str did not finish within 20 s".into())
}

/// The table must be exactly `bytes`.
fn judge(out: &[u8], bytes: &[u8]) -> Res {
    let t = std::str::from_utf8(out).map_err(|e| e.to_string())?;
    for (i, l) in t.split('\n').enumerate() { ensure!(l.len() <= 84, "line {} has {} characters: {:?}", i + 1, l.len(), l) }
    let a = t.find("= [").ok_or("no opening bracket")? + 3;
    let z = t.rfind(']').filter(|z| *z >= a).ok_or("no closing bracket")?;
    let body = t[a..z].trim();
    let toks: Vec<&str> = if body.is_empty() { vec![] } else { body.split(',').map(|s| s.trim()).collect() };
    for (i, k) in toks.iter().enumerate() {
        ensure!(!k.is_empty() && k.len() <= 3 && k.bytes().all(|c| c.is_ascii_digit()), "entry {} is {:?}", i, k);
        ensure!(i < bytes.len(), "entry {} ({}) beyond the {} input bytes", i, k, bytes.len());
        ensure!(k.parse::<u32>().ok() == Some(bytes[i] as u32), "entry {} is {} instead of {}", i, k, bytes[i]);
    }
    ensure!(toks.len() == bytes.len(), "{} entries for {} bytes", toks.len(), bytes.len());
    Ok(())
}
fn convert(r: &mut Run, d: &Dir, bytes: &[u8]) -> Res {
    std::fs::write(d.0.join("input.wav"), bytes).map_err(|e| e.to_string())?;
    r.steps(bytes.len() as u64 + 1);
    ensure!(run(d, None)?, "failed on a readable input and a writable output");
    let out = std::fs::read(d.0.join("output.rs")).map_err(|e| e.to_string())?;
    judge(&out, bytes)?;
    r.outcome(hash(&out.split(|c| *c == b'\n').map(|l| l.len()).collect::<Vec<_>>()));
    Ok(())
}
const V: [[u8; 4]; 3] = [[7, 0, 9, 5], [42, 10, 99, 61], [200, 100, 255, 128]];
fn show(b: &[u8]) -> String { if b.len() <= 80 { format!("{:?}", b) } else { format!("{} bytes {:?}..", b.len(), &b[..80]) } }

fn c30(c: &mut Ctx) {
    if !exe().exists() { eprintln!("bin2str was not built"); std::process::exit(3) }
    let d = Dir(std::env::temp_dir().join(format!("bae-mc-b2s-{}", std::process::id())));
    let _ = std::fs::remove_dir_all(&d.0); std::fs::create_dir_all(&d.0).expect("scratch directory");

    c.section("every byte value", "every file of 0 and 1 bytes; every value at every position of a 3-byte file; all 256 values in a row, rising and falling");
    for n in 0..=256usize { let b: Vec<u8> = if n == 0 { vec![] } else { vec![(n - 1) as u8] }; c.case(|| show(&b), |r| convert(r, &d, &b)); }
    let step = c.q(5usize, 1);
    for v in (0..256usize).step_by(step) { let b = [v as u8, 13, v as u8]; c.case(|| show(&b), |r| convert(r, &d, &b)); let b = [240, v as u8, 0]; c.case(|| show(&b), |r| convert(r, &d, &b)); }
    for rev in 0..2 { let mut b: Vec<u8> = (0..=255).collect(); if rev == 1 { b.reverse() } c.case(|| show(&b), |r| convert(r, &d, &b)); }

    // model: column after the numbers of the current line; the program wraps at most once per number
    c.section("wrapping automaton", "states (line 1..=4, column) reached by numbers of 1, 2 and 3 digits, and for each state every continuation of up to 2 (thorough 3) numbers after it, the file ending there; every such word is run as one file");
    let mut word: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
    let mut todo = VecDeque::from([((1usize, 4usize), vec![])]);
    while let Some((s, w)) = todo.pop_front() {
        if word.contains_key(&s) || s.0 > c.q(3, 4) { continue }
        word.insert(s, w.clone());
        for dg in 1..=3 { let mut col = s.1 + dg + 2; let mut line = s.0; if col > 80 { line += 1; col = 4 + dg + 2 } let mut w2 = w.clone(); w2.push(dg - 1); todo.push_back(((line, col), w2)); }
    }
    let ext = c.q(2, 3);
    for ((line, col), w) in &word { for l in 0..=ext { words(3, l, |x| {
        if l < ext && l != 0 && *line != 1 { return }
        let b: Vec<u8> = w.iter().chain(x).enumerate().map(|(i, k)| V[*k][i % 4]).collect();
        c.case(|| format!("line {} column {} then digits {:?}: {}", line, col, x.iter().map(|k| k + 1).collect::<Vec<_>>(), show(&b)), |r| { r.st(&(*line, *col)); convert(r, &d, &b) });
    }) } }

    c.section("every length", "files of one repeated digit count and of mixed ones, every length 0..=120 (thorough 400)");
    for n in 0..=c.q(120usize, 400) { for k in 0..4 {
        let b: Vec<u8> = (0..n).map(|i| if k < 3 { V[k][i % 4] } else { (i * 37 + 11) as u8 }).collect();
        if !c.thorough && k < 3 && n % 3 != k { continue }
        c.case(|| show(&b), |r| convert(r, &d, &b)); } }
    c.section("runs of one value", "files of one value (0, 10, 13, 26, 32, 255), or ending or beginning in a run of it, of lengths 1..=8, around 2^k for k up to 13, and 600, 1000, 5000");
    for v in [0u8, 10, 13, 26, 32, 255] { for n in (1..=8usize).chain((5..=13).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1])).chain([600, 1_000, 5_000]) { for k in 0..3 { if !c.thorough && n > 8 && (n + k + v as usize) % 3 != 0 { continue }
        let b: Vec<u8> = (0..n).map(|i| if k == 0 || (k == 1) == (i >= n / 2) { v } else { (i * 37 + 11) as u8 }).collect(); c.case(|| show(&b), |r| convert(r, &d, &b)) } } }
    c.section("large files", "4096 to 3000000 bytes"); c.witness();
    for n in [4_096usize, 65_535, 65_536, 65_537, 400_000, 1_048_577, 1_100_000, 3_000_000] { let b: Vec<u8> = (0..n).map(|i| (i * i / 7 + i * 31) as u8).collect(); c.case(|| show(&b), |r| convert(r, &d, &b)); }

    c.section("existing output", "an output file from an earlier, longer or shorter run is replaced: every pair of lengths of 0..=5 and 200 bytes");
    for x in [0usize, 1, 2, 3, 4, 5, 200] { for y in [0usize, 1, 2, 3, 4, 5, 200] { c.case(|| format!("{} bytes, then {} bytes", x, y), |r| { convert(r, &d, &vec![123; x])?; convert(r, &d, &vec![45; y]) }); } }

    c.section("full destination", "the output may grow to every size from nothing to the whole table: success only if the whole table is there");
    let lens: &[usize] = c.q(&[0usize, 1, 30, 100], &[0, 1, 2, 15, 30, 100, 333]);
    for &n in lens {
        let b: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        let full = std::cell::Cell::new(usize::MAX);
        c.case(|| format!("{} bytes, no limit", n), |r| convert(r, &d, &b));
        { let _ = std::fs::write(d.0.join("input.wav"), &b); let _ = run(&d, None); full.set(std::fs::read(d.0.join("output.rs")).map(|o| o.len()).unwrap_or(0)); }
        for lim in 0..=full.get() + 1 { c.case(|| format!("{} bytes, output may grow to {} of {} bytes", n, lim, full.get()), |r| {
            std::fs::write(d.0.join("input.wav"), &b).map_err(|e| e.to_string())?; let _ = std::fs::remove_file(d.0.join("output.rs"));
            r.step(); let ok = run(&d, Some(lim as u64))?;
            let out = std::fs::read(d.0.join("output.rs")).unwrap_or_default();
            r.outcome(hash(&(n, ok)));
            if lim >= full.get() { ensure!(ok, "failed although the table fits"); return judge(&out, &b) }
            if ok { return judge(&out, &b).map_err(|e| format!("success reported with {} of {} bytes written: {}", out.len(), full.get(), e)) }
            Ok(()) }); }
    }
    c.section("unusable files", "no input, input that cannot be read, output that cannot be created or takes nothing: never reported as success");
    let clean = || { for f in ["input.wav", "output.rs"] { let p = d.0.join(f); let _ = std::fs::remove_file(&p); let _ = std::fs::remove_dir(&p); } };
    for k in 0..5 { c.case(|| ["no input.wav", "input.wav is a directory", "output.rs is a directory", "output.rs leads to a full device", "output.rs leads into a missing directory"][k].into(), |r| {
        clean(); r.step();
        let p = |f: &str| d.0.join(f);
        let e = |e: std::io::Error| e.to_string();
        if k > 1 { std::fs::write(p("input.wav"), b"abc").map_err(e)? }
        match k { 0 => {} 1 => std::fs::create_dir(p("input.wav")).map_err(e)?, 2 => std::fs::create_dir(p("output.rs")).map_err(e)?, 3 => symlink("/dev/full", p("output.rs")).map_err(e)?, _ => symlink("nowhere/output.rs", p("output.rs")).map_err(e)? }
        let ok = run(&d, None)?; clean();
        ensure!(!ok, "reported success"); r.outcome(k as u64); Ok(()) }); }
    c.section("input in pieces", "input.wav is a pipe fed in two pieces, every split of a 24-byte file"); 
    for cut in 0..=24usize { c.case(|| format!("pieces of {} and {} bytes", cut, 24 - cut), |r| {
        clean(); let p = d.0.join("input.wav");
        let cp = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        ensure!(unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } == 0, "mkfifo");
        let b: Vec<u8> = (0..24).map(|i| (i * 37 + 11) as u8).collect(); let (b1, p1) = (b.clone(), p.clone());
        let feeder = std::thread::spawn(move || { use std::io::Write; let mut f = std::fs::OpenOptions::new().write(true).open(p1).unwrap(); let _ = f.write_all(&b1[..cut]); std::thread::sleep(std::time::Duration::from_millis(3)); let _ = f.write_all(&b1[cut..]); });
        r.steps(3);
        let ok = run(&d, None);
        // unblocks the feeder if the program never opened the pipe
        { use std::os::unix::fs::OpenOptionsExt; let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&p); }
        let _ = feeder.join();
        let out = std::fs::read(d.0.join("output.rs")).unwrap_or_default(); clean();
        ensure!(ok?, "failed"); judge(&out, &b) }); }
}
