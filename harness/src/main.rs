mod engine;
mod c_osc;
mod c_resample;
mod c_wav;
mod c_format;
mod c_utils;
mod c_mod;
mod c_filt;
mod c_sound;
mod c_graph;
mod c_chan;
mod c_clone;
mod c_bin;
mod c_pipe;
mod c_unity;
mod c_mem;
mod c_arr;
mod c_wild;
mod wavref;

use engine::*;
use std::collections::HashMap;
use std::time::{Duration, Instant};

pub struct Check { pub id: &'static str, pub level: &'static str, pub run: fn(&mut Ctx), pub assumptions: &'static [&'static str], pub one_process: bool }

fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(c_osc::checks());
    v.extend(c_resample::checks());
    v.extend(c_wav::checks());
    v.extend(c_format::checks());
    v.extend(c_utils::checks());
    v.extend(c_mod::checks());
    v.extend(c_filt::checks());
    v.extend(c_sound::checks());
    v.extend(c_graph::checks());
    v.extend(c_chan::checks());
    v.extend(c_clone::checks());
    v.extend(c_bin::checks());
    v.extend(c_pipe::checks());
    v.extend(c_unity::checks());
    v.extend(c_mem::checks());
    v.extend(c_wild::checks());
    v.extend(c_arr::checks());
    v
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

/// known_findings.txt: lines "known: property=<id> key=<key> <what fails>" (suppress + announce) and
/// "fixed: property=<id> <commit> <what failed>" (suppress nothing).
fn known(root: &str, prop: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("known: ") else { continue };
            let mut it = r.splitn(3, ' ');
            let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", prop) { if let Some(k) = k.strip_prefix("key=") { m.insert(k.to_string(), w.to_string()); } }
        }
    }
    m
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { eprintln!("usage: bae-mc <id>|list [--tier quick|thorough] [--replay FILE]"); std::process::exit(2) }
    if a[1] == "list" { for c in checks() { println!("{}", c.id) } return }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let id = a[1].clone();
    let Some(c) = checks().into_iter().find(|c| c.id == id) else { eprintln!("unknown property {}", id); std::process::exit(2) };
    let mut tier = arg(&a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let mut only = arg(&a, "--only").map(|s| s.parse::<u64>().unwrap());
    if let Some(f) = arg(&a, "--replay") {
        let t = std::fs::read_to_string(&f).expect("replay file");
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("case: ") { only = Some(x.parse().unwrap()) }
            if let Some(x) = l.strip_prefix("tier: ") { tier = x.to_string() }
        }
    }
    let thorough = tier == "thorough";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let replays = format!("{}/replays", root);
    let evid = format!("{}/evidence/{}.json", root, id);
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));

    if a.iter().any(|x| x == "--worker") {
        let as_limit: u64 = 12 << 30;
        unsafe { let l = libc::rlimit { rlim_cur: as_limit, rlim_max: as_limit }; libc::setrlimit(libc::RLIMIT_AS, &l);
                 let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &z); }
        install_panic_hook();
        let t0 = Instant::now();
        let shard = arg(&a, "--shard").map(|s| { let (i, n) = s.split_once('/').unwrap(); (i.parse().unwrap(), n.parse().unwrap()) }).unwrap_or((0, 1));
        let mut ctx = Ctx::new(Opts { shard, prop: id.clone(), thorough, seed, only, crumb: arg(&a, "--crumb"), known: known(&root, &id) });
        (c.run)(&mut ctx);
        if let Some(p) = arg(&a, "--dump") { ctx.dump(&p); std::process::exit(0) }
        std::process::exit(ctx.finish(t0.elapsed().as_secs_f64(), None, &replays, c.level, c.assumptions));
    }

    // supervisor: the cases are dealt out to worker processes, which it watches and whose results it adds up
    let hang = Duration::from_secs(if thorough { 300 } else { 60 });
    let cap = Duration::from_secs(if thorough { 14_400 } else { 700 });
    let exe = std::env::current_exe().unwrap();
    let tmp = format!("/tmp/bae-mc-{}-{}", id, std::process::id());
    struct W { ch: std::process::Child, crumb: String, dump: String, last: (u64, Instant), done: bool }
    let read = |p: &str| { let b = std::fs::read(p).unwrap_or_default(); if b.len() >= 8 { u64::from_le_bytes(b[..8].try_into().unwrap()) } else { u64::MAX } };
    // Ok(exit codes are all 0 or 1, the largest), or the first crash/hang and its case
    let run = |only: Option<u64>, shards: usize, dumps: &mut Vec<String>| -> Result<i32, (String, u64)> {
        let mut ws: Vec<W> = (0..shards).map(|i| {
            let (crumb, dump) = (format!("{}-{}.crumb", tmp, i), format!("{}-{}.part", tmp, i));
            let _ = std::fs::write(&crumb, [0xffu8; 64]);
            let mut cmd = std::process::Command::new(&exe);
            cmd.arg(&id).arg("--worker").arg("--tier").arg(&tier).arg("--crumb").arg(&crumb);
            if let Some(o) = only { cmd.arg("--only").arg(o.to_string()); } else { cmd.arg("--shard").arg(format!("{}/{}", i, shards)).arg("--dump").arg(&dump); dumps.push(dump.clone()); }
            W { ch: cmd.spawn().expect("spawn worker"), crumb, dump, last: (u64::MAX, Instant::now()), done: false }
        }).collect();
        let t0 = Instant::now();
        let mut out: Result<i32, (String, u64)> = Ok(0);
        'all: loop {
            for w in ws.iter_mut().filter(|w| !w.done) {
                if let Some(s) = w.ch.try_wait().unwrap() {
                    use std::os::unix::process::ExitStatusExt;
                    w.done = true;
                    match s.code() { Some(c) => { if let Ok(x) = out.as_mut() { *x = (*x).max(c) } } None => { out = Err((format!("killed by signal {}", s.signal().unwrap_or(0)), read(&w.crumb))); break 'all } }
                    continue;
                }
                let n = read(&w.crumb);
                if n != w.last.0 { w.last = (n, Instant::now()) }
                if w.last.1.elapsed() > hang { out = Err((format!("did not return within {} s", hang.as_secs()), n)); break 'all }
            }
            if ws.iter().all(|w| w.done) { break }
            if t0.elapsed() > cap { out = Ok(3); eprintln!("wall cap reached"); break }
            std::thread::sleep(Duration::from_millis(10));
        }
        for w in ws.iter_mut() { if !w.done { let _ = w.ch.kill(); let _ = w.ch.wait(); } let _ = std::fs::remove_file(&w.crumb); if out.is_err() { let _ = std::fs::remove_file(&w.dump); } }
        out
    };
    let t0 = Instant::now();
    let shards = if only.is_some() || c.one_process { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).min(8) };
    let mut dumps = vec![];
    let rc = match run(only, shards, &mut dumps) {
        Ok(0) if only.is_none() => {
            let mut ctx = Ctx::new(Opts { shard: (0, 1), prop: id.clone(), thorough, seed, only, crumb: None, known: known(&root, &id) });
            for d in &dumps { ctx.absorb(d) }
            ctx.finish(t0.elapsed().as_secs_f64(), Some(&evid), &replays, c.level, c.assumptions)
        }
        Ok(0) => 0, Ok(1) if only.is_some() => 1,
        Ok(x) => { eprintln!("worker error: exit {}", x); 3 }
        Err((e, n)) => {
            // the code under test crashed or hung: confirm by replaying that case alone in a fresh process
            println!("worker {} in case {}; replaying that case alone", e, n);
            let r2 = if n == u64::MAX { Ok(0) } else { run(Some(n), 1, &mut vec![]) };
            match r2 {
                Err((e2, n2)) if n2 == n => {
                    let p = write_replay(&replays, &id, thorough, n, "(crash)", "see the REPLAY line printed by the replay command", &format!("process {}", e2));
                    let _ = std::fs::write(&evid, format!("{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"other\",\"coverage\":{{\"explanation\":\"run ended at case {}: the code under test {}\"}},\"wall_s\":0,\"violations\":1}}\n", id, tier, seed, n, e2));
                    println!("VIOLATION property={} replay={}", id, p);
                    println!("  case {}: process {}", n, e2);
                    1
                }
                Ok(1) => 1,
                other => { eprintln!("crash not reproduced ({:?}); no verdict", other.map_err(|e| e.0)); 3 }
            }
        }
    };
    for d in &dumps { let _ = std::fs::remove_file(d); }
    std::process::exit(rc);
}
