//! C14 ADSR, C15 delay/echo, C18 generic filter, C19 envelope follower, gain, passthrough.
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::modifiers::*;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C14", level: "model_checking", run: c14, assumptions: &["a stage may start counting on the sample before or after its boundary (half-open or closed convention); durations that are not whole samples get one more sample of slack per stage", "gain tolerance 2e-6 + 2e-6 per 1000 samples"] },
        Check { one_process: false, id: "C15", level: "model_checking", run: c15, assumptions: &["durations that round to the same whole sample count to the nanosecond are whole", "at exact half samples either neighbour is accepted"] },
        Check { one_process: false, id: "C18", level: "model_checking", run: c18, assumptions: &["dyadic coefficients and inputs; tolerance 1e-5 relative for sums whose order matters"] },
        Check { one_process: false, id: "C19", level: "model_checking", run: c19, assumptions: &["the recurrence is checked against the previously observed output, tolerance 1e-6 relative"] },
    ]
}

// ---------------------------------------------------------------- C14
/// duration of q quarter samples
fn quarter(q: u64) -> Duration { Duration::from_nanos((q as u128 * 1_000_000_000 / 192_000) as u64 + if (q * 1_000_000_000) % 192_000 * 2 >= 192_000 { 1 } else { 0 }) }

/// The ideal un-released gain at time t (in samples); jumps (zero-length stages) are filled in by hull().
fn env(a: f64, d: f64, s: f64, t: f64) -> f64 {
    if t <= 0.0 { 0.0 } else if t < a { t / a } else if t < a + d { 1.0 - (1.0 - s) * (t - a) / d } else { s }
}
fn hull(a: f64, d: f64, s: f64, lo: f64, hi: f64) -> (f64, f64) {
    let mut v = vec![env(a, d, s, lo), env(a, d, s, hi)];
    if lo <= a && a <= hi { v.push(1.0) }
    if lo <= a + d && a + d <= hi { v.push(s); if d == 0.0 { v.push(1.0) } }
    if lo <= 0.0 { v.push(0.0) }
    (v.iter().cloned().fold(f64::MAX, f64::min), v.iter().cloned().fold(f64::MIN, f64::max))
}

/// One whole life: durations in quarter samples, sustain in dB, release requests before sample index `rel[i]`.
fn adsr(r: &mut Run, q: [u64; 3], db: f64, rel: &[u64], n: u64, inputs: &[f32]) -> Res {
    let mut e = ADSR::new(quarter(q[0]), quarter(q[1]), db, quarter(q[2]));
    let mut twin = ADSR::new(quarter(q[0]), quarter(q[1]), db, quarter(q[2]));
    // durations as represented (whole nanoseconds), in samples
    let sm = |q: u64| quarter(q).as_nanos() as f64 * 48e-6;
    let (a, d, rt) = (sm(q[0]), sm(q[1]), sm(q[2]));
    let s = if db > 0.0 { 1.0 } else { 10f64.powf(db / 20.0) };
    let frac = |x: u64| if quarter(x).as_nanos() * 48_000 % 1_000_000_000 == 0 { 0.0 } else { 1.0 };
    let slack = frac(q[0]) + frac(q[1]);
    let mut released: Option<(u64, f64)> = None;
    let mut last = 0f64;
    let mut hist = [f64::NAN; 3];
    let mut ended = false;
    for i in 0..n {
        for &x in rel { if x == i { e.release(); twin.release(); if released.is_none() { released = Some((i, last)); hist = [f64::NAN; 3] } } }
        let x = inputs[(i as usize) % inputs.len()];
        let y = twin.process(x);
        let g = e.process(1.0) as f64;
        r.step();
        ensure!(g.is_finite() && g >= 0.0 && g <= 1.0, "gain at sample {} is {}", i, g);
        ensure!(close(y as f64, x as f64 * g, 1e-6 * (x.abs() as f64)), "output at sample {} is {} for input {} and gain {}", i, y, x, g);
        let tol = 2e-6 + i as f64 * 2e-9;
        let stage;
        match released {
            None => {
                let (lo, hi) = hull(a, d, s, i as f64 - slack, i as f64 + 1.0);
                ensure!(g >= lo - tol && g <= hi + tol, "gain at sample {} is {}, expected within [{}, {}] (attack {} decay {} sustain {} in samples/linear)", i, g, lo, hi, a, d, s);
                let t = i as f64;
                stage = if t + 1.0 < a { 1 } else if t > a + slack + 3.0 && t + 1.0 < a + d { 2 } else if t > a + d + slack + 3.0 { 3 } else { 0 };
            }
            Some((t0, g0)) => {
                let m = (i - t0) as f64;
                let sl = frac(q[2]);
                let f = |t: f64| if rt <= 0.0 { if t < 0.0 { g0 } else { 0.0 } } else { g0 * (1.0 - (t / rt).max(0.0)).max(0.0) };
                let lo = f(m + 1.0); let hi = if m - sl <= 0.0 { g0 } else { f(m - sl) };
                ensure!(g >= lo - tol && g <= hi + tol, "gain {} samples after a release at sample {} (gain {}) is {}, expected within [{}, {}] for a release of {} samples", m, t0, g0, g, lo, hi, rt);
                if ended || m > rt + 1.0 { ensure!(g == 0.0 && y == 0.0, "gain is {} (output {}) {} samples after the release; the release of {} samples has ended", g, y, m, rt); }
                if g == 0.0 && m >= 1.0 { ended = true }
                stage = if m >= 1.0 && m + 1.0 < rt { 4 } else { 5 };
            }
        }
        // straight lines: no curvature inside a stage
        hist = [hist[1], hist[2], g];
        if stage == 1 || stage == 2 || stage == 3 || stage == 4 {
            let c = hist[0] - 2.0 * hist[1] + hist[2];
            let (len, h) = match stage { 1 => (a, 1.0), 2 => (d, 1.0 - s), 3 => (1.0, 1.0), _ => (rt, released.unwrap().1) };
            let mm = released.map(|x| i - x.0).unwrap_or(i);
            if mm >= 2 && c.is_finite() && len > 4.0 { ensure!(c.abs() <= 3e-7 + 1e-3 * h / len, "gain is not linear around sample {}: {:?}", i, hist); }
            if stage == 3 { ensure!(close(g, s, 1e-6), "sustain gain at sample {} is {} instead of {}", i, g, s) }
        }
        r.st(&(stage, q, db.to_bits(), (g * 1e6) as i64, released.is_some()));
        last = g;
    }
    r.outcome(hash(&(q, db.to_bits(), rel.to_vec(), last.to_bits())));
    Ok(())
}

fn c14(c: &mut Ctx) {
    let inf = f64::NEG_INFINITY;
    let ts: Vec<u64> = c.q(vec![0, 4, 8, 12, 24, 36, 60], vec![0, 4, 8, 12, 16, 20, 24, 36, 60, 120]);
    let dbs = [0.0, -6.0, inf, 6.0, -20.0, -0.001, -120.0, f64::INFINITY];
    let ins = [0.5f32, -1.0, 0.0, 3.0, 1.0, -0.25, 1e-3, 1e-12, -1e12, 2.5e-7];
    c.section("whole-sample envelopes", format!("every (attack, decay, release) in {:?} quarter samples x sustain {:?} dB x release before every sample index (or never) up to attack+decay+4", ts, dbs));
    for &a in &ts { for &d in &ts { for &rt in &ts { for &db in &dbs {
        let end = (a + d) / 4 + 4;
        for rel in (0..=end).map(|x| vec![x]).chain(std::iter::once(vec![])) {
            let n = end + rt / 4 + 6;
            c.case(|| format!("ADSR({},{},{} dB,{}) quarter samples, release before sample {:?}", a, d, db, rt, rel), |r| adsr(r, [a, d, rt], db, &rel, n, &ins));
        }
    } } } }
    let fr: Vec<u64> = c.q(vec![1, 2, 3, 5, 6, 7, 11, 14], vec![1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 21]);
    c.section("fractional durations", format!("every (attack, decay, release) in {:?} quarter samples, sustain 0,-6,-inf dB, every release time", fr));
    for &a in &fr { for &d in &fr { for &rt in &fr { for db in [0.0, -6.0, inf] {
        let end = (a + d) / 4 + 5;
        for rel in (0..=end).map(|x| vec![x]).chain(std::iter::once(vec![])) {
            let n = end + rt / 4 + 6;
            c.case(|| format!("ADSR({},{},{} dB,{}) quarter samples, release before sample {:?}", a, d, db, rt, rel), |r| adsr(r, [a, d, rt], db, &rel, n, &ins));
        }
    } } } }
    let rep: Vec<[u64; 3]> = vec![[0, 0, 24], [12, 16, 20], [24, 0, 12], [0, 20, 0], [12, 12, 48], [8, 8, 0]];
    c.section("repeated release", format!("durations {:?} quarter samples, sustain 0,-6,-inf dB, every pair of release times and every burst of consecutive releases", rep));
    for &q in &rep { for db in [0.0, -6.0, inf] {
        let end = (q[0] + q[1]) / 4 + 4; let n = end + q[2] / 4 + 8;
        for t1 in 0..end { for t2 in t1..n {
            for rel in [vec![t1, t2], (t1..=t2).collect::<Vec<_>>()] {
                c.case(|| format!("ADSR({:?} quarter samples, {} dB), release before samples {:?}", q, db, rel), |r| adsr(r, q, db, &rel, n, &ins));
            }
        } }
    } }
    let lens: Vec<u64> = c.q(vec![0, 48, 4_800, 24_000], vec![0, 48, 480, 4_800, 24_000, 480_000]);
    c.section("silent input", "every (attack, decay, release) in 0, 3, 7 samples, sustain 0,-6 dB, fed silence for the first N samples and 1 after (the envelope runs on during silence), every N and every release time up to 24; then N around powers of two up to 5000 (thorough 300000)");
    for a in [0u64, 12, 28] { for d in [0u64, 12, 28] { for rt in [0u64, 12, 28] { for db in [0.0, -6.0] { for n in 0..=24usize { for rel in 0..=24u64 {
        let xs: Vec<f32> = (0..60).map(|i| if i < n { 0.0 } else { 1.0 }).collect();
        c.case(|| format!("ADSR({},{},{} dB,{}) quarter samples, {} samples of silence, release before sample {}", a, d, db, rt, n, rel), |r| adsr(r, [a, d, rt], db, &[rel], 60, &xs));
    } } } } } }
    for n in stretches(c.q(5_000, 300_000)) { for q in [[12u64, 28, 12], [4_000, 8_000, 4_000], [0, 0, 0]] { for rel in [n as u64 / 2, n as u64 + 3] {
        c.case(|| format!("ADSR({:?} quarter samples,-6 dB), {} samples of silence, release before sample {}", q, n, rel), |r| { let mut xs = vec![0.0; n]; xs.extend((0..1_200).map(|_| 1.0)); adsr(r, q, -6.0, &[rel], n as u64 + 1_200, &xs) });
    } } }
    c.section("musical durations", format!("every (attack, decay, release) in {:?} samples, sustain 0,-3,-60,-inf dB, release in the middle of each stage or never", lens)); c.witness();
    for &a in &lens { for &d in &lens { for &rt in &lens { for db in [0.0, -3.0, -60.0, inf] {
        for rel in [a / 2, a, a + d / 2, a + d + 10, u64::MAX] {
            let n = if rel == u64::MAX { a + d + 10 } else { rel + rt + 10 };
            let q = [a * 4, d * 4, rt * 4];
            c.case(|| format!("ADSR({},{},{} samples,{} dB), release before sample {}", a, d, rt, db, rel), |r| adsr(r, q, db, &[rel], n, &ins));
        }
    } } } }
    let hold = c.q(vec![100_000u64, 16_777_300], vec![100_000, 16_777_300, 200_000_000]);
    c.section("long holds", format!("sustain held for {:?} samples, then released (once, and on every sample of the release)", hold)); c.witness();
    for &h in &hold { for db in [0.0, -6.0, -40.0] { for rt in [0u64, 1, 100, 4_800] { for burst in [false, true] {
        c.case(|| format!("ADSR(10,20,{},{} dB) samples held until sample {}, release {}", rt, db, h, if burst { "repeated" } else { "once" }), |r| {
            let mut e = ADSR::new(quarter(40), quarter(80), db, quarter(rt * 4));
            let s = 10f64.powf(db / 20.0);
            for i in 0..h { let g = e.process(1.0) as f64; if i > 40 { ensure!(close(g, s, 1e-6), "gain at sample {} is {} instead of {}", i, g, s) } }
            let mut g0 = s;
            for i in 0..rt + 50 { if i == 0 || burst { e.release() } let g = e.process(1.0) as f64; let f = |t: f64| if rt == 0 { 0.0 } else { s * (1.0 - t / rt as f64).max(0.0) };
                ensure!(g >= f(i as f64 + 1.0) - 2e-5 && g <= f(i as f64).max(if i == 0 { s } else { 0.0 }) + 2e-5 && g <= g0 + 1e-6, "gain {} samples after the release is {}", i, g); g0 = g;
                ensure!(i <= rt + 1 || g == 0.0, "gain {} samples after a release of {} is {}", i, rt, g) }
            r.steps(h + rt + 50); r.st(&(h, rt, burst)); r.outcome(g0.to_bits()); Ok(()) });
    } } } }
    let kt = c.q(24u32, 28);
    c.section("stages of every size", format!("one stage of 2^k/4 samples and of (2^k + 2^(k-1) + j)/4 samples, j in 0..=3, k in 6..={}, the others 0 or 10 samples", kt));
    for k in 6..=kt { for j in 0..5u64 { for w in 0..3 { for other in [0u64, 40] {
        let mut q = [other; 3]; q[w] = if j == 4 { 1u64 << k } else { (1u64 << k) + (1 << (k - 1)) + j };
        let on = (q[0] + q[1]) / 4 + 40; let (rel, n) = if w == 2 { (25, 25 + q[2] / 4 + 40) } else { (u64::MAX, on) };
        c.case(|| format!("ADSR({:?} quarter samples, -6 dB), release before sample {}", q, rel), |r| adsr_frac(r, q, -6.0, rel, n));
    } } } }
    c.section("sustain levels", "every sustain level from -200 to 20 dB in steps of 1/8 dB, release at 9 places of a short envelope");
    for k in -1600..=160i32 { for rel in 0..9u64 { let db = k as f64 / 8.0; c.case(|| format!("ADSR(12,16,{} dB,20) quarter samples, release before sample {}", db, rel * 2), |r| adsr(r, [12, 16, 20], db, &[rel * 2], 30, &ins)); } }
    c.section("deep sustain levels", "every sustain level from -740 to -100 dB in steps of 1/2 dB, inputs 1e30 and -3e20: output in the sustain stage to a millionth of its size, and when released");
    for k in -1480..=-200i32 { let db = k as f64 / 2.0; c.case(|| format!("sustain at {} dB", db), |r| {
        let mut e = ADSR::new(quarter(8), quarter(12), db, quarter(16)); let s = 10f64.powf(db / 20.0);
        for _ in 0..7 { e.process(0.5); r.step() }
        for x in [1e30f32, -3e20, 1e30] { let y = e.process(x); r.step(); ensure!(close(y as f64, x as f64 * s, 1e-6 * (x as f64 * s).abs() + 1e-44), "sustain output is {} for {}, expected {}", y, x, x as f64 * s) }
        e.release(); for m in 1..=4 { let y = e.process(1e30); r.step(); let (lo, hi) = (1e30 * s * (1.0 - m as f64 / 4.0), 1e30 * s * (1.0 - (m as f64 - 1.0) / 4.0)); ensure!(y as f64 >= lo - 1e-5 * 1e30 * s - 1e-44 && y as f64 <= hi * (1.0 + 1e-5) + 1e-44, "output {} samples after the release is {}, expected within {} {}", m, y, lo, hi) }
        r.st(&k); r.outcome(k as u64); Ok(()) }); }
    c.section("anything after the release", "every word of length 4 over inf, -inf, NaN, 1, 0 and the largest number after a release of 0, 1, 3, 40 samples that has ended: exactly 0; released in the attack, decay and sustain");
    let wild = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1.0, 0.0, f32::MAX];
    for rt in [0u64, 4, 12, 160] { for at in [0usize, 1, 4, 12] { words(wild.len(), 4, |w| c.case(|| format!("released after {} samples, release of {} quarter samples, then {:?}", at, rt, w.iter().map(|i| wild[*i]).collect::<Vec<_>>()), |r| {
        let mut e = ADSR::new(quarter(12), quarter(12), -6.0, quarter(rt)); for _ in 0..at { e.process(0.5); } e.release(); for _ in 0..rt / 4 + 2 { e.process(0.5); }
        for i in w { let y = e.process(wild[*i]); r.step(); ensure!(y == 0.0, "output {} for input {} after the end of the release", y, wild[*i]) }
        r.outcome(hash(&(rt, at))); Ok(()) })) } }
    c.section("long stages", "attack, decay or release of 60 s and 1200 s, one stage at a time"); c.witness();
    for secs in c.q(vec![60u64, 400], vec![60, 400, 1200, 3600]) { for w in 0..3 {
        let mut q = [0u64; 3]; q[w] = secs * 192_000;
        let (rel, n) = if w == 2 { (5, secs * 48_000 + 20) } else { (u64::MAX, secs * 48_000 + 20) };
        let db = -6.0;
        c.case(|| format!("stage {} lasts {} s, others 0, sustain {} dB", w, secs, db), |r| adsr_long(r, q, db, rel, n));
    } }
}

/// As adsr() without the per-sample bookkeeping.
fn adsr_frac(r: &mut Run, q: [u64; 3], db: f64, rel: u64, n: u64) -> Res {
    let mut e = ADSR::new(quarter(q[0]), quarter(q[1]), db, quarter(q[2]));
    let (a, d, rt) = (q[0] as f64 / 4.0, q[1] as f64 / 4.0, q[2] as f64 / 4.0);
    let s = 10f64.powf(db / 20.0);
    let (mut last, mut g0) = (0.0, 0.0);
    for i in 0..n {
        if i == rel { e.release(); g0 = last }
        let g = e.process(1.0) as f64;
        let (lo, hi) = if i >= rel { let m = (i - rel) as f64; (g0 * (1.0 - (m + 1.0) / rt).max(0.0), g0 * (1.0 - (m - 2.0) / rt).max(0.0).min(1.0)) } else { hull(a, d, s, i as f64 - 2.0, i as f64 + 1.0) };
        ensure!(g >= lo - 1e-5 && g <= hi + 1e-5, "gain at sample {} is {}, expected within [{}, {}]", i, g, lo, hi);
        last = g;
    }
    r.steps(n); r.outcome(hash(&(q, last.to_bits())));
    let want = if rel < n { 0.0 } else { s };
    ensure!(close(last, want, 1e-6), "final gain {} instead of {}", last, want);
    Ok(())
}
/// As adsr() without the per-sample bookkeeping.
fn adsr_long(r: &mut Run, q: [u64; 3], db: f64, rel: u64, n: u64) -> Res {
    let mut e = ADSR::new(quarter(q[0]), quarter(q[1]), db, quarter(q[2]));
    let (a, d, rt) = (q[0] as f64 / 4.0, q[1] as f64 / 4.0, q[2] as f64 / 4.0);
    let s = 10f64.powf(db / 20.0);
    let mut last = 0.0;
    let mut g0 = 0.0;
    for i in 0..n {
        if i == rel { e.release(); g0 = last }
        let g = e.process(1.0) as f64;
        let (lo, hi) = if i >= rel { let m = (i - rel) as f64; (g0 * (1.0 - (m + 1.0) / rt).max(0.0), g0 * (1.0 - m / rt).max(0.0)) } else { hull(a, d, s, i as f64, i as f64 + 1.0) };
        ensure!(g >= lo - 1e-4 && g <= hi + 1e-4, "gain at sample {} is {}, expected within [{}, {}]", i, g, lo, hi);
        last = g;
    }
    r.steps(n);
    r.outcome(last.to_bits());
    let want = if rel < n { 0.0 } else { s };
    ensure!(close(last, want, 1e-6), "final gain {} instead of {}", last, want);
    Ok(())
}

// ---------------------------------------------------------------- C15
fn ns_of(n: u64) -> Duration { Duration::from_nanos(((n as u128 * 1_000_000_000 + 24_000) / 48_000) as u64) }

fn delay_run(r: &mut Run, d: Duration, ns: &[u64], xs: &[f32]) -> Res {
    let mut m = Delay::new(d);
    // which of the admissible lengths does it report?
    let n = match ns.iter().find(|n| { let a = m.get_delay().as_nanos() as i128; let b = ns_of(**n).as_nanos() as i128; (a - b).abs() <= 1 }) {
        Some(n) => *n, None => return Err(format!("Delay of {:?} reports {:?}, expected {:?} samples", d, m.get_delay(), ns)) };
    for i in 0..xs.len() {
        let y = m.process(xs[i]); r.step();
        let w = if i as u64 >= n { xs[i - n as usize] } else { 0.0 };
        r.st(&("d", n, i, y.to_bits()));
        ensure!(y == w, "Delay of {:?} ({} samples): output {} is {} instead of {}", d, n, i, y, w);
        let a = m.get_delay().as_nanos() as i128; let b = ns_of(n).as_nanos() as i128;
        ensure!((a - b).abs() <= 1, "Delay of {} samples reports {:?} after {} samples", n, m.get_delay(), i + 1);
    }
    r.outcome(hash(&(n, xs.iter().map(|x| x.to_bits()).collect::<Vec<_>>())));
    Ok(())
}
fn echo_run(r: &mut Run, d: Duration, ns: &[u64], g: f32, xs: &[f32]) -> Res {
    let mut m = Echo::new(d, g as f64);
    let mut cand: Vec<(u64, Vec<f32>)> = ns.iter().map(|n| (*n, Vec::with_capacity(xs.len()))).collect();
    for i in 0..xs.len() {
        let y = m.process(xs[i]); r.step();
        for (n, ys) in cand.iter_mut() { let fb = if i as u64 >= *n { ys[i - *n as usize] } else { 0.0 }; ys.push(xs[i] + g * fb) }
        r.st(&("e", i, y.to_bits(), g.to_bits()));
        let want: Vec<f32> = cand.iter().map(|x| x.1[i]).collect();
        cand.retain(|(_, ys)| { let w = ys[i]; (y - w).abs() <= 1e-6 * w.abs().max(xs[i].abs()) });
        ensure!(!cand.is_empty(), "Echo of {:?} with gain {}: output {} is {}, expected {:?} for lengths {:?}", d, g, i, y, want, ns);
    }
    r.outcome(hash(&(cand[0].0, g.to_bits(), xs.iter().map(|x| x.to_bits()).collect::<Vec<_>>())));
    Ok(())
}

fn c15(c: &mut Ctx) {
    let al = [0.0f32, 1.0, -0.5, 0.25];
    let gains = [0.5f32, 0.0, 1.0, -1.0, -0.25, 2.0];
    let (len, nm) = c.q((8usize, 9u64), (9, 10));
    c.section("all short words", format!("every input word of length {} over {:?} (then {} zeros and an impulse), lengths 0..={} samples (echo: x gains {:?})", len, al, nm + 2, nm, gains));
    words(al.len(), len, |w| {
        let mut xs: Vec<f32> = w.iter().map(|i| al[*i]).collect();
        xs.extend(vec![0.0; nm as usize + 2]); xs.push(1.0);
        for n in 0..=nm {
            c.case(|| format!("Delay of {} samples, input {:?}", n, xs), |r| delay_run(r, ns_of(n), &[n], &xs));
            // gains rotate with the word so that each (gain, length) sees a sixth of the words, all of them for gain 0.5
            let k = w.iter().sum::<usize>() % 5 + 1;
            for g in [gains[0], gains[k]] { c.case(|| format!("Echo of {} samples gain {}, input {:?}", n, g, xs), |r| echo_run(r, ns_of(n), &[n.max(1)], g, &xs)); }
        }
    });
    let pows = [-132i32, -96, -40, -24, -12, 12, 24, 40, 96];
    c.section("amplitudes", format!("every input word of length 5 over {:?}, scaled by 2^k for k in {:?} and by such a factor changing halfway, lengths 0..=3", al, pows));
    for p in pows { for p2 in [p, 0, (-p).min(96)] { words(al.len(), 5, |w| {
        let xs: Vec<f32> = w.iter().enumerate().map(|(i, j)| al[*j] * pow2(if i < 3 { p } else { p2 })).chain((0..5).map(|_| 0.0)).collect();
        for n in 0..=3 {
            c.case(|| format!("Delay of {} samples, input {:?}", n, xs), |r| delay_run(r, ns_of(n), &[n], &xs));
            c.case(|| format!("Echo of {} samples gain 0.5, input {:?}", n, xs), |r| echo_run(r, ns_of(n), &[n.max(1)], 0.5, &xs));
        }
    }) } }
    let top = c.q(5_000usize, 300_000);
    c.section("long stretches", format!("1, 0.5, then N samples of 0, of 1 or of 1e-6, then 1, -0.5, then enough silence to see everything come out, lengths 0..=4, 63..=65, 255..=257, 1000; N around powers of two and round numbers up to {}", top)); c.witness();
    for n in stretches(top) { for x in [0.0f32, 1.0, 1e-6] { for l in [0u64, 1, 2, 3, 4, 63, 64, 65, 255, 256, 257, 1_000] {
        let xs: Vec<f32> = [1.0, 0.5].iter().cloned().chain((0..n).map(|_| x)).chain([1.0, -0.5]).chain((0..l + 3).map(|_| 0.0)).collect();
        c.case(|| format!("Delay of {} samples: 1, 0.5, {} samples of {}, 1, -0.5, silence", l, n, x), |r| delay_run(r, ns_of(l), &[l], &xs));
        c.case(|| format!("Echo of {} samples gain 0.5: 1, 0.5, {} samples of {}, 1, -0.5, silence", l, n, x), |r| echo_run(r, ns_of(l), &[l.max(1)], 0.5, &xs));
    } } }
    let fb: Vec<f32> = (-100..=40i32).flat_map(|k| [pow2(k), -1.37 * pow2(k)]).collect();
    c.section("feedback gains of every size", "every gain 2^k and -1.37*2^k for k in -100..=40 (and 0.9999999, 1.0000001), lengths 1..=3, three echoes of 4 inputs");
    for g in fb.iter().cloned().chain([0.999_999_94f32, 1.000_000_1, -0.999_999_94, -1.000_000_1]) { for n in 1..=3u64 { for x in [&[1.0f32][..], &[-0.5, 0.25], &[1e-3, 0.0, 0.7]] {
        let mut xs = x.to_vec(); xs.resize(3 * n as usize + 1, 0.0); if g.abs() > 1e9 { xs.truncate(3 * n as usize) }
        c.case(|| format!("Echo of {} samples gain {:e}, input {:?}", n, g, xs), |r| echo_run(r, ns_of(n), &[n], g, &xs)); } } }
    let sp = [0.0f32, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, 1e-45, -0.0];
    c.section("any signal", format!("every input word of length 5 over {:?}, delays of 0..=4 samples, then zeros: what went in comes out", sp));
    words(8, 5, |w| { let xs: Vec<f32> = w.iter().map(|i| sp[*i]).chain((0..6).map(|_| 0.0)).collect(); for n in 0..=4usize { c.case(|| format!("Delay of {} samples, input {:?}", n, xs), |r| {
        let mut m = Delay::new(ns_of(n as u64));
        for i in 0..xs.len() { let y = m.process(xs[i]); let w = if i >= n { xs[i - n] } else { 0.0 }; r.step(); r.st(&(n, i, w.to_bits())); ensure!(y == w || y.is_nan() && w.is_nan(), "output {} is {} instead of {}", i, y, w) }
        Ok(()) }); } });
    c.section("very long lines", "the length of delays of more than 2^22 samples"); c.witness();
    for n in [4_300_001u64, 5_000_003, 9_999_991, 16_777_217, 20_000_003] { c.case(|| format!("Delay of {} samples", n), |r| {
        let m = Delay::new(ns_of(n)); r.step();
        ensure!((m.get_delay().as_nanos() as i128 - ns_of(n).as_nanos() as i128).abs() <= 4, "a delay of {} samples reports {:?}", n, m.get_delay()); Ok(()) }); }
    let step = c.q(211u64, 53);
    c.section("durations", format!("every duration of m*{} ns up to 1 ms (never a tie except as accepted), impulse and ramp", step));
    for m in 0..=1_000_000 / step {
        let ns = m * step; let d = Duration::from_nanos(ns);
        let num = ns as u128 * 48_000; // /1e9 samples
        let near = ((num + 500_000_000) / 1_000_000_000) as u64;
        let tie = num % 1_000_000_000 == 500_000_000;
        let lens: Vec<u64> = if tie { vec![near - 1, near] } else { vec![near] };
        let xs: Vec<f32> = (0..110).map(|i| if i == 0 { 1.0 } else if i > 60 { 0.0 } else { i as f32 / 64.0 }).collect();
        c.case(|| format!("Delay of {} ns", ns), |r| delay_run(r, d, &lens, &xs));
        let whole = ns_of(near).as_nanos() as i128 - ns as i128;
        let lo = (num / 1_000_000_000) as u64;
        let lens: Vec<u64> = if whole.abs() <= 1 { vec![near.max(1)] } else { let mut v = vec![lo.max(1), (lo + 1).max(1)]; v.dedup(); v };
        c.case(|| format!("Echo of {} ns gain -0.5", ns), |r| echo_run(r, d, &lens, -0.5, &xs));
    }
    let top = c.q(4_000u64, 48_000);
    c.section("whole-sample lengths", format!("every length 0..={} samples: impulse at 0 and at 3, read at the expected positions", top));
    for n in 0..=top {
        c.case(|| format!("Delay of {} samples", n), |r| {
            let mut m = Delay::new(ns_of(n));
            for i in 0..n + 6 { let y = m.process(if i == 0 { 1.0 } else if i == 3 { -0.5 } else { 0.0 }); let w = if i == n { 1.0 } else if i == n + 3 { -0.5 } else { 0.0 }; ensure!(y == w, "Delay of {} samples: output {} is {} instead of {}", n, i, y, w) }
            r.steps(n + 6); r.outcome(n); r.st(&("dl", n)); Ok(()) });
        c.case(|| format!("Echo of {} samples", n), |r| {
            let mut m = Echo::new(ns_of(n), 0.5); let nn = n.max(1);
            let mut ys = vec![];
            for i in 0..(2 * nn + 6) as usize { let x = if i == 0 { 1.0 } else if i == 3 { -0.5 } else { 0.0 }; let y = m.process(x); ys.push(x + 0.5 * if i as u64 >= nn { ys[i - nn as usize] } else { 0.0 }); ensure!(y == ys[i], "Echo of {} samples: output {} is {} instead of {}", n, i, y, ys[i]) }
            r.steps(2 * nn + 6); r.outcome(n | 1 << 40); r.st(&("el", n)); Ok(()) });
    }
    let nw = c.q(7, 9);
    c.section("one long life", format!("one line driven through every window of {} inputs over {:?}, lengths 0..=60 samples", nw, al)); c.witness();
    let xs: Vec<f32> = debruijn(al.len(), nw).into_iter().map(|i| al[i]).collect();
    for n in 0..=60 {
        c.case(|| format!("Delay of {} samples", n), |r| delay_run(r, ns_of(n), &[n], &xs));
        for g in [0.5f32, -1.0] { if g == 0.5 || n >= 1 { c.case(|| format!("Echo of {} samples gain {}", n, g), |r| { let xs = if g == 0.5 { &xs[..] } else { &xs[..2000] }; echo_run(r, ns_of(n), &[n.max(1)], g, xs) }); } }
    }
    c.section("long lines and runs", "lengths 1, 480, 4801, 48000, 480000 samples; runs of up to 2000000 samples"); c.witness();
    for n in [1u64, 480, 4_801, 48_000, 480_000] {
        let total = c.q(1_000_000usize, 20_000_000).max(3 * n as usize);
        let x = |i: usize| ((i * 7919 % 257) as f32 - 128.0) / 256.0;
        c.case(|| format!("Delay of {} samples for {} samples", n, total), |r| { let mut m = Delay::new(ns_of(n)); for i in 0..total { let y = m.process(x(i)); let w = if i >= n as usize { x(i - n as usize) } else { 0.0 }; ensure!(y == w, "output {} is {} instead of {}", i, y, w) } r.steps(total as u64); Ok(()) });
        c.case(|| format!("Echo of {} samples gain 0.5 for {} samples", n, total), |r| { let mut m = Echo::new(ns_of(n), 0.5); let mut ys = vec![0f32; n as usize]; for i in 0..total { let y = m.process(x(i)); let k = i % n as usize; let w = x(i) + 0.5 * ys[k]; ensure!((y - w).abs() < 1e-6, "output {} is {} instead of {}", i, y, w); ys[k] = y } r.steps(total as u64); Ok(()) });
    }
}

// ---------------------------------------------------------------- C18
fn generic_run(r: &mut Run, z: &[(usize, f32)], p: &[(usize, f32)], xs: &[f32]) -> Res {
    let mut m = Generic::new(z.iter().cloned().collect(), p.iter().cloned().collect());
    let mut ys: Vec<f64> = Vec::with_capacity(xs.len());
    for i in 0..xs.len() {
        let y = m.process(xs[i]) as f64; r.step();
        let mut w = 0.0; let mut mag = 0f64;
        for &(k, a) in z { if i >= k { let t = a as f64 * xs[i - k] as f64; w += t; mag = mag.max(t.abs()) } }
        for &(k, a) in p { if i >= k + 1 { let t = a as f64 * ys[i - 1 - k]; w += t; mag = mag.max(t.abs()) } }
        r.st(&(z.len(), p.len(), i, (y * 1024.0) as i64));
        ensure!(close(y, w, 1e-5 * mag + 1e-44), "taps {:?} / feedback {:?}: output {} is {} instead of {} (inputs {:?})", z, p, i, y, w, &xs[..=i.min(20)]);
        ys.push(y);
    }
    r.outcome(hash(&ys.iter().map(|y| y.to_bits()).collect::<Vec<_>>()));
    Ok(())
}

fn c18(c: &mut Ctx) {
    let taps: Vec<(usize, f32)> = (0..3).flat_map(|k| [(k, 1.0f32), (k, -0.5)]).collect();
    let mut lists: Vec<Vec<(usize, f32)>> = vec![];
    for l in 0..=2 { words(taps.len(), l, |w| lists.push(w.iter().map(|i| taps[*i]).collect())) }
    let al = [0.0f32, 1.0, -0.5];
    let len = c.q(6, 8);
    c.section("all short tap lists x all short inputs", format!("every feed-forward and feedback list of at most 2 taps from {:?} (any order, repeats), every input word of length {} over {:?}", taps, len, al));
    for z in &lists { for p in &lists { words(3, len, |w| {
        let xs: Vec<f32> = w.iter().map(|i| al[*i]).collect();
        c.case(|| format!("feed-forward {:?} feedback {:?} input {:?}", z, p, xs), |r| generic_run(r, z, p, &xs));
    }) } }
    let ks = [0usize, 1, 2, 5];
    let t2: Vec<(usize, f32)> = ks.iter().flat_map(|k| [(*k, 0.5f32), (*k, -0.25)]).collect();
    let mut l3 = vec![]; for l in 0..=3 { words(t2.len(), l, |w| l3.push(w.iter().map(|i| t2[*i]).collect::<Vec<_>>())) }
    let xs: Vec<f32> = vec![1.0, 0.0, 0.0, -0.5, 0.25, 1.0, 1.0, 0.0, 0.0, 0.0, -1.0, 0.0, 0.5, 0.5];
    c.section("three-tap lists", format!("every pair of lists of at most 3 taps with delays {:?}, one 14-sample input", ks));
    for z in &l3 { for p in &l3 { c.case(|| format!("feed-forward {:?} feedback {:?}", z, p), |r| generic_run(r, z, p, &xs)); } }
    let pows = [-132i32, -96, -40, -24, -12, 12, 24, 40, 96];
    c.section("amplitudes", format!("every pair of lists of at most 1 tap (and 3 two-tap lists) from {:?}, every input word of length 4 over {:?} then 4 zeros, scaled by 2^k for k in {:?} and by such a factor changing halfway; coefficients scaled likewise", taps, al, pows));
    let few: Vec<Vec<(usize, f32)>> = lists.iter().filter(|l| l.len() < 2).cloned().chain([vec![(0, 1.0f32), (1, -0.5)], vec![(2, -0.5), (0, 1.0)], vec![(1, 1.0), (1, 1.0)]]).collect();
    for z in &few { for p in &few { for k in pows { for k2 in [k, 0, (-k).min(96)] { words(3, 4, |w| {
        let xs: Vec<f32> = w.iter().enumerate().map(|(i, j)| al[*j] * pow2(if i < 2 { k } else { k2 })).chain((0..4).map(|_| 0.0)).collect();
        c.case(|| format!("feed-forward {:?} feedback {:?} input {:?}", z, p, xs), |r| generic_run(r, z, p, &xs));
    }) } } } }
    for z in &few { for k in pows { words(3, 5, |w| {
        let xs: Vec<f32> = w.iter().map(|i| al[*i]).collect(); let z: Vec<(usize, f32)> = z.iter().map(|t| (t.0, t.1 * pow2(k))).collect();
        c.case(|| format!("feed-forward {:?} input {:?}", z, xs), |r| generic_run(r, &z, &[], &xs));
        if k < 0 { c.case(|| format!("feedback {:?} input {:?}", z, xs), |r| generic_run(r, &[(0, 1.0)], &z, &xs)); }
    }) } }
    if c.thorough {
        let t4: Vec<(usize, f32)> = vec![(0, 0.5), (1, -0.25), (3, 0.5), (4, 0.25), (1, 0.5)];
        let mut l4 = vec![]; for l in 4..=5 { words(5, l, |w| l4.push(w.iter().map(|i| t4[*i]).collect::<Vec<_>>())) }
        c.section("four- and five-tap lists", "every list of 4 or 5 taps against every list of at most 1 tap, both ways round");
        for a in &l4 { for b in l4.iter().take(0).chain(lists.iter().take(7)) { 
            c.case(|| format!("feed-forward {:?} feedback {:?}", a, b), |r| generic_run(r, a, b, &xs));
            c.case(|| format!("feed-forward {:?} feedback {:?}", b, a), |r| generic_run(r, b, a, &xs));
        } }
    }
    let d = c.q(6usize, 7);
    let wx = [0.0f32, 1.0, f32::MAX, -f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    c.section("overflow and non-finite inputs", format!("one feed-forward and at most one feedback tap of delay 0..=2 and coefficients 1, 2, -0.5, every input word of length {} over {:?}; compared wherever arithmetic in 32 and in 64 bits agrees on the value", d - 1, wx));
    let one: Vec<(usize, f32)> = (0..3).flat_map(|k| [(k, 1.0f32), (k, 2.0), (k, -0.5)]).collect();
    for z in &one { for p in std::iter::once(None).chain(one.iter().map(Some)) { words(7, d - 1, |w| {
        let xs: Vec<f32> = w.iter().map(|i| wx[*i]).chain([0.0, 0.0]).collect();
        c.case(|| format!("feed-forward {:?} feedback {:?} input {:?}", z, p, xs), |r| {
            let mut m = Generic::new(vec![*z].into(), p.iter().map(|t| **t).collect());
            let mut ys: Vec<f32> = vec![];
            for i in 0..xs.len() {
                let y = m.process(xs[i]); r.step();
                let x = if i >= z.0 { xs[i - z.0] } else { 0.0 }; let f = p.map(|t| if i > t.0 { ys[i - 1 - t.0] } else { 0.0 }); let pc = p.map(|t| t.1).unwrap_or(0.0);
                let w32 = z.1 * x + f.map(|f| pc * f).unwrap_or(0.0); let w64 = (z.1 as f64 * x as f64 + f.map(|f| pc as f64 * f as f64).unwrap_or(0.0)) as f32;
                if same(w32, w64) { ensure!(same(y, w32) || close(y as f64, w32 as f64, 1e-6 * w32.abs() as f64), "output {} is {} instead of {}", i, y, w32) } else { return Ok(()) }
                r.st(&(z.0, i, y.to_bits())); ys.push(y);
            }
            r.outcome(hash(&ys.iter().map(|y| y.to_bits()).collect::<Vec<_>>())); Ok(()) }); }) } }
    let nw = c.q(8, 11);
    c.section("one long life", format!("every pair of the short lists above with feedback sum below 1, driven through every window of {} inputs over {:?}", nw, al)); c.witness();
    let w: Vec<f32> = debruijn(3, nw).into_iter().map(|i| al[i]).collect();
    for z in &few { for p in &few { if p.iter().map(|t| t.1.abs()).sum::<f32>() < 1.0 { c.case(|| format!("feed-forward {:?} feedback {:?}", z, p), |r| generic_run(r, z, p, &w)); } } }
    let dmax = c.q(600usize, 5_000);
    c.section("every delay", format!("one tap, and two taps, of every delay 0..={} (and 32767, 32768, 65535, 65536, 70000), on either side", dmax));
    for k in (0..=dmax).chain([32_767usize, 32_768, 65_535, 65_536, 70_000].iter().cloned()) { for side in 0..2 { for two in [false, true] {
        let mut t = vec![(k, 0.5f32)]; if two { t.insert(0, (k / 2, -0.25)) }
        let xs: Vec<f32> = (0..k + 12).map(|i| if i < 3 { 1.0 + i as f32 } else if i % 64 == 5 { -1.0 } else { 0.0 }).collect();
        c.case(|| format!("{} taps {:?}", if side == 0 { "feed-forward" } else { "feedback" }, t), |r| if side == 0 { generic_run(r, &t, &[], &xs) } else { generic_run(r, &[(0, 1.0)], &t, &xs) });
    } } }
    let bits = c.q(13u32, 17);
    c.section("coefficients of every size", format!("every coefficient with |c| in [1e-15, 1e9] and {} top bits, on either side, delays 0 and 1, alone and next to a tap of 0.5, a 5-sample input", bits));
    for k in 0..128u32 { c.case(|| format!("coefficient's top bits {:#x}..", k << 25), |r| { for i in 0..1u32 << (bits - 7) {
        let a = f32::from_bits(k << 25 | i << (32 - bits)); if !(a.abs() >= 1e-15 && a.abs() <= 1e9) { continue }
        let xs = [1.0f32, -0.5, 0.25, 0.0];
        for d in 0..2usize { for t in [vec![(d, a)], vec![(d, a), (1 - d, 0.5)]] { generic_run(r, &t, &[], &xs)?; generic_run(r, &[(0, 1.0)], &t, &xs[..3])?; } } } Ok(()) }) }
    let top = c.q(5_000usize, 300_000);
    c.section("long stretches", format!("1, -0.5, then N samples of 0, 1 or 1e-6, then 1, 0, 0.25 and silence, every pair of 12 tap lists with stable feedback; N around powers of two and round numbers up to {}", top)); c.witness();
    let zs: [&[(usize, f32)]; 4] = [&[(0, 1.0)], &[(1, 0.5), (0, -0.25)], &[(3, 1.0)], &[(0, 0.5), (1, 0.25), (70, 0.125)]];
    let ps: [&[(usize, f32)]; 3] = [&[], &[(0, 0.5)], &[(2, -0.5), (0, 0.25), (65, 0.125)]];
    for n in stretches(top) { for x in [0.0f32, 1.0, 1e-6] { for z in zs { for p in ps {
        let xs: Vec<f32> = [1.0, -0.5].iter().cloned().chain((0..n).map(|_| x)).chain([1.0, 0.0, 0.25]).chain((0..80).map(|_| 0.0)).collect();
        c.case(|| format!("feed-forward {:?} feedback {:?}: 1, -0.5, {} samples of {}, 1, 0, 0.25, silence", z, p, n, x), |r| generic_run(r, z, p, &xs));
    } } } }
    c.section("many taps", "lists of up to 1000 taps, in ascending, descending and mixed order"); c.witness();
    for n in [17usize, 64, 255, 256, 257, 300, 1000] { for ord in 0..3 { for side in 0..2 {
        let mut t: Vec<(usize, f32)> = (0..n).map(|k| (k, (((k * 37) % 16) as f32 - 7.5) / (16.0 * n as f32))).collect();
        match ord { 1 => t.reverse(), 2 => { let m = t.clone(); for k in 0..n { t[k] = m[(k * 7919) % n] } } _ => () }
        let xs: Vec<f32> = (0..2 * n + 40).map(|i| ((i * 31 % 17) as f32 - 8.0) / 8.0).collect();
        c.case(|| format!("{} taps order {} side {}", n, ord, side), |r| if side == 0 { generic_run(r, &t, &[(0, 0.5)], &xs) } else { generic_run(r, &[(0, 1.0)], &t, &xs) });
    } } }
    c.section("long delays", "taps with delays up to 5000 in ascending, descending and mixed order, 12000 samples"); c.witness();
    for ks in [vec![5000usize], vec![0, 5000], vec![5000, 0], vec![17, 4096, 3], vec![1000, 999, 1001, 1000]] { for side in 0..3 {
        let t: Vec<(usize, f32)> = ks.iter().map(|k| (*k, 0.25)).collect();
        let (z, p) = match side { 0 => (t.clone(), vec![]), 1 => (vec![(0usize, 1.0f32)], t.clone()), _ => (t.clone(), t.clone()) };
        let xs: Vec<f32> = (0..12_000).map(|i| if i % 997 == 0 { 1.0 } else { (i % 5) as f32 * 0.125 }).collect();
        c.case(|| format!("delays {:?} side {}", ks, side), |r| generic_run(r, &z, &p, &xs));
    } }
}

// ---------------------------------------------------------------- C19
fn env_run(r: &mut Run, lo: f32, hi: f32, xs: &[f32]) -> Res {
    let th = |f: f32| (std::f64::consts::PI * f as f64 / 48_000.0).tan();
    let (tu, td) = (th(hi), th(lo));
    let (mut e, mut f) = (Envelope::new(lo, hi), Envelope::new(lo, hi));
    let (mut y1, mut x1, mut max) = (0f64, 0f64, 0f64);
    for (i, &x) in xs.iter().enumerate() {
        let y = e.process(x);
        let y2 = f.process(-x); r.step();
        ensure!(y == y2, "Envelope({},{}) output {} depends on the input sign: {} / {}", lo, hi, i, y, y2);
        let (y, a) = (y as f64, x.abs() as f64);
        max = max.max(a);
        let step = |t: f64| t / (1.0 + t) * (a + x1) + (1.0 - t) / (1.0 + t) * y1;
        let tol = 5e-7 * max.max(1e-36);
        let (up, dn) = (step(tu), step(td));
        let near = (a - y1).abs() <= tol;
        let ok = if near { close(y, up, tol) || close(y, dn, tol) } else if a > y1 { close(y, up, tol) } else { close(y, dn, tol) };
        ensure!(ok, "Envelope({},{}) output {} is {}; |input| {} after {} and previous output {} give {} rising / {} falling", lo, hi, i, y, a, x1, y1, up, dn);
        ensure!(y >= 0.0 && y <= max * (1.0 + 2e-6), "Envelope({},{}) output {} is {} with largest input magnitude {}", lo, hi, i, y, max);
        if i < 64 { r.st(&(i, (y * 65536.0) as i64)); }
        y1 = y; x1 = a;
    }
    r.outcome(hash(&(lo.to_bits(), hi.to_bits(), y1.to_bits())));
    Ok(())
}

fn c19(c: &mut Ctx) {
    let fs = [1.0f32, 20.0, 440.0, 3_000.0, 11_999.0];
    let al = [0.0f32, 1.0, -1.0, 0.25, -0.5];
    let len = c.q(8, 9);
    c.section("all short words", format!("every input word of length {} over {:?}, every lower <= upper pair from {:?} Hz", len, al, fs));
    for (i, &lo) in fs.iter().enumerate() { for &hi in &fs[i..] { words(al.len(), len, |w| {
        let xs: Vec<f32> = w.iter().map(|i| al[*i]).collect();
        c.case(|| format!("Envelope({},{}) input {:?}", lo, hi, xs), |r| env_run(r, lo, hi, &xs));
    }) } }
    let pows = [-96i32, -40, -24, -12, 12, 24, 40, 96];
    c.section("amplitudes", format!("every input word of length 4 over {:?}, scaled by 2^k for k in {:?} and by such a factor changing halfway, every lower <= upper pair", al, pows));
    for (i, &lo) in fs.iter().enumerate() { for &hi in &fs[i..] { for p in pows { for p2 in [p, 0, (-p).min(96)] { words(al.len(), 4, |w| {
        let xs: Vec<f32> = w.iter().enumerate().map(|(i, j)| al[*j] * pow2(if i < 2 { p } else { p2 })).chain([0.0, 0.0]).collect();
        c.case(|| format!("Envelope({},{}) input {:?}", lo, hi, xs), |r| env_run(r, lo, hi, &xs));
    }) } } } }
    let g = c.q(300u32, 60);
    c.section("frequency grid", format!("every pair of multiples of {} Hz (and 1 Hz) below 12 kHz, one 60-sample input with both directions", g));
    let v: Vec<f32> = std::iter::once(1.0).chain((1..12_000 / g).map(|i| (i * g) as f32)).collect();
    let xs: Vec<f32> = (0..60).map(|i| if i % 13 < 5 { (i as f32 * 0.7).sin() } else { 0.1 * ((i % 3) as f32 - 1.0) }).collect();
    for (i, &lo) in v.iter().enumerate() { for &hi in &v[i..] { c.case(|| format!("Envelope({},{})", lo, hi), |r| env_run(r, lo, hi, &xs)); } }
    let mags: Vec<i32> = (-60..=60).map(|k| 2 * k).collect();
    c.section("inputs of every size", "every input word of length 4 over 0, 1, -0.625, 0.3 scaled by 2^k for even |k| <= 120, and by such a factor for one half only, four pairs");
    for &k in &mags { for half in 0..3 { for (lo, hi) in [(1.0f32, 1.0f32), (20.0, 3_000.0), (440.0, 440.0), (1.0, 11_999.0)] { words(4, 4, |w| {
        let xs: Vec<f32> = w.iter().enumerate().map(|(i, j)| [0.0f32, 1.0, -0.625, 0.3][*j] * if half == 2 || (i < 2) == (half == 0) { pow2(k) } else { 1.0 }).chain([0.0, 0.0]).collect();
        c.case(|| format!("Envelope({},{}) input {:?}", lo, hi, xs), |r| env_run(r, lo, hi, &xs)) }) } } }
    let ratio = c.q(1.05f64, 1.006);
    c.section("frequencies of every size", format!("every lower <= upper pair from the geometric sequence 0.01 * {}^n below 12 kHz and 11999.9, a 60-sample input with both directions", ratio));
    let v: Vec<f32> = (0..).map(|n| (0.01 * ratio.powi(n)) as f32).take_while(|f| *f < 12_000.0).chain([11_999.0, 11_999.9]).collect();
    let mut x60 = xs.clone(); x60.truncate(24);
    for (i, &lo) in v.iter().enumerate() { for &hi in &v[i..] { c.case(|| format!("Envelope({},{})", lo, hi), |r| env_run(r, lo, hi, &x60)); } }
    let f2 = [1.0f32, 5.0, 20.0, 100.0, 1_000.0, 8_000.0];
    c.section("convergence", format!("constant input m in 1, -0.3, 100, 0: rising from 0 and falling from 4m, pairs from {:?} Hz", f2)); c.witness();
    for (i, &lo) in f2.iter().enumerate() { for &hi in &f2[i..] { for m in [1.0f32, -0.3, 100.0, 0.0] {
        c.case(|| format!("Envelope({},{}) fed with constant {}", lo, hi, m), |r| {
            let mut e = Envelope::new(lo, hi);
            let up = (48_000.0 / hi as f64 * 4.0) as usize + 4; let dn = (48_000.0 / lo as f64 * 5.0) as usize + 4;
            let mut y = 0.0; for _ in 0..up { y = e.process(m) }
            ensure!(close(y as f64, m.abs() as f64, 1.5e-3 * m.abs() as f64 + 1e-9), "after {} samples of {} the output is {}", up, m, y);
            for _ in 0..up { y = e.process(4.0 * m) }
            ensure!(close(y as f64, 4.0 * m.abs() as f64, 6e-3 * m.abs() as f64 + 1e-9), "after {} samples of {} the output is {}", up, 4.0 * m, y);
            for _ in 0..dn { y = e.process(m) }
            r.steps((2 * up + dn) as u64);
            ensure!(close(y as f64, m.abs() as f64, 1.5e-3 * m.abs() as f64 + 1e-9), "after falling for {} samples towards {} the output is {}", dn, m, y);
            r.outcome(y.to_bits() as u64); Ok(()) });
    } } }
    let nw = c.q(6, 8);
    c.section("one long life", format!("one follower driven through every window of {} inputs over {:?}, every lower <= upper pair", nw, al)); c.witness();
    let xs: Vec<f32> = debruijn(al.len(), nw).into_iter().map(|i| al[i]).collect();
    for (i, &lo) in fs.iter().enumerate() { for &hi in &fs[i..] { c.case(|| format!("Envelope({},{})", lo, hi), |r| env_run(r, lo, hi, &xs)); } }
    let top = c.q(5_000usize, 300_000);
    c.section("long stretches", format!("1, -0.5, then N samples of 0, 1 or 1e-6, then 1, 0, 0.25, 0, every lower <= upper pair; N around powers of two and round numbers up to {}", top)); c.witness();
    for n in stretches(top) { for x in [0.0f32, 1.0, 1e-6] { for (i, &lo) in fs.iter().enumerate() { for &hi in &fs[i..] {
        let xs: Vec<f32> = [1.0, -0.5].iter().cloned().chain((0..n).map(|_| x)).chain([1.0, 0.0, 0.25, 0.0]).collect();
        c.case(|| format!("Envelope({},{}): 1, -0.5, {} samples of {}, 1, 0, 0.25, 0", lo, hi, n, x), |r| env_run(r, lo, hi, &xs));
    } } } }
    c.section("gain and passthrough", "every gain x input over an alphabet of 15 values including extremes, in sequence");
    let v = [0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-3, -0.7, 3.0, 1e-38, -1e-30, 1e30, f32::MAX, f32::MIN_POSITIVE, 0.1];
    for g in v { c.case(|| format!("Gain({}) and Passthrough", g), |r| {
        let mut m = Gain::new(g); let mut p = Passthrough::new();
        for x in v { for x2 in v {
            r.steps(4);
            for x in [x, x2] { let y = m.process(x); ensure!(y == x * g, "Gain({}) of {} is {}", g, x, y); let y = p.process(x); ensure!(y.to_bits() == x.to_bits(), "Passthrough of {} is {}", x, y); r.outcome(y.to_bits() as u64) }
        } }
        m.a = 0.5; ensure!(m.process(3.0) == 1.5, "Gain changed to 0.5 gives {}", m.process(3.0));
        Ok(()) }); }
    let (b1, b2) = c.q((14u32, 9u32), (18, 11));
    c.section("every gain and sample", format!("every gain with {} top bits x every sample with {} top bits; gains within 5000 steps of 0.5, 1, 2, -1 x 12 samples; passthrough of every sample with 20 top bits", b1, b2));
    for k in 0..128u32 { c.case(|| format!("gain's top bits {:#x}..", k << 25), |r| { for i in 0..1u32 << (b1 - 7) { let g = f32::from_bits(k << 25 | i << (32 - b1)); let mut m = Gain::new(g); if g.is_nan() { continue }
        for j in 0..1u32 << b2 { let x = f32::from_bits(j << (32 - b2) | 3 << (29 - b2)); let (y, w) = (m.process(x), x * g); if !(y == w || y.is_nan() && w.is_nan()) { return Err(format!("Gain({:e}) of {:e} is {:e}", g, x, y)) } } r.steps(1 << b2) } r.st(&("g", k)); Ok(()) }) }
    for base in [0.5f32, 1.0, 2.0, -1.0] { c.case(|| format!("gains around {}", base), |r| { for d in -5000..=5000i32 { let g = f32::from_bits((base.to_bits() as i32 + d) as u32); let mut m = Gain::new(g);
        for x in [1.0f32, -1.0, 0.3, 1e7, -12_345.678, 1e-7, 3e30, 1e-40, 0.9999, 16_777_216.0, 7.7e-20, -65_535.0] { let y = m.process(x); r.step(); ensure!(y == x * g, "Gain({:e}) of {:e} is {:e}, expected {:e}", g, x, y, x * g) } } Ok(()) }) }
    for k in 0..128u32 { c.case(|| format!("passthrough of samples with top bits {:#x}..", k << 25), |r| { let mut p = Passthrough::new(); for i in 0..1u32 << 13 { let x = f32::from_bits(k << 25 | i << 12 | 5); let y = p.process(x); ensure!(y == x || x.is_nan() && y.is_nan(), "Passthrough of {:e} is {:e}", x, y) } r.steps(1 << 13); Ok(()) }) }
}
