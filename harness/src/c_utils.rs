//! C26 normalisation, C27 time and decibels, C28 interpolation, C29 in-memory reader.
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::debug::{float_equal, VecReader};
use bae_rs::utils::*;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C26", level: "model_checking", run: c26, assumptions: &["tracks over finite alphabets of sample values; tolerance 1e-5 of the level"] },
        Check { one_process: false, id: "C27", level: "model_checking", run: c27, assumptions: &["durations up to 2^36 samples (16 days) for nanosecond accuracy; ties may round either way"] },
        Check { one_process: false, id: "C28", level: "model_checking", run: c28, assumptions: &["arguments over finite alphabets, distinct abscissae; relative tolerance 1e-5 (f32) and 1e-12 (f64)"] },
        Check { one_process: false, id: "C29", level: "model_checking", run: c29, assumptions: &["payload bytes are distinct; contents do not influence the reader"] },
    ]
}

fn norm(r: &mut Run, db: f64, t: &[f32]) -> Res {
    let mut v = t.to_vec();
    normalize(db, &mut v);
    r.step(); r.st(&(db.to_bits(), t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    r.outcome(hash(&v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    ensure!(v.len() == t.len(), "length {} became {}", t.len(), v.len());
    ensure!(v.iter().all(|x| x.is_finite()), "result {:?} is not finite", &v[..v.len().min(8)]);
    if t.is_empty() { return Ok(()) }
    let mean = t.iter().map(|x| *x as f64).sum::<f64>() / t.len() as f64;
    let peak = t.iter().map(|x| (*x as f64 - mean).abs()).fold(0.0, f64::max);
    let lvl = if db == f64::NEG_INFINITY { 0.0 } else { 10f64.powf(db / 20.0) };
    let constant = t.iter().all(|x| *x == t[0]);
    if constant { ensure!(v.iter().all(|x| *x == 0.0), "track without signal {:?}.. became {:?}", &t[..t.len().min(6)], &v[..v.len().min(6)]); return Ok(()) }
    let dcn = t.iter().map(|x| x.abs() as f64).fold(0.0, f64::max) / peak; // amplification of input rounding
    let tol = lvl * (1e-5 + 1e-10 * dcn) + 1e-30;
    for (i, (a, b)) in t.iter().zip(&v).enumerate() {
        let want = (*a as f64 - mean) / peak * lvl;
        ensure!(close(*b as f64, want, tol), "sample {} of {:?}.. normalised to {} dB is {}, expected {}", i, &t[..t.len().min(6)], db, b, want);
    }
    Ok(())
}
fn c26(c: &mut Ctx) {
    let al: Vec<f32> = c.q(vec![0.0, 1.0, -0.5, 0.1, -1.0, 0.3], vec![0.0, 1.0, -0.5, 0.1, -1.0, 0.3, 1e-3]);
    let n = c.q(7, 8);
    let dbs = [0.0, -6.0, -60.0, 12.0, f64::NEG_INFINITY, -0.1];
    c.section("all short tracks", format!("length 0..={} over {:?}, levels {:?} dBFS", n, al, dbs));
    for len in 0..=n { words(al.len(), len, |w| { let t: Vec<f32> = w.iter().map(|i| al[*i]).collect(); for db in dbs {
        if len >= 6 && db != -6.0 { continue }
        c.case(|| format!("{:?} to {} dB", t, db), |r| norm(r, db, &t)) } }) }
    c.section("levels", "one track, -120..=40 dBFS in 0.125 dB steps");
    for k in -960..=320 { let db = k as f64 / 8.0; c.case(|| format!("{} dB", db), |r| norm(r, db, &[0.3, -0.2, 0.9, 0.0, 0.05])) }
    c.section("far levels", "every whole level from -400 to 400 dBFS, quarters to 60 around -700, 700; three tracks; results beyond the f32 range are excluded");
    for k in (-400..=400i32).map(|k| k as f64).chain((-240..=240).flat_map(|k| [k as f64 / 4.0 - 700.0, k as f64 / 4.0 + 700.0])) { c.case(|| format!("{} dB", k), |r| {
        for t in [&[0.3f32, -0.2, 0.9, 0.0, 0.05][..], &[1e-6, 0.0, 3e-7], &[1000.0, -250.0]] { if k < 760.0 { norm(r, k, t)? } } Ok(()) }) }
    let bits = c.q(12u32, 16);
    c.section("tracks of every magnitude", format!("three tracks scaled by every positive f32 with {} top bits, five levels", bits));
    for k in 0..32u32 { c.case(|| format!("scale's top bits {:#x}..", k << 26), |r| { for i in 0..1u32 << (bits - 6) {
        let m = f32::from_bits(k << 26 | i << (32 - bits)); if !(m.is_finite() && m >= 1e-30 && m < 1e37) { continue }
        for db in [0.0, -6.0, 24.0, -144.0, 100.0] { norm(r, db, &[0.25 * m, -m, 0.5 * m])?; norm(r, db, &[m, 0.0])?; norm(r, db, &[-m, 3.0 * m, m, m, 0.0])? } } Ok(()) }) }
    c.section("every length", "two-valued, ramp and single-impulse tracks of every length 1..=600 (thorough 5000), levels 0 and -6 dBFS");
    for n in 1..=c.q(600usize, 5000) { c.case(|| format!("{} samples", n), |r| { for (k, db) in [(0, 0.0), (1, -6.0), (2, -6.0), (3, 0.0)] {
        let t: Vec<f32> = (0..n).map(|i| match k { 0 => (i % 2) as f32, 1 => i as f32 / n as f32 - 0.3, 2 => if i == n / 2 { -0.7 } else { 0.0 }, _ => if i + 1 == n { 0.9 } else { 0.25 } }).collect(); norm(r, db, &t)? } Ok(()) }) }
    c.section("peak and offset positions", "one positive and one negative extreme of every size pair, at every pair of positions of a 9-sample track");
    for i in 0..9usize { for j in 0..9usize { if i == j { continue } c.case(|| format!("extremes at {} and {}", i, j), |r| { for a in [0.2f32, 0.5, 0.50001, 1.0, 3.0] { for b in [-0.2f32, -0.5, -1.0, -3.0, 0.1] { for off in [0.0f32, 0.3, -0.9] { let mut t = vec![off; 9]; t[i] += a; t[j] += b; norm(r, -3.0, &t)? } } } Ok(()) }) } }
    let top = c.q(17u32, 20);
    c.section("peak in any place", format!("tracks of 2^k + m samples, k in 4..={}, m in -17..=17, whose peak is each of the first 3 and last 40 samples (of long tracks: six of these), or at 2^j from either end", top));
    for k in 4..=top { for m in -17..=17i64 { let n = ((1i64 << k) + m).max(2) as usize; if k > 12 && m % 5 != 0 && m.abs() != 1 { continue }
        c.case(|| format!("{} samples", n), |r| {
            let mut at: Vec<usize> = if k <= 10 { (0..3).chain(n.saturating_sub(40)..n).collect() } else { vec![0, 1, n - 1, n - 2, n - 3, n - 8, n - 15, n - 16, n - 17] };
            if k <= 14 { for j in 2..k { at.push(1 << j); at.push((1 << j) - 1); at.push(n - (1 << j).min(n)) } }
            let base: Vec<f32> = (0..n).map(|i| ((i * 37 % 101) as f32 - 50.0) / 200.0).collect();
            for i in at { if i >= n { continue } let mut t = base.clone(); t[i] = if i % 2 == 0 { 0.9 } else { -0.9 }; norm(r, -1.0, &t)? } Ok(()) }) } }
    c.section("constant tracks", "every length 1..=200 (and 48000) x 60 values");
    for k in 0..60 { let v = match k { 0 => 0.0, 1 => 1e-40, 2 => 1e30, 3 => f32::MAX, _ => ((k as f32) * 0.7).sin() };
        c.case(|| format!("constant {} of every length", v), |r| { for len in (1..=200).chain([4801, 48_000]) { norm(r, 0.0, &vec![v; len])? } Ok(()) }) }
    c.section("extreme magnitudes", "every track of length 1..=4 over denormal, tiny, huge and ordinary values");
    let ex = [1e-44f32, -1e-38, 1e-20, 0.5, 1e20, -3e38, 0.0];
    for len in 1..=4 { words(ex.len(), len, |w| { let t: Vec<f32> = w.iter().map(|i| ex[*i]).collect(); c.case(|| format!("{:?} to -3 dB", t), |r| norm(r, -3.0, &t)) }) }
    c.section("long tracks", "audio-length tracks with DC offset"); c.witness();
    for (n, dc, amp) in [(48_000usize, 0.5f32, 0.25f32), (1_000_000, 0.9, 0.05), (3_000_000, -0.7, 0.001), (48_000, 0.0, 1.0), (480_000, 10.0, 0.1), (20_000_000, 0.4, 0.5)] {
        if n > 5_000_000 && !c.thorough { continue }
        c.case(|| format!("{} samples, offset {}, amplitude {}", n, dc, amp), |r| { let t: Vec<f32> = (0..n).map(|i| dc + amp * (((i * 7919) % 1009) as f32 / 504.0 - 1.0)).collect(); norm(r, -1.0, &t) });
    }
}

fn c27(c: &mut Ctx) {
    let n = c.q(20_000_000usize, 400_000_000);
    c.section("sample counts", format!("every count 0..{}", n));
    let ch = n / 20;
    let one = |s: usize| -> Res {
        let d = samples_to_seconds(s);
        let want = (s as u128 * 1_000_000_000 + 24_000) / 48_000;
        let got = d.as_nanos();
        ensure!((got as i128 - want as i128).abs() <= 1, "{} samples convert to {} ns, expected {}", s, got, want);
        let b = seconds_to_samples(d);
        ensure!(b == s, "{} samples convert to {:?} and back to {}", s, d, b);
        Ok(())
    };
    for k in 0..20 { c.case(|| format!("counts {}..{}", k * ch, (k + 1) * ch), |r| { for s in k * ch..(k + 1) * ch { one(s)?; if s % 1024 == 0 { r.st(&s); r.outcome(samples_to_seconds(s).as_nanos() as u64) } } r.steps(2 * ch as u64); Ok(()) }) }
    c.section("large counts", "2^k + j for k in 20..=36, |j| <= 300; multiples of 48000 up to 2^36");
    for k in 20..=36 { c.case(|| format!("around 2^{}", k), |r| { for j in -300i64..=300 { one(((1i64 << k) + j) as usize)?; r.steps(2) } Ok(()) }) }
    c.case(|| "whole seconds".into(), |r| { for k in 0..1_431_655usize { if samples_to_seconds(k * 48_000) != Duration::from_secs(k as u64) { return Err(format!("{} s worth of samples convert to {:?}", k, samples_to_seconds(k * 48_000))) } ensure!(seconds_to_samples(Duration::from_secs(k as u64)) == k * 48_000, "{} s", k); } r.steps(2_863_310); Ok(()) });
    c.section("durations", format!("every duration of 0..{} ns; 41 durations around every half-sample boundary below 20000 samples; 10^k ns", c.q(20_000_000, 400_000_000)));
    let dn = c.q(20_000_000u64, 400_000_000);
    let dur = |ns: u64| -> Res {
        let g = seconds_to_samples(Duration::from_nanos(ns));
        let x = ns as f64 * 48e-6;
        ensure!((g as f64 - x).abs() <= 0.5 + 1e-6 + x * 1e-15, "{} ns = {} samples converts to {}", ns, x, g);
        Ok(())
    };
    for k in 0..10 { c.case(|| format!("nanoseconds {}..{}", k * dn / 10, (k + 1) * dn / 10), |r| { for ns in k * dn / 10..(k + 1) * dn / 10 { dur(ns)? } r.steps(dn / 10); Ok(()) }) }
    for k in 0..20 { c.case(|| format!("half-sample boundaries {}..{}", k * 1000, (k + 1) * 1000), |r| { for m in k * 1000..(k + 1) * 1000u64 { let e = (2 * m + 1) * 1_000_000 / 96; for d in 0..=40 { dur((e + d).saturating_sub(20))?; } } r.steps(41_000); Ok(()) }) }
    c.case(|| "10^k ns".into(), |r| { for k in 0..16 { dur(10u64.pow(k))?; r.step() } Ok(()) });
    c.section("decibels", "every 1/100 dB from -400 to 400, every 1/10 dB from -6000 to 6000, and linear gains on a geometric grid");
    c.case(|| "decibel grid".into(), |r| {
        let mut last = 0.0;
        for k in -40_000..=40_000i32 { let db = k as f64 / 100.0; let g = db_to_linear(db); r.steps(2); r.st(&k); r.outcome(g.to_bits());
            ensure!(close(g, 10f64.powf(db / 20.0), g.abs() * 1e-12), "{} dB is {}", db, g);
            ensure!(g > last, "not increasing at {} dB", db); last = g;
            ensure!(close(linear_to_db(g), db, 1e-9), "{} dB -> {} -> {} dB", db, g, linear_to_db(g)); }
        ensure!(db_to_linear(0.0) == 1.0 && close(db_to_linear(20.0), 10.0, 1e-12) && db_to_linear(f64::NEG_INFINITY) == 0.0 && linear_to_db(1.0) == 0.0 && linear_to_db(0.0) == f64::NEG_INFINITY && close(linear_to_db(10.0), 20.0, 1e-12), "fixed points wrong");
        let mut last = 0.0;
        for k in -60_000..=60_000i32 { let db = k as f64 / 10.0; let g = db_to_linear(db); r.steps(2); let w = 10f64.powf(db / 20.0);
            ensure!(close(g, w, w * 1e-11), "{} dB is {:e}, expected {:e}", db, g, w);
            ensure!(g > last, "not increasing at {} dB", db); last = g;
            ensure!(close(linear_to_db(g), db, 1e-8), "{} dB -> {:e} -> {} dB", db, g, linear_to_db(g)); }
        ensure!(db_to_linear(1e9) == f64::INFINITY && db_to_linear(-1e9) == 0.0 && db_to_linear(f64::INFINITY) == f64::INFINITY && linear_to_db(f64::INFINITY) == f64::INFINITY, "limits wrong");
        let mut x = 1e-300; let mut last = f64::NEG_INFINITY;
        while x < 1e300 { let d = linear_to_db(x); r.step(); ensure!(close(d, 20.0 * x.log10(), 1e-9 * d.abs().max(1.0)) && d > last, "gain {:e} is {} dB", x, d); last = d; x *= 1.07 }
        let mut x = 1e-15; let mut last = f64::NEG_INFINITY;
        while x < 1e15 { let d = linear_to_db(x); r.steps(2); ensure!(close(db_to_linear(d), x, x * 1e-10) && d > last, "gain {} -> {} dB -> {}", x, d, db_to_linear(d)); last = d; x *= 1.003 }
        Ok(()) });
}

fn c28(c: &mut Ctx) {
    let al: Vec<f64> = c.q(vec![-3.0, -1.0, 0.0, 0.25, 1.0, 7.0, -120.0, 0.1], vec![-3.0, -1.0, 0.0, 0.25, 1.0, 7.0, -120.0, 0.1, 1000.0, -0.7, 1e-3]);
    let k = al.len();
    c.section("lerp and clerp", format!("every (x1,x2,y1,y2) over {:?} with x1 != x2, x over the alphabet, interval fractions and far values, f32 and f64", al));
    words(k, 4, |w| { let (x1, x2, y1, y2) = (al[w[0]], al[w[1]], al[w[2]], al[w[3]]); if x1 == x2 { return }
        c.case(|| format!("({},{})..({},{})", x1, y1, x2, y2), |r| {
            let mut xs: Vec<f64> = al.clone();
            for i in -4..=12 { xs.push(x1 + (x2 - x1) * i as f64 / 8.0) }
            xs.extend([1e6, -1e6]);
            let ymag = y1.abs().max(y2.abs()).max((y2 - y1).abs());
            for &x in &xs {
                let want = |x: f64| y1 + (y2 - y1) * ((x - x1) / (x2 - x1));
                let m = |x: f64| ymag * (1.0 + ((x - x1) / (x2 - x1)).abs() + (x.abs() + x1.abs()) / (x2 - x1).abs());
                let g = lerp(x, x1, x2, y1, y2);
                ensure!(close(g, want(x), m(x) * 1e-13), "lerp({},{},{},{},{}) = {}, expected {}", x, x1, x2, y1, y2, g, want(x));
                let (lo, hi) = (x1.min(x2), x1.max(x2)); let xc = x.max(lo).min(hi);
                let g = clerp(x, x1, x2, y1, y2);
                ensure!(close(g, want(xc), m(xc) * 1e-13), "clerp({},{},{},{},{}) = {}, expected {}", x, x1, x2, y1, y2, g, want(xc));
                r.outcome(g.to_bits());
                let g = lerp(x as f32, x1 as f32, x2 as f32, y1 as f32, y2 as f32) as f64;
                ensure!(close(g, want(x), m(x) * 1e-6), "lerp f32 ({},{},{},{},{}) = {}, expected {}", x, x1, x2, y1, y2, g, want(x));
                let g = clerp(x as f32, x1 as f32, x2 as f32, y1 as f32, y2 as f32) as f64;
                ensure!(close(g, want(xc), m(xc) * 1e-6), "clerp f32 ({},{},{},{},{}) = {}, expected {}", x, x1, x2, y1, y2, g, want(xc));
                r.steps(4); r.st(&(w.to_vec(), x.to_bits()));
            }
            for x in [f64::INFINITY, f64::NEG_INFINITY] { let e = if (x > 0.0) == (x2 > x1) { y2 } else { y1 }; let g = clerp(x, x1, x2, y1, y2); ensure!(close(g, e, ymag * 1e-12), "clerp({}) = {} expected {}", x, g, e) }
            Ok(()) }) });
    c.section("interpolation at every magnitude", "lerp and clerp: spans 2^i, starts and values of magnitude 2^j, fractions -1..=2 in eighths, f64 (i, j in -300..=300 by 10) and f32 (-36..=36 by 3)");
    for i in -30..=30i32 { c.case(|| format!("span 2^{} (f64), 2^{} (f32)", i * 10, i.clamp(-12, 12) * 3), |r| { for j in -30..=30i32 { for (s1, s2) in [(1.0, 0.0), (1.0, -1.0), (-1.0, 1.0), (0.0, 1.0), (0.75, 0.5)] { for f in -8..=16i32 { for rev in [false, true] {
        let t = f as f64 / 8.0; let tc = t.max(0.0).min(1.0);
        { let w = 2f64.powi(i * 10); let m = 2f64.powi(j * 10); let (x1, x2) = if rev { (w, 0.0) } else { (0.0, w) }; let (y1, y2) = (s1 * m, s2 * m); let x = x1 + (x2 - x1) * t;
          let g = lerp(x, x1, x2, y1, y2); let want = y1 + (y2 - y1) * t; ensure!(close(g, want, m * 1e-14), "lerp({:e},{:e},{:e},{:e},{:e}) = {:e}, expected {:e}", x, x1, x2, y1, y2, g, want);
          let g = clerp(x, x1, x2, y1, y2); let want = y1 + (y2 - y1) * tc; ensure!(close(g, want, m * 1e-14), "clerp({:e},{:e},{:e},{:e},{:e}) = {:e}, expected {:e}", x, x1, x2, y1, y2, g, want); }
        if i.abs() <= 12 && j.abs() <= 12 { let w = pow2(i * 3); let m = pow2(j * 3); let (x1, x2) = if rev { (w, 0.0) } else { (0.0, w) }; let (y1, y2) = (s1 as f32 * m, s2 as f32 * m); let x = x1 + (x2 - x1) * t as f32;
          let g = lerp(x, x1, x2, y1, y2); let want = y1 + (y2 - y1) * t as f32; ensure!(close(g as f64, want as f64, m as f64 * 1e-6), "lerp f32({:e},{:e},{:e},{:e},{:e}) = {:e}, expected {:e}", x, x1, x2, y1, y2, g, want);
          let g = clerp(x, x1, x2, y1, y2); let want = y1 + (y2 - y1) * tc as f32; ensure!(close(g as f64, want as f64, m as f64 * 1e-6), "clerp f32({:e},{:e},{:e},{:e},{:e}) = {:e}, expected {:e}", x, x1, x2, y1, y2, g, want); }
        r.steps(4) } } } r.st(&(i, j)); } Ok(()) }) }
    c.section("closeness at every magnitude", "float_equal: bases and tolerances 2^k over the f64 and f32 range, differences of 7/8, 1 and 9/8 of the tolerance where they are representable");
    for i in -100..=100i32 { c.case(|| format!("tolerance 2^{}", i * 5), |r| { for j in -20..=20i32 { for d in [7, 8, 9] {
        let e = 2f64.powi(i * 5); let a = if j == -20 { 0.0 } else { 2f64.powi(i * 5 + j) }; let b = a + e * d as f64 / 8.0;
        let want = (a - b).abs() < e; r.steps(2);
        ensure!(float_equal(a, b, e, f64::abs) == want && float_equal(b, a, e, f64::abs) == want && float_equal(-a, -b, e, f64::abs) == want, "float_equal({:e},{:e},{:e}) is not {}", a, b, e, want);
        if i.abs() <= 20 { let (a, b, e) = (a as f32, b as f32, e as f32); let want = (a - b).abs() < e; ensure!(float_equal(a, b, e, f32::abs) == want && float_equal(b, a, e, f32::abs) == want, "float_equal f32({:e},{:e},{:e}) is not {}", a, b, e, want) }
        r.outcome(hash(&(want, d))); } } r.st(&("fe", i)); Ok(()) }) }
    c.section("float_equal", "every (a,b,e) over a grid: 21 x 21 values x 8 tolerances, f32, f64 and i64");
    for i in -10..=10i64 { for j in -10..=10i64 { c.case(|| format!("a={} b={} (quarters)", i, j), |r| { for e in [1i64, 2, 3, 4, 10, 39, 40, 41] {
        let (a, b, t) = (i as f64 / 4.0, j as f64 / 4.0, e as f64 / 4.0);
        let want = (i - j).abs() < e;
        ensure!(float_equal(a, b, t, f64::abs) == want, "float_equal({},{},{}) is {}", a, b, t, !want);
        ensure!(float_equal(a as f32, b as f32, t as f32, f32::abs) == want, "float_equal f32 ({},{},{}) is {}", a, b, t, !want);
        ensure!(float_equal(i, j, e, i64::abs) == want, "float_equal i64 ({},{},{}) is {}", i, j, e, !want);
        r.steps(3); r.outcome(hash(&(want, i - j, e))); r.st(&(i, j, e)); } Ok(()) }) } }
    c.case(|| "special values".into(), |r| { r.steps(5);
        ensure!(!float_equal(0.0, 0.0, 0.0, f64::abs) && float_equal(1e300, 1e300, f64::MIN_POSITIVE, f64::abs) && !float_equal(f64::NAN, 1.0, 1.0, f64::abs) && !float_equal(-1e308, 1e308, 1e307, f64::abs) && !float_equal(1e308, -1e308, 1e307, f64::abs), "special values"); Ok(()) });
}

fn c29(c: &mut Ctx) {
    use std::io::Read;
    let sizes = [0usize, 1, 2, 3, 5, 9];
    let d = c.q(7, 8);
    let nmax = c.q(11, 14);
    c.section("read sequences", format!("payload length 0..={}, every sequence of {} buffer sizes from {:?}, then a read of 4", nmax, d, sizes));
    for n in 0..=nmax { let p: Vec<u8> = (0..n as u8).map(|i| i * 7 + 1).collect();
        words(sizes.len(), d, |w| c.case(|| format!("{} bytes, buffers {:?}", n, w.iter().map(|i| sizes[*i]).collect::<Vec<_>>()), |r| {
            let mut v = VecReader::new(p.clone());
            let mut pos = 0;
            for s in w.iter().map(|i| sizes[*i]).chain([4]) {
                let mut b = vec![0xEEu8; s];
                let k = v.read(&mut b).map_err(|e| format!("read failed: {}", e))?;
                r.step(); r.st(&(n, pos, s));
                let want = s.min(n - pos);
                ensure!(k == want, "read of {} at {} of {} returned {}", s, pos, n, k);
                ensure!(b[..k] == p[pos..pos + k], "read of {} at {} delivered {:?}", s, pos, &b[..k]);
                ensure!(b[k..].iter().all(|x| *x == 0xEE), "read of {} at {} touched the buffer beyond {}", s, pos, k);
                pos += k; r.outcome(hash(&(n, pos)));
            }
            Ok(()) })) }
    c.section("standard adaptors", "read_to_end, read_exact and bytes() after every prefix, payloads to 300 bytes");
    for n in 0..300usize { c.case(|| format!("{} bytes", n), |r| {
        let p: Vec<u8> = (0..n).map(|i| (i * 31 + 7) as u8).collect();
        for pre in [0, 1, n / 3, n.saturating_sub(1), n] { if pre > n { continue }
            let mut v = VecReader::new(p.clone()); let mut b = vec![0; pre];
            v.read_exact(&mut b).map_err(|e| e.to_string())?;
            ensure!(b[..] == p[..pre], "read_exact({})", pre);
            let mut rest = vec![]; let k = v.read_to_end(&mut rest).map_err(|e| e.to_string())?;
            ensure!(k == n - pre && rest[..] == p[pre..], "read_to_end after {} of {}", pre, n);
            ensure!(v.read(&mut [0; 3]).ok() == Some(0) && v.read(&mut [0; 3]).ok() == Some(0), "data after the end");
            let mut v = VecReader::new(p.clone()); ensure!(v.by_ref().bytes().map(|x| x.unwrap()).eq(p.iter().copied()), "bytes()");
            ensure!(VecReader::new(p.clone()).read_exact(&mut vec![0; n + 1]).is_err(), "read_exact beyond the end succeeded");
            r.steps(5); r.outcome(n as u64);
        } Ok(()) }) }
    let top = c.q(17u32, 21);
    c.section("reads of every size", format!("buffers of 2^k + m bytes, k in 0..={}, m in -2..=2, over payloads longer and shorter by 0..=3 bytes or a multiple, after 0..=2 bytes read, then the rest byte by byte", top));
    for k in 0..=top { for m in -2..=2i64 { let s = (1i64 << k) + m; if s < 1 { continue } let s = s as usize; for j in -3..=3i64 { for mul in [1usize, 2, 3] { let n = (s * mul) as i64 + j; if n < 0 { continue } let n = n as usize; if k > 13 && mul == 3 { continue }
        c.case(|| format!("{} bytes in reads of {}", n, s), |r| { for pre in 0..=2usize { if pre > n { continue }
            let p: Vec<u8> = (0..n).map(|i| (i ^ (i >> 8) ^ (i >> 16)) as u8 | 1).collect(); let mut v = VecReader::new(p.clone()); let mut o = vec![0u8; pre]; v.read_exact(&mut o).map_err(|e| e.to_string())?;
            let mut b = vec![0u8; s]; for _ in 0..mul { let q = v.read(&mut b).map_err(|e| e.to_string())?; r.step(); ensure!(q == s.min(n - o.len()), "read of {} at {} of {} returned {}", s, o.len(), n, q); o.extend(&b[..q]) }
            loop { let q = v.read(&mut b[..1]).map_err(|e| e.to_string())?; r.step(); if q == 0 { break } o.push(b[0]) }
            ensure!(o.len() == n, "{} of {} bytes delivered", o.len(), n); ensure!(o == p, "content differs"); ensure!(v.read(&mut b).ok() == Some(0), "data after the end") } r.st(&(n, s)); r.outcome(n as u64); Ok(()) }) } } } }
    c.section("large payloads", "a payload of 1 MiB and one of 40 MiB with odd buffer sizes"); c.witness();
    for s in [1usize << 17, (1 << 20) + 7, 3 << 20, 5_000_001, 9_999_999, (16 << 20) + 1, 33 << 20, 41 << 20] { c.case(|| format!("40 MiB in reads of {}", s), |r| {
        let p: Vec<u8> = (0..40usize << 20).map(|i| (i ^ (i >> 8) ^ (i >> 17)) as u8).collect(); let mut v = VecReader::new(p.clone()); let mut at = 0; let mut b = vec![0; s];
        loop { let k = v.read(&mut b).unwrap(); r.step(); ensure!(k == s.min(p.len() - at), "a read of {} at {} returned {}", s, at, k); if k == 0 { break } ensure!(b[..k] == p[at..at + k], "content differs in the read at {}", at); at += k } Ok(()) }) }
    for s in [1usize, 4095, 4097, 65_537, 1 << 21] { c.case(|| format!("1 MiB in reads of {}", s), |r| {
        let p: Vec<u8> = (0..1usize << 20).map(|i| (i ^ (i >> 8)) as u8).collect(); let mut v = VecReader::new(p.clone()); let mut o: Vec<u8> = vec![]; let mut b = vec![0; s];
        loop { let k = v.read(&mut b).unwrap(); r.step(); ensure!(k == s.min(p.len() - o.len()), "short read of {}", k); if k == 0 { break } o.extend(&b[..k]) } ensure!(o == p, "content differs"); Ok(()) }) }
}
