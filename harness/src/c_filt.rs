//! C16 low-/high-pass, C17 band-pass.
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::modifiers::*;
use std::f64::consts::PI;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C16", level: "model_checking", run: c16, assumptions: &["reference recurrence in f64; output tolerance 2e-5 of the largest input/output magnitude", "cutoffs below 10 Hz are outside the claim (three nearly coincident poles exhaust double precision)"] },
        Check { one_process: false, id: "C17", level: "model_checking", run: c17, assumptions: &["reference recurrence in f64; output tolerance 2e-5 of the largest input/output magnitude for corners >= 10 Hz", "corner frequencies between 10 Hz and 23.99 kHz for the signal, any positive centre and quality for what is reported"] },
    ]
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Copy, PartialEq, Debug)]
enum F { Lp, Hp }
enum Filt { Lp(LowPass), Hp(HighPass) }
impl Filt {
    fn new(k: F, fc: f64, r: f64) -> Filt { match k { F::Lp => Filt::Lp(LowPass::new(fc, r)), F::Hp => Filt::Hp(HighPass::new(fc, r)) } }
    fn process(&mut self, x: f32) -> f32 { match self { Filt::Lp(f) => f.process(x), Filt::Hp(f) => f.process(x) } }
    fn set_fc(&mut self, v: f64) { match self { Filt::Lp(f) => f.set_central_frequency(v), Filt::Hp(f) => f.set_central_frequency(v) } }
    fn set_r(&mut self, v: f64) { match self { Filt::Lp(f) => f.set_resonance(v), Filt::Hp(f) => f.set_resonance(v) } }
    fn fc(&self) -> f64 { match self { Filt::Lp(f) => f.get_central_frequency(), Filt::Hp(f) => f.get_central_frequency() } }
    fn r(&self) -> f64 { match self { Filt::Lp(f) => f.get_resonance(), Filt::Hp(f) => f.get_resonance() } }
}

/// 1/((s+1)(s^2+k s+1)) (and its high-pass image) under s = (1 - z^-1)/t, as a direct-form recurrence.
struct Ref { k: F, fc: f64, r: f64, b0: f64, a: [f64; 3], x: [f64; 3], y: [f64; 3] }
impl Ref {
    fn new(k: F, fc: f64, r: f64) -> Ref { let mut s = Ref { k, fc, r, b0: 0.0, a: [0.0; 3], x: [0.0; 3], y: [0.0; 3] }; s.set(fc, r); s }
    fn set(&mut self, fc: f64, r: f64) {
        self.fc = if fc > 24_000.0 { 24_000.0 } else { fc };
        self.r = if r > 1.0 { 1.0 } else if r < 0.0 { 0.0 } else { r };
        let k = -2.0 * (PI / 6.0 * (4.0 - self.r)).cos();
        let t = 2.0 * PI * self.fc / 48_000.0;
        // (u + t)(u^2 + k t u + t^2) with u = 1 - z^-1:  u^3 + (k+1) t u^2 + (k+1) t^2 u + t^3
        let (c2, c1, c0) = ((k + 1.0) * t, (k + 1.0) * t * t, t * t * t);
        let g = 1.0 + c2 + c1 + c0;
        self.a = [(3.0 + 2.0 * c2 + c1) / g, -(3.0 + c2) / g, 1.0 / g];
        self.b0 = if self.k == F::Lp { c0 / g } else { 1.0 / g };
    }
    fn process(&mut self, x: f32) -> f64 {
        let x = x as f64;
        let ff = if self.k == F::Lp { self.b0 * x } else { self.b0 * (x - 3.0 * self.x[0] + 3.0 * self.x[1] - self.x[2]) };
        let y = ff + self.a[0] * self.y[0] + self.a[1] * self.y[1] + self.a[2] * self.y[2];
        self.x = [x, self.x[0], self.x[1]];
        self.y = [y, self.y[0], self.y[1]];
        y
    }
}

#[derive(Clone, Copy, Debug)]
enum Op { Fc(f64), R(f64), X(f32) }

fn filt_run(r: &mut Run, k: F, fc: f64, q: f64, ops: impl Iterator<Item = Op>, tol: f64) -> Res {
    let mut f = Filt::new(k, fc, q);
    let mut m = Ref::new(k, fc, q);
    let mut scale = 1e-38f64;
    let mut last = 0f32;
    ensure!(f.fc() == m.fc && f.r() == m.r, "{:?}({},{}) reports ({},{})", k, fc, q, f.fc(), f.r());
    for (i, o) in ops.enumerate() {
        match o {
            Op::Fc(v) => { f.set_fc(v); let r = m.r; m.set(v, r) }
            Op::R(v) => { f.set_r(v); let fc = m.fc; m.set(fc, v) }
            Op::X(x) => {
                let y = f.process(x); let w = m.process(x);
                scale = scale.max(x.abs() as f64).max(w.abs());
                if scale > 1e30 { break } // the design itself has diverged (parameters moved at full resonance)
                ensure!(close(y as f64, w, tol * scale), "{:?}({},{}) step {}: output {} instead of {} for input {} (now fc {} r {})", k, fc, q, i, y, w, x, m.fc, m.r);
                last = y;
                if i < 24 { r.st(&(k as u8, i, (w * 1e6) as i64)) }
            }
        }
        r.step();
        if !matches!(o, Op::X(_)) { ensure!(f.fc() == m.fc && f.r() == m.r, "{:?} step {} {:?}: reports cutoff {} resonance {} instead of {} {}", k, i, o, f.fc(), f.r(), m.fc, m.r); }
    }
    r.outcome(hash(&(k as u8, last.to_bits())));
    Ok(())
}

const T: f64 = 2e-5;
fn c16(c: &mut Ctx) {
    let fcs = [10.0, 100.0, 1_000.0, 7_640.0, 24_000.0, 48_000.0];
    let rs = [0.0, 0.5, 1.0, -1.0, 2.0];
    let al = [0.0f32, 1.0, -0.5];
    let len = c.q(9, 10);
    c.section("all short words", format!("every input word of length {} over {:?} then 8 zeros, cutoffs {:?} Hz, resonances {:?}", len, al, fcs, rs));
    for k in [F::Lp, F::Hp] { for fc in fcs { for q in rs { words(3, len, |w| {
        c.case(|| format!("{:?}({},{}) input {:?}", k, fc, q, w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| filt_run(r, k, fc, q, w.iter().map(|i| Op::X(al[*i])).chain((0..8).map(|_| Op::X(0.0))), T));
    }) } } }
    let ops = [Op::X(1.0), Op::X(0.0), Op::X(-0.5), Op::Fc(50.0), Op::Fc(5_000.0), Op::Fc(1e6), Op::R(1.0), Op::R(0.3), Op::R(-4.0)];
    let d = c.q(6, 7);
    c.section("setter histories", format!("every sequence of {} operations from {:?} then an 8-sample tail, from two initial settings", d, ops));
    for k in [F::Lp, F::Hp] { for (fc, q) in [(300.0, 0.0), (24_000.0, 0.9)] { words(ops.len(), d, |w| {
        c.case(|| format!("{:?}({},{}) ops {:?}", k, fc, q, w.iter().map(|i| ops[*i]).collect::<Vec<_>>()), |r| filt_run(r, k, fc, q, w.iter().map(|i| ops[*i]).chain([Op::X(1.0), Op::X(0.0), Op::X(0.0), Op::X(0.25), Op::X(0.0), Op::X(0.0), Op::X(0.0), Op::X(-1.0)].iter().cloned()), T));
    }) } }
    let nw = c.q(5, 6);
    c.section("one long life", format!("one filter driven through every window of {} operations of {:?}", nw, ops)); c.witness();
    for k in [F::Lp, F::Hp] { for (fc, q) in [(300.0, 0.0), (24_000.0, 0.9)] { c.case(|| format!("{:?}({},{})", k, fc, q), |r| filt_run(r, k, fc, q, debruijn(ops.len(), nw).into_iter().map(|i| ops[i]), T)); } }
    let n = c.q(3_000usize, 60_000);
    c.section("glides", format!("cutoff (or resonance) changed before every sample, or every 5th, by a constant small ratio, {} samples", n)); c.witness();
    for k in [F::Lp, F::Hp] { for base in [100.0f64, 2_000.0, 15_000.0] { for st in [1e-5f64, -1e-5, 1e-4, -2e-4, 1e-3, -1e-3, 3e-2] { for hold in [1usize, 5] { for q in [0.0, 0.6] {
        c.case(|| format!("{:?}: cutoff {} Hz times (1 + {})^n, changed every {} samples, resonance {}", k, base, st, hold, q), |r| filt_run(r, k, base, q, (0..n).flat_map(|i| { let f = (base * (1.0 + st).powi((i / hold) as i32)).max(10.0).min(24_000.0); let mut v = vec![sig(i + 10)]; if i % hold == 0 { v.insert(0, Op::Fc(f)) } v }), T));
        c.case(|| format!("{:?}: cutoff {} Hz, resonance {} + {} n, changed every {} samples", k, base, q, st, hold), |r| filt_run(r, k, base, q, (0..n).flat_map(|i| { let mut v = vec![sig(i + 10)]; if i % hold == 0 { v.insert(0, Op::R(q + st * (i / hold) as f64)) } v }), T));
    } } } } }
    let pows = [-130i32, -96, -40, -24, -12, 12, 24, 40, 96];
    let d = c.q(5, 7);
    c.section("amplitudes", format!("every input word of length {} over {:?}, scaled by 2^k for k in {:?} and by such a factor changing halfway, then 8 zeros", d, al, pows));
    for k in [F::Lp, F::Hp] { for fc in [60.0, 1_000.0, 24_000.0] { for q in [0.0, 0.8] { for p in pows { for p2 in [p, 0, (-p).min(96)] { words(3, d, |w| {
        let xs: Vec<f32> = w.iter().enumerate().map(|(i, j)| al[*j] * pow2(if 2 * i < d { p } else { p2 })).chain((0..8).map(|_| 0.0)).collect();
        c.case(|| format!("{:?}({},{}) input {:?}", k, fc, q, xs), |r| filt_run(r, k, fc, q, xs.iter().map(|x| Op::X(*x)), T));
    }) } } } } }
    let top = c.q(5_000usize, 500_000);
    c.section("long stretches", format!("input 1, -0.5, then N times the same (silence, a constant, a setter and silence), then 1, 0, 0.25; N around powers of two and round numbers up to {}", top)); c.witness();
    for k in [F::Lp, F::Hp] { for (fc, q) in [(10.0, 0.0), (300.0, 0.7), (5_000.0, 0.0), (24_000.0, 0.9)] { for n in stretches(top) { for rep in [&[Op::X(0.0)][..], &[Op::X(1.0)], &[Op::X(-1e-6)], &[Op::Fc(300.0), Op::X(0.0)], &[Op::R(0.3), Op::X(0.5)]] {
        c.case(|| format!("{:?}({},{}): 1, -0.5, {} times {:?}, 1, 0, 0.25", k, fc, q, n, rep), |r| filt_run(r, k, fc, q, [Op::X(1.0), Op::X(-0.5)].iter().cloned().chain((0..n).flat_map(|_| rep.iter().cloned())).chain([Op::X(1.0), Op::X(0.0), Op::X(0.25), Op::X(0.0)].iter().cloned()), T));
        c.case(|| format!("{:?}({},{}): {} times {:?}, 1e-3, 0, 0", k, fc, q, n, rep), |r| filt_run(r, k, fc, q, (0..n).flat_map(|_| rep.iter().cloned()).chain([Op::X(1e-3), Op::X(0.0), Op::X(0.0)].iter().cloned()), T));
    } } } }
    let (s, n) = c.q((47.0, 400), (7.0, 1_000));
    c.section("cutoff grid", format!("every cutoff 10 + m*{} Hz up to 24000 x resonance 0..=10 tenths, {} samples of impulse, ramp, alternation and noise-like input", s, n));
    for k in [F::Lp, F::Hp] { let mut fc = 10.0; while fc <= 24_000.0 { for q in 0..=10 {
        let q = q as f64 / 10.0;
        c.case(|| format!("{:?}({},{})", k, fc, q), |r| filt_run(r, k, fc, q, (0..n).map(sig), T));
    } fc += s } }
    c.section("parameters of every size", "cutoffs 10 * 1.07^n up to 24 kHz, then 24 kHz * 10^k (limited) for k up to 12; resonances 0, 1, 2^-k, 1 - 2^-k, and beyond the limits (1 + 2^-k, -2^-k, +-10^k); at construction and set later, 100 samples");
    let fcs: Vec<f64> = (0..).map(|n| 10.0 * 1.07f64.powi(n)).take_while(|f| *f < 24_000.0).chain([23_999.999, 24_000.0, 24_000.001]).chain((0..=12).map(|k| 24_000.0 * 10f64.powi(k) + 7.0)).collect();
    let qs: Vec<f64> = [0.0, 1.0].iter().cloned().chain((1..=30).step_by(3).flat_map(|k| { let e = 2f64.powi(-k); [e, 1.0 - e, 1.0 + e, -e] })).chain((1..=12).step_by(3).flat_map(|k| [10f64.powi(k), -10f64.powi(k)])).collect();
    for k in [F::Lp, F::Hp] { for &fc in &fcs { for &q in &qs {
        c.case(|| format!("{:?}({},{})", k, fc, q), |r| filt_run(r, k, fc, q, (8..108).map(sig), T));
        c.case(|| format!("{:?}: cutoff {} and resonance {} set after 3 samples", k, fc, q), |r| filt_run(r, k, 700.0, 0.4, (8..11).map(sig).chain([Op::Fc(fc), Op::R(q)]).chain((8..60).map(sig)), T));
    } } }
    c.section("long runs", "constant, alternating and worst-case (sign-matched) inputs at cutoffs 10..24000 Hz; DC gain at the end"); c.witness();
    for k in [F::Lp, F::Hp] { for fc in [10.0, 12.0, 20.0, 40.0, 100.0, 500.0, 3_000.0, 12_000.0, 24_000.0] { for q in [0.0, 0.7, 1.0] {
        let n = (48_000.0 / fc * c.q(30.0, 60.0)) as usize + c.q(2_000, 200_000);
        c.case(|| format!("{:?}({},{}) constant 1 for {} samples, then silence", k, fc, q, n), |r| {
            filt_run(r, k, fc, q, (0..n).map(|_| Op::X(1.0)).chain((0..n).map(|_| Op::X(0.0))), if q == 1.0 { 10.0 * T } else { T })?;
            let mut f = Filt::new(k, fc, q); let mut y = 0.0; for _ in 0..n { y = f.process(0.5) } r.steps(n as u64);
            // full resonance is (marginally damped) still ringing down; judge the others
            if q < 1.0 { let w = if k == F::Lp { 0.5 } else { 0.0 }; ensure!(close(y as f64, w, 1e-3), "{:?}({},{}): constant 0.5 settles at {}", k, fc, q, y) }
            Ok(()) });
        c.case(|| format!("{:?}({},{}) worst-case +-1 input for {} samples", k, fc, q, n), |r| {
            let mut m = Ref::new(k, fc, q); let h: Vec<f64> = (0..n).map(|i| m.process(if i == 0 { 1.0 } else { 0.0 })).collect();
            let bound: f64 = h.iter().map(|x| x.abs()).sum::<f64>() * 1.001 + 1e-3;
            let mut f = Filt::new(k, fc, q);
            for i in 0..n { let x = if h[n - 1 - i] >= 0.0 { 1.0 } else { -1.0 }; let y = f.process(x); ensure!((y as f64).abs() <= bound, "{:?}({},{}): output {} at sample {} exceeds the bound {} for +-1 input", k, fc, q, y, i, bound) }
            r.steps(n as u64); Ok(()) });
    } } }
}
fn sig(i: usize) -> Op {
    Op::X(match i { 0 => 1.0, 1..=9 => 0.0, 10..=59 => (i - 10) as f32 / 50.0, 60..=99 => if i % 2 == 0 { 0.5 } else { -0.5 }, _ => ((i * 7919 % 1009) as f32 - 504.0) / 504.0 })
}

// ---------------------------------------------------------------- C17
struct Bp { lo: f64, hi: f64, x: [f64; 2], y: [f64; 2] }
impl Bp {
    fn process(&mut self, x: f32) -> f64 {
        let x = x as f64;
        // one common direct form: signal memory is the past inputs and outputs
        let (l, h) = ((PI * self.lo / 48_000.0).tan(), (PI * self.hi / 48_000.0).tan());
        let (b1, b2) = ((1.0 - l) / (1.0 + l), (1.0 - h) / (1.0 + h));
        let g = 1.0 / (1.0 + l) * h / (1.0 + h);
        let y = g * (x - self.x[1]) + (b1 + b2) * self.y[0] - b1 * b2 * self.y[1];
        self.x = [x, self.x[0]]; self.y = [y, self.y[0]];
        y
    }
}
#[derive(Clone, Copy, Debug)]
enum B { C(f64, f64), F(f64), Q(f64), X(f32) }
#[derive(Clone, Copy, Debug)]
enum Start { New(f64, f64), Corners(f64, f64) }

fn corners(f: f64, q: f64) -> (f64, f64) { let b = f / q; let hi = (b + (b * b + 4.0 * f * f).sqrt()) / 2.0; (f * f / hi, hi) }
fn rel(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * b.abs().max(1e-9) }

fn bp_check(bp: &BandPass, f: f64, q: f64, lo: f64, hi: f64, at: &str) -> Res {
    let (gf, gq, gc) = (bp.get_central_frequency(), bp.get_quality(), bp.get_corner_frequencies());
    ensure!(gc.0 <= gc.1, "{}: corners {:?} are not sorted", at, gc);
    ensure!(rel(gf, f) && rel(gq, q), "{}: reports centre {} quality {} instead of {} {}", at, gf, gq, f, q);
    ensure!(rel(gc.0, lo) && rel(gc.1, hi), "{}: reports corners {:?} instead of ({}, {})", at, gc, lo, hi);
    ensure!(rel((gc.0 * gc.1).sqrt(), gf) && rel(gf / (gc.1 - gc.0), gq), "{}: centre {}, quality {} and corners {:?} are inconsistent", at, gf, gq, gc);
    Ok(())
}

fn bp_run(r: &mut Run, s: Start, ops: impl Iterator<Item = B>, tol: f64) -> Res {
    let cs = |a: f64, b: f64| { let f = (a * b).sqrt(); let (lo, hi) = if a < b { (a, b) } else { (b, a) }; (f, f / (hi - lo), lo, hi) };
    let fq = |f: f64, q: f64| { let c = corners(f, q); (f, q, c.0, c.1) };
    let (mut bp, mut st) = match s { Start::New(f, q) => (BandPass::new(f, q), fq(f, q)), Start::Corners(a, b) => (BandPass::from_corners((a, b)), cs(a, b)) };
    let mut m = Bp { lo: st.2, hi: st.3, x: [0.0; 2], y: [0.0; 2] };
    bp_check(&bp, st.0, st.1, st.2, st.3, &format!("{:?}", s))?;
    let mut scale = 1e-36f64; let mut last = 0f32;
    for (i, o) in ops.enumerate() {
        r.step();
        match o {
            B::C(a, b) => { bp.set_corner_frequencies((a, b)); st = cs(a, b) }
            B::F(f) => { bp.set_central_frequency(f); st = fq(f, st.1) }
            B::Q(q) => { bp.set_quality(q); st = fq(st.0, q) }
            B::X(x) => {
                let y = bp.process(x); let w = m.process(x);
                scale = scale.max(x.abs() as f64).max(w.abs());
                ensure!(close(y as f64, w, tol * scale), "{:?} step {}: output {} instead of {} for input {} (corners {} {})", s, i, y, w, x, m.lo, m.hi);
                last = y; if i < 24 { r.st(&("bp", i, (w * 1e6) as i64)) }
                continue;
            }
        }
        bp_check(&bp, st.0, st.1, st.2, st.3, &format!("{:?} step {} {:?}", s, i, o))?;
        m.lo = st.2; m.hi = st.3;
    }
    r.outcome(last.to_bits() as u64);
    Ok(())
}

fn c17(c: &mut Ctx) {
    let fs = [10.0, 50.0, 440.0, 2_000.0, 12_000.0, 23_500.0];
    let mut starts = vec![];
    for a in fs { for b in fs { if a != b { starts.push(Start::Corners(a, b)) } } }
    for f in [50.0, 440.0, 4_000.0] { for q in [0.3, 0.7071, 1.0, 5.0, 30.0] { if corners(f, q).0 >= 10.0 && corners(f, q).1 <= 23_500.0 { starts.push(Start::New(f, q)) } } }
    let al = [0.0f32, 1.0, -0.5];
    let len = c.q(9, 10);
    c.section("all short words", format!("every input word of length {} over {:?} then 6 zeros, {} constructions (corners in either order from {:?} Hz, centre/quality)", len, al, starts.len(), fs));
    for &s in &starts { words(3, len, |w| {
        c.case(|| format!("{:?} input {:?}", s, w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| bp_run(r, s, w.iter().map(|i| B::X(al[*i])).chain((0..6).map(|_| B::X(0.0))), T));
    }) }
    let ops = [B::X(1.0), B::X(0.0), B::X(-0.5), B::C(400.0, 100.0), B::C(60.0, 9_000.0), B::F(880.0), B::F(200.0), B::Q(0.9), B::Q(12.0)];
    let d = c.q(6, 7);
    c.section("setter histories", format!("every sequence of {} operations from {:?} then a tail, from three constructions", d, ops));
    for s in [Start::New(440.0, 1.0), Start::Corners(300.0, 200.0), Start::Corners(50.0, 5_000.0)] { words(ops.len(), d, |w| {
        c.case(|| format!("{:?} ops {:?}", s, w.iter().map(|i| ops[*i]).collect::<Vec<_>>()), |r| bp_run(r, s, w.iter().map(|i| ops[*i]).chain([B::X(1.0), B::X(0.0), B::X(0.0), B::X(0.25), B::X(-1.0), B::X(0.0), B::X(0.0)].iter().cloned()), T));
    }) }
    let nw = c.q(5, 6);
    c.section("one long life", format!("one filter driven through every window of {} operations of {:?}", nw, ops)); c.witness();
    for s in [Start::New(440.0, 1.0), Start::Corners(300.0, 200.0)] { c.case(|| format!("{:?}", s), |r| bp_run(r, s, debruijn(ops.len(), nw).into_iter().map(|i| ops[i]), T)); }
    let n = c.q(3_000usize, 60_000);
    c.section("glides", format!("corners, centre or quality changed before every sample, or every 5th, by a constant small ratio, {} samples", n)); c.witness();
    for base in [150.0f64, 2_000.0, 9_000.0] { for st in [1e-5f64, -1e-5, 1e-4, -2e-4, 1e-3, -1e-3, 3e-2] { for hold in [1usize, 5] { for what in 0..3 {
        c.case(|| format!("{} from {} Hz times (1 + {})^n, changed every {} samples", ["corners", "centre", "quality"][what], base, st, hold), |r| bp_run(r, Start::Corners(base * 0.7, base * 1.4), (0..n).flat_map(|i| {
            let g = (1.0 + st).powi((i / hold) as i32).max(60.0 / base).min(11_000.0 / base);
            let mut v = vec![match sig(i + 10) { Op::X(x) => B::X(x), _ => unreachable!() }];
            if i % hold == 0 { v.insert(0, match what { 0 => B::C(base * 1.2 * g, base * 0.8 * g), 1 => B::F(base * g), _ => B::Q(1.5 * (1.0 + st).powi((i / hold) as i32).max(0.5).min(40.0)) }) } v }), T));
    } } } }
    let pows = [-96i32, -40, -24, -12, 12, 24, 40, 96];
    let d = c.q(5, 7);
    c.section("amplitudes", format!("every input word of length {} over {:?}, scaled by 2^k for k in {:?} and by such a factor changing halfway, then 8 zeros", d, al, pows));
    for s in [Start::New(440.0, 1.0), Start::Corners(300.0, 200.0), Start::Corners(50.0, 5_000.0), Start::Corners(12_000.0, 20_000.0)] { for p in pows { for p2 in [p, 0, (-p).min(96)] { words(3, d, |w| {
        let xs: Vec<f32> = w.iter().enumerate().map(|(i, j)| al[*j] * pow2(if 2 * i < d { p } else { p2 })).chain((0..8).map(|_| 0.0)).collect();
        c.case(|| format!("{:?} input {:?}", s, xs), |r| bp_run(r, s, xs.iter().map(|x| B::X(*x)), T));
    }) } } }
    let top = c.q(5_000usize, 500_000);
    c.section("long stretches", format!("input 1, -0.5, then N times the same (silence, a constant, a setter and silence), then 1, 0, 0.25; N around powers of two and round numbers up to {}", top)); c.witness();
    for s in [Start::New(440.0, 1.0), Start::Corners(10.0, 20.0), Start::Corners(50.0, 5_000.0), Start::Corners(12_000.0, 20_000.0)] { let tl = if matches!(s, Start::Corners(10.0, _)) { 2e-4 } else { T }; for n in stretches(top) { for rep in [&[B::X(0.0)][..], &[B::X(1.0)], &[B::X(-1e-6)], &[B::C(400.0, 100.0), B::X(0.0)], &[B::Q(2.0), B::X(0.5)]] {
        c.case(|| format!("{:?}: 1, -0.5, {} times {:?}, 1, 0, 0.25", s, n, rep), |r| bp_run(r, s, [B::X(1.0), B::X(-0.5)].iter().cloned().chain((0..n).flat_map(|_| rep.iter().cloned())).chain([B::X(1.0), B::X(0.0), B::X(0.25), B::X(0.0)].iter().cloned()), tl));
        c.case(|| format!("{:?}: {} times {:?}, 1e-3, 0, 0", s, n, rep), |r| bp_run(r, s, (0..n).flat_map(|_| rep.iter().cloned()).chain([B::X(1e-3), B::X(0.0), B::X(0.0)].iter().cloned()), tl));
    } } }
    let (st, n) = c.q((170.0, 300), (60.0, 600));
    c.section("corner grid", format!("every pair of corners from 10 + m*{} Hz below 23.5 kHz, {} samples", st, n));
    let v: Vec<f64> = (0..).map(|m| 10.0 + m as f64 * st).take_while(|f| *f <= 23_500.0).collect();
    for (i, &a) in v.iter().enumerate() { for (j, &b) in v.iter().enumerate() { if i == j || (i > j && (i + j) % 5 != 0) { continue }
        c.case(|| format!("corners ({},{})", a, b), |r| bp_run(r, Start::Corners(a, b), (0..n).map(|i| match sig(i) { Op::X(x) => B::X(x), _ => unreachable!() }), T));
    } }
    let ratio = c.q(1.12f64, 1.02);
    c.section("corners of every size", format!("every ordered pair from the geometric sequence 10 * {}^n up to 23990 Hz (and 23600, 23900, 23990), set at construction and later, 120 samples", ratio));
    let v: Vec<f64> = (0..).map(|n| 10.0 * ratio.powi(n)).take_while(|f| *f < 23_990.0).chain([23_600.5, 23_900.0, 23_990.0]).collect();
    for (i, &a) in v.iter().enumerate() { for (j, &b) in v.iter().enumerate() { if i == j { continue } let xs = || (0..120).map(|i| match sig(i + 8) { Op::X(x) => B::X(x), _ => unreachable!() });
        c.case(|| format!("corners ({},{})", a, b), |r| bp_run(r, Start::Corners(a, b), xs(), T));
        c.case(|| format!("corners set to ({},{}) after 5 samples", a, b), |r| bp_run(r, Start::Corners(500.0, 700.0), xs().take(5).chain([B::C(a, b)]).chain(xs()), T));
    } }
    c.section("corners next to each other", "corners f and f * (1 + 2^-k), k in 1..=30, f from 10 * 1.4^n up to 23 kHz, in either order, at construction and set later; corners 10^-m Hz apart");
    let mut f = 10.0f64; while f < 23_000.0 { for k in 1..=38i32 { let g = if k <= 30 { f * (1.0 + 2f64.powi(-k)) } else { f + 10f64.powi(31 - k) }; if g > 23_990.0 { continue } for rev in [false, true] { let (a, b) = if rev { (g, f) } else { (f, g) }; let xs = || (0..40).map(|i| match sig(i + 8) { Op::X(x) => B::X(x), _ => unreachable!() });
        c.case(|| format!("corners ({},{})", a, b), |r| bp_run(r, Start::Corners(a, b), xs(), T));
        c.case(|| format!("corners set to ({},{}) after 5 samples", a, b), |r| bp_run(r, Start::Corners(500.0, 700.0), xs().take(5).chain([B::C(a, b)]).chain(xs()), T));
    } } f *= 1.4 }
    c.section("qualities of every size", "every quality 2^k and 1.37*2^k, k in -10..=16, at every centre 10 * 1.5^n up to 23 kHz, given to the constructor, set before and after the centre; output compared where both corners lie in 10..23990 Hz");
    for k in -10..=16i32 { for m in [1.0f64, 1.37] { let q = m * 2f64.powi(k); let mut f = 10.0f64; while f < 23_000.0 { let (lo, hi) = corners(f, q); let audible = lo >= 10.0 && hi <= 23_990.0;
        let xs = move || (0..if audible { 80 } else { 0 }).map(|i| match sig(i + 8) { Op::X(x) => B::X(x), _ => unreachable!() });
        c.case(|| format!("BandPass({},{})", f, q), |r| bp_run(r, Start::New(f, q), xs(), T));
        c.case(|| format!("quality {} then centre {}", q, f), |r| bp_run(r, Start::New(440.0, 1.0), [B::X(1.0), B::Q(q), B::F(f)].iter().cloned().chain(xs()), T));
        c.case(|| format!("centre {} then quality {}, then again", f, q), |r| bp_run(r, Start::Corners(300.0, 200.0), [B::X(1.0), B::F(f), B::Q(q), B::Q(q), B::F(f)].iter().cloned().chain(xs()), T));
        f *= 1.5 } } }
    c.section("long runs", "constant 1 (DC rejection), then worst-case +-1 input"); c.witness();
    for (a, b) in [(10.0, 20.0), (10.0, 11.0), (10.0, 20_000.0), (100.0, 101.0), (440.0, 880.0), (1_000.0, 1_001.0), (20_000.0, 23_000.0)] {
        let n = (48_000.0 / a * 20.0) as usize + c.q(5_000, 500_000);
        c.case(|| format!("corners ({},{}) constant 1 for {} samples", a, b, n), |r| {
            bp_run(r, Start::Corners(a, b), (0..n).map(|_| B::X(1.0)), 2e-4)?;
            let mut f = BandPass::from_corners((a, b)); let mut y = 0.0; for _ in 0..n { y = f.process(1.0) } r.steps(n as u64);
            ensure!((y as f64).abs() < 1e-3, "corners ({},{}): constant 1 settles at {}", a, b, y); Ok(()) });
        c.case(|| format!("corners ({},{}) worst-case +-1 input for {} samples", a, b, n), |r| {
            let mut m = Bp { lo: a, hi: b, x: [0.0; 2], y: [0.0; 2] }; let h: Vec<f64> = (0..n).map(|i| m.process(if i == 0 { 1.0 } else { 0.0 })).collect();
            let bound: f64 = h.iter().map(|x| x.abs()).sum::<f64>() * 1.001 + 1e-3;
            let mut f = BandPass::from_corners((a, b));
            for i in 0..n { let x = if h[n - 1 - i] >= 0.0 { 1.0 } else { -1.0 }; let y = f.process(x); ensure!((y as f64).abs() <= bound, "corners ({},{}): output {} at sample {} exceeds the bound {}", a, b, y, i, bound) }
            r.steps(n as u64); Ok(()) });
    }
}
