//! C06 non-looping resampling, C07 looping, C31 wave player.
use crate::engine::*;
use crate::wavref;
use crate::{ensure, Check};
use bae_rs::generators::{Generator, MonoWav};
use bae_rs::sample_format::Mono;
use bae_rs::utils::MonoResampler;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C06", level: "model_checking", run: c06, assumptions: &["the reference position is an exact rational; where the rate ratio is not dyadic, a position within 1e-6 of the end of the track may be taken on either side", "sample values from a fixed dyadic alphabet (the output is affine in them), tolerance 2e-6 (3e-4 on runs of millions of samples)"] },
        Check { one_process: false, id: "C07", level: "model_checking", run: c07, assumptions: &["reference position is an exact rational reduced modulo the loop", "tolerance as C06"] },
        Check { one_process: false, id: "C31", level: "model_checking", run: c31, assumptions: &["files are produced by the harness's own WAV encoder", "resampling reference as C06"] },
    ]
}

/// Reference resampler: position in units of 1/U samples.
pub const U: u64 = 20_160_000;
#[derive(Clone)]
pub struct Ref { pub data: Vec<f32>, pub pos: u128, pub rate: u64, pub lp: Option<(u64, u64)>, pub dyadic: bool }
impl Ref {
    pub fn new(data: &[f32], rate: u64, a: usize, b: usize) -> Ref {
        let (a, b) = (a.min(b), a.max(b));
        let b = b.min(data.len());
        let lp = if b > a { Some((a as u64, b as u64)) } else { None };
        let dyadic = { let x = rate as f64 / 48_000.0 * 1024.0; x.fract() == 0.0 };
        Ref { data: data.to_vec(), pos: 0, rate, lp, dyadic }
    }
    pub fn value(&self) -> f64 {
        let k = (self.pos / U as u128) as usize; let fr = (self.pos % U as u128) as f64 / U as f64;
        if k >= self.data.len() { return 0.0 }
        let x1 = self.data[k] as f64;
        let x2 = match self.lp {
            Some((a, b)) if k as u64 + 1 == b => self.data[a as usize] as f64,
            _ => if k + 1 < self.data.len() { self.data[k + 1] as f64 } else { x1 },
        };
        x1 + fr * (x2 - x1)
    }
    /// speed in quarters
    pub fn advance(&mut self, s4: u64) { self.advance_by(s4, 4) }
    /// speed sn/sd
    pub fn advance_by(&mut self, sn: u64, sd: u64) {
        let num = U as u128 * self.rate as u128 * sn as u128;
        assert!(num % (48_000 * sd as u128) == 0, "inexact reference step");
        self.pos += num / (48_000 * sd as u128);
        if let Some((a, b)) = self.lp {
            let (a, b) = (a as u128 * U as u128, b as u128 * U as u128);
            if self.pos >= b { self.pos = a + (self.pos - b) % (b - a) }
        }
    }
    pub fn accept(&self, y: f64, tol: f64) -> bool {
        if (y - self.value()).abs() <= tol { return true }
        if !self.dyadic && self.lp.is_none() {
            let end = self.data.len() as u128 * U as u128;
            let d = if self.pos > end { self.pos - end } else { end - self.pos };
            if d == 0 { let last = self.data.last().copied().unwrap_or(0.0) as f64; return (y - last).abs() <= tol || y == 0.0 }
        }
        false
    }
}

const PAT: [f32; 8] = [0.5, -0.25, 1.0, -0.75, 0.125, 0.875, -1.0, 0.0625];
fn track(n: usize, shift: usize) -> Vec<f32> { (0..n).map(|i| if n <= 8 { PAT[(i + shift) % 8] } else { (((i * 2654435761usize + shift * 97) >> 3) % 2048) as f32 / 1024.0 - 1.0 }).collect() }
fn monos(t: &[f32]) -> Vec<Mono> { t.iter().map(|x| Mono::from(*x)).collect() }

/// segs: (speed in quarters, samples); an initial None keeps the default speed.
fn run(r: &mut Run, t: &[f32], rate: u64, a: usize, b: usize, segs: &[(Option<u64>, u64)], tol: f64) -> Res {
    let mut m = Ref::new(t, rate, a, b);
    let mut o = MonoResampler::new(monos(t), rate as f64, a, b);
    drive(r, &mut o, &mut m, segs, tol)
}
fn drive(r: &mut Run, o: &mut MonoResampler, m: &mut Ref, segs: &[(Option<u64>, u64)], tol: f64) -> Res {
    let mut s4 = 4;
    ensure!(o.get_playback_speed() == 1.0, "initial playback speed is {}", o.get_playback_speed());
    let mut sig = 0u64;
    for (i, &(s, n)) in segs.iter().enumerate() {
        if let Some(s) = s { s4 = s; o.set_playback_speed(s as f64 / 4.0); }
        ensure!(o.get_playback_speed() == s4 as f64 / 4.0, "segment {}: speed set to {} but reads {}", i, s4 as f64 / 4.0, o.get_playback_speed());
        for j in 0..n {
            if j < 8 { r.st(&(m.pos, m.data.len(), m.rate, m.lp)) }
            let y = o.process(); r.step();
            sig = sig.rotate_left(7) ^ y.to_bits() as u64;
            ensure!(m.accept(y as f64, tol), "segment {} (speed {}), sample {}: output {} but position {} of {} gives {}", i, s4 as f64 / 4.0, j, y, m.pos as f64 / U as f64, m.data.len(), m.value());
            m.advance(s4);
        }
    }
    r.outcome(sig);
    Ok(())
}

const RATES: [u64; 6] = [48_000, 24_000, 44_100, 96_000, 8_000, 192_000];

fn c06(c: &mut Ctx) {
    let sp: &[u64] = c.q(&[4, 0, 2, 8, 1, 6][..], &[4, 0, 2, 8, 1, 6, 12, 3]);
    let ks: &[u64] = &[1, 2, 5];
    let d = 3;
    c.section("speed histories", format!("tracks of length 0..=5, rates {:?}, every sequence of {} (speed/4 in {:?}, samples in {:?}) segments then 12 samples at speed 1", RATES, d, sp, ks));
    for len in 0..=5usize { let t = track(len, 0); for rate in RATES {
        words(sp.len() * ks.len(), d, |w| {
            let mut segs: Vec<(Option<u64>, u64)> = w.iter().map(|x| (Some(sp[x / ks.len()]), ks[x % ks.len()])).collect();
            segs.push((Some(4), 12));
            c.case(|| format!("track {:?} at {} Hz, (speed/4, samples) {:?}", t, rate, segs), |r| run(r, &t, rate, 0, 0, &segs, 2e-6));
        });
    } }
    let lmax = c.q(120, 400);
    c.section("all lengths", format!("lengths 0..={}, rates {:?}, constant speed/4 in {:?}, default speed, to the end and 50 samples beyond, loop points (0,0) and equal points", lmax, RATES, sp));
    for len in 0..=lmax { for rate in RATES { for &s in sp { if s == 0 { continue }
        let t = track(len, 3);
        let n = len as u64 * 48_000 * 4 / rate / s + 50;
        c.case(|| format!("length {} at {} Hz speed {}/4, {} samples", len, rate, s, n), |r| run(r, &t, rate, 0, 0, &[(if s == 4 { None } else { Some(s) }, n)], 2e-6));
    } } }
    for len in 1..=5usize { for e in 1..=len { for rate in RATES { let t = track(len, 1);
        c.case(|| format!("length {} at {} Hz with equal loop points {}", len, rate, e), |r| run(r, &t, rate, e, e, &[(None, 40)], 2e-6));
    } } }
    let (lt, st) = c.q((40usize, 130u64), (130, 520));
    c.section("fast playback", format!("lengths 1..={}, speed/4 in 1..={}, rates 48000, 44100, 96000, to the end and 6 samples beyond", lt, st));
    for len in 1..=lt { let t = track(len, 2); for s in 1..=st { for rate in [48_000u64, 44_100, 96_000] { let n = len as u64 * 48_000 * 4 / rate / s + 7;
        c.case(|| format!("length {} at {} Hz speed {}/4, {} samples", len, rate, s, n), |r| run(r, &t, rate, 0, 0, &[(Some(s), n)], 2e-6)) } } }
    let rs: Vec<u64> = (1..=c.q(96, 400)).map(|i| i * 500).collect();
    c.section("rates", format!("source rates 500 Hz steps up to {} Hz on an 11-sample track to the end", rs.last().unwrap()));
    for &rate in &rs {
        let t = track(11, 2); let n = 11 * 48_000 / rate + 20;
        c.case(|| format!("11 samples at {} Hz", rate), |r| run(r, &t, rate, 0, 0, &[(None, n)], 2e-6));
    }
    c.section("rates and speeds that cancel", "source rate 48000*m*2^k Hz at speed 2^-k, k in -60..=60, m in 1/4, 1/2, 1, 3/2, 3, 7: the position advances by exactly m; set before the first sample, or after 5 at another pair");
    let t64 = track(64, 3);
    for k in -60..=60i32 { for (mn, md) in [(1u64, 4u64), (1, 2), (1, 1), (3, 2), (3, 1), (7, 1)] { for late in [false, true] { c.case(|| format!("rate 48000*{}/{}*2^{} Hz, speed 2^-{}{}", mn, md, k, k, if late { " after 5 samples held" } else { "" }), |r| {
        let rate = 48_000.0 * mn as f64 / md as f64 * 2f64.powi(k); let sp = 2f64.powi(-k);
        let mut o = MonoResampler::new(monos(&t64), rate, 0, 0); let mut m = Ref::new(&t64, 48_000, 0, 0); m.dyadic = false;
        if late { o.set_playback_speed(0.0); for _ in 0..5 { let y = o.process(); ensure!(m.accept(y as f64, 2e-6), "held sample {} instead of {}", y, m.value()) } }
        o.set_playback_speed(sp);
        for j in 0..64 * md / mn + 10 { ensure!(o.get_playback_speed() == sp, "speed reads {:e} instead of {:e}", o.get_playback_speed(), sp); let y = o.process(); r.step(); r.st(&(m.pos, k)); ensure!(m.accept(y as f64, 2e-6), "sample {}: {} instead of {}", j, y, m.value()); m.advance_by(mn, md) }
        r.outcome(hash(&(k, mn, md))); Ok(()) }) } } }
    let ratio = c.q(1.3f64, 1.07);
    c.section("any rate", format!("integer rates from the geometric sequence {}^n up to 10^11 Hz, tracks long enough for at least 9 samples (up to 4 million)", ratio));
    let mut x = 1.0f64; while x < 1e11 { let rate = x as u64; x = (x * ratio).max(x + 1.0); c.case(|| format!("{} Hz", rate), |r| {
        let len = ((rate as f64 / 48_000.0 * 9.3) as usize + 6).min(4_000_000); let t = track(len, 1);
        let n = (len as u64 * 48_000 / rate + 20).min(20_000);
        run(r, &t, rate, 0, 0, &[(None, n)], if len > 1000 { 1e-4 } else { 2e-6 }) }) }
    let d = c.q(6, 8);
    c.section("track values", format!("every track of up to {} samples over 0, 1, -0.5 (silence at either end included), rates {:?}, speeds 1 and 1/2, to the end and 12 samples beyond", d, RATES));
    for len in 1..=d { words(3, len, |w| { let t: Vec<f32> = w.iter().map(|i| [0.0, 1.0, -0.5][*i]).collect(); for rate in RATES { for s in [None, Some(2u64)] {
        let n = len as u64 * 48_000 * 4 / rate / s.unwrap_or(4) + 12;
        c.case(|| format!("track {:?} at {} Hz speed {:?}/4", t, rate, s), |r| run(r, &t, rate, 0, 0, &[(s, n)], 2e-6));
    } } }) }
    let top = c.q(5_000usize, 500_000);
    c.section("long stretches", format!("2 samples, held at speed 0 for N samples, then to the end; and N samples past the end, then speed changes; N around powers of two and round numbers up to {}", top)); c.witness();
    for n in stretches(top) { for rate in [48_000u64, 44_100, 8_000] { let t = track(7, 0);
        c.case(|| format!("7 samples at {} Hz: 2 samples, {} held, to the end", rate, n), |r| run(r, &t, rate, 0, 0, &[(None, 2), (Some(0), n as u64), (Some(4), 60)], 2e-6));
        c.case(|| format!("7 samples at {} Hz: {} samples, then at speeds 0, 2, 1", rate, n + 50), |r| run(r, &t, rate, 0, 0, &[(None, n as u64 + 50), (Some(0), 3), (Some(8), 3), (Some(4), 3)], 2e-6));
    } }
    let odd = [11_025u64, 22_050, 37_800, 1, 7, 999, 352_800, 384_000, 1_000_003];
    let sds: &[(u64, u64)] = &[(1, 3), (2, 3), (5, 7), (1, 420), (7, 5), (101, 3), (1000, 1), (13, 12)];
    c.section("odd rates and speeds", format!("tracks of length 0..={}, rates {:?}, speeds {:?} (non-dyadic, tiny, huge), to the end and beyond", c.q(6, 14), odd, sds));
    for len in 0..=c.q(6usize, 14) { let t = track(len, 6); for rate in odd.iter().chain(&RATES).cloned() { for &(sn, sd) in sds {
        c.case(|| format!("length {} at {} Hz speed {}/{}", len, rate, sn, sd), |r| {
            let mut m = Ref::new(&t, rate, 0, 0); m.dyadic = false;
            let mut o = MonoResampler::new(monos(&t), rate as f64, 0, 0);
            let sp = sn as f64 / sd as f64; o.set_playback_speed(sp);
            ensure!(o.get_playback_speed() == sp, "speed set to {} but reads {}", sp, o.get_playback_speed());
            let n = ((len as f64 * 48_000.0 / rate as f64 / sp) as u64 + 20).min(20_000); let mut sig = 0u64;
            for j in 0..n {
                let y = o.process(); r.step(); if j < 4 { r.st(&(m.pos, len, rate)) } sig = sig.rotate_left(7) ^ y.to_bits() as u64;
                ensure!(m.accept(y as f64, 2e-6), "sample {}: output {} but position {} of {} gives {}", j, y, m.pos as f64 / U as f64, len, m.value());
                m.advance_by(sn, sd);
            }
            ensure!(o.get_playback_speed() == sp, "speed set to {} but reads {} after rendering", sp, o.get_playback_speed());
            r.outcome(sig); Ok(()) });
    } } }
    let d4 = c.q(5, 6);
    c.section("four and more speed changes", format!("tracks of length 2, 3 and 7, every sequence of {} segments over (speed/4 in [4, 0, 1, 6], samples in [1, 3]) then 20 samples", d4));
    for len in [2usize, 3, 7] { let t = track(len, 0); for rate in [48_000u64, 44_100, 16_000] { words(8, d4, |w| {
        let mut segs: Vec<(Option<u64>, u64)> = w.iter().map(|x| (Some([4, 0, 1, 6][x / 2]), [1, 3][x % 2])).collect();
        segs.push((None, 20));
        c.case(|| format!("track {:?} at {} Hz, (speed/4, samples) {:?}", t, rate, segs), |r| run(r, &t, rate, 0, 0, &segs, 2e-6));
    }) } }
    let nw = c.q(4, 5);
    c.section("one long life", format!("a 400000-sample track driven through one history containing every window of {} segments over (speed/4 in [4, 0, 1, 6, 3], samples in [1, 2, 7])", nw)); c.witness();
    for rate in [48_000u64, 44_100, 8_000] { c.case(|| format!("de Bruijn history of 15 segments, window {}, at {} Hz", nw, rate), |r| {
        let segs: Vec<(Option<u64>, u64)> = debruijn(15, nw).iter().map(|x| (Some([4, 0, 1, 6, 3][x / 3]), [1, 2, 7][x % 3])).collect();
        run(r, &track(400_000, 5), rate, 0, 0, &segs, 3e-4) }); }
    c.section("long tracks", "tracks of millions of samples"); c.witness();
    for (rate, n) in [(48_000u64, 300_000usize), (44_100, 1_000_000), (96_000, 2_000_000)] {
        let t = track(n, 5);
        c.case(|| format!("{} samples at {} Hz to the end", n, rate), |r| run(r, &t, rate, 0, 0, &[(None, n as u64 * 48_000 / rate + 100)], 3e-4));
    }
    let n = (1usize << 24) + 5_000;
    c.case(|| "2^24+5000 samples: skip to 100 samples before 2^24 then play to the end at half speed".to_string(), |r| {
        let t = track(n, 5);
        run(r, &t, 48_000, 0, 0, &[(Some(4 * ((1 << 24) - 100)), 1), (Some(2), 12_000), (Some(4), 300)], 3e-4) });
    c.case(|| "2^24+5000 samples at 44.1 kHz: skip to just before 2^24, quarter speed".to_string(), |r| {
        let t = track(n, 5);
        run(r, &t, 44_100, 0, 0, &[(Some(4 * 18_200_000), 1), (Some(1), 30_000)], 3e-4) });
    if c.thorough { for rate in RATES { c.case(|| format!("20 million samples at {} Hz to the end", rate), |r| { let t = track(20_000_000, 5); run(r, &t, rate, 0, 0, &[(None, 20_000_000u64 * 48_000 / rate + 100)], 5e-2) }); } }
}

fn c07(c: &mut Ctx) {
    let sp: &[u64] = c.q(&[4, 0, 2, 12, 7, 1][..], &[4, 0, 2, 12, 7, 1, 8, 40]);
    let ks: &[u64] = c.q(&[1, 6][..], &[1, 3, 6]);
    let d = c.q(3, 3);
    c.section("loop regions x speed histories", format!("tracks of length 1..=5, every 0 <= a < b <= length in both argument orders, rates {:?}, every sequence of {} (speed/4 in {:?}, samples in {:?}) segments then 25 samples at speed 1", RATES, d, sp, ks));
    for len in 1..=5usize { let t = track(len, 0); for b in 1..=len { for a in 0..b { for rate in RATES {
        let mut flip = false;
        words(sp.len() * ks.len(), d, |w| {
            let mut segs: Vec<(Option<u64>, u64)> = w.iter().map(|x| (Some(sp[x / ks.len()]), ks[x % ks.len()])).collect();
            segs.push((Some(4), 25));
            flip = !flip;
            let (p, q) = if flip { (a, b) } else { (b, a) };
            c.case(|| format!("track {:?} at {} Hz, loop points ({},{}), (speed/4, samples) {:?}", t, rate, p, q, segs), |r| run(r, &t, rate, p, q, &segs, 2e-6));
        });
    } } } }
    let lmax = c.q(24, 50);
    c.section("all loop regions", format!("track length 1..={}, every (a,b), rates {:?}, speeds 1/4, 1 and 7/4", lmax, RATES));
    for len in 1..=lmax { let t = track(len, 3); for b in 1..=len { for a in 0..b { for rate in RATES { for s in [1u64, 4, 7] {
        let n = (3 * len as u64 * 48_000 * 4 / rate / s).min(400) + 20;
        c.case(|| format!("length {} at {} Hz, loop ({},{}), speed {}/4", len, rate, a, b, s), |r| run(r, &t, rate, a, b, &[(Some(s), n)], 2e-6));
    } } } } }
    c.section("loop end beyond the track", "track length 1..=5, a < length, b in length+1..=length+4 and a huge value");
    for len in 1..=5usize { let t = track(len, 1); for a in 0..len { for b in [len + 1, len + 2, len + 4, 1 << 40] { for rate in RATES {
        c.case(|| format!("length {} at {} Hz, loop points ({},{})", len, rate, a, b), |r| run(r, &t, rate, a, b, &[(None, 60)], 2e-6));
    } } } }
    c.section("fast playback", "speeds up to 4096 on loops of 1..=5 samples (many wraps per step)");
    for b in 1..=5usize { let t = track(5, 4); for a in 0..b { for rate in RATES { for s in [17u64, 64, 401, 16_384] {
        c.case(|| format!("loop ({},{}) of 5 at {} Hz, speed {}/4", a, b, rate, s), |r| run(r, &t, rate, a, b, &[(Some(s), 40), (Some(1), 30)], 2e-5));
    } } } }
    let nw = c.q(4, 5);
    c.section("one long life", format!("one loop driven through a history containing every window of {} segments over (speed/4 in [4, 0, 1, 6, 37], samples in [1, 2, 7])", nw)); c.witness();
    for (len, a, b) in [(5usize, 2usize, 4usize), (5, 0, 5), (40, 3, 33), (3, 2, 3)] { for rate in [48_000u64, 44_100, 96_000] { c.case(|| format!("de Bruijn history, window {}, {} samples at {} Hz looping ({},{})", nw, len, rate, a, b), |r| {
        let segs: Vec<(Option<u64>, u64)> = debruijn(15, nw).iter().map(|x| (Some([4, 0, 1, 6, 37][x / 3]), [1, 2, 7][x % 3])).collect();
        run(r, &track(len, 0), rate, a, b, &segs, 3e-4) }); } }
    let d = c.q(5, 6);
    c.section("track values", format!("every track of up to {} samples over 0, 1, -0.5, every loop, rates 48000, 44100, 24000", d));
    for len in 1..=d { words(3, len, |w| { let t: Vec<f32> = w.iter().map(|i| [0.0, 1.0, -0.5][*i]).collect(); for b in 1..=len { for a in 0..b { for rate in [48_000u64, 44_100, 24_000] {
        c.case(|| format!("track {:?} at {} Hz, loop ({},{})", t, rate, a, b), |r| run(r, &t, rate, a, b, &[(None, 30)], 2e-6));
    } } } }) }
    let top = c.q(5_000usize, 500_000);
    c.section("long stretches", format!("3 samples, held at speed 0 for N samples, then 20 more; N around powers of two and round numbers up to {}", top)); c.witness();
    for n in stretches(top) { for rate in [48_000u64, 44_100, 96_000] { for (a, b) in [(0usize, 5usize), (2, 4), (3, 7), (6, 7)] { let t = track(7, 0);
        c.case(|| format!("7 samples at {} Hz looping ({},{}): 3 samples, {} held, 20 samples", rate, a, b, n), |r| run(r, &t, rate, a, b, &[(None, 3), (Some(0), n as u64), (Some(4), 20)], 2e-6));
    } } }
    let odd = [11_025u64, 22_050, 37_800, 1, 7, 999, 352_800, 1_000_003];
    let sds: &[(u64, u64)] = &[(1, 3), (5, 7), (1, 420), (101, 3), (1000, 1), (13, 12)];
    c.section("odd rates and speeds", format!("tracks of length 1..=4, every loop, rates {:?}, speeds {:?}", odd, sds));
    for len in 1..=4usize { let t = track(len, 6); for b in 1..=len { for a in 0..b { for &rate in &odd { for &(sn, sd) in sds {
        c.case(|| format!("length {} loop ({},{}) at {} Hz speed {}/{}", len, a, b, rate, sn, sd), |r| {
            let mut m = Ref::new(&t, rate, a, b);
            let mut o = MonoResampler::new(monos(&t), rate as f64, a, b);
            o.set_playback_speed(sn as f64 / sd as f64);
            for j in 0..300 {
                let y = o.process(); r.step(); if j < 4 { r.st(&(m.pos, len, rate)); r.outcome(y.to_bits() as u64) }
                ensure!(m.accept(y as f64, 1e-4), "sample {}: output {} but position {} gives {}", j, y, m.pos as f64 / U as f64, m.value());
                m.advance_by(sn, sd);
            }
            Ok(()) });
    } } } } }
    let kt = c.q(24u32, 26);
    c.section("loops of every size and place", format!("loops starting at 2^k + 1 or ending at 2^k + 3, of 1, 2, 5, 1000 samples or from the track's start, k in 4..={}, entered by one fast step, then speeds 1, 1/2, 7/4", kt));
    for k in 4..=kt { let p = 1usize << k; for (a, b) in [(p + 1, p + 2), (p + 1, p + 3), (p - 1, p + 4), (p + 1, p + 1_001), (0, p + 3), (1, p - 1)] { for rate in [48_000u64, 44_100] {
        c.case(|| format!("looping ({},{}) at {} Hz", a, b, rate), |r| { let t = track(b + 5, 5); let to = (b as u64 - 1).max(2) - 1; let m = (to as u128 * 4 * 48_000 / rate as u128) as u64;
            run(r, &t, rate, a, b, &[(Some(m), 1), (Some(4), 50), (Some(2), 20), (Some(7), 30), (Some(4 * (b - a) as u64 + 4), 3), (Some(4), 20)], if k > 20 { 2e-4 } else { 2e-5 }) });
    } } }
    let n = c.q(2_000_000u64, 100_000_000);
    c.section("long runs", format!("{} samples", n)); c.witness();
    for (len, a, b, rate) in [(1000usize, 100usize, 1000usize, 44_100u64), (48_000, 0, 48_000, 44_100), (50_000, 1234, 40_001, 96_000), (7, 2, 5, 44_100), (3, 0, 3, 8_000)] {
        let t: Vec<f32> = if len <= 8 { track(len, 0) } else { (0..len).map(|i| ((i as f64 * 0.01).sin() * 0.9) as f32).collect() };
        c.case(|| format!("{} samples of a {}-sample track at {} Hz looping ({},{})", n, len, rate, a, b), |r| run(r, &t, rate, a, b, &[(None, n)], 2e-3));
    }
    c.case(|| "loop end at 2^24+3000, entered at 2^24".into(), |r| { let t = track((1 << 24) + 4000, 5); run(r, &t, 48_000, 1 << 24, (1 << 24) + 3000, &[(Some(4 * (1 << 24)), 1), (Some(3), 9000)], 3e-4) });
}

fn c31(c: &mut Ctx) {
    let rates = [8_000u32, 16_000, 24_000, 44_100, 48_000, 96_000, 192_000];
    let fmax = c.q(5usize, 8);
    c.section("files", format!("channels 1..=4, bits 8/16/24, rates {:?}, 0..={} frames, two code patterns, default speed and speed 1/2 set through get_mut", rates, fmax));
    for ch in 1..=4u16 { for bits in [8u16, 16, 24] { for rate in rates { for frames in 0..=fmax { for pat in 0..2u32 { for slow in [false, true] {
        let codes: Vec<i32> = (0..frames * ch as usize).map(|i| { let h = hash(&(i, pat, bits)) as i64; let full = 1i64 << bits; let v = (h.rem_euclid(full)) as i64; (if bits == 8 { v } else { v - full / 2 }) as i32 }).collect();
        c.case(|| format!("{} channel(s), {} bit, {} Hz, codes {:?}, speed {}", ch, bits, rate, codes, if slow { 0.5 } else { 1.0 }), |r| {
            let bytes = wavref::encode(ch, bits, rate, &codes);
            let t: Vec<f32> = codes.chunks(ch as usize).map(|f| wavref::decode_code(bits, f[0]) as f32).collect();
            let mut m = Ref::new(&t, rate as u64, 0, 0);
            let mut w = MonoWav::from_source(&mut std::io::Cursor::new(bytes));
            let mut v = MonoWav::from_track(rate as f64, monos(&t));
            let mut s4 = 4;
            let n = frames as u64 * 48_000 * 2 / rate as u64 + 10;
            let mut sig = 0u64;
            for i in 0..n {
                if slow && i == 1 { w.get_mut().set_playback_speed(0.5); v.get_mut().set_playback_speed(0.5); s4 = 2; }
                ensure!(w.get().get_playback_speed() == s4 as f64 / 4.0, "accessor reads speed {}", w.get().get_playback_speed());
                let (x, y) = if i == 2 { (w.get_mut().process(), v.get_mut().process()) } else { (w.process(), v.process()) };
                r.steps(2); r.st(&(m.pos, frames, rate, ch, bits)); sig = sig.rotate_left(7) ^ x.to_bits() as u64;
                ensure!(m.accept(x as f64, 2e-6), "sample {}: from_source gives {}, expected {}", i, x, m.value());
                ensure!(m.accept(y as f64, 2e-6), "sample {}: from_track gives {}, expected {}", i, y, m.value());
                m.advance(s4);
            }
            r.outcome(sig);
            Ok(())
        });
    } } } } } }
    let d = c.q(5, 6);
    c.section("codes", format!("1 and 2 channels, every first channel of up to {} codes over silence, top, bottom and 1 above silence; 8/16/24 bit, rates 12000, 44100, 48000, 96000", d));
    for ch in 1..=2u16 { for bits in [8u16, 16, 24] { let mid = if bits == 8 { 128i32 } else { 0 }; let h = 1i32 << (bits - 1); let al = [mid, mid + h - 1, mid - h, mid + 1];
        for len in 1..=d { words(4, len, |w| { for rate in [12_000u32, 44_100, 48_000, 96_000] {
            c.case(|| format!("{} channel(s), {} bit, {} Hz, first channel {:?}", ch, bits, rate, w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| {
                let codes: Vec<i32> = w.iter().flat_map(|i| std::iter::once(al[*i]).chain((1..ch).map(|k| al[(*i + k as usize) % 4]))).collect();
                let t: Vec<f32> = w.iter().map(|i| wavref::decode_code(bits, al[*i]) as f32).collect();
                let mut m = Ref::new(&t, rate as u64, 0, 0); let mut p = MonoWav::from_source(&mut std::io::Cursor::new(wavref::encode(ch, bits, rate, &codes)));
                for i in 0..len as u64 * 48_000 / rate as u64 + 8 { let y = p.process(); r.step(); r.st(&(m.pos, len, rate, ch, bits)); r.outcome(y.to_bits() as u64); ensure!(m.accept(y as f64, 2e-6), "sample {}: {} expected {}", i, y, m.value()); m.advance(4) }
                Ok(()) });
        } }) } } }
    let ratio = c.q(1.35f64, 1.1);
    c.section("any sampling rate", format!("1 and 2 channels, 8/16/24 bit, header rates from the geometric sequence {}^n up to 2^32-1 Hz, and 2^31-1, 2^31, 2^32-1; as far as the byte rate fits its header field; files long enough for 5 samples (at most 500000 frames)", ratio));
    let mut rs: Vec<u32> = vec![(1 << 31) - 1, 1 << 31, u32::MAX]; let mut x = 1.0f64; while x < 4.29e9 { rs.push(x as u32); x = (x * ratio).max(x + 1.0) }
    for &rate in &rs { for (ch, bits) in [(1u16, 16u16), (2, 16), (1, 8), (1, 24)] { if rate as u64 * ch as u64 * bits as u64 / 8 > u32::MAX as u64 { continue } c.case(|| format!("{} channel(s), {} bit, {} Hz", ch, bits, rate), |r| {
        let frames = ((rate as f64 / 48_000.0 * 5.5) as usize + 6).min(500_000);
        let codes: Vec<i32> = (0..frames * ch as usize).map(|i| { let v = (i as i64 * 7_919) % (1 << bits); (if bits == 8 { v } else { v - (1 << (bits - 1)) }) as i32 }).collect();
        let t: Vec<f32> = codes.chunks(ch as usize).map(|f| wavref::decode_code(bits, f[0]) as f32).collect();
        let mut m = Ref::new(&t, rate as u64, 0, 0); m.dyadic = false; let mut p = MonoWav::from_source(&mut std::io::Cursor::new(wavref::encode(ch, bits, rate, &codes)));
        for i in 0..(frames as u64 * 48_000 / rate as u64 + 8).min(3_000) { let y = p.process(); r.step(); r.st(&(m.pos, rate, ch, bits)); ensure!(m.accept(y as f64, 1e-4), "sample {}: {} expected {}", i, y, m.value()); m.advance(4) }
        r.outcome(rate as u64); Ok(()) }) } }
    c.section("channel counts", "every channel count 1..=300 and counts around powers of two up to the most the header can hold, 0..=3 frames, 8/16/24 bit, 48000 and 24000 Hz: the first channel is the one played, at the header's rate");
    for bits in [8u16, 16, 24] { let most = 65_535 / (bits as u32 / 8); for ch in (1..=300u32).chain([511, 512, 513, 1_000, 1_024, 4_096, 10_923, 16_384, 21_845, 32_767, 32_768, 65_535]) { if ch > most { continue } for frames in 0..=3usize { for rate in [48_000u32, 24_000] {
        c.case(|| format!("{} channels of {} frames, {} bit, {} Hz", ch, frames, bits, rate), |r| {
            if ch as u64 * rate as u64 * bits as u64 / 8 > u32::MAX as u64 { return Ok(()) }
            let codes: Vec<i32> = (0..frames * ch as usize).map(|i| { let v = ((i as i64 % ch as i64) * 37 + (i as i64 / ch as i64) * 101 + 19) * 7_919 % (1 << bits); (if bits == 8 { v } else { v - (1 << (bits - 1)) }) as i32 }).collect();
            let t: Vec<f32> = codes.chunks(ch as usize).map(|f| wavref::decode_code(bits, f[0]) as f32).collect();
            let mut m = Ref::new(&t, rate as u64, 0, 0); let mut p = MonoWav::from_source(&mut wavref::encode(ch as u16, bits, rate, &codes).as_slice());
            for i in 0..12 { let y = p.process(); r.step(); r.st(&(m.pos, frames, rate, ch, bits)); r.outcome(y.to_bits() as u64); ensure!(m.accept(y as f64, 2e-6), "sample {}: {} expected {}", i, y, m.value()); m.advance(4) }
            Ok(()) }) } } } }
    let top = c.q(700usize, 5_000);
    c.section("file lengths", format!("every length 1..={} frames and lengths around powers of two up to 2^{}, mono and stereo, 8/16/24 bit, 48000 and 32000 Hz, played to the end and beyond; sources giving everything, 1, 7 or 4095 bytes at a time", top, c.q(17, 20)));
    struct Few<'a>(&'a [u8], usize); impl<'a> std::io::Read for Few<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
    let far: Vec<usize> = (9..=c.q(17u32, 20)).flat_map(|k| vec![(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n > top).collect();
    for n in (1..=top).chain(far) { for (q, (ch, bits)) in [(1u16, 8u16), (2, 8), (1, 16), (2, 16), (1, 24), (2, 24)].iter().cloned().enumerate() { let rate = [48_000u32, 32_000][(n + q) % 2]; let few = [usize::MAX, 1, 7, 4_095][(n + q / 2) % 4];
        c.case(|| format!("{} frames, {} channel(s), {} bit, {} Hz, {} bytes at a time", n, ch, bits, rate, few), |r| {
            let codes: Vec<i32> = (0..n * ch as usize).map(|i| { let v = (i as i64 * 7_919 + 3) % (1 << bits); (if bits == 8 { v } else { v - (1 << (bits - 1)) }) as i32 }).collect();
            let t: Vec<f32> = codes.chunks(ch as usize).map(|f| wavref::decode_code(bits, f[0]) as f32).collect();
            let bytes = wavref::encode(ch, bits, rate, &codes); let mut m = Ref::new(&t, rate as u64, 0, 0); let mut p = MonoWav::from_source(&mut Few(&bytes, few)); r.st(&(n, ch, bits)); let mut sig = 0u64;
            for i in 0..n as u64 * 48_000 / rate as u64 + 5 { let y = p.process(); r.step(); sig = sig.rotate_left(5) ^ y.to_bits() as u64; ensure!(m.accept(y as f64, 1e-4), "sample {}: {} expected {}", i, y, m.value()); m.advance(4) }
            r.outcome(sig); Ok(()) }) } }
    c.section("longer files", "2.5 s of 16-bit stereo at 44.1/22.05/48 kHz"); c.witness();
    for rate in [44_100u32, 48_000, 32_000] {
        c.case(|| format!("{} Hz, 2.5 s", rate), |r| {
            let codes: Vec<i32> = (0..(rate as usize * 5 / 2) * 2).map(|i| ((i * 7919) % 65_536) as i32 - 32_768).collect();
            let bytes = wavref::encode(2, 16, rate, &codes);
            let t: Vec<f32> = codes.chunks(2).map(|f| wavref::decode_code(16, f[0]) as f32).collect();
            let mut m = Ref::new(&t, rate as u64, 0, 0);
            let mut w = MonoWav::from_source(&mut std::io::Cursor::new(bytes));
            for i in 0..125_000u64 { let y = w.process(); r.step(); ensure!(m.accept(y as f64, 1e-4), "sample {}: {} expected {}", i, y, m.value()); m.advance(4); }
            r.outcome(rate as u64);
            Ok(()) });
    }
}
