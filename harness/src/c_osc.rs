//! C01 waveforms, C02 retuning, C03 noise.
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::generators::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C01", level: "model_checking", run: c01, assumptions: &["reference phase is exact integer arithmetic; at a discontinuity of the waveform (within 1e-8 cycles) either side is accepted unless f/48000 is dyadic, but square waves must stay balanced", "value tolerance 4e-6"] },
        Check { one_process: false, id: "C02", level: "model_checking", run: c02, assumptions: &["as C01; frequencies are drawn from a finite alphabet"] },
        Check { one_process: true, id: "C03", level: "model_checking", run: c03, assumptions: &["entropy enters only through rand's thread generator, which the harness replaces", "words are enumerated over all 2^24 high parts with low byte 00 and FF"] },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Sine, Saw, Square, Tri }
pub const KINDS: [K; 4] = [K::Sine, K::Saw, K::Square, K::Tri];

pub enum Osc { Sine(Sine), Saw(Sawtooth), Square(Square), Tri(Triangle) }
impl Osc {
    pub fn new(k: K, f: f64) -> Osc { match k { K::Sine => Osc::Sine(Sine::new(f)), K::Saw => Osc::Saw(Sawtooth::new(f)), K::Square => Osc::Square(Square::new(f)), K::Tri => Osc::Tri(Triangle::new(f)) } }
    #[inline] pub fn process(&mut self) -> f32 { match self { Osc::Sine(o) => o.process(), Osc::Saw(o) => o.process(), Osc::Square(o) => o.process(), Osc::Tri(o) => o.process() } }
    pub fn set(&mut self, f: f64) { match self { Osc::Sine(o) => o.set_frequency(f), Osc::Saw(o) => o.set_frequency(f), Osc::Square(o) => o.set_frequency(f), Osc::Tri(o) => o.set_frequency(f) } }
    pub fn get(&self) -> f64 { match self { Osc::Sine(o) => o.get_frequency(), Osc::Saw(o) => o.get_frequency(), Osc::Square(o) => o.get_frequency(), Osc::Tri(o) => o.get_frequency() } }
}

/// Ideal value at phase num/den.
#[inline]
fn ideal(k: K, num: u64, den: u64) -> f64 {
    let p = num as f64 / den as f64;
    match k {
        K::Sine => (2.0 * std::f64::consts::PI * p).sin(),
        K::Saw => if 2 * num >= den { 2.0 * p - 2.0 } else { 2.0 * p },
        K::Square => if 2 * num >= den { -1.0 } else { 1.0 },
        K::Tri => if 4 * num <= den { 4.0 * p } else if 4 * num <= 3 * den { 2.0 - 4.0 * p } else { 4.0 * p - 4.0 },
    }
}
/// Is y acceptable at phase num/den, given phase uncertainty `eps` cycles and value tolerance `tol`?
#[inline]
fn accept(k: K, num: u64, den: u64, y: f64, eps: f64, tol: f64) -> bool {
    if !(y >= -1.0 && y <= 1.0) { return false }
    let i = ideal(k, num, den);
    if (y - i).abs() <= tol { return true }
    if eps == 0.0 { return false }
    match k {
        K::Saw | K::Square => {
            let p = num as f64 / den as f64;
            let e = if k == K::Saw { (p - 0.5).abs() } else { (p - 0.5).abs().min(p).min(1.0 - p) };
            e <= eps && (y.abs() - 1.0).abs() <= tol.max(4.0 * eps)
        }
        _ => false,
    }
}

/// Renders n samples of frequency a/b and compares with the ideal waveform.
fn render(r: &mut Run, k: K, a: u64, b: u64, n: u64, eps: f64, tol: f64) -> Res {
    let den = 48_000 * b;
    let f = a as f64 / b as f64;
    // when both f/48000 and 24000/f are dyadic every sensible phase arithmetic is exact: no slack at the edges
    let strict = { let x = f / 48_000.0 * 4_294_967_296.0; let z = 24_000.0 / f * 4_294_967_296.0; x.fract() == 0.0 && z.fract() == 0.0 };
    let eps = if strict { 0.0 } else { eps };
    let mut o = Osc::new(k, f);
    ensure!(close(o.get(), f, f * 1e-12), "fresh {:?} at {} Hz reports {} Hz", k, f, o.get());
    let mut p = 0u64;
    let mut bal = 0i64;
    let mut hits = 0i64; // samples exactly on the rising minus those exactly on the falling edge
    let mut sig = 0u64;
    for i in 0..n {
        let y = o.process();
        if i < 40 { r.st(&(k as u8, p, den, a)); }
        let e = if i == 0 { 0.0 } else { eps };
        if !accept(k, p, den, y as f64, e, tol) { return Err(format!("{:?} {}/{} Hz: sample {} is {} but the waveform at phase {}/{} is {}", k, a, b, i, y, p, den, ideal(k, p, den))) }
        if k == K::Square { bal += y as i64 - ideal(k, p, den) as i64; if p == 0 { hits += 1 } else if 2 * p == den { hits -= 1 } }
        sig = sig.rotate_left(3) ^ (y.to_bits() as u64);
        p += a; if p >= den { p %= den }
    }
    r.steps(n);
    r.outcome(hash(&(k as u8, sig)));
    let periods = (n as f64 * f / 48_000.0) as i64;
    ensure!(bal.abs() <= 4 + periods / 10 + 2 * hits.abs(), "square wave at {}/{} Hz is unbalanced by {} over {} samples", a, b, bal, n);
    Ok(())
}

fn c01(c: &mut Ctx) {
    c.section("zero", "1..=1000 samples");
    c.case(|| "Zero generator".into(), |r| { let mut z = Zero::new(); for i in 0..1000 { let y = z.process(); r.step(); r.st(&("z", i)); ensure!(y == 0.0, "Zero produced {}", y) } Ok(()) });

    let nmin = c.q(1_500, 20_000);
    c.section("integer frequencies", format!("every f in 1..=24000 Hz x 4 waveforms, max({}, 2.2 periods) samples each", nmin));
    for f in 1..=24_000u64 { for k in KINDS {
        let n = nmin.max((2.2 * 48_000.0 / f as f64) as u64);
        c.case(|| format!("{:?} at {} Hz, {} samples", k, f, n), |r| render(r, k, f, 1, n, 1e-8, 4e-6));
    } }

    let den = c.q(8u64, 64);
    c.section("fractional frequencies", format!("every f = m/{} Hz with 0 < f <= 40 (2.2 periods), and m/{} Hz with 1000 <= f <= {}", den, den * 2, c.q(1200, 3000)));
    for m in 1..=40 * den { for k in KINDS {
        let n = ((2.2 * 48_000.0 * den as f64 / m as f64) as u64).min(2_000_000);
        c.case(|| format!("{:?} at {}/{} Hz, {} samples", k, m, den, n), |r| render(r, k, m, den, n, 1e-8, 4e-6));
    } }
    for m in 1000 * 2 * den..=c.q(1200, 3000) * 2 * den { for k in KINDS {
        c.case(|| format!("{:?} at {}/{} Hz, 300 samples", k, m, den * 2), |r| render(r, k, m, den * 2, 300, 1e-8, 4e-6));
    } }
    let (st, nn) = c.q((7_919u64, 400u64), (499, 2_000));
    c.section("milli-hertz frequencies", format!("every multiple of {} mHz from 1 Hz up to 24 kHz, {} samples", st, nn));
    let mut f = 1_000u64; while f <= 24_000_000 { for k in KINDS { c.case(|| format!("{:?} at {} mHz", k, f), |r| render(r, k, f, 1000, nn, 1e-8, 4e-6)); } f += st }
    c.section("any frequency a double can hold", "frequencies 24000 * 0.93^n down to 1e-9 Hz, taken as the exact multiple of 2^-32 Hz nearest to them, 3000 samples");
    let mut x = 24_000.0f64; while x > 1e-9 { let a = ((x * 4_294_967_296.0) as u64).max(1); for k in KINDS { c.case(|| format!("{:?} at {}/2^32 Hz", k, a), |r| render(r, k, a, 1 << 32, 3_000, 1e-8, 4e-6)); } x *= 0.93 }
    c.section("equal-tempered notes", "MIDI notes 0..=135 (milli-Hz), 4800 samples");
    for note in 0..=135 { for k in KINDS {
        let f = (440_000.0 * 2f64.powf((note as f64 - 69.0) / 12.0)).round() as u64;
        if f > 24_000_000 { continue }
        c.case(|| format!("{:?} note {} = {} mHz", k, note, f), |r| render(r, k, f, 1000, 4800, 1e-8, 4e-6));
    } }
    c.section("tiny frequencies", "2^-k Hz, 3*2^-k Hz and 10^-k Hz for k = 1..=16, and 48000/2^k Hz for k = 1..=30");
    for kk in 1..=16u32 { for (a, b) in [(1u64, 1u64 << kk), (3, 1 << kk), (1, 10u64.pow(kk.min(14)))] { for k in KINDS {
        c.case(|| format!("{:?} at {}/{} Hz, 60000 samples", k, a, b), |r| render(r, k, a, b, 60_000, 1e-8, 4e-6));
    } } }
    for kk in 1..=30u32 { for k in KINDS { c.case(|| format!("{:?} at 48000/2^{} Hz, 60000 samples", k, kk), |r| render(r, k, 48_000, 1 << kk, 60_000, 1e-8, 4e-6)); } }
    let n = c.q(20_000_000u64, 300_000_000);
    c.section("long runs", format!("{} samples", n)); c.witness();
    for f in [1u64, 20, 440, 441, 997, 3000, 9_999, 11_025, 12_345, 17_000, 20_000, 23_999, 24_000] { for k in KINDS {
        c.case(|| format!("{:?} at {} Hz for {} samples", k, f, n), |r| render(r, k, f, 1, n, 1e-6, 2e-5));
    } }
    let mut slow: Vec<(u64, u64)> = vec![(1, 1_000), (1, 300), (1, 100), (3, 100), (7, 100), (1, 30), (11, 30)];
    if c.thorough { slow.extend([(1, 10_000), (1, 3_000), (1, 700)]) }
    c.section("slow periods", format!("one whole period and a tenth at each of {:?} Hz (numerator, denominator)", slow)); c.witness();
    for (a, b) in slow { for k in KINDS { let n = 48_000 * b * 11 / a / 10; c.case(|| format!("{:?} at {}/{} Hz for {} samples", k, a, b, n), |r| render(r, k, a, b, n, 1e-6, 2e-5)); } }
    if c.thorough {
        let n = (1u64 << 32) + (1 << 27);
        c.section("very long runs", format!("{} samples (past 2^32, a day of audio)", n)); c.witness();
        for f in [441u64, 24_000, 7] { for k in KINDS { c.case(|| format!("{:?} at {} Hz for {} samples", k, f, n), |r| render(r, k, f, 1, n, 1e-6, 2e-5)); } }
    }
}

fn c02(c: &mut Ctx) {
    // frequency alphabet in half-Hz
    let fs: Vec<u64> = c.q(vec![880, 48_000, 6_000, 2, 22_050, 1_994, 32_001, 41], vec![880, 48_000, 6_000, 2, 22_050, 1_994, 32_001, 41, 24_000, 1]);
    let ks: Vec<u64> = c.q(vec![1, 0, 2, 7, 60, 501], vec![1, 0, 2, 7, 60, 501, 3]);
    let depth = 3;
    c.section("retune histories", format!("every sequence of {} (set_frequency f; render k) segments, f in {:?}/2 Hz, k in {:?}, 4 waveforms, first f at construction", depth, fs, ks));
    let m = fs.len() * ks.len();
    for k in KINDS { words(m, depth, |w| {
        let segs: Vec<(u64, u64)> = w.iter().map(|x| (fs[x / ks.len()], ks[x % ks.len()])).collect();
        c.case(|| format!("{:?}: (half-Hz, samples) segments {:?}", k, segs), |r| retune(r, k, 2, &segs, 70));
    }) }
    let (fs2, ks2, d2) = (vec![880u64, 47_999, 37], vec![3u64, 40], c.q(5usize, 7));
    c.section("deep retune histories", format!("every sequence of {} segments, f in {:?}/2 Hz, k in {:?}", d2, fs2, ks2));
    for k in KINDS { words(6, d2, |w| {
        let segs: Vec<(u64, u64)> = w.iter().map(|x| (fs2[x / 2], ks2[x % 2])).collect();
        c.case(|| format!("{:?}: (half-Hz, samples) segments {:?}", k, segs), |r| retune(r, k, 2, &segs, 30));
    }) }
    let all = c.q(499u64, 37);
    c.section("frequency pairs", format!("every ordered pair (f,g) of multiples of {} Hz up to 24 kHz, 13 samples then 60", all));
    let v: Vec<u64> = (1..=24_000 / all).map(|i| i * all * 2).collect();
    for k in KINDS { for &f in &v { for &g in &v {
        c.case(|| format!("{:?}: {} half-Hz for 13 samples then {} half-Hz", k, f, g), |r| retune(r, k, 2, &[(f, 13), (g, 60)], 0));
    } } }
    c.section("read-back", "every integer frequency 1..=24000: new, set, and mid-waveform get");
    for k in KINDS { c.case(|| format!("{:?}: set/get of every integer frequency with a sample rendered in between", k), |r| {
        let mut o = Osc::new(k, 1.0);
        for f in 1..=24_000u64 {
            o.set(f as f64); r.step();
            ensure!(close(o.get(), f as f64, f as f64 * 1e-12), "{:?}: set {} Hz, reports {}", k, f, o.get());
            o.process(); o.process();
            ensure!(close(o.get(), f as f64, f as f64 * 1e-12), "{:?}: {} Hz reported as {} after rendering", k, f, o.get());
        }
        Ok(()) }); }
    // steps far below, around and above one hertz, down and up, from low, middle and high starting points
    let bases: Vec<u64> = vec![1_000_000, 440_000_000, 11_000_000_000, 23_999_000_000];
    let steps: Vec<i64> = c.q(vec![1, 1_000, 20_000, 1_000_000, 30_000_000], vec![1, 10, 100, 1_000, 20_000, 150_000, 1_000_000, 30_000_000]);
    c.section("fine retuning", format!("from {:?} uHz, every history of 4 retunes by 0 or +-{:?} uHz, 3 samples each; then 20000 samples over which a lost retune of 1 mHz and more shows in the waveform", bases, steps));
    for k in KINDS { for &base in &bases { for &st in &steps { words(3, 4, |w| {
        let mut f = base as i64; let mut segs = vec![(base, 3u64)];
        for &x in w { f += (x as i64 - 1) * st; if f <= 0 || f > 24_000_000_000 { return } segs.push((f as u64, 3)) }
        let tail = if w[1..].iter().all(|x| *x == w[0]) { 20_000 } else { 50 };
        c.case(|| format!("{:?}: uHz segments {:?}, {} more samples", k, segs, tail), |r| retune(r, k, 1_000_000, &segs, tail));
    }) } } }
    let sl: Vec<u64> = vec![1, 7, 100, 1_000, 12_345, 100_000, 1_000_000];
    c.section("slowed to a stop anywhere", format!("j samples at 3 kHz or 2.9 kHz, j = 0..=32, then 1000 samples at one of {:?} uHz, then 1 at 24 kHz and 60 at 1234.567891 Hz", sl));
    for k in KINDS { for f0 in [3_000_000_000u64, 2_900_000_000] { for j in 0..=32u64 { for &f in &sl { c.case(|| format!("{:?}: {} samples at {} uHz, then {} uHz", k, j, f0, f), |r| retune(r, k, 1_000_000, &[(f0, j), (f, 1_000), (24_000_000_000, 1), (1_234_567_891, 60)], 30)) } } } }
    let n = c.q(30_000u64, 400_000);
    c.section("slow glides", format!("retuned every sample, or every 7th, by a constant step for {} samples", n)); c.witness();
    for k in KINDS { for &base in &bases[1..3] { for st in [1i64, -1, 10, -50, 333, -2_000, 25_000, -14_000] { for hold in [1u64, 7] {
        c.case(|| format!("{:?}: {} uHz gliding by {} uHz every {} samples", k, base, st, hold), |r| {
            let segs: Vec<(u64, u64)> = (0..n / hold).map(|i| ((base as i64 + i as i64 * st) as u64, hold)).filter(|x| (x.0 as i64) > 0 && x.0 < 24_000_000_000).collect();
            retune(r, k, 1_000_000, &segs, 100) });
    } } } }
    let (w1, w2) = (c.q(7, 8), c.q(2, 3));
    c.section("one long life", format!("one oscillator driven through every window of {} segments over 6 (frequency, samples) pairs, and of {} over 48", w1, w2)); c.witness();
    for k in KINDS {
        c.case(|| format!("{:?}: de Bruijn history of 6 segments, window {}", k, w1), |r| { let segs: Vec<(u64, u64)> = debruijn(6, w1).iter().map(|x| (fs2[x / 2], [1, 4][x % 2])).collect(); retune(r, k, 2, &segs, 30) });
        c.case(|| format!("{:?}: de Bruijn history of 48 segments, window {}", k, w2), |r| { let fs: [u64; 8] = [880, 48_000, 6_000, 2, 22_050, 1_994, 32_001, 41]; let segs: Vec<(u64, u64)> = debruijn(48, w2).iter().map(|x| (fs[x / 6], [1, 0, 2, 7, 60, 501][x % 6])).collect(); retune(r, k, 2, &segs, 70) });
    }
    let nl = c.q(40_000_000u64, 400_000_000);
    c.section("retuned late", format!("retuned after {} samples, and retuned every 100003 samples for as long", nl)); c.witness();
    for k in KINDS {
        c.case(|| format!("{:?}: late retunes", k), |r| retune(r, k, 2, &[(880, 1), (32_001, nl / 2), (41, nl / 2), (22_050, 300)], 3_000));
        c.case(|| format!("{:?}: many retunes", k), |r| retune(r, k, 2, &(0..nl / 100_003).map(|i| (1 + i * 7_919 % 48_000, 100_003)).collect::<Vec<_>>(), 3_000));
    }
    c.section("sweep", "one continuous sweep, retuned every sample"); c.witness();
    for k in KINDS { c.case(|| format!("{:?}: f(n) = 1 + n*7919 mod 48000 half-Hz, retuned every sample for 200000 samples", k), |r| {
        let segs: Vec<(u64, u64)> = (0..200_000u64).map(|n| (1 + n * 7919 % 48_000, 1)).collect();
        retune(r, k, 2, &segs, 100) }); }
}

/// Frequencies of the segments are in 1/den Hz.
fn retune(r: &mut Run, k: K, den: u64, segs: &[(u64, u64)], tail: u64) -> Res {
    let d = 48_000 * den; // phase unit: 1/d cycle
    let mut o = Osc::new(k, segs[0].0 as f64 / den as f64);
    let mut p = 0u64;
    for (i, &(f, n)) in segs.iter().enumerate() {
        let hz = f as f64 / den as f64;
        if i > 0 { o.set(hz) }
        ensure!(close(o.get(), hz, hz * 1e-12), "{:?}: segment {}: frequency set to {} Hz but reported as {}", k, i, hz, o.get());
        let n = if i + 1 == segs.len() { n + tail } else { n };
        for j in 0..n {
            let y = o.process(); r.step();
            if j < 2 { r.st(&(k as u8, p, d, f)) }
            if !accept(k, p, d, y as f64, if i == 0 && j == 0 { 0.0 } else { 1e-8 }, 4e-6) {
                return Err(format!("{:?}: segment {} ({} Hz) sample {} is {}, waveform at accumulated phase {}/{} is {}", k, i, hz, j, y, p, d, ideal(k, p, d)));
            }
            if j + 1 == n { r.outcome(hash(&(k as u8, (y * 1000.0) as i32))) }
            p = (p + f) % d;
        }
        ensure!(close(o.get(), hz, hz * 1e-12), "{:?}: segment {}: frequency {} Hz reported as {} after rendering", k, i, hz, o.get());
    }
    Ok(())
}

fn c03(c: &mut Ctx) {
    use rand::rngs::thread_verif as rv;
    const BINS: usize = 4096;
    let mut hist = vec![0u64; BINS];
    c.section("all entropy words", "every random word i<<8 and i<<8|0xFF, i in 0..2^24, one sample each on a long-lived generator");
    for low in [0u32, 0xFF] { for hi in 0..256u32 {
        let h = &mut hist;
        c.case(|| format!("words {:02x}000000..{:02x}ffffff with low byte {:02x}", hi, hi, low), |r| {
            let mut n = Noise::new();
            for i in 0..(1u32 << 16) {
                let w = (((hi << 16) | i) << 8) | low;
                rv::set_fixed(Some(w));
                let y = n.process();
                ensure!(y >= -1.0 && y < 1.0, "random word {:#010x} gave sample {} outside [-1,1)", w, y);
                h[(((y as f64 + 1.0) / 2.0 * BINS as f64) as usize).min(BINS - 1)] += 1;
                if i % 64 == 0 { r.st(&w); r.outcome(y.to_bits() as u64) }
            }
            r.steps(1 << 16);
            rv::reset();
            Ok(())
        });
    } }
    c.section("uniformity", format!("histogram of all samples above over {} bins", BINS));
    let total: u64 = hist.iter().sum();
    if total == 2 << 24 { c.case(|| "histogram over all words".into(), |r| {
        let e = (2u64 << 24) as f64 / BINS as f64;
        for (i, &x) in hist.iter().enumerate() { r.step(); ensure!((x as f64 - e).abs() < 0.05 * e, "bin {} of [-1,1) holds {} samples, expected {}", i, x, e) }
        Ok(()) }); }
    let al = [0u32, 0x8000_0000, 0xFFFF_FFFF, 0x4000_0000, 0x1234_5678];
    let ln = c.q(60_000_000u64, 3_000_000_000);
    c.section("long memorylessness", format!("one generator for {} samples, the words changing pseudo-periodically; every sample must be the image of its word", ln)); c.witness();
    c.case(|| format!("{} samples", ln), |r| {
        let ws: Vec<u32> = (0..257u32).map(|i| i.wrapping_mul(0x9E37_79B9) ^ (i << 7)).collect();
        let map: Vec<f32> = ws.iter().map(|w| { rv::set_fixed(Some(*w)); Noise::new().process() }).collect();
        let mut g = Noise::new();
        for i in 0..ln { let k = (i % 257) as usize; rv::set_fixed(Some(ws[k])); let y = g.process(); if y != map[k] { rv::reset(); return Err(format!("word {:#x} gave {} as sample {} but {} as a first sample", ws[k], y, i, map[k])) } }
        r.steps(ln); rv::reset(); r.st(&ln); r.outcome(ln); Ok(())
    });
    let d = c.q(5, 7);
    c.section("memorylessness", format!("every word sequence of length {} over {} words, alternating two generators and a clone", d, al.len()));
    let mut map = vec![];
    for w in al { rv::set_fixed(Some(w)); map.push(guarded(|| Noise::new().process()).unwrap_or(f32::NAN)); }
    rv::reset();
    words(al.len(), d, |w| c.case(|| format!("words {:x?}", w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| {
        let (mut a, mut b) = (Noise::new(), Noise::default());
        let mut cl = a.clone();
        for (t, &i) in w.iter().enumerate() {
            for g in [&mut a, &mut b, &mut cl] {
                if (t + i) % 2 == 0 { rv::set_fixed(Some(!al[i])); g.process(); }
                rv::set_fixed(Some(al[i]));
                let y = g.process(); r.step();
                r.st(&(t, i, y.to_bits())); r.outcome(y.to_bits() as u64);
                ensure!(y == map[i], "word {:#x} gave {} at step {} but {} on a fresh generator", al[i], y, t, map[i]);
            }
        }
        rv::reset();
        Ok(())
    }));
    c.section("independence", "consecutive samples use fresh words"); 
    c.case(|| "2000 samples of two generators from the default stream".into(), |r| {
        rv::reset();
        let (mut a, mut b) = (Noise::new(), Noise::new());
        let mut seen = std::collections::HashSet::new();
        for _ in 0..2000 { for g in [&mut a, &mut b] { let d0 = rv::draws(); let y = g.process(); r.step(); ensure!(rv::draws() > d0, "a sample was produced without drawing randomness"); seen.insert(y.to_bits()); } }
        ensure!(seen.len() > 3900, "only {} distinct samples in 4000", seen.len());
        Ok(())
    });
}
