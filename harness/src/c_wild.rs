//! C38: no setting, signal or order of calls makes rendering panic or hang.
use crate::c_unity::ns;
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::*;
use std::sync::Arc;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![Check { one_process: false, id: "C38", level: "model_checking", run: c38, assumptions: &["delays, echoes, filter taps and process times that fit in memory", "every block, sound and generator is reached through one handle only", "connections between nodes of the same sound", "integer overflow counts as a panic (the harness is built with overflow checks)"] }]
}

const V: [f64; 24] = [0.0, 1.0, -1.0, 0.5, 440.0, -440.0, 23_999.5, 24_000.0, 24_001.0, 47_999.0, 48_000.0, 48_001.0, 96_000.0, 1e6, 1e9, 1e18, 1e300, -1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 1e-45];
const X: [f32; 10] = [1.0, 0.0, -0.5, 1e-45, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -0.0];
fn durs() -> Vec<Duration> { vec![Duration::default(), Duration::from_nanos(1), Duration::from_nanos(10_416), Duration::from_nanos(10_417), ns(1), ns(2), Duration::from_nanos(52_083), ns(7), Duration::from_millis(1), Duration::from_secs(1)] }
fn far() -> Vec<Duration> { let mut v = durs(); v.extend([Duration::from_secs(86_400), Duration::from_secs(1 << 40), Duration::from_secs(u64::MAX), Duration::MAX]); v }

/// An object under test: `op` 0 draws a sample for input X[arg % 10], the others are its setters with value V[arg % 24].
type T = Box<dyn FnMut(usize, usize) -> f64>;
struct Kind { name: String, setters: usize, mk: Box<dyn Fn() -> T> }
fn kind<O: 'static>(name: String, setters: usize, new: impl Fn() -> O + 'static, op: fn(&mut O, usize, usize) -> f64) -> Kind {
    let new = std::rc::Rc::new(new);
    Kind { name, setters, mk: Box::new(move || { let mut o = new(); Box::new(move |w, a| op(&mut o, w, a)) }) }
}
fn osc<O: FreqMod + Generator>(o: &mut O, w: usize, a: usize) -> f64 { if w == 0 { o.process() as f64 } else { o.set_frequency(V[a % 24]); o.get_frequency() } }
fn modi<M: Modifier>(m: &mut M, _: usize, a: usize) -> f64 { m.process(X[a % 10]) as f64 }
fn resam(o: &mut MonoResampler, w: usize, a: usize) -> f64 { if w == 0 { o.process() as f64 } else { o.set_playback_speed(V[a % 24]); o.get_playback_speed() } }
fn block<M: Modifier + 'static>(m: M) -> BlockSP { Arc::new(StandardBlock::from_modifier(m)) }
fn gblock<G: Generator + 'static>(g: G) -> BlockSP { Arc::new(StandardBlock::from_generator(g)) }

fn singles() -> Vec<Kind> {
    let mut k = vec![];
    for f in V { k.push(kind(format!("Sine({:e})", f), 1, move || Sine::new(f), osc)); k.push(kind(format!("Square({:e})", f), 1, move || Square::new(f), osc)); k.push(kind(format!("Sawtooth({:e})", f), 1, move || Sawtooth::new(f), osc)); k.push(kind(format!("Triangle({:e})", f), 1, move || Triangle::new(f), osc));
        k.push(kind(format!("Gain({:e})", f), 0, move || Gain::new(f as f32), modi)); }
    k.push(kind("Noise".into(), 0, Noise::new, |o, _, _| o.process() as f64)); k.push(kind("Zero".into(), 0, Zero::new, |o, _, _| o.process() as f64)); k.push(kind("Passthrough".into(), 0, Passthrough::new, modi));
    for n in [0usize, 1, 2, 5] { for (a, b) in [(0usize, 0usize), (0, 1), (1, 2), (2, 1), (0, 5), (4, 5), (3, 3), (5, 9), (0, usize::MAX), (usize::MAX, usize::MAX), (usize::MAX - 1, usize::MAX)] { for rate in V {
        k.push(kind(format!("MonoResampler of {} samples at {:e} Hz, loop ({},{})", n, rate, a, b), 1, move || MonoResampler::new((0..n).map(|i| Mono::from_sample(X[(i * 3) % 10])).collect(), rate, a, b), resam)); } } }
    for n in [0usize, 1, 4] { for rate in V { k.push(kind(format!("MonoWav of {} samples at {:e} Hz", n, rate), 1, move || MonoWav::from_track(rate, vec![Mono::from_sample(0.5); n]), |o, w, a| if w == 0 { o.process() as f64 } else { o.get_mut().set_playback_speed(V[a % 24]); 0.0 })); } }
    for d in durs() { k.push(kind(format!("Delay({:?})", d), 0, move || Delay::new(d), |m, w, a| m.get_delay().as_secs_f64() + modi(m, w, a))); for g in V { k.push(kind(format!("Echo({:?}, {:e})", d, g), 0, move || Echo::new(d, g), modi)) } }
    for a in V { for b in V {
        k.push(kind(format!("Envelope({:e}, {:e})", a, b), 0, move || Envelope::new(a as f32, b as f32), modi));
        k.push(kind(format!("LowPass({:e}, {:e})", a, b), 2, move || LowPass::new(a, b), |m, w, a| match w { 0 => modi(m, w, a), 1 => { m.set_central_frequency(V[a % 24]); m.get_central_frequency() } _ => { m.set_resonance(V[a % 24]); m.get_resonance() } }));
        k.push(kind(format!("HighPass({:e}, {:e})", a, b), 2, move || HighPass::new(a, b), |m, w, a| match w { 0 => modi(m, w, a), 1 => { m.set_central_frequency(V[a % 24]); m.get_central_frequency() } _ => { m.set_resonance(V[a % 24]); m.get_resonance() } }));
        fn bp(m: &mut BandPass, w: usize, a: usize) -> f64 { match w { 0 => modi(m, w, a), 1 => { m.set_central_frequency(V[a % 24]); m.get_central_frequency() } 2 => { m.set_quality(V[a % 24]); m.get_quality() } _ => { m.set_corner_frequencies((V[a % 24], V[(a * 7 + 3) % 24])); m.get_corner_frequencies().0 } } }
        k.push(kind(format!("BandPass({:e}, {:e})", a, b), 3, move || BandPass::new(a, b), bp));
        k.push(kind(format!("BandPass from corners ({:e}, {:e})", a, b), 3, move || BandPass::from_corners((a, b)), bp));
    } }
    let fd = far();
    for (i, a) in fd.iter().cloned().enumerate() { for (j, d) in fd.iter().cloned().enumerate() { for s in [0.0, -6.0, 6.0, f64::NEG_INFINITY, f64::NAN, -1e300] { let r = fd[(i * 5 + j * 3) % fd.len()];
        k.push(kind(format!("ADSR({:?}, {:?}, {:e} dB, {:?})", a, d, s, r), 1, move || ADSR::new(a, d, s, r), |m, w, a| if w == 0 { modi(m, w, a) } else { m.release(); 0.0 })); } } }
    for z in 0..=3usize { for p in 0..=3usize { for c in [0.5f32, f32::INFINITY, f32::NAN, f32::MAX, 0.0] { for st in [1usize, 3] {
        k.push(kind(format!("Generic of {} and {} taps, {} apart, coefficient {:e}", z, p, st, c), 0, move || Generic::new((0..z).rev().map(|i| (i * st, c)).collect(), (0..p).map(|i| (i * st, -c)).collect()), modi)) } } } }
    k
}
/// Blocks with parts that carry on with whatever they are given.
fn part(i: usize) -> BlockSP { match i % 8 { 0 => block(Gain::new(-2.0)), 1 => gblock(Sine::new(440.0)), 2 => block(Echo::new(ns(1), 1.0)), 3 => block(LowPass::new(2_000.0, 1.0)), 4 => block(Delay::new(ns(0))), 5 => gblock(MonoWav::from_track(44_100.0, vec![])), 6 => block(BandPass::new(0.0, 0.0)), _ => Arc::new(StandardBlock::new(Noise::new(), Envelope::new(20.0, 20_000.0), Arc::new(|a, b| a / b))) } }
fn groups() -> Vec<Kind> {
    let mut k = vec![];
    for a in 0..8 { for b in 0..8 { k.push(kind(format!("SimpleSound of parts {} and {}", a, b), 8, move || { let mut s = SimpleSound::new(1.0, 1.0, part(a)); s.add_modifier::<()>(part(b)); s }, |s, w, a| match w {
        0 => s.process(X[a % 10]) as f64, 1 => { s.set_input_gain(V[a % 24]); s.get_input_gain() } 2 => { s.set_output_gain(V[a % 24]); s.get_output_gain() } 3 => { s.toggle_pause(); s.is_paused() as u8 as f64 } 4 => { s.toggle_mute(); s.is_muted() as u8 as f64 } 5 => { s.register([0, 1, usize::MAX][a % 3]); 0.0 } 6 => { s.unregister(); s.get_id().unwrap_or(7) as f64 } 7 => { s.add_modifier::<()>(part(a)); 0.0 } _ => { s.extend_modifiers((0..a % 3).map(part).collect()); 0.0 } })); } }
    struct G { s: ComplexSound, n: Vec<GraphNode> }
    for a in 0..8 { for n in 0..=2usize { for g in [1.0, f64::NAN, -1e300] { k.push(kind(format!("ComplexSound of {} parts from {}, gains {:e}", n, a, g), 7, move || { let mut s = ComplexSound::new(g, g); let mut nn = vec![s.get_input_gain(), s.get_output_gain()]; for i in 0..n { nn.push(s.add_block(part(a + i))) } G { s, n: nn } }, |o, w, a| match w {
        0 => o.s.process(X[a % 10]) as f64, 1 | 2 => { let l = o.n.len(); let (x, y) = (o.n[a % l], o.n[a / l % l]); o.s.add_connection(x, y); 0.0 } 3 => { let l = o.n.len(); let (x, y) = (o.n[a % l], o.n[a / l % l]); o.s.remove_connection(x, y); 0.0 } 4 => { o.s.toggle_pause(); 0.0 } 5 => { o.s.toggle_mute(); 0.0 } 6 => { let b = o.s.add_block(part(a)); o.n.push(b); 0.0 } _ => { o.s.register(a); o.s.unregister(); o.s.get_nodes().len() as f64 } })); } } }
    struct C<F: SampleFormat>(StandardChannel<F>, Vec<usize>);
    fn ch<F: SampleFormat + Clone + Copy>(c: &mut C<F>, w: usize, a: usize) -> f64 { match w {
        0 => { c.0.process(); c.0.get_output().iter().map(|f| f.into_sample() as f64).sum() }
        1 => { c.0.set_gain(V[a % 24]); 0.0 }
        2 => { c.0.set_process_time(durs()[a % 9]); 0.0 }
        3 => { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, part(a))); c.0.add_sound(&mut s); c.1.push(s.get_id().unwrap_or(99)); 0.0 }
        4 => { let mut s: Arc<dyn Sound> = Arc::new(ComplexSound::new(V[a % 24], 1.0)); c.0.add_sound(&mut s); c.1.push(s.get_id().unwrap_or(99)); 0.0 }
        5 => { if let Some(i) = c.1.pop() { c.0.remove_sound(i) } 0.0 }
        _ => { c.0.remove_sound([0, 1, 2, 77, usize::MAX][a % 5]); 0.0 } } }
    for g in V { k.push(kind(format!("StandardChannel<Mono> of gain {:e}", g), 6, move || C(StandardChannel::<Mono>::new(g), vec![]), ch)); k.push(kind(format!("StandardChannel<Stereo> of gain {:e}", g), 6, move || C(StandardChannel::<Stereo>::new(g), vec![]), ch)); }
    k
}
fn args(w: usize) -> usize { if w == 0 { 10 } else { 24 } }
/// Runs the steps, then draws a few more samples.
fn go(r: &mut Run, k: &Kind, steps: &[(usize, usize)], more: usize) -> Res {
    let mut t = (k.mk)(); let mut sig = 0u64;
    for &(w, a) in steps { let y = t(w, a); r.step(); sig = sig.rotate_left(9) ^ y.to_bits() }
    for i in 0..more { let y = t(0, i % 10); if i < 20 || i + 3 > more { sig = sig.rotate_left(9) ^ y.to_bits() } }
    r.steps(more as u64); r.st(&(&k.name, steps, more)); r.outcome(sig); Ok(())
}

fn c38(c: &mut Ctx) {
    let ks = singles();
    c.section("settings and signals", format!("{} configurations of oscillators, noise, players and modifiers whose parameters run over {:?} (and lengths, loop points and durations), every history of up to {} steps over each setter at each of these values and each of the signals {:?}, then 60 samples", ks.len(), V, c.q(2, 3), X));
    for k in &ks { let al: Vec<(usize, usize)> = (0..=k.setters).flat_map(|w| (0..if w > 0 && k.name.starts_with("ADSR") { 1 } else { args(w) }).map(move |a| (w, a))).collect();
        for l in 0..=c.q(2usize, 3) { if al.len() > 40 && l > c.q(1, 2) { continue } words(al.len(), l, |w| { let st: Vec<_> = w.iter().map(|i| al[*i]).collect(); c.case(|| format!("{}: steps {:?} (0 draws, others set)", k.name, st), |r| go(r, k, &st, 60)) }) } }
    let n = c.q(20_000usize, 1_000_000);
    c.section("carried on", format!("the same configurations for {} samples, settings changed on the way", n)); c.witness();
    for k in &ks { c.case(|| format!("{}: {} samples", k.name, n), |r| { let mut t = (k.mk)(); let mut s = 0.0; for i in 0..n { if k.setters > 0 && i % 997 == 996 { t(1 + i / 997 % k.setters, i / 997); } s += t(0, i) } r.steps(n as u64); r.outcome(s.to_bits()); Ok(()) }) }
    let ks = groups(); let d = c.q(3usize, 4);
    c.section("sounds and channels", format!("{} sounds, graphs and channels of ordinary and extreme parts: every history of {} kinds of step (draw, gains, pause, mute, register, connect, disconnect, add, remove, process time), the values stepping through the same extremes from 8 places, then 20 samples", ks.len(), d));
    for k in &ks { for from in 0..8usize { words(k.setters + 1, d, |w| { let st: Vec<_> = w.iter().enumerate().map(|(i, x)| (*x, from * 3 + i * 5)).collect(); c.case(|| format!("{}: steps {:?} (0 draws, others set)", k.name, st), |r| go(r, k, &st, 20)) }) } }
    let nw = c.q(3usize, 4);
    c.section("one long life", format!("each of these driven through every window of {} steps", nw)); c.witness();
    for k in &ks { let adds = !k.name.starts_with("Standard"); c.case(|| format!("{}: window {}", k.name, nw), |r| { let st: Vec<_> = debruijn(k.setters + 1, nw).into_iter().enumerate().map(|(i, x)| (if adds && x + 1 >= k.setters && i % 4 != 0 { 0 } else { x }, i * 7 + i / 24)).collect(); go(r, k, &st, 20) }) }

    c.section("functions", format!("interpolation, decibels, conversions, panning, sample codes and frames over {:?} in every position; normalising every track of up to 4 of the signals; durations from 0 to the longest", V));
    for a in V { for b in V { c.case(|| format!("{:e}, {:e}", a, b), |r| {
        let mut s = 0.0;
        for x in V { for y in [0.0, 1.0, f64::NAN, -1e300] { s += lerp(x, a, b, y, a); s += clerp(x, a, b, y, b); s += clerp(x as f32, a as f32, b as f32, y as f32, 1.0) as f64; } }
        s += linear_to_db(a) + db_to_linear(a);
        let f = |x: f32, g: f64| { let p = <Stereo as Panner<f64>>::to_sample_format(x, g); let q = <Stereo as Panner<f32>>::to_sample_format(x, g as f32); (p + q - p * q).into_sample() as f64 };
        for x in X { s += f(x, a); let m = (Mono::from_sample(x) * a) * (b as f32); let t = Stereo::from(x, a as f32) * b; s += m.into_sample() as f64 + t.into_sample() as f64;
            let (v8, v16, v24): (Vec<u8>, Vec<i16>, Vec<i32>) = (t.into(), m.into(), t.into()); s += (v8.len() + v16.len() + v24.len()) as f64;
            let z = a as f32 * x; s += sample_to_u8(z) as f64 + sample_to_i16(z) as f64 + sample_to_i24(z) as f64 + sample_to_i24_bytes(z)[2] as f64 + sample_to_i16_bytes(z)[0] as f64 + sample_to_u8_bytes(z)[0] as f64; }
        r.steps(800); r.st(&(a.to_bits(), b.to_bits())); r.outcome(s.to_bits()); Ok(()) }) } }
    for l in 0..=4usize { words(10, l, |w| { c.case(|| format!("normalising {:?}", w.iter().map(|i| X[*i]).collect::<Vec<_>>()), |r| {
        for db in V { let mut t: Vec<f32> = w.iter().map(|i| X[*i]).collect(); normalize(db, &mut t); ensure!(t.len() == l, "{} samples became {}", l, t.len()); r.step() } r.st(&w); Ok(()) }) }) }
    for i in 0..64u32 { c.case(|| format!("2^{} samples, 2^{} s", i, i), |r| { for j in [-1i64, 0, 1] { let n = (1u64 << i).wrapping_add(j as u64); let d = samples_to_seconds(n as usize); let s = seconds_to_samples(Duration::new(n, 999_999_999)) as u64; r.steps(2); r.outcome(hash(&(d, s))) }
        seconds_to_samples(Duration::MAX); samples_to_seconds(usize::MAX); r.st(&i); Ok(()) }) }
    for i in [i32::MIN, i32::MIN + 1, -(1 << 24), -(1 << 23) - 1, -1, 0, 1 << 23, 1 << 24, i32::MAX] { c.case(|| format!("24-bit code {}", i), |r| { let y = sample_from_i24(i); r.step(); r.outcome(y.to_bits() as u64); Ok(()) }) }
    c.section("writing", "tracks of 0..=3 channels of up to 2 of the signals, equal or unequal lengths, every depth 0..=70 and the largest, clipped or not: written or refused");
    for bits in (0..=70u16).chain([255, 256, 32_768, 65_535]) { for ch in 0..=3usize { words(11, ch.min(2) * 1, |w| { for n in 0..=2usize { c.case(|| format!("{} bit, {} channels, signals {:?}, {} samples", bits, ch, w, n), |r| {
        for clip in [false, true] { for odd in [false, true] { let tr: Vec<Vec<f32>> = (0..ch).map(|k| vec![*X.get(*w.get(k % 2).unwrap_or(&0)).unwrap_or(&0.25); n + (odd && k == 1) as usize]).collect(); let mut o = vec![]; let e = write_wav(tr, bits, &mut o, clip).is_ok(); r.step(); r.outcome(hash(&(e, o.len()))) } } r.st(&(bits, ch, w, n)); Ok(()) }) } }) } }
}
