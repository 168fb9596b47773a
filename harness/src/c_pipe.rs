//! C32 whole pipeline (sounds -> channel -> file), C33 linear modifiers as convolutions, C34 one notion of time.
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::{db_to_linear, read_wav, write_wav};
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C32", level: "model_checking", run: c32, assumptions: &["sounds are handed over to the channel (the caller keeps no handle)", "what one generator or modifier yields is decided by its own property; here its samples are taken from a separate instance composed by hand", "the order in which a channel sums its sounds is free (tolerance 2e-6 of the summed magnitudes)"] },
        Check { one_process: false, id: "C33", level: "model_checking", run: c33, assumptions: &["the impulse response is taken from a fresh instance of the implementation; its value is decided by C15, C16, C17 and C18", "single-precision output: 4e-6 relative to the summed magnitudes"] },
        Check { one_process: false, id: "C34", level: "model_checking", run: c34, assumptions: &["durations of whole samples, to the nearest nanosecond or as the library converts them; what happens to fractions of a sample is decided by C15 and C25"] },
    ]
}

// ---------------------------------------------------------------- C32
fn ns(n: u64) -> Duration { Duration::from_nanos(((n as u128 * 1_000_000_000 + 24_000) / 48_000) as u64) }
pub const KINDS: usize = 8;
fn gb<G: Generator + Clone + 'static>(g: G) -> BlockSP { Arc::new(StandardBlock::from_generator(g)) }
fn mb<M: Modifier + Clone + 'static>(m: M) -> BlockSP { Arc::new(StandardBlock::from_modifier(m)) }
fn ramp() -> MonoTrackT { [0.5f32, -0.25, 1.0, -1.0, 0.125, 0.75].iter().map(|x| Mono::from_sample(*x)).collect() }
fn adsr() -> ADSR { ADSR::new(ns(3), ns(2), -6.0, ns(2)) }

fn build(k: usize) -> Arc<dyn Sound> {
    match k {
        0 => Arc::new(SimpleSound::new(1.0, 0.5, gb(Square::new(6_000.0)))),
        1 => { let mut s = SimpleSound::new(0.0, 0.25, gb(Sawtooth::new(3_000.0))); s.add_modifier::<()>(mb(Delay::new(ns(2)))); Arc::new(s) }
        2 => { let mut s = SimpleSound::new(1.0, 1.0, gb(MonoWav::from_track(24_000.0, ramp()))); s.extend_modifiers(vec![mb(Gain::new(-0.5)), mb(Echo::new(ns(3), 0.5))]); Arc::new(s) }
        3 => {
            let mut s = ComplexSound::new(1.0, 0.5);
            let (g, m, f) = (s.add_block(gb(Sine::new(440.0))), s.add_block(mb(Gain::new(1.0))), s.add_block(mb(Gain::new(-0.75))));
            let o = s.get_output_gain();
            s.add_connection(g, m); s.add_connection(m, f); s.add_connection(f, m); s.add_connection(m, o);
            Arc::new(s)
        }
        4 => {
            let mut s = ComplexSound::new(1.0, -0.25);
            let b = s.add_block(Arc::new(StandardBlock::new(Triangle::new(880.0), adsr(), StandardBlock::modifier_passthrough())));
            let t = s.add_block(gb(Triangle::new(880.0)));
            let o = s.get_output_gain();
            s.add_connection(t, b); s.add_connection(b, o);
            Arc::new(s)
        }
        5 => { let mut s = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::new(Square::new(1_000.0), Passthrough::new(), StandardBlock::generator_passthrough()))); s.extend_modifiers(vec![mb(LowPass::new(2_000.0, 0.3)), mb(HighPass::new(100.0, 0.0))]); Arc::new(s) }
        6 => {
            // two voices into one band, side by side with a dry path
            let mut s = ComplexSound::new(1.0, 0.5);
            let (a, b, f, d) = (s.add_block(gb(Sawtooth::new(700.0))), s.add_block(gb(Square::new(350.0))), s.add_block(mb(BandPass::from_corners((300.0, 3_000.0)))), s.add_block(mb(Delay::new(ns(4)))));
            let o = s.get_output_gain();
            s.add_connection(f, o); s.add_connection(a, f); s.add_connection(b, f); s.add_connection(a, d); s.add_connection(d, o);
            Arc::new(s)
        }
        _ => { let mut s = SimpleSound::new(1.0, 1.0, gb(Zero::new())); s.add_modifier::<()>(mb(Gain::new(3.0))); Arc::new(s) }
    }
}
/// The same sounds composed by hand from their parts.
struct Hand { g: Vec<Box<dyn FnMut() -> f64>> }
fn hand(k: usize) -> Box<dyn FnMut() -> f64> {
    match k {
        0 => { let mut g = Square::new(6_000.0); Box::new(move || g.process() as f64 * 0.5) }
        1 => { let mut g = Sawtooth::new(3_000.0); let mut q: VecDeque<f32> = vec![0.0; 2].into(); Box::new(move || { q.push_back(g.process()); q.pop_front().unwrap() as f64 * 0.25 }) }
        2 => { let mut g = MonoWav::from_track(24_000.0, ramp()); let mut q: VecDeque<f64> = vec![0.0; 3].into(); Box::new(move || { let y = g.process() as f64 * -0.5 + q.pop_front().unwrap() * 0.5; q.push_back(y); y }) }
        3 => { let mut g = Sine::new(440.0); let mut m = 0.0; Box::new(move || { m = g.process() as f64 - 0.75 * m; m * 0.5 }) }
        4 => { let mut g = Triangle::new(880.0); let mut n = 0; let s = db_to_linear(-6.0);
            Box::new(move || { n += 1; let e = if n <= 3 { n as f64 / 3.0 } else if n <= 5 { 1.0 - (1.0 - s) * (n - 3) as f64 / 2.0 } else { s }; g.process() as f64 * e * -0.25 }) }
        5 => { let mut g = Square::new(1_000.0); let mut l = LowPass::new(2_000.0, 0.3); let mut h = HighPass::new(100.0, 0.0); Box::new(move || { let x = l.process(g.process()); h.process(x) as f64 }) }
        6 => { let mut a = Sawtooth::new(700.0); let mut b = Square::new(350.0); let mut f = BandPass::from_corners((300.0, 3_000.0)); let mut q: VecDeque<f32> = vec![0.0; 4].into();
            Box::new(move || { let (x, y) = (a.process(), b.process()); q.push_back(x); (f.process(x + y) as f64 + q.pop_front().unwrap() as f64) * 0.5 }) }
        _ => Box::new(|| 0.0),
    }
}
const LEN: usize = 1024;
impl Hand { fn new() -> Hand { Hand { g: (0..KINDS).map(hand).collect() } } }
/// The first LEN samples of every kind.
fn streams() -> Vec<Vec<f64>> { let mut h = Hand::new(); h.g.iter_mut().map(|f| (0..LEN).map(|_| f()).collect()).collect() }

trait Sf: SampleFormat + 'static { fn chans(&self) -> Vec<f32>; const NAME: &'static str; }
impl Sf for Mono { fn chans(&self) -> Vec<f32> { vec![self.clone().into_sample()] } const NAME: &'static str = "Mono"; }
impl Sf for Stereo { fn chans(&self) -> Vec<f32> { vec![self.left, self.right] } const NAME: &'static str = "Stereo"; }

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { P(u64), Add, Rem, Gain(f64) }

/// Everything a channel rendered, one track per channel of the format.
fn render<SF: Sf>(r: &mut Run, st: &[Vec<f64>], ops: impl Iterator<Item = Op>, start: &[usize]) -> Result<Vec<Vec<f32>>, String> {
    let mut ch: StandardChannel<SF> = StandardChannel::new(1.0);
    let mut live: Vec<(usize, usize, usize)> = vec![]; // kind, id, position
    let (mut added, mut gain) = (0, 1f64);
    let mut out: Vec<Vec<f32>> = vec![vec![]; SF::num_samples()];
    let one: Vec<f32> = SF::from_sample(1.0).chans();
    let add = |ch: &mut StandardChannel<SF>, k: usize| { let mut s = build(k); ch.add_sound(&mut s); s.get_id() };
    let mut todo: Vec<Op> = vec![]; for &k in start { live.push((k, add(&mut ch, k).ok_or("no id")?, 0)); }
    todo.extend(ops);
    for (i, o) in todo.iter().enumerate() {
        r.step();
        match *o {
            Op::Add => { let k = added % KINDS; added += 1; live.push((k, add(&mut ch, k).ok_or("no id")?, 0)) }
            Op::Rem => if !live.is_empty() { let l = live.remove(0); ch.remove_sound(l.1) },
            Op::Gain(g) => { ch.set_gain(g); gain = g }
            Op::P(n) => {
                ch.set_process_time(ns(n)); ch.process();
                let o = ch.get_output();
                ensure!(o.len() as u64 == n, "step {}: {} samples for a process time of {}", i, o.len(), n);
                for (t, f) in o.iter().enumerate() {
                    let (mut w, mut mag) = (0.0, 0.0);
                    for l in &live { let x = st[l.0][l.2 + t]; w += x; mag += x.abs() }
                    for (c, y) in f.chans().into_iter().enumerate() {
                        let want = w * gain * one[c] as f64;
                        ensure!(close(y as f64, want, 3e-6 * (mag * gain).abs() + 1e-6 * gain.abs().min(1.0)), "step {} {:?}: sample {} channel {} is {}, the sounds {:?} (kind, id, position) mix to {}", i, todo, t, c, y, live, want);
                        out[c].push(y);
                    }
                }
                for l in live.iter_mut() { l.2 += n as usize }
            }
        }
        r.st(&(SF::NAME, gain.to_bits(), live.iter().map(|l| (l.0, l.2)).collect::<Vec<_>>()));
    }
    r.outcome(hash(&(SF::NAME, out.iter().map(|t| t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>())));
    Ok(out)
}
/// Writes what was rendered and compares what comes back from the file.
fn through_file(r: &mut Run, tr: &[Vec<f32>], bits: u16) -> Res {
    let mut f = vec![];
    write_wav(tr.to_vec(), bits, &mut f, true).map_err(|e| format!("writing the rendering failed: {}", e))?;
    let (h, back) = read_wav(&mut &f[..]).map_err(|e| format!("reading the rendering back failed: {}", e))?;
    ensure!(h.channel_count as usize == tr.len() && h.sampling_rate == 48_000 && h.bits_per_sample == bits && back.len() == tr.len(), "rendered {} channels of {} bit, read back as {:?}", tr.len(), bits, h);
    let step = 1.0 / ((1u32 << (bits - 1)) as f64 - if bits == 8 { 0.0 } else { 1.0 });
    for (k, (a, b)) in tr.iter().zip(&back).enumerate() {
        ensure!(a.len() == b.len(), "channel {}: {} samples rendered, {} read back", k, a.len(), b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let x = x.max(-1.0).min(1.0) as f64;
            let tol = if bits == 8 && x > 127.0 / 128.0 { 1.0 } else { 0.5 };
            ensure!(close(x, *y as f64, tol * step * (1.0 + 1e-5) + 1.2e-7), "channel {} sample {}: rendered {} read back as {} ({} bit)", k, i, x, y, bits);
        }
    }
    r.steps(2); Ok(())
}

fn c32(c: &mut Ctx) {
    let st = streams();
    let ops = [Op::P(1), Op::P(2), Op::P(5), Op::Add, Op::Rem, Op::Gain(0.5), Op::Gain(-2.0)];
    let d = c.q(7, 8);
    c.section("histories", format!("every sequence of {} operations from {:?} (sounds are added in a fixed order of {} kinds), then one more sample; mono and stereo; the rendering is then written and read back at 24 bit", d, ops, KINDS));
    words(ops.len(), d, |w| {
        let v: Vec<Op> = w.iter().map(|i| ops[*i]).chain(Some(Op::P(1))).collect();
        c.case(|| format!("Mono ops {:?}", v), |r| { let o = render::<Mono>(r, &st, v.iter().cloned(), &[3])?; through_file(r, &o, 24) });
        c.case(|| format!("Stereo ops {:?}", v), |r| { let o = render::<Stereo>(r, &st, v.iter().cloned(), &[])?; through_file(r, &o, 24) });
    });
    let n = c.q(9u64, 12);
    c.section("every cut", format!("every way to cut {} samples into calls x every set of the {} kinds of sound; mono and stereo", n, KINDS));
    for set in 0..1usize << KINDS { for cut in 0..1usize << (n - 1) {
        let start: Vec<usize> = (0..KINDS).filter(|k| set >> k & 1 == 1).collect();
        let mut v = vec![1u64]; for i in 0..n - 1 { if cut >> i & 1 == 1 { v.push(1) } else { *v.last_mut().unwrap() += 1 } }
        let f = |m: usize| { let o: Vec<Op> = v.iter().map(|x| Op::P(*x)).collect(); (o, m) };
        c.case(|| format!("Mono, sounds {:?}, calls of {:?} samples", start, v), |r| render::<Mono>(r, &st, f(0).0.into_iter(), &start).map(|_| ()));
        if set % 5 == 0 { c.case(|| format!("Stereo, sounds {:?}, calls of {:?} samples", start, v), |r| render::<Stereo>(r, &st, f(0).0.into_iter(), &start).map(|_| ())); }
    } }
    c.section("every pair, every depth", "every ordered pair of kinds, the second added after 0..=12 samples, the first removed 0..=12 samples later, 8/16/24 bit file of the rendering");
    for a in 0..KINDS { for b in 0..KINDS { for x in 0..=12u64 { for y in 0..=12u64 {
        c.case(|| format!("sound {}, {} samples, sound {}, {} samples, first removed, 3 samples", a, x, b, y), |r| {
            let st2: Vec<Vec<f64>> = vec![st[a].clone(), st[b].clone()];
            for bits in [8u16, 16, 24] { let o = two::<Stereo>(r, &st2, a, b, x, y)?; through_file(r, &o, bits)?; }
            two::<Mono>(r, &st2, a, b, x, y).map(|_| ())
        });
    } } } }
    let secs = c.q(1u64, 30);
    c.section("long renderings", format!("{} s of each kind and of all kinds together, in calls of 1, 7, 480, 4800 and 48000 samples, written and read back", secs)); c.witness();
    for start in (0..KINDS).map(|k| vec![k]).chain(Some((0..KINDS).collect())) { for call in [1u64, 7, 480, 4_800, 48_000] {
        c.case(|| format!("sounds {:?} in calls of {}", start, call), |r| {
            let n = (secs * 48_000 / call) as usize; let mut h: Vec<_> = start.iter().map(|k| hand(*k)).collect();
            let st: Vec<Vec<f64>> = { let mut v = vec![vec![]; KINDS]; for (k, f) in start.iter().zip(h.iter_mut()) { v[*k] = (0..n * call as usize).map(|_| f()).collect() } v };
            let mut ch: StandardChannel<Stereo> = StandardChannel::new(0.5); ch.set_process_time(ns(call));
            for k in &start { let mut s = build(*k); ch.add_sound(&mut s); }
            let mut out: Vec<Vec<f32>> = vec![vec![]; 2];
            for i in 0..n { ch.process(); for (t, f) in ch.get_output().iter().enumerate() {
                let mut w = 0.0; for k in &start { w += st[*k][i * call as usize + t] }
                for (c, y) in f.chans().into_iter().enumerate() { ensure!(close(y as f64, w * 0.5 * Stereo::from_sample(1.0).chans()[c] as f64, 1e-5), "sample {} channel {}: {} instead of {}", i * call as usize + t, c, y, w); out[c].push(y) } } }
            ensure!(out[0].len() == n * call as usize, "{} samples rendered", out[0].len());
            r.steps((n as u64) * call); through_file(r, &out, 16) });
    } }
    c.section("many voices", "100 sounds of mixed kinds at once, one added before and one removed after every call"); c.witness();
    for call in [1u64, 3] { c.case(|| format!("calls of {}", call), |r| render::<Mono>(r, &st, (0..100).map(|_| Op::Add).chain((0..60).flat_map(|_| vec![Op::P(call), Op::Add, Op::P(call), Op::Rem])), &[]).map(|_| ())); }
}
fn two<SF: Sf>(r: &mut Run, st: &[Vec<f64>], a: usize, b: usize, x: u64, y: u64) -> Result<Vec<Vec<f32>>, String> {
    let mut ch: StandardChannel<SF> = StandardChannel::new(1.0); let one = SF::from_sample(1.0).chans();
    let mut s = build(a); ch.add_sound(&mut s); let ida = s.get_id().ok_or("no id")?; drop(s);
    let mut out = vec![vec![]; one.len()]; let mut t = 0usize; let (mut pa, mut pb) = (Some(0usize), None::<usize>);
    for (k, n) in [x, y, 3].iter().enumerate() {
        if k == 1 { let mut s = build(b); ch.add_sound(&mut s); ensure!(s.get_id() != Some(ida), "both sounds have id {}", ida); pb = Some(0) }
        if k == 2 { ch.remove_sound(ida); pa = None }
        ch.set_process_time(ns(*n)); ch.process(); ensure!(ch.get_output().len() as u64 == *n, "{} samples instead of {}", ch.get_output().len(), n);
        for f in ch.get_output() {
            let mut w = 0.0; if let Some(p) = pa.as_mut() { w += st[0][*p]; *p += 1 } if let Some(p) = pb.as_mut() { w += st[1][*p]; *p += 1 }
            for (c, v) in f.chans().into_iter().enumerate() { ensure!(close(v as f64, w * one[c] as f64, 8e-6), "sample {} channel {} is {} instead of {}", t, c, v, w * one[c] as f64); out[c].push(v) }
            t += 1;
        }
        r.step(); r.st(&(a, b, pa, pb));
    }
    r.outcome(hash(&out.iter().map(|t: &Vec<f32>| t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    Ok(out)
}

// ---------------------------------------------------------------- C33
#[derive(Clone, Debug, PartialEq)]
enum L { Pass, Gain(f32), Delay(u64), Echo(u64, f64), Low(f64, f64), High(f64, f64), Band(f64, f64), Gen(Vec<(usize, f32)>, Vec<(usize, f32)>), Block(Box<L>), Cascade(Box<L>, Box<L>) }
fn make(l: &L) -> Box<dyn FnMut(f32) -> f32> {
    fn m<M: Modifier + 'static>(mut m: M) -> Box<dyn FnMut(f32) -> f32> { Box::new(move |x| m.process(x)) }
    match l {
        L::Pass => m(Passthrough::new()), L::Gain(g) => m(Gain::new(*g)), L::Delay(n) => m(Delay::new(ns(*n))), L::Echo(n, g) => m(Echo::new(ns(*n), *g)),
        L::Low(f, r) => m(LowPass::new(*f, *r)), L::High(f, r) => m(HighPass::new(*f, *r)), L::Band(a, b) => m(BandPass::from_corners((*a, *b))),
        L::Gen(z, p) => m(Generic::new(z.iter().cloned().collect(), p.iter().cloned().collect())),
        L::Block(l) => { let mut s = SimpleSound::new(1.0, 1.0, block(l)); Box::new(move |x| s.process(x)) }
        L::Cascade(a, b) => { let (mut a, mut b) = (make(a), make(b)); Box::new(move |x| b(a(x))) }
    }
}
fn block(l: &L) -> BlockSP {
    match l {
        L::Pass => mb(Passthrough::new()), L::Gain(g) => mb(Gain::new(*g)), L::Delay(n) => mb(Delay::new(ns(*n))), L::Echo(n, g) => mb(Echo::new(ns(*n), *g)),
        L::Low(f, r) => mb(LowPass::new(*f, *r)), L::High(f, r) => mb(HighPass::new(*f, *r)), L::Band(a, b) => mb(BandPass::from_corners((*a, *b))),
        L::Gen(z, p) => mb(Generic::new(z.iter().cloned().collect(), p.iter().cloned().collect())),
        _ => unreachable!(),
    }
}
fn configs() -> Vec<L> {
    let mut v = vec![L::Pass];
    for g in [0.0f32, 1.0, -0.5, 3.0, 1e-6] { v.push(L::Gain(g)) }
    for n in [0u64, 1, 2, 3, 5, 8, 13] { v.push(L::Delay(n)) }
    for n in [1u64, 2, 3, 5] { for g in [0.0, 0.5, -0.9, 1.0] { v.push(L::Echo(n, g)) } }
    for f in [10.0, 300.0, 5_000.0, 24_000.0] { for r in [0.0, 0.5, 0.95] { v.push(L::Low(f, r)); v.push(L::High(f, r)) } }
    for p in [(20.0, 40.0), (300.0, 3_000.0), (1_000.0, 1_010.0), (50.0, 20_000.0), (12_000.0, 23_000.0)] { v.push(L::Band(p.0, p.1)) }
    for z in [vec![(0usize, 1.0f32)], vec![(0, 0.5), (1, 0.5)], vec![(3, -1.0), (0, 0.25)], vec![(1, 1.0), (1, -0.5)], vec![]] { for p in [vec![], vec![(0usize, 0.5f32)], vec![(1, -0.25), (0, 0.5)], vec![(3, 0.5)]] { v.push(L::Gen(z.clone(), p.clone())) } }
    v
}
const TOL: f64 = 4e-6;
/// Impulse response by superposition of nothing: a fresh instance fed one unit sample.
fn impulse(l: &L, n: usize) -> Vec<f64> { let mut m = make(l); (0..n).map(|i| m(if i == 0 { 1.0 } else { 0.0 }) as f64).collect() }
fn convolves(r: &mut Run, l: &L, h: &[f64], xs: &[f32]) -> Res {
    let mut m = make(l);
    let habs: f64 = h.iter().map(|x| x.abs()).fold(0.0, f64::max).max(1e-30);
    let mut mag = 0.0f64;
    for n in 0..xs.len() {
        let y = m(xs[n]) as f64;
        let mut w = 0.0; for k in 0..=n.min(h.len() - 1) { w += h[k] * xs[n - k] as f64 }
        mag += xs[n].abs() as f64 * habs.max(1.0);
        ensure!(close(y, w, TOL * mag), "{:?}: input {:?}; sample {} is {}, superposing the impulse responses of the inputs gives {}", l, &xs[..=n.min(40)], n, y, w);
        if mag == 0.0 { ensure!(y == 0.0, "{:?}: silence gives {} at sample {}", l, y, n) }
        r.step(); if n < 16 { r.st(&(n, (w * 1e6) as i64)) }
        if n + 1 == xs.len() { r.outcome((y as f32).to_bits() as u64) }
    }
    Ok(())
}

fn c33(c: &mut Ctx) {
    let cf = configs();
    let al = [0.0f32, 1.0, -0.5, 0.125];
    let d = c.q(8, 10);
    c.section("superposition", format!("every input word of length {} over {:?}, then 6 zeros, {} settings of the linear modifiers", d, al, cf.len()));
    for l in &cf { let h = impulse(l, d + 6); words(al.len(), d, |w| {
        c.case(|| format!("{:?} input {:?}", l, w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| convolves(r, l, &h, &w.iter().map(|i| al[*i]).chain((0..6).map(|_| 0.0)).collect::<Vec<_>>()));
    }) }
    let d = c.q(4, 6);
    c.section("inside a sound", format!("the same through a block in a simple sound and with every ordered pair of settings in series, words of length {}", d));
    for l in &cf { let b = L::Block(Box::new(l.clone())); let h = impulse(l, d + 6); words(al.len(), d, |w| {
        c.case(|| format!("{:?} input {:?}", b, w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| convolves(r, &b, &h, &w.iter().map(|i| al[*i]).chain((0..6).map(|_| 0.0)).collect::<Vec<_>>()));
    }) }
    for a in &cf { for b in &cf { let l = L::Cascade(Box::new(a.clone()), Box::new(b.clone()));
        // the response of two in series is the convolution of theirs, in either order
        let n = 12; let (ha, hb) = (impulse(a, n), impulse(b, n));
        let h: Vec<f64> = (0..n).map(|i| (0..=i).map(|k| ha[k] * hb[i - k]).sum()).collect();
        for x in [&[1.0f32, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0][..], &[0.5, -1.0, 0.25, 1.0, 1.0, -0.125, 0.0, 0.75, -0.5, 0.0, 0.0, 1.0][..]] {
            c.case(|| format!("{:?} then {:?}, input {:?}", a, b, x), |r| {
                let s = ha.iter().map(|x| x.abs()).sum::<f64>().max(1.0) * hb.iter().map(|x| x.abs()).sum::<f64>().max(1.0);
                let mut m = make(&l);
                for i in 0..n { let y = m(x[i]) as f64; let w: f64 = (0..=i).map(|k| h[k] * x[i - k] as f64).sum(); r.step(); ensure!(close(y, w, 2e-6 * s), "sample {} is {} instead of {}", i, y, w) }
                Ok(()) });
        }
    } }
    c.section("scale", "every input word of length 4 over the alphabet scaled by every 5th power of two from 2^-100 to 2^100: the output scales along");
    for l in &cf { words(al.len(), 4, |w| { if w[0] == 0 { return } c.case(|| format!("{:?} input {:?}", l, w), |r| {
        let run = |g: f32| { let mut m = make(l); w.iter().map(|i| al[*i]).chain((0..8).map(|_| 0.0)).map(|x| m(x * g)).collect::<Vec<f32>>() };
        let base = run(1.0);
        for e in -20..=20 { let g = pow2(5 * e); for (i, (y, b)) in run(g).iter().zip(&base).enumerate() { r.step(); ensure!(close(*y as f64 / g as f64, *b as f64, TOL), "scaled by 2^{}: sample {} is {} instead of {}", 5 * e, i, y, *b as f64 * g as f64) } }
        r.outcome(hash(&base.iter().map(|x| x.to_bits()).collect::<Vec<_>>())); Ok(()) }) }) }
    let n = c.q(600usize, 4_000);
    c.section("shift", format!("an impulse at every position up to {} samples gives the same response, shifted", n));
    for l in &cf { c.case(|| format!("{:?}", l), |r| {
        let h = impulse(l, 40);
        for at in 0..n { let mut m = make(l);
            for i in 0..at { let y = m(0.0); ensure!(y == 0.0, "silence gives {} at sample {}", y, i) }
            for (i, w) in h.iter().enumerate() { let y = m(if i == 0 { 1.0 } else { 0.0 }); ensure!(close(y as f64, *w, TOL * w.abs().max(0.1)), "impulse after {} samples of silence: response {} is {} instead of {}", at, i, y, w) }
            r.steps(at as u64 + 40) }
        r.outcome(hash(&h.iter().map(|x| x.to_bits()).collect::<Vec<_>>())); Ok(()) }); }
    let n = c.q(1_500usize, 6_000);
    c.section("long superposition", format!("{} samples of pseudo-random input against the convolution", n)); c.witness();
    for l in &cf { c.case(|| format!("{:?}", l), |r| {
        let h = impulse(l, n); let hs: f64 = h.iter().map(|x| x.abs()).sum::<f64>().max(1.0);
        let xs: Vec<f32> = (0..n).map(|i| ((i * 7919 % 1009) as f32 - 504.0) / 504.0).collect(); let mut m = make(l);
        for i in 0..n { let y = m(xs[i]) as f64; let w: f64 = (0..=i).map(|k| h[k] * xs[i - k] as f64).sum(); r.step(); ensure!(close(y, w, 1e-5 * hs), "sample {} is {} instead of {}", i, y, w) }
        Ok(()) }); }
    c.section("falls silent", "after 2000 samples of full-scale input and then silence, a stable modifier ends below -120 dB of its peak and stays there"); c.witness();
    for l in &cf { if matches!(l, L::Echo(_, g) if g.abs() >= 1.0) { continue } c.case(|| format!("{:?}", l), |r| {
        let mut m = make(l); let mut peak = 1f64;
        for i in 0..2_000usize { peak = peak.max(m(((i * 7919 % 1009) as f32 - 504.0) / 504.0).abs() as f64) }
        let n = 400_000; for i in 0..n { let y = m(0.0) as f64; if i >= n - 1_000 { ensure!(y.abs() <= 1e-6 * peak, "{} samples into silence the output is {}", i, y) } }
        r.steps(n + 2_000); Ok(()) }); }
}

// ---------------------------------------------------------------- C34
/// Every place a duration of n samples can be given to, given it, must take it as n samples.
fn time(r: &mut Run, n: usize, d: Duration, deep: bool) -> Res {
    use bae_rs::utils::{samples_to_seconds, seconds_to_samples};
    let near = |a: Duration, b: Duration| (a.as_nanos() as i128 - b.as_nanos() as i128).abs() <= 1 + (n as i128 >> 40);
    ensure!(seconds_to_samples(d) == n, "{:?} is counted as {} samples instead of {}", d, seconds_to_samples(d), n);
    ensure!(near(samples_to_seconds(n), d), "{} samples are {:?}, not {:?}", n, samples_to_seconds(n), d);
    r.steps(2); r.st(&n);
    let mut dl = Delay::new(d);
    ensure!(near(dl.get_delay(), d), "a delay of {:?} reports {:?}", d, dl.get_delay());
    if !deep { return Ok(()) }
    // an impulse through delay and echo: out n samples later
    let mut ec = Echo::new(d, 0.5);
    for i in 0..=n + 1 {
        let x = if i == 0 { 1.0 } else { 0.0 };
        let (y, z) = (dl.process(x), ec.process(x)); r.steps(2);
        ensure!(y == if i == n { 1.0 } else { 0.0 }, "a delay of {:?} ({} samples) yields {} at sample {}", d, n, y, i);
        if n > 0 { ensure!(close(z as f64, if i == 0 { 1.0 } else if i == n { 0.5 } else if n == 1 && i == 2 { 0.25 } else { 0.0 }, 1e-6), "an echo of {:?} ({} samples) yields {} at sample {}", d, n, z, i) }
    }
    let mut dc = dl.clone(); for i in 0..=n { let y = dc.process(if i == 0 { 1.0 } else { 0.0 }); ensure!(y == if i == n { 1.0 } else { 0.0 }, "a clone of a delay of {} samples yields {} at sample {}", n, y, i) }
    // a channel told to render for that long
    let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0); let mut s = build(0); ch.add_sound(&mut s); drop(s);
    ch.set_process_time(d); ch.process();
    ensure!(ch.get_output().len() == n, "a channel rendering for {:?} yields {} samples instead of {}", d, ch.get_output().len(), n);
    // attack, decay and release of that length
    if n > 0 {
        let (mut a, mut q, mut e) = (ADSR::new(d, d, -6.0, d), ADSR::new(Duration::default(), d, f64::NEG_INFINITY, d), ADSR::new(Duration::default(), Duration::default(), 0.0, d));
        let h = 0.6 / n as f64; let mut g = [0.0f64; 3];
        for i in 1..=n {
            g = [a.process(1.0) as f64, q.process(1.0) as f64, g[2]]; r.steps(2);
            ensure!(close(g[0], i as f64 / n as f64, h), "{} samples into an attack of {} the gain is {}", i, n, g[0]);
            ensure!(close(g[1], 1.0 - (i - 1) as f64 / n as f64, h), "{} samples into a decay of {} the gain is {}", i, n, g[1]);
        }
        e.process(1.0); e.process(1.0); e.process(1.0); e.release();
        for i in 1..=n + 2 { let y = e.process(1.0) as f64; r.step(); ensure!(close(y, 1.0 - (i as f64 / n as f64).min(1.0), h), "{} samples into a release of {} the gain is {}", i, n, y) }
    }
    r.outcome(hash(&(n, d.as_nanos()))); Ok(())
}
fn c34(c: &mut Ctx) {
    use bae_rs::utils::samples_to_seconds;
    let top = c.q(3_000usize, 12_000);
    c.section("every whole-sample duration", format!("n = 0..={}: conversion both ways, delay, echo, clone, channel, attack, decay and release; the duration as converted by the library and as rounded to the nanosecond", top));
    for n in 0..=top { c.case(|| format!("{} samples, converted by the library", n), |r| time(r, n, samples_to_seconds(n), true)); c.case(|| format!("{} samples, nearest nanosecond", n), |r| time(r, n, ns(n as u64), true)); }
    let top = c.q(60_000usize, 300_000);
    c.section("conversion and reported delay", format!("n = 0..={}", top));
    for n in (0..=top).step_by(3) { c.case(|| format!("{} samples", n), |r| time(r, n, ns(n as u64), false)); }
    let top = c.q(24u32, 27);
    c.section("long durations", format!("2^k + m samples, k = 8..={}, m in -7, -1, 0, 1, 5, 47, 331: conversion and reported delay; delay and echo rendered up to 2^{}", top, top - 3)); c.witness();
    for k in 8..=top { for m in [-7i64, -1, 0, 1, 5, 47, 331] { let n = ((1i64 << k) + m) as usize; c.case(|| format!("2^{} + {} samples", k, m), |r| { time(r, n, ns(n as u64), false)?; time(r, n, samples_to_seconds(n), k < 16 || k + 3 <= top && m % 2 != 0 && m != 1) }); } }
    c.section("very long durations", "conversion alone, 2^k + m samples up to 2^45, to the library's own duration and to the nearest nanosecond"); c.witness();
    for k in 20..=45u32 { for m in -200i64..=200 { let n = ((1i64 << k) + m) as usize; c.case(|| format!("2^{} + {} samples", k, m), |r| { r.steps(2); r.outcome(n as u64);
        for d in [samples_to_seconds(n), ns(n as u64)] { let g = bae_rs::utils::seconds_to_samples(d); ensure!(g == n, "{:?} is counted as {} samples instead of {}", d, g, n) }
        let (a, b) = (samples_to_seconds(n).as_nanos() as i128, ns(n as u64).as_nanos() as i128); ensure!((a - b).abs() <= 1 + (n as i128 >> 38), "{} samples are {} ns, not {}", n, a, b); Ok(()) }); } }
    c.section("musical durations", "whole milliseconds, seconds, minutes; beats, halves, triplets and sixteenths at 30..=300 beats per minute, to the nearest sample"); c.witness();
    for ms in (1..=500u64).chain([1_000, 2_000, 10_000]) { c.case(|| format!("{} ms", ms), |r| time(r, ms as usize * 48, Duration::from_millis(ms), ms <= 100 || ms >= 1_000)); }
    for s in [1u64, 7, 60] { c.case(|| format!("{} s", s), |r| time(r, s as usize * 48_000, Duration::from_secs(s), true)); }
    for bpm in (30..=300u64).step_by(c.q(9, 1)) { for (a, b) in [(1u64, 1u64), (1, 2), (1, 3), (1, 4), (2, 3), (3, 2), (4, 1)] { let n = (48_000 * 60 * a + bpm * b / 2) / (bpm * b); c.case(|| format!("{} / {} of a beat at {} bpm: {} samples", a, b, bpm, n), |r| time(r, n as usize, ns(n), true)); } }
}
