//! C39: equivalent arrangements of the same parts sound the same.
use crate::c_unity::ns;
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![Check { one_process: false, id: "C39", level: "model_checking", run: c39, assumptions: &["the arrangement by hand (calling each part's process in turn) is the reference; what the parts themselves yield is decided by their own properties", "noise is left out, being different every time", "sums of up to two signals are compared exactly, sums of more and gains within 1e-5 of the signal"] }]
}

struct G(Box<dyn Generator>); impl Generator for G { fn process(&mut self) -> f32 { self.0.process() } }
struct M(Box<dyn Modifier>); impl Modifier for M { fn process(&mut self, x: f32) -> f32 { self.0.process(x) } }
const GN: [&str; 8] = ["sine", "square", "sawtooth", "triangle", "zero", "player", "looping resampler", "input alone"];
struct Loop(bae_rs::utils::MonoResampler); impl Generator for Loop { fn process(&mut self) -> f32 { self.0.process() } }
fn gen(i: usize) -> G { let t: Vec<Mono> = [0.5f32, -0.25, 1.0, -0.75, 0.125].iter().map(|x| Mono::from_sample(*x)).collect(); G(match i { 0 => Box::new(Sine::new(1_234.0)), 1 => Box::new(Square::new(5_000.0)), 2 => Box::new(Sawtooth::new(777.0)), 3 => Box::new(Triangle::new(3_001.0)), 5 => Box::new(MonoWav::from_track(44_100.0, t)), 6 => Box::new(Loop(bae_rs::utils::MonoResampler::new(t, 32_000.0, 1, 4))), _ => Box::new(Zero::new()) }) }
const MN: [&str; 14] = ["gain", "inversion", "delay of 2", "echo of 1", "low-pass", "high-pass", "band-pass", "generic filter", "envelope follower", "ADSR", "passthrough", "delay of 0", "gain of 1e-20", "gain of 1e20"];
fn modi(i: usize) -> M { M(match i { 0 => Box::new(Gain::new(0.7)), 1 => Box::new(Gain::new(-1.0)), 2 => Box::new(Delay::new(ns(2))), 3 => Box::new(Echo::new(ns(1), -0.5)), 4 => Box::new(LowPass::new(900.0, 0.5)), 5 => Box::new(HighPass::new(300.0, 0.25)), 6 => Box::new(BandPass::new(1_000.0, 2.0)), 7 => Box::new(Generic::new(vec![(0usize, 0.5f32), (2, -0.25)].into(), vec![(0usize, 0.25f32)].into())), 8 => Box::new(Envelope::new(50.0, 5_000.0)), 9 => Box::new(ADSR::new(ns(3), ns(5), -6.0, ns(4))), 10 => Box::new(Passthrough::new()), 12 => Box::new(Gain::new(1e-20)), 13 => Box::new(Gain::new(1e20)), _ => Box::new(Delay::new(ns(0))) }) }
fn mb(i: usize) -> BlockSP { Arc::new(StandardBlock::from_modifier(modi(i))) }
fn add() -> Inter { Arc::new(|a, b| a + b) }
/// A chain of modifiers as one modifier.
struct Chain(Vec<M>); impl Modifier for Chain { fn process(&mut self, x: f32) -> f32 { self.0.iter_mut().fold(x, |x, m| m.process(x)) } }
/// A sound as a modifier, a sound as a block.
struct SoundM(Box<dyn Sound>); impl Modifier for SoundM { fn process(&mut self, x: f32) -> f32 { self.0.process(x) } }
struct SoundB(Box<dyn Sound>, f32); impl Block for SoundB { fn prime_input(&mut self, x: f32) { self.1 += x } fn process(&mut self) -> f32 { let x = std::mem::take(&mut self.1); self.0.process(x) } }

const ARR: [&str; 12] = ["blocks primed by hand", "simple sound", "simple sound extended by a list", "complex sound", "complex sound connected back to front", "simple sound of one block", "complex sound of one block", "sound in a sound, cut in two", "sound as a block of a complex sound", "simple sounds one after the other", "mono channel", "stereo channel"];
/// The generator plus the input, through the modifiers; `xs` is the input (zero in channels).
fn play(how: usize, g: usize, ms: &[usize], xs: &[f32], cut: usize) -> Vec<f32> {
    let src = || -> BlockSP { Arc::new(StandardBlock::new(gen(g), Passthrough::new(), add())) };
    let simple = |ms: &[usize]| { let mut s = SimpleSound::new(1.0, 1.0, src()); for m in ms { s.add_modifier::<()>(mb(*m)) } s };
    let tail = |ms: &[usize]| { let mut s = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_modifier(Passthrough::new()))); for m in ms { s.add_modifier::<()>(mb(*m)) } s };
    let run = |s: &mut dyn Sound| -> Vec<f32> { xs.iter().map(|x| s.process(*x)).collect() };
    let complex = |bs: Vec<BlockSP>, back: bool| { let mut s = ComplexSound::new(1.0, 1.0); let mut n = vec![s.get_input_gain()]; for b in bs { n.push(s.add_block(b)) } n.push(s.get_output_gain()); let mut es: Vec<_> = n.windows(2).map(|w| (w[0], w[1])).collect(); if back { es.reverse() } for (a, b) in es { s.add_connection(a, b) } s };
    let all = || -> Vec<BlockSP> { std::iter::once(src()).chain(ms.iter().map(|m| mb(*m))).collect() };
    match how {
        0 => { let mut bs = all(); xs.iter().map(|x| bs.iter_mut().fold(*x, |x, b| { let b = Arc::get_mut(b).unwrap(); b.prime_input(x); b.process() })).collect() }
        1 => run(&mut simple(ms)),
        2 => { let mut s = SimpleSound::new(1.0, 1.0, src()); let k = cut.min(ms.len()); s.extend_modifiers(ms[..k].iter().map(|m| mb(*m)).collect()); s.extend_modifiers(ms[k..].iter().map(|m| mb(*m)).collect()); run(&mut s) }
        3 => run(&mut complex(all(), false)), 4 => run(&mut complex(all(), true)),
        5 => { let mut first = vec![M(Box::new(SoundM(Box::new(SimpleSound::new(1.0, 1.0, src())))))]; first.extend(ms.iter().map(|m| modi(*m))); run(&mut SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_modifier(Chain(first))))) }
        6 => { let mut first = vec![M(Box::new(SoundM(Box::new(SimpleSound::new(1.0, 1.0, src())))))]; first.extend(ms.iter().map(|m| modi(*m))); run(&mut complex(vec![Arc::new(StandardBlock::from_modifier(Chain(first)))], false)) }
        7 => { let k = cut.min(ms.len()); let mut s = simple(&ms[..k]); s.add_modifier::<()>(Arc::new(StandardBlock::from_modifier(SoundM(Box::new(tail(&ms[k..])))))); run(&mut s) }
        8 => { let k = cut.min(ms.len()); run(&mut complex(vec![Arc::new(SoundB(Box::new(simple(&ms[..k])), 0.0)), Arc::new(SoundB(Box::new(complex(ms[k..].iter().map(|m| mb(*m)).collect(), k == 1)), 0.0))], cut == 0)) }
        9 => { let k = cut.min(ms.len()); let (mut a, mut b) = (simple(&ms[..k]), tail(&ms[k..])); let y = run(&mut a); y.iter().map(|x| b.process(*x)).collect() }
        _ => { fn ch<F: SampleFormat + Clone + Copy>(s: Arc<dyn Sound>, n: usize, cut: usize, f: fn(&F) -> f32) -> Vec<f32> { let mut c: StandardChannel<F> = StandardChannel::new(1.0); let mut s = s; c.add_sound(&mut s); drop(s); let mut out = vec![]; while out.len() < n { c.set_process_time(ns((cut as u64 * 5 + 1).min((n - out.len()) as u64))); c.process(); out.extend(c.get_output().iter().map(f)) } out }
            let s: Arc<dyn Sound> = if cut == 1 { Arc::new(complex(all(), false)) } else { Arc::new(simple(ms)) };
            if how == 10 { ch::<Mono>(s, xs.len(), cut, |f| f.mono) } else { ch::<Stereo>(s, xs.len(), cut, |f| (*f).into_sample()) } }
    }
}
/// Folding a stereo frame down rounds.
fn tol(how: usize) -> f64 { if how == 11 { 1e-6 } else { 0.0 } }
fn by_hand(g: usize, ms: &[usize], xs: &[f32]) -> Vec<f32> { let mut g = gen(g); let mut ms: Vec<M> = ms.iter().map(|m| modi(*m)).collect(); xs.iter().map(|x| ms.iter_mut().fold(g.process() + x, |x, m| m.process(x))).collect() }
fn agree(r: &mut Run, what: &str, got: &[f32], want: &[f32], tol: f64) -> Res {
    ensure!(got.len() == want.len(), "{}: {} samples instead of {}", what, got.len(), want.len());
    for (i, (a, b)) in got.iter().zip(want).enumerate() { if tol > 0.0 && b.abs() > 1e38 { continue } ensure!(same(*a, *b) || close(*a as f64, *b as f64, tol * (b.abs() as f64).max(1.0)) && tol > 0.0, "{}: sample {} is {} instead of {}", what, i, a, b) }
    r.steps(got.len() as u64); r.outcome(hash(&got.iter().map(|x| x.to_bits()).collect::<Vec<_>>())); Ok(())
}
/// Linear parts in another order: the rounding is relative to the loudest sample.
fn agree_peak(r: &mut Run, what: &str, got: &[f32], want: &[f32]) -> Res {
    let peak = want.iter().fold(0f64, |m, x| m.max(x.abs() as f64)); ensure!(got.len() == want.len(), "{}: {} samples instead of {}", what, got.len(), want.len());
    for (i, (a, b)) in got.iter().zip(want).enumerate() { ensure!(same(*a, *b) || close(*a as f64, *b as f64, 2e-5 * peak), "{}: sample {} is {} instead of {} (loudest {})", what, i, a, b, peak) }
    r.steps(got.len() as u64); r.outcome(hash(&got.iter().map(|x| x.to_bits()).collect::<Vec<_>>())); Ok(())
}
fn names(g: usize, ms: &[usize]) -> String { format!("{}{}", GN[g], ms.iter().map(|m| format!(" -> {}", MN[*m])).collect::<String>()) }
fn input(n: usize, kind: usize) -> Vec<f32> { (0..n).map(|i| match kind { 0 => 0.0, 1 => if i == 0 { 1.0 } else { 0.0 }, _ => [0.5f32, -1.0, 0.25, 0.0, 1.0][i * 7 % 5] * match kind { 3 => 3e7, 4 => 1e-38, 5 => 1e-43, _ => 1.0 } }).collect() }

fn c39(c: &mut Ctx) {
    let (d, n) = c.q((3usize, 40usize), (4, 64));
    c.section("chains", format!("{} generators (with input added) through every chain of up to {} of {:?}, {} samples, inputs silence, an impulse, an ongoing signal (for shorter chains also 3e7, 1e-38 and 1e-43 times as loud): {:?}, cut at each place", GN.len(), d, MN, n, ARR));
    for g in 0..GN.len() { for l in 0..=d { words(MN.len(), l, |ms| for kind in 0..if l < d { 6 } else { 3 } { if kind == 0 && GN[g] == "zero" { continue } let xs = input(n, kind); for how in 0..ARR.len() { if how >= 10 && kind > 0 { continue } let cuts = match how { 2 | 7 | 8 | 9 => l + 1, 10 | 11 => 2, _ => 1 }; for cut in 0..cuts {
        c.case(|| format!("{}, input {}, {}, cut {}", names(g, ms), kind, ARR[how], cut), |r| { r.st(&(g, ms, kind)); agree(r, ARR[how], &play(how, g, ms, &xs, cut), &by_hand(g, ms, &xs), tol(how)) }) } } }) } }
    let l = c.q(4usize, 6);
    c.section("deeper chains", format!("every chain of {} of 7 kinds (echo, low-pass, generic, envelope, ADSR, gains of 1e-20 and 1e20) behind a square wave with an ongoing input, every arrangement and cut", l + 1));
    let few = [3usize, 4, 7, 8, 9, 12, 13]; words(7, l + 1, |w| { let ms: Vec<usize> = w.iter().map(|i| few[*i]).collect(); let xs = input(40, 2); let xs0 = input(40, 0); for how in 0..ARR.len() { let x = if how >= 10 { &xs0 } else { &xs }; for cut in 0..match how { 2 | 7 | 8 | 9 => l + 2, 10 | 11 => 2, _ => 1 } {
        c.case(|| format!("{}, {}, cut {}", names(1, &ms), ARR[how], cut), |r| { r.st(&(1, &ms)); agree(r, ARR[how], &play(how, 1, &ms, x, cut), &by_hand(1, &ms, x), tol(how)) }) } } });
    c.section("gains in any place", "a gain at the input or output of the sound, of the channel, or as a modifier in front or behind, every pair of 8 gains, 4 generators x 16 chains of 0..=33 linear modifiers");
    let gs = [1.0f64, 0.5, -2.0, 0.3, 0.0, 1e-3, 8.0, 4e3];
    let lin: [&[usize]; 16] = [&[], &[2], &[3], &[4], &[5], &[6], &[7], &[10, 10], &[2, 2, 2], &[10, 10, 10, 10], &[2, 4, 5, 3, 6], &[1, 10, 2, 0, 3, 4], &[10; 9], &[7, 11, 3, 10, 4, 2, 6, 5], &[2; 17], &[10; 33]];
    for a in gs { for b in gs { for g in 0..4usize { for (m, ms) in lin.iter().enumerate() { let ms: Vec<usize> = ms.to_vec();
        c.case(|| format!("{}, gains {} and {}", names(g, &ms), a, b), |r| {
            let n = 60; let xs = vec![0f32; n]; let want: Vec<f32> = by_hand(g, &ms, &xs).iter().map(|y| (*y as f64 * a * b) as f32).collect(); r.st(&(a.to_bits(), b.to_bits(), g, m));
            let sg = || -> BlockSP { Arc::new(StandardBlock::from_generator(gen(g))) }; let gain = |x: f64| -> BlockSP { Arc::new(StandardBlock::from_modifier(Gain::new(x as f32))) };
            let fill = |s: &mut SimpleSound| for m in &ms { s.add_modifier::<()>(mb(*m)) };
            let run = |mut s: SimpleSound| -> Vec<f32> { xs.iter().map(|x| s.process(*x)).collect() };
            { let mut s = SimpleSound::new(1.0, a * b, sg()); fill(&mut s); agree_peak(r, "output gain", &run(s), &want)?; }
            { let mut s = SimpleSound::new(1.0, 1.0, sg()); s.add_modifier::<()>(gain(a)); fill(&mut s); s.add_modifier::<()>(gain(b)); agree_peak(r, "gains around the chain", &run(s), &want)?; }
            { let mut s = SimpleSound::new(1.0, b, sg()); s.add_modifier::<()>(gain(a)); fill(&mut s); agree_peak(r, "gain in front and output gain", &run(s), &want)?; }
            { let mut s = SimpleSound::new(a, b, Arc::new(StandardBlock::from_modifier(Passthrough::new()))); fill(&mut s); let mut gg = gen(g); let y: Vec<f32> = xs.iter().map(|_| { let x = gg.process(); s.process(x) }).collect(); agree_peak(r, "generator as input, input and output gain", &y, &want)?; }
            { let mut s = ComplexSound::new(a, b); let (i, o) = (s.get_input_gain(), s.get_output_gain()); let mut p = i; for m in &ms { let q = s.add_block(mb(*m)); s.add_connection(p, q); p = q } s.add_connection(p, o); let mut gg = gen(g); let y: Vec<f32> = xs.iter().map(|_| { let x = gg.process(); s.process(x) }).collect(); agree_peak(r, "generator as input of a complex sound", &y, &want)?; }
            { let mut s = SimpleSound::new(1.0, a, sg()); fill(&mut s); let mut ch: StandardChannel<Mono> = StandardChannel::new(b); let mut s: Arc<dyn Sound> = Arc::new(s); ch.add_sound(&mut s); drop(s); ch.set_process_time(ns(n as u64)); ch.process(); agree_peak(r, "output gain and channel gain", &ch.get_output().iter().map(|f| f.mono).collect::<Vec<_>>(), &want)?; }
            { let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0); ch.set_gain(a * b); let mut s = SimpleSound::new(1.0, 1.0, sg()); fill(&mut s); let mut s: Arc<dyn Sound> = Arc::new(s); ch.add_sound(&mut s); drop(s); ch.set_process_time(ns(n as u64)); ch.process(); agree_peak(r, "channel gain", &ch.get_output().iter().map(|f| f.mono).collect::<Vec<_>>(), &want)?; }
            Ok(()) }) } } } }
    let k = c.q(3usize, 4);
    c.section("side by side", format!("every choice of 0..={} branches (generator x modifier, 4 x 5): added by hand, as branches of a complex sound, as sounds of a mono and a stereo channel, as separate channels added up", k));
    let br = 20usize; for l in 0..=k { words(br, l, |w| { if l > 2 && (w[0] * 7 + w[1] * 3 + w[2]) % 5 != 0 { return } c.case(|| format!("branches {:?}", w.iter().map(|b| names(b % 4, &[[0usize, 3, 4, 7, 9][b / 4]])).collect::<Vec<_>>()), |r| {
        let n = 40; let xs = vec![0f32; n]; let parts: Vec<(usize, usize)> = w.iter().map(|b| (b % 4, [0usize, 3, 4, 7, 9][b / 4])).collect(); r.st(&w);
        let mut want = vec![0f32; n]; for (g, m) in &parts { for (a, b) in want.iter_mut().zip(by_hand(*g, &[*m], &xs)) { *a += b } }
        let tol = if l > 2 { 1e-5 } else { 0.0 };
        let snd = |g: usize, m: usize| -> Arc<dyn Sound> { let mut s = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(gen(g)))); s.add_modifier::<()>(mb(m)); Arc::new(s) };
        let mut s = ComplexSound::new(1.0, 1.0); let o = s.get_output_gain(); for (g, m) in &parts { let (p, q) = (s.add_block(Arc::new(StandardBlock::from_generator(gen(*g)))), s.add_block(mb(*m))); s.add_connection(p, q); s.add_connection(q, o) }
        agree(r, "complex sound", &xs.iter().map(|x| s.process(*x)).collect::<Vec<_>>(), &want, tol)?;
        let mut a: StandardChannel<Mono> = StandardChannel::new(1.0); let mut b: StandardChannel<Stereo> = StandardChannel::new(1.0); let mut sum = vec![0f32; n];
        for (g, m) in &parts { let mut s = snd(*g, *m); a.add_sound(&mut s); let mut s = snd(*g, *m); b.add_sound(&mut s); let mut d: StandardChannel<Mono> = StandardChannel::new(1.0); let mut s = snd(*g, *m); d.add_sound(&mut s); drop(s); d.set_process_time(ns(n as u64)); d.process(); for (x, y) in sum.iter_mut().zip(d.get_output()) { *x += y.mono } }
        a.set_process_time(ns(n as u64)); b.set_process_time(ns(n as u64)); a.process(); b.process();
        agree(r, "mono channel", &a.get_output().iter().map(|f| f.mono).collect::<Vec<_>>(), &want, tol)?;
        agree(r, "stereo channel, left", &b.get_output().iter().map(|f| f.left).collect::<Vec<_>>(), &want.iter().map(|x| Stereo::from_sample(*x).left).collect::<Vec<_>>(), 1e-5)?;
        agree(r, "stereo channel, right", &b.get_output().iter().map(|f| f.right).collect::<Vec<_>>(), &want.iter().map(|x| Stereo::from_sample(*x).right).collect::<Vec<_>>(), 1e-5)?;
        agree(r, "channels added up", &sum, &want, tol)?;
        for g in [2.5f32, 0.25] { let sc: Vec<f32> = want.iter().map(|x| x * g).collect();
            let mut s = ComplexSound::new(1.0, g as f64); let o = s.get_output_gain(); for (g, m) in &parts { let (p, q) = (s.add_block(Arc::new(StandardBlock::from_generator(gen(*g)))), s.add_block(mb(*m))); s.add_connection(p, q); s.add_connection(q, o) }
            agree(r, "complex sound with an output gain", &xs.iter().map(|x| s.process(*x)).collect::<Vec<_>>(), &sc, tol)?;
            let mut a: StandardChannel<Mono> = StandardChannel::new(g as f64); for (g, m) in &parts { let mut s = snd(*g, *m); a.add_sound(&mut s); } a.set_process_time(ns(n as u64)); a.process();
            agree(r, "mono channel with a gain", &a.get_output().iter().map(|f| f.mono).collect::<Vec<_>>(), &sc, tol.max(2e-7))?; }
        Ok(()) }) }) }
    let (wd, ly) = c.q((12usize, 4usize), (40, 6));
    c.section("dense graphs", format!("1..={} layers of 1..={} gains, each connected to all of the next (and with every layer connected to the output too): the product of the layers' sums, exactly; input 1, -0.5, 0, 3, gain 1/4, in both orders of connecting; the same parts as chains in a channel", ly, wd));
    for l in 1..=ly { for w in 1..=wd { for skip in [false, true] { for back in [false, true] { c.case(|| format!("{} layers of {} gains{}{}", l, w, if skip { ", every layer to the output" } else { "" }, if back { ", connected back to front" } else { "" }), |r| {
        if (w as f64).powi(l as i32) * 4.0 > 1e6 { return Ok(()) }
        let gain = |k: usize| [1.0f32, 2.0, -1.0, 0.5][k % 4]; let mut s = ComplexSound::new(1.0, 0.25); let (i, o) = (s.get_input_gain(), s.get_output_gain());
        let mut layers = vec![]; for k in 0..l { layers.push((0..w).map(|j| s.add_block(Arc::new(StandardBlock::from_modifier(Gain::new(gain(j + k)))))).collect::<Vec<_>>()) }
        let mut es = vec![]; for n in &layers[0] { es.push((i, *n)) } for p in layers.windows(2) { for a in &p[0] { for b in &p[1] { es.push((*a, *b)) } } } for (k, p) in layers.iter().enumerate() { if skip || k + 1 == l { for a in p { es.push((*a, o)) } } }
        if back { es.reverse() } for (a, b) in es { s.add_connection(a, b) }
        let mut prod = 1f64; let mut total = 0f64; for k in 0..l { prod *= (0..w).map(|j| gain(j + k) as f64).sum::<f64>(); if skip || k + 1 == l { total += prod } }
        for x in [1.0f32, -0.5, 0.0, 3.0, 1.0] { let y = s.process(x); r.step(); ensure!(y as f64 == x as f64 * total * 0.25, "{} gives {} instead of {}", x, y, x as f64 * total * 0.25) }
        r.st(&(l, w, skip, back)); r.outcome(total.to_bits()); Ok(()) }) } } } }
    let n = c.q(20_000usize, 1_000_000);
    c.section("long runs", format!("{} samples of 20 chains in each arrangement", n)); c.witness();
    for q in 0..20usize { let (g, ms) = (q % 7, [q % 12, q * 5 % 12, q * 7 % 12]); let (xs, x0) = (input(n, 2), input(n, 0)); for how in 0..ARR.len() { c.case(|| format!("{}, {}, {} samples", names(g, &ms), ARR[how], n), |r| { let x = if how >= 10 { &x0 } else { &xs }; agree(r, ARR[how], &play(how, g, &ms, x, 1), &by_hand(g, &ms, x), tol(how)) }) } }
}
