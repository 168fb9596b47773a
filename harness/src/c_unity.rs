//! C35 the unity signal path is transparent, C36 only the settings in force matter.
use crate::engine::*;
use crate::wavref::encode;
use crate::{ensure, Check};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::{read_wav, write_wav, MonoResampler};
use std::sync::Arc;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C35", level: "model_checking", run: c35, assumptions: &["files at 48 kHz in canonical form (one 16-byte format chunk, then the data)", "gains of exactly 1, speed 1, modifiers that pass their input on unchanged (passthrough, gain 1, delay 0, a generic filter whose only tap is (0,1))"] },
        Check { one_process: false, id: "C36", level: "model_checking", run: c36, assumptions: &["the history with the fewest setter calls is the reference; what it yields is decided by the object's own property", "tolerance 1e-5 of the signal where setters recompute floating-point state (oscillators, filters), exact elsewhere", "frequencies are chosen so that no sample falls on an edge of the square or sawtooth"] },
    ]
}

// ---------------------------------------------------------------- C35
pub fn ns(samples: u64) -> Duration { Duration::from_nanos((samples * 1_000_000_000 + 24_000) / 48_000) }
fn gb<G: Generator + 'static>(g: G) -> BlockSP { Arc::new(StandardBlock::from_generator(g)) }
fn mb<M: Modifier + 'static>(m: M) -> BlockSP { Arc::new(StandardBlock::from_modifier(m)) }

const PATHS: [&str; 9] = ["player alone", "block", "simple sound", "simple sound with unit modifiers", "complex sound", "complex sound with a chain of unit modifiers", "mono channel", "mono channel next to a silent sound", "player fed to a block's modifier"];
fn unit_mods() -> Vec<BlockSP> { vec![mb(Passthrough::new()), mb(Gain::new(1.0)), mb(Delay::new(ns(0))), mb(Generic::new(vec![(0usize, 1.0f32)].into(), vec![].into()))] }
/// The path's output, `n` samples; channels are processed in calls of the lengths in `cut`.
fn play(path: usize, file: &[u8], n: usize, cut: &[usize]) -> Result<Vec<f32>, String> {
    let w = MonoWav::from_source(&mut &file[..]);
    Ok(match path {
        0 => { let mut w = w; (0..n).map(|_| w.process()).collect() }
        1 => { let mut b = StandardBlock::from_generator(w); (0..n).map(|_| b.process()).collect() }
        2 => { let mut s = SimpleSound::new(1.0, 1.0, gb(w)); (0..n).map(|_| s.process(0.0)).collect() }
        3 => { let mut s = SimpleSound::new(1.0, 1.0, gb(w)); s.extend_modifiers(unit_mods()); (0..n).map(|_| s.process(0.0)).collect() }
        4 => { let mut s = ComplexSound::new(1.0, 1.0); let b = s.add_block(gb(w)); let o = s.get_output_gain(); s.add_connection(b, o); (0..n).map(|_| s.process(0.0)).collect() }
        5 => { let mut s = ComplexSound::new(1.0, 1.0); let mut b = s.add_block(gb(w)); for m in unit_mods() { let x = s.add_block(m); s.add_connection(b, x); b = x } let o = s.get_output_gain(); s.add_connection(b, o); (0..n).map(|_| s.process(0.0)).collect() }
        8 => { let mut w = w; let mut s = SimpleSound::new(1.0, 1.0, mb(Passthrough::new())); s.extend_modifiers(unit_mods()); (0..n).map(|_| { let x = w.process(); s.process(x) }).collect() }
        _ => {
            let mut c: StandardChannel<Mono> = StandardChannel::new(1.0);
            { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, gb(w))); c.add_sound(&mut s); }
            if path == 7 { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, gb(Zero::new()))); c.add_sound(&mut s); }
            let (mut out, mut k) = (vec![], 0);
            while out.len() < n {
                let m = cut[k % cut.len()].min(n - out.len()); k += 1;
                c.set_process_time(ns(m as u64)); c.process();
                ensure!(c.get_output().len() == m, "{} samples rendered for a process time of {}", c.get_output().len(), m);
                out.extend(c.get_output().iter().map(|f| f.mono));
            }
            out
        }
    })
}
fn codes_of(bits: u16, lo: usize, n: usize, st: usize) -> Vec<i32> {
    let top = 1usize << bits;
    (0..n).map(|i| { let v = (lo + i * st) % top; if bits == 8 { v as i32 } else { v as i32 - (top / 2) as i32 } }).collect()
}
fn differ(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() { return format!("{} bytes instead of {}", got.len(), want.len()) }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
    format!("byte {} is {:#04x} instead of {:#04x}", i, got[i], want[i])
}
fn resave(r: &mut Run, f: &[u8], bits: u16) -> Res {
    let mut b = f.to_vec();
    for pass in 0..2 {
        let (h, t) = read_wav(&mut &b[..]).map_err(|e| format!("pass {}: cannot be read: {}", pass, e))?;
        ensure!(h.bits_per_sample == bits, "read as {} bit", h.bits_per_sample);
        let mut o = vec![];
        write_wav(t, bits, &mut o, false).map_err(|e| format!("pass {}: cannot be written: {}", pass, e))?;
        ensure!(o == f, "pass {}: saved again: {}", pass, differ(&o, f));
        b = o; r.step();
    }
    r.outcome(hash(&b)); Ok(())
}
fn unity(r: &mut Run, cs: &[i32], bits: u16, path: usize, cut: &[usize]) -> Res {
    let f = encode(1, bits, 48_000, cs);
    let y = play(path, &f, cs.len() + 3, cut)?;
    ensure!(y[cs.len()..].iter().all(|x| *x == 0.0), "not silent after the file: {:?}", &y[cs.len()..]);
    let mut o = vec![];
    write_wav(vec![y[..cs.len()].to_vec()], bits, &mut o, false).map_err(|e| e.to_string())?;
    ensure!(o == f, "played and saved again: {}", differ(&o, &f));
    r.steps(cs.len() as u64); r.outcome(hash(&(bits, path, o.len(), hash(&o)))); Ok(())
}

fn c35(c: &mut Ctx) {
    let al = |bits: u16| -> Vec<i32> { match bits { 8 => vec![128, 0, 255, 127, 1], 16 => vec![0, -32_768, 32_767, -1, 12_345], _ => vec![0, -8_388_608, 8_388_607, -1, 5_000_001] } };
    let n = c.q(5usize, 7);
    c.section("saved again: short files", format!("every file of 1..=3 channels and up to {} samples in all over 5 codes (silence, both limits, 1 beside silence), 8/16/24 bit: read and written twice, byte for byte", n));
    for bits in [8u16, 16, 24] { let a = al(bits); for ch in 1..=3usize { for fr in 0..=n / ch { words(a.len(), ch * fr, |w| {
        let cs: Vec<i32> = w.iter().map(|i| a[*i]).collect();
        c.case(|| format!("{} channels, {} bit, codes {:?}", ch, bits, cs), |r| { r.st(&(bits, ch, &cs)); resave(r, &encode(ch as u16, bits, 48_000, &cs), bits) }) }) } } }
    let st24 = c.q(61usize, 1);
    c.section("saved again: every code", format!("every 8- and 16-bit code and every {} 24-bit code, in files of 4096 samples and 1..=5 channels", if st24 == 1 { "single".into() } else { format!("{}st", st24) }));
    for bits in [8u16, 16, 24] { for ch in 1..=5usize {
        let st = if bits == 24 { st24 } else { 1 }; let total = (1usize << bits) / st;
        let per = (4096 / ch) * ch; let mut lo = 0;
        while lo < total { c.case(|| format!("{} channels, {} bit, codes from {} in steps of {}", ch, bits, lo * st, st), |r| { r.st(&(bits, ch, lo)); resave(r, &encode(ch as u16, bits, 48_000, &codes_of(bits, lo * st, per, st)), bits) }); lo += per }
    } }
    c.section("saved again: shapes", "every channel count 1..=64 (and 255, 256, 257, 1000) x 0..=5 frames, each depth");
    for bits in [8u16, 16, 24] { for ch in (1..=64usize).chain([255, 256, 257, 1000]) { for fr in 0..=5usize { c.case(|| format!("{} channels, {} frames, {} bit", ch, fr, bits), |r| { r.st(&(bits, ch, fr)); resave(r, &encode(ch as u16, bits, 48_000, &codes_of(bits, 77, ch * fr, 12_347)), bits) }) } } }
    let d = c.q(3usize, 5);
    c.section("played: short files", format!("every one-channel file of up to {} samples over 5 codes, 8/16/24 bit, through {:?}, channels in calls of 1, 2, 3 and 100 samples", d, PATHS));
    for bits in [8u16, 16, 24] { let a = al(bits); for len in 0..=d { words(a.len(), len, |w| {
        let cs: Vec<i32> = w.iter().map(|i| a[*i]).collect();
        for p in 0..PATHS.len() { for cut in [&[1usize][..], &[2], &[3], &[100], &[1, 2, 4]] { if p != 6 && p != 7 && cut[0] != 1 { continue }
            c.case(|| format!("{} bit, codes {:?}, {}, calls of {:?}", bits, cs, PATHS[p], cut), |r| { r.st(&(bits, &cs, p)); unity(r, &cs, bits, p, cut) }) } } }) } }
    let st24 = c.q(241usize, 5);
    c.section("played: every code", format!("every 8- and 16-bit code and every {}th 24-bit code, in files of 4096 samples, through each path", st24));
    for bits in [8u16, 16, 24] { let st = if bits == 24 { st24 } else { 1 }; let total = (1usize << bits) / st; let mut lo = 0;
        while lo < total { for p in 0..PATHS.len() { c.case(|| format!("{} bit, codes from {} in steps of {}, {}", bits, lo * st, st, PATHS[p]), |r| { r.st(&(bits, lo, p)); unity(r, &codes_of(bits, lo * st, 4096, st), bits, p, &[480, 1, 77]) }) } lo += 4096 } }
    let big = c.q(400_000usize, 3_000_000);
    c.section("long files", format!("{} samples, each depth, each path; and saved again with 1 and 2 channels", big)); c.witness();
    for bits in [8u16, 16, 24] {
        for p in 0..PATHS.len() { c.case(|| format!("{} bit, {}", bits, PATHS[p]), |r| unity(r, &codes_of(bits, 5, big, 10_007), bits, p, &[480, 4_800, 1, 100_003])) }
        for ch in 1..=2u16 { c.case(|| format!("{} bit, {} channels, saved again", bits, ch), |r| resave(r, &encode(ch, bits, 48_000, &codes_of(bits, 5, big, 10_007)), bits)) }
    }
    c.section("two channels apart", "a two-channel file split into its tracks, each played through its own path, and joined again: every pair of paths");
    for bits in [8u16, 16, 24] { for p in 0..PATHS.len() { for q in 0..PATHS.len() { c.case(|| format!("{} bit, {} and {}", bits, PATHS[p], PATHS[q]), |r| {
        let cs = codes_of(bits, 3, 400, 1_009); let f = encode(2, bits, 48_000, &cs);
        let (_, t) = read_wav(&mut &f[..]).map_err(|e| e.to_string())?;
        let mut o = vec![];
        let mut tr = vec![];
        for (k, path) in [p, q].iter().enumerate() { let mut one = vec![]; write_wav(vec![t[k].clone()], bits, &mut one, false).map_err(|e| e.to_string())?; tr.push(play(*path, &one, 200, &[7, 3])?); }
        write_wav(tr, bits, &mut o, false).map_err(|e| e.to_string())?;
        ensure!(o == f, "joined again: {}", differ(&o, &f));
        r.steps(400); r.outcome(hash(&(bits, p, q))); Ok(()) }) } } }
}

// ---------------------------------------------------------------- C36
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { X(u8), Set(u8, u8) }
/// An object under test: one call is one operation; X yields an output sample.
pub type Obj = Box<dyn FnMut(Op) -> f64>;
/// mk(): a fresh object at target 0; `targets` settings, each reachable by `variants` ways of calling setters (way 0: the plain one).
pub struct Kind { pub name: &'static str, pub targets: u8, pub variants: u8, tol: f64, pub mk: Box<dyn Fn() -> Obj> }
const IN: [f32; 5] = [1.0, -0.5, 0.25, 0.75, 0.0];

fn osc<G: Generator + FreqMod + 'static>() -> Obj {
    const F: [f64; 3] = [1_234.567, 439.87, 9_001.31];
    let mut g = G::new(F[0]); let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(_) => g.process() as f64,
        Op::Set(t, v) => { let f = F[t as usize];
            match v { 0 => if cur != t { g.set_frequency(f) }, 1 => g.set_frequency(f), 2 => { g.set_frequency(f); g.set_frequency(f) }
                3 => { g.set_frequency(23_999.0); g.set_frequency(f) } 4 => { g.set_frequency(0.01); g.set_frequency(f) }
                5 => { g.set_frequency(f); let x = g.get_frequency(); g.set_frequency(x) }
                6 => { let x = g.get_frequency(); g.set_frequency(x); g.set_frequency(f); g.get_frequency(); }
                _ => { for k in 1..40 { g.set_frequency(600.0 * k as f64) } g.set_frequency(f) } }
            cur = t; g.get_frequency() }
    })
}
macro_rules! pass { ($name:ident, $t:ty) => { fn $name() -> Obj {
    const T: [(f64, f64); 4] = [(1_000.0, 0.0), (300.0, 0.7), (24_000.0, 1.0), (24_000.0, 0.0)];
    let mut m = <$t>::new(T[0].0, T[0].1); let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(i) => m.process(IN[i as usize]) as f64,
        Op::Set(t, v) => { let (f, r) = T[t as usize];
            match v { 0 => if cur != t { m.set_central_frequency(f); m.set_resonance(r) }, 1 => { m.set_resonance(r); m.set_central_frequency(f) }
                2 => { m.set_central_frequency(24_000.0); m.set_resonance(1.0); m.set_resonance(r); m.set_central_frequency(f) }
                3 => { m.set_central_frequency(f); m.set_resonance(r); m.set_central_frequency(f); m.set_resonance(r) }
                4 => { m.set_central_frequency(if f >= 24_000.0 { 96_000.0 } else { f }); m.set_resonance(if r >= 1.0 { 7.0 } else if r <= 0.0 { -3.0 } else { r }) }
                5 => { m.set_central_frequency(f); m.set_resonance(r); let (f, r) = (m.get_central_frequency(), m.get_resonance()); m.set_resonance(r); m.set_central_frequency(f) }
                6 => { m.set_central_frequency(10.0); m.set_resonance(0.5); m.set_central_frequency(f); m.set_resonance(r) }
                _ => { for k in 0..40 { m.set_central_frequency(f + 0.25 * k as f64); m.set_resonance(r - 0.01 * k as f64) } m.set_central_frequency(f); m.set_resonance(r) } }
            cur = t; m.get_central_frequency() + m.get_resonance() }
    })
} } }
pass!(low, LowPass); pass!(high, HighPass);
fn band(from_quality: bool) -> Obj {
    const T: [(f64, f64); 3] = [(500.0, 4_000.0), (1_000.0, 1_200.0), (60.0, 9_000.0)];
    let cq = |t: (f64, f64)| { let c = (t.0 * t.1).sqrt(); (c, c / (t.1 - t.0)) };
    let mut m = if from_quality { let (c, q) = cq(T[0]); BandPass::new(c, q) } else { BandPass::from_corners(T[0]) }; let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(i) => m.process(IN[i as usize]) as f64,
        Op::Set(t, v) => { let f = T[t as usize]; let (c, q) = cq(f);
            match v { 0 => if cur != t { m.set_corner_frequencies(f) }, 1 => m.set_corner_frequencies((f.1, f.0)), 2 => { m.set_central_frequency(c); m.set_quality(q) } 3 => { m.set_quality(q); m.set_central_frequency(c) }
                4 => { m.set_corner_frequencies((20.0, 20_000.0)); m.set_corner_frequencies(f) }
                5 => { m.set_corner_frequencies(f); let x = m.get_corner_frequencies(); m.set_corner_frequencies(x) }
                6 => { m.set_corner_frequencies(f); let (c, q) = (m.get_central_frequency(), m.get_quality()); m.set_quality(q); m.set_central_frequency(c) }
                _ => { for k in 1..40 { m.set_corner_frequencies((10.0 * k as f64, 500.0 * k as f64)) } m.set_quality(q); m.set_central_frequency(c); m.set_corner_frequencies(f) } }
            cur = t; m.get_central_frequency() }
    })
}
fn player(looped: bool) -> Obj {
    const T: [f64; 4] = [1.0, 0.0, 0.375, 2.5];
    let tr: MonoTrackT = (0..24).map(|i| Mono::from_sample(((i * 7) % 11) as f32 / 8.0 - 0.5)).collect();
    let mut m = MonoResampler::new(tr, 48_000.0, if looped { 3 } else { 0 }, if looped { 9 } else { 0 }); let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(_) => m.process() as f64,
        Op::Set(t, v) => { let s = T[t as usize];
            match v { 0 => if cur != t { m.set_playback_speed(s) }, 1 => m.set_playback_speed(s), 2 => { m.set_playback_speed(0.0); m.set_playback_speed(s) }
                3 => { m.set_playback_speed(1_000.0); m.set_playback_speed(s) } 4 => { m.set_playback_speed(s); let x = m.get_playback_speed(); m.set_playback_speed(x) }
                5 => { m.set_playback_speed(s); m.set_playback_speed(0.0); m.set_playback_speed(1.0); m.set_playback_speed(s) }
                6 => { m.get_playback_speed(); m.set_playback_speed(1e-9); m.set_playback_speed(s) }
                _ => { for k in 0..40 { m.set_playback_speed(k as f64) } m.set_playback_speed(s) } }
            cur = t; m.get_playback_speed() }
    })
}
fn wav() -> Obj {
    const T: [f64; 3] = [1.0, 0.0, 0.5];
    let tr: MonoTrackT = (0..16).map(|i| Mono::from_sample(((i * 5) % 7) as f32 / 4.0 - 0.5)).collect();
    let mut m = MonoWav::from_track(24_000.0, tr); let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(_) => m.process() as f64,
        Op::Set(t, v) => { let s = T[t as usize];
            match v { 0 => if cur != t { m.get_mut().set_playback_speed(s) }, 1 => m.get_mut().set_playback_speed(s), 2 => { m.get_mut().set_playback_speed(0.0); m.get_mut().set_playback_speed(s) }
                3 => { m.get_mut().set_playback_speed(9.0); m.get_mut().set_playback_speed(s) } 4 => { m.get_mut(); m.get(); m.get_mut().set_playback_speed(s) }
                5 => { m.get_mut().set_playback_speed(s); let x = m.get().get_playback_speed(); m.get_mut().set_playback_speed(x) }
                _ => { for k in 0..40 { m.get_mut().set_playback_speed(k as f64) } m.get_mut().set_playback_speed(s) } }
            cur = t; m.get().get_playback_speed() }
    })
}
fn toggles(s: &mut dyn Sound, v: u8, from: (bool, bool), to: (bool, bool)) {
    let (p, m) = (from.0 != to.0, from.1 != to.1);
    match v {
        0 => { if p { s.toggle_pause() } if m { s.toggle_mute() } }
        1 => { if m { s.toggle_mute() } if p { s.toggle_pause() } }
        2 => { s.toggle_pause(); s.toggle_mute(); if m { s.toggle_mute() } if p { s.toggle_pause() } if !m { } s.toggle_pause(); s.toggle_mute() }
        3 => { for _ in 0..(2 + p as usize) { s.toggle_pause() } for _ in 0..(2 + m as usize) { s.toggle_mute() } }
        4 => { s.register(5); if p { s.toggle_pause() } s.unregister(); if m { s.toggle_mute() } s.register(7) }
        5 => { for _ in 0..(40 + m as usize) { s.toggle_mute() } for _ in 0..(40 + p as usize) { s.toggle_pause() } }
        _ => { s.toggle_mute(); if p { s.toggle_pause() } s.is_muted(); s.is_paused(); s.get_id(); if !m { s.toggle_mute() } }
    }
}
const ST: [(bool, bool); 4] = [(false, false), (true, false), (false, true), (true, true)];
fn simple_switch() -> Obj {
    let mut s = SimpleSound::new(1.0, 1.0, mb(Delay::new(ns(1)))); s.extend_modifiers(vec![mb(Echo::new(ns(2), 0.5)), gb_mod()]);
    let mut cur = 0usize;
    Box::new(move |o| match o { Op::X(i) => s.process(IN[i as usize]) as f64, Op::Set(t, v) => { toggles(&mut s, v, ST[cur], ST[t as usize]); cur = t as usize; s.is_paused() as u8 as f64 + 2.0 * s.is_muted() as u8 as f64 } })
}
fn gb_mod() -> BlockSP { Arc::new(StandardBlock::new(Triangle::new(3_000.0), Passthrough::new(), Arc::new(|g, m| 0.5 * g + m))) }
fn complex_switch() -> Obj {
    let mut s = ComplexSound::new(1.0, 0.5);
    let (a, b, i, o) = (s.add_block(mb(Delay::new(ns(1)))), s.add_block(gb_mod()), s.get_input_gain(), s.get_output_gain());
    s.add_connection(i, a); s.add_connection(a, b); s.add_connection(b, o); s.add_connection(i, o);
    let mut cur = 0usize;
    Box::new(move |o| match o { Op::X(i) => s.process(IN[i as usize]) as f64, Op::Set(t, v) => { toggles(&mut s, v, ST[cur], ST[t as usize]); cur = t as usize; s.is_paused() as u8 as f64 + 2.0 * s.is_muted() as u8 as f64 } })
}
/// Every block connected to every later one, the order of creation being another permutation; optionally with loops.
fn dense_switch(perm: [usize; 4], loops: bool) -> Obj {
    let mut s = ComplexSound::new(1.0, 0.5);
    let mut made = [None; 4];
    for k in perm { made[k] = Some(s.add_block(match k { 0 => mb(Delay::new(ns(1))), 1 => gb_mod(), 2 => mb(Echo::new(ns(2), 0.25)), _ => mb(Gain::new(-0.5)) })) }
    let b: Vec<_> = made.iter().map(|x| x.unwrap()).collect();
    let (i, o) = (s.get_input_gain(), s.get_output_gain());
    for x in 0..4 { s.add_connection(i, b[x]); s.add_connection(b[x], o); for y in x + 1..4 { s.add_connection(b[x], b[y]) } }
    if loops { s.add_connection(b[3], b[1]); s.add_connection(b[2], b[2]) }
    let mut cur = 0usize;
    Box::new(move |o| match o { Op::X(i) => s.process(IN[i as usize]) as f64, Op::Set(t, v) => { toggles(&mut s, v, ST[cur], ST[t as usize]); cur = t as usize; s.is_paused() as u8 as f64 + 2.0 * s.is_muted() as u8 as f64 + 4.0 * s.get_nodes().len() as f64 } })
}
fn simple_gains() -> Obj {
    const T: [(f64, f64); 4] = [(1.0, 1.0), (0.5, -2.0), (0.0, 1.0), (1.0, 0.0)];
    let mut s = SimpleSound::new(1.0, 1.0, mb(Delay::new(ns(1)))); s.add_modifier::<()>(mb(Echo::new(ns(2), 0.5)));
    let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(i) => s.process(IN[i as usize]) as f64,
        Op::Set(t, v) => { let (i, g) = T[t as usize];
            match v { 0 => if cur != t { s.set_input_gain(i); s.set_output_gain(g) }, 1 => { s.set_output_gain(g); s.set_input_gain(i) } 2 => { s.set_input_gain(0.0); s.set_output_gain(0.0); s.set_output_gain(g); s.set_input_gain(i) }
                3 => { s.set_input_gain(i); s.set_output_gain(g); s.set_input_gain(i); s.set_output_gain(g) } 4 => { s.set_input_gain(-1e9); s.set_input_gain(i); s.set_output_gain(1e9); s.set_output_gain(g) }
                5 => { s.set_input_gain(i); s.set_output_gain(g); let (i, g) = (s.get_input_gain(), s.get_output_gain()); s.set_output_gain(g); s.set_input_gain(i) }
                _ => { for k in 0..40 { s.set_input_gain(k as f64); s.set_output_gain(-k as f64) } s.set_input_gain(i); s.set_output_gain(g) } }
            cur = t; s.get_input_gain() + 16.0 * s.get_output_gain() }
    })
}
/// The same graph by different orders of adding and removing, without a sample in between.
fn graph() -> Obj {
    let mut s = ComplexSound::new(1.0, 1.0);
    let (a, b, d) = (s.add_block(mb(Delay::new(ns(1)))), s.add_block(mb(Echo::new(ns(2), 0.5))), s.add_block(gb_mod()));
    let (i, o) = (s.get_input_gain(), s.get_output_gain());
    let sets = [vec![(i, a), (a, b), (b, d), (d, o)], vec![(i, b), (b, a), (a, d), (d, o), (i, o)], vec![(i, d), (d, a), (a, o), (d, b), (b, o)]];
    for e in &sets[0] { s.add_connection(e.0, e.1) }
    let mut cur = 0usize;
    Box::new(move |op| match op {
        Op::X(i) => s.process(IN[i as usize]) as f64,
        Op::Set(t, v) => { let (old, new) = (sets[cur].clone(), sets[t as usize].clone());
            match v {
                0 => if cur != t as usize { for e in &old { if !new.contains(e) { s.remove_connection(e.0, e.1) } } for e in &new { if !old.contains(e) { s.add_connection(e.0, e.1) } } },
                1 => { for e in &old { s.remove_connection(e.0, e.1) } for e in &new { s.add_connection(e.0, e.1) } }
                2 => { for e in old.iter().rev() { s.remove_connection(e.0, e.1) } for e in new.iter().rev() { s.add_connection(e.0, e.1) } }
                3 => { for e in &new { if !old.contains(e) { s.add_connection(e.0, e.1) } } for e in &old { if !new.contains(e) { s.remove_connection(e.0, e.1) } } }
                4 => { for e in &old { if !new.contains(e) { s.remove_connection(e.0, e.1); s.remove_connection(e.0, e.1) } } for e in &new { s.add_connection(e.0, e.1); s.add_connection(e.0, e.1) } }
                5 => { for k in [1usize, 2, 0] { for e in &old { s.remove_connection(e.0, e.1) } for e in &sets[k] { s.add_connection(e.0, e.1) } for e in &sets[k] { s.remove_connection(e.0, e.1) } } for e in &new { s.add_connection(e.0, e.1) } }
                // through a loop and back
                _ => { for e in &old { s.add_connection(e.1, e.0) } for e in &old { s.remove_connection(e.0, e.1); s.remove_connection(e.1, e.0) } for e in &new { s.add_connection(e.0, e.1) } }
            }
            cur = t as usize; s.get_nodes().len() as f64 }
    })
}
fn channel<SF: SampleFormat + Copy + 'static>() -> Obj {
    const T: [(u64, f64); 4] = [(2, 1.0), (1, 0.5), (3, -1.0), (2, 0.0)];
    let mut c: StandardChannel<SF> = StandardChannel::new(1.0); c.set_process_time(ns(2));
    for f in [1_234.567, 3_333.3] { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 0.5, gb(Triangle::new(f)))); c.add_sound(&mut s); }
    let mut cur = 0u8;
    Box::new(move |o| match o {
        Op::X(_) => { c.process(); c.get_output().iter().enumerate().map(|(k, f)| { f.into_sample() as f64 * (k + 1) as f64 }).sum::<f64>() + 1_000.0 * c.get_output().len() as f64 }
        Op::Set(t, v) => { let (n, g) = T[t as usize];
            match v { 0 => if cur != t { c.set_process_time(ns(n)); c.set_gain(g) }, 1 => { c.set_gain(g); c.set_process_time(ns(n)) } 2 => { c.set_gain(0.0); c.set_process_time(ns(0)); c.set_process_time(ns(n)); c.set_gain(g) }
                3 => { c.set_gain(g); c.set_gain(g); c.set_process_time(ns(n)); c.set_process_time(ns(n)) } 4 => { c.set_process_time(ns(48_000)); c.set_gain(1e9); c.set_gain(g); c.set_process_time(ns(n)) }
                5 => { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, gb(Square::new(100.0)))); c.add_sound(&mut s); let id = s.get_id().unwrap_or(0); drop(s); c.remove_sound(id); c.remove_sound(id); c.set_process_time(ns(n)); c.set_gain(g) }
                _ => { c.get_output(); for k in 0..40 { c.set_process_time(ns(k)); c.set_gain(k as f64) } c.set_gain(g); c.set_process_time(ns(n)) } }
            cur = t; 0.0 }
    })
}
fn release() -> Obj {
    let mut m = ADSR::new(ns(3), ns(2), -6.0, ns(4)); let mut cur = 0u8;
    Box::new(move |o| match o { Op::X(_) => m.process(1.0) as f64, Op::Set(t, v) => { if t == 1 { match v { 0 => if cur == 0 { m.release() }, v => for _ in 0..[1, 2, 3, 10, 100, 1000, 7][v as usize % 7] { m.release() } } cur = 1 } 0.0 } })
}
fn gainmod() -> Obj {
    const T: [f32; 3] = [1.0, 0.0, -2.5];
    let mut m = Gain::new(1.0); let mut cur = 0u8;
    Box::new(move |o| match o { Op::X(i) => m.process(IN[i as usize]) as f64, Op::Set(t, v) => { match v { 0 => if cur != t { m.a = T[t as usize] }, 1 => m.a = T[t as usize], 2 => { m.a = 9.0; m.a = T[t as usize] } _ => m = Gain { a: T[t as usize] } } cur = t; m.a as f64 } })
}
pub fn kinds() -> Vec<Kind> {
    fn k(name: &'static str, targets: u8, variants: u8, tol: f64, mk: impl Fn() -> Obj + 'static) -> Kind { Kind { name, targets, variants, tol, mk: Box::new(mk) } }
    vec![
        k("Sine", 3, 8, 1e-5, osc::<Sine>), k("Sawtooth", 3, 8, 1e-5, osc::<Sawtooth>), k("Square", 3, 8, 1e-5, osc::<Square>), k("Triangle", 3, 8, 1e-5, osc::<Triangle>),
        k("LowPass", 4, 8, 1e-5, low), k("HighPass", 4, 8, 1e-5, high), k("BandPass", 3, 8, 1e-5, || band(false)), k("BandPass from quality", 3, 8, 1e-5, || band(true)),
        k("MonoResampler", 4, 8, 0.0, || player(false)), k("MonoResampler loop", 4, 8, 0.0, || player(true)), k("MonoWav", 3, 7, 0.0, wav),
        k("SimpleSound switches", 4, 7, 0.0, simple_switch), k("ComplexSound switches", 4, 7, 0.0, complex_switch), k("ComplexSound dense switches", 4, 7, 0.0, || dense_switch([3, 1, 0, 2], false)), k("ComplexSound dense reversed switches", 4, 7, 0.0, || dense_switch([3, 2, 1, 0], false)), k("ComplexSound dense looped switches", 4, 7, 0.0, || dense_switch([1, 3, 0, 2], true)),
        k("SimpleSound gains", 4, 7, 0.0, simple_gains), k("ComplexSound connections", 3, 7, 1e-6, graph),
        k("StandardChannel<Mono>", 4, 7, 4e-6, channel::<Mono>), k("StandardChannel<Stereo>", 4, 7, 4e-6, channel::<Stereo>), k("ADSR release", 2, 7, 0.0, release), k("Gain", 3, 4, 0.0, gainmod),
    ]
}
/// One history: before each of the samples the settings go to t[i] by way v[i].
fn history(k: &Kind, t: &[usize], v: &[usize], per: usize, tail: usize) -> Vec<f64> {
    let mut o = (k.mk)(); let mut y = vec![]; let mut i = 0u8;
    for (a, b) in t.iter().zip(v) { y.push(o(Op::Set(*a as u8, *b as u8))); for _ in 0..per { y.push(o(Op::X(i % 5))); i += 1 } }
    for _ in 0..tail { y.push(o(Op::X(i % 5))); i += 1 }
    y
}
fn same(k: &Kind, t: &[usize], v: &[usize], a: &[f64], b: &[f64]) -> Res {
    for (i, (x, y)) in a.iter().zip(b).enumerate() { ensure!(close(*x, *y, k.tol * x.abs().max(1.0)), "{}: settings {:?} by ways {:?}: result {} is {}, by the plain way {}", k.name, t, v, i, y, x) }
    Ok(())
}

fn c36(c: &mut Ctx) {
    let ks = kinds();
    let d = c.q(3usize, 4);
    c.section("ways to settings", format!("{} kinds of object: every sequence of {} settings (2 to 4 of them) x every sequence of ways to set them (the same again, detours to extremes, other orders of setters, values read back, 40 other values first), 2 samples after each, then 12; getters compared too", ks.len(), d));
    for k in &ks { words(k.targets as usize, d, |t| {
        let plain = guarded(|| history(k, t, &vec![0; d], 2, 12));
        words(k.variants as usize, d, |v| c.case(|| format!("{}: settings {:?} by ways {:?}", k.name, t, v), |r| {
            let Ok(p) = &plain else { return Err(format!("{}: settings {:?} by the plain way panicked", k.name, t)) };
            let y = history(k, t, v, 2, 12);
            r.steps(y.len() as u64); r.st(&(k.name, t, v)); r.outcome(hash(&(k.name, y.iter().map(|x| x.to_bits()).collect::<Vec<_>>())));
            same(k, t, v, p, &y) })) }) }
    let n = c.q(6usize, 8);
    c.section("the same again", format!("every subset of {} samples before which the settings in force are set again, each way", n));
    for k in &ks { for t0 in 0..k.targets as usize { for way in 1..k.variants as usize { words(2, n, |m| c.case(|| format!("{}: settings {} throughout, way {} before the samples {:?}", k.name, t0, way, m), |r| {
        let t = vec![t0; n]; let v: Vec<usize> = m.iter().enumerate().map(|(i, x)| if i == 0 { 0 } else { x * way }).collect();
        let p = history(k, &t, &vec![0; n], 1, 8); let y = history(k, &t, &v, 1, 8);
        r.steps(y.len() as u64); r.st(&(k.name, t0, way, m));
        same(k, &t, &v, &p, &y) })) } } }
    let long = c.q(20_000usize, 300_000);
    c.section("set before every sample", format!("{} samples with the settings in force set again before each, each way", long)); c.witness();
    for k in &ks { for t0 in 0..k.targets as usize { for way in 1..k.variants as usize { c.case(|| format!("{}: settings {}, way {}", k.name, t0, way), |r| {
        let (mut a, mut b) = ((k.mk)(), (k.mk)());
        a(Op::Set(t0 as u8, 0)); b(Op::Set(t0 as u8, 0));
        for i in 0..long { b(Op::Set(t0 as u8, way as u8)); let (x, y) = (a(Op::X((i % 5) as u8)), b(Op::X((i % 5) as u8)));
            ensure!(close(x, y, k.tol * x.abs().max(1.0) * 10.0), "sample {}: {} instead of {}", i, y, x) }
        r.steps(long as u64); Ok(()) }) } } }
}
