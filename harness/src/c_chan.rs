//! C25 channels.
use crate::c_sound::{amp, at_amp, POWS};
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::channels::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub fn checks() -> Vec<Check> {
    vec![Check { one_process: false, id: "C25", level: "model_checking", run: c25, assumptions: &["sounds are handed over to the channel (the caller keeps no handle); keeping one is the known finding listed in known_findings.txt", "dyadic values, so sums are exact in any order", "durations within a nanosecond of a whole number of samples are whole"] }]
}

/// Sound spy: n-th sample is base * (n % 8 + 1); records its id and inputs.
struct Spy { base: f32, n: Rc<Cell<u64>>, id: Rc<Cell<Option<usize>>>, bad_input: Rc<Cell<bool>> }
impl Sound for Spy {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool { false }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool { false }
    fn process(&mut self, x: f32) -> f32 { if x != 0.0 { self.bad_input.set(true) } let n = self.n.get(); self.n.set(n + 1); self.base * (n % 8 + 1) as f32 * amp() }
    fn register(&mut self, id: usize) { self.id.set(Some(id)) }
    fn unregister(&mut self) { self.id.set(None) }
    fn get_id(&self) -> Option<usize> { self.id.get() }
}
trait Sf: SampleFormat + 'static { fn chans(&self) -> Vec<f32>; const NAME: &'static str; }
impl Sf for Mono { fn chans(&self) -> Vec<f32> { vec![self.clone().into_sample()] } const NAME: &'static str = "Mono"; }
impl Sf for Stereo { fn chans(&self) -> Vec<f32> { vec![self.left, self.right] } const NAME: &'static str = "Stereo"; }
/// A format of the user's own: four channels fed differently, held on the heap, neither Clone nor Copy.
struct Quad(Box<[f32; 4]>);
fn q4(f: impl Fn(usize) -> f32) -> Quad { Quad(Box::new([f(0), f(1), f(2), f(3)])) }
impl Default for Quad { fn default() -> Self { q4(|_| 0.0) } }
impl std::ops::Neg for Quad { type Output = Self; fn neg(self) -> Self { q4(|i| -self.0[i]) } }
impl std::ops::Add for Quad { type Output = Self; fn add(self, r: Self) -> Self { q4(|i| self.0[i] + r.0[i]) } }
impl std::ops::AddAssign for Quad { fn add_assign(&mut self, r: Self) { for i in 0..4 { self.0[i] += r.0[i] } } }
impl std::ops::Sub for Quad { type Output = Self; fn sub(self, r: Self) -> Self { q4(|i| self.0[i] - r.0[i]) } }
impl std::ops::SubAssign for Quad { fn sub_assign(&mut self, r: Self) { for i in 0..4 { self.0[i] -= r.0[i] } } }
impl std::ops::Mul for Quad { type Output = Self; fn mul(self, r: Self) -> Self { q4(|i| self.0[i] * r.0[i]) } }
impl std::ops::MulAssign for Quad { fn mul_assign(&mut self, r: Self) { for i in 0..4 { self.0[i] *= r.0[i] } } }
impl std::ops::Mul<f32> for Quad { type Output = Self; fn mul(self, r: f32) -> Self { q4(|i| self.0[i] * r) } }
impl std::ops::MulAssign<f32> for Quad { fn mul_assign(&mut self, r: f32) { for i in 0..4 { self.0[i] *= r } } }
impl std::ops::Mul<f64> for Quad { type Output = Self; fn mul(self, r: f64) -> Self { q4(|i| (self.0[i] as f64 * r) as f32) } }
impl std::ops::MulAssign<f64> for Quad { fn mul_assign(&mut self, r: f64) { for i in 0..4 { self.0[i] = (self.0[i] as f64 * r) as f32 } } }
impl From<f32> for Quad { fn from(x: f32) -> Self { Quad::from_sample(x) } }
impl From<Quad> for f32 { fn from(q: Quad) -> f32 { q.into_sample() } }
macro_rules! quad_vec { ($t:ty, $from:path, $to:path) => {
    impl std::convert::TryFrom<Vec<$t>> for Quad { type Error = String; fn try_from(v: Vec<$t>) -> Result<Self, String> { if v.len() < 4 { Err(String::new()) } else { Ok(q4(|i| $from(v[i]))) } } }
    impl From<Quad> for Vec<$t> { fn from(q: Quad) -> Self { q.0.iter().map(|x| $to(*x)).collect() } }
} }
quad_vec!(u8, sample_from_u8, sample_to_u8); quad_vec!(i16, sample_from_i16, sample_to_i16); quad_vec!(i32, sample_from_i24, sample_to_i24);
impl SampleFormat for Quad { fn from_sample(x: f32) -> Self { let k = [1.0f32, 0.5, -1.0, 0.0]; q4(|i| k[i] * x) } fn into_sample(self) -> f32 { self.0[0] } fn num_samples() -> usize { 4 } }
impl Sf for Quad { fn chans(&self) -> Vec<f32> { self.0.iter().map(|x| *x).collect() } const NAME: &'static str = "four channels"; }

#[derive(Clone, Copy, Debug, PartialEq)]
enum CO { Add, Rem(usize), RemLast(usize), RemUnknown, RemFlip(u32), P, Time(u64), Gain(f64) }

struct Handle { base: f32, n: Rc<Cell<u64>>, expect: u64, chan_id: usize, live: bool, bad: Rc<Cell<bool>> }

fn run<SF: Sf>(r: &mut Run, gain: f64, ops: impl Iterator<Item = CO>) -> Res {
    let mut ch: StandardChannel<SF> = StandardChannel::new(gain);
    let mut gain = gain as f32;
    let mut len = 480u64;
    let mut hs: Vec<Handle> = vec![];
    let mut ids = std::collections::HashSet::new();
    let mut shown: Option<Vec<Vec<f32>>> = None;
    for (i, o) in ops.enumerate() {
        r.step();
        match o {
            CO::Add => {
                let base = 0.0625 * (1u32 << (hs.len() % 12)) as f32 * if hs.len() % 3 == 1 { -1.0 } else { 1.0 };
                let n = Rc::new(Cell::new(0)); let id = Rc::new(Cell::new(None)); let bad = Rc::new(Cell::new(false));
                let mut s: Arc<dyn Sound> = Arc::new(Spy { base, n: n.clone(), id: id.clone(), bad_input: bad.clone() });
                ch.add_sound(&mut s);
                let got = match s.get_id() { Some(x) => x, None => return Err(format!("step {}: an added sound has no id", i)) };
                drop(s);
                ensure!(!ids.contains(&got), "step {}: id {} was given out twice ({:?})", i, got, ids);
                ids.insert(got);
                hs.push(Handle { base, n, expect: 0, chan_id: got, live: true, bad });
            }
            CO::Rem(k) => { if k < hs.len() { ch.remove_sound(hs[k].chan_id); hs[k].live = false } }
            CO::RemLast(k) => { if let Some(h) = hs.iter_mut().rev().filter(|h| h.live).nth(k) { ch.remove_sound(h.chan_id); h.live = false } }
            CO::RemUnknown => { let mut u = 1000; while ids.contains(&u) { u += 1 } ch.remove_sound(u); ch.remove_sound(usize::max_value()) }
            CO::RemFlip(k) => { for h in hs.iter() { let u = h.chan_id ^ (1usize << k); if !ids.contains(&u) { ch.remove_sound(u) } let u = h.chan_id.wrapping_sub(1 << k); if !ids.contains(&u) { ch.remove_sound(u) } } }
            CO::Gain(g) => { ch.set_gain(g); gain = g as f32 }
            CO::Time(n) => { ch.set_process_time(Duration::from_nanos((n * 1_000_000_000 + 24_000) / 48_000)); len = n }
            CO::P => {
                ch.process();
                let out = ch.get_output();
                ensure!(out.len() as u64 == len, "step {}: {} samples after processing, process time is {} samples", i, out.len(), len);
                for (t, f) in out.iter().enumerate() {
                    let mut w = 0f32; let mut mag = 0f32; // mag: sum of magnitudes, sounds may be summed in any order
                    for h in hs.iter().filter(|h| h.live) { let x = h.base * ((h.expect + t as u64) % 8 + 1) as f32 * amp(); w += x; mag += x.abs() }
                    let want = SF::from_sample(w).chans();
                    let got = f.chans();
                    for (a, b) in got.iter().zip(&want) { ensure!(close(*a as f64, (*b * gain) as f64, 2e-6 * (mag * gain).abs() as f64 + 1e-44), "step {}: sample {} is {:?}, the {} sounds in the channel give {:?} times gain {}", i, t, got, hs.iter().filter(|h| h.live).count(), want, gain) }
                    if t == 0 { r.outcome(hash(&(SF::NAME, got.iter().map(|x| x.to_bits()).collect::<Vec<_>>()))) }
                }
                for h in hs.iter_mut() { if h.live { h.expect += len } }
            }
        }
        if len <= 16 || o == CO::P { let now: Vec<Vec<f32>> = ch.get_output().iter().take(16).map(|f| f.chans()).collect();
            if let (Some(was), true) = (&shown, o != CO::P) { ensure!(now.len() == was.len() && now.iter().flatten().zip(was.iter().flatten()).all(|(a, b)| same(*a, *b)), "step {}: {:?} alone changed the output from {:?} to {:?}", i, o, was, now) }
            shown = Some(now); }
        for (k, h) in hs.iter().enumerate() {
            ensure!(h.n.get() == h.expect, "step {} {:?}: sound {} was processed {} times instead of {}", i, o, k, h.n.get(), h.expect);
            ensure!(!h.bad.get(), "step {}: sound {} was given an input", i, k);
        }
        r.st(&(SF::NAME, len, gain.to_bits(), hs.iter().map(|h| (h.live, h.expect)).collect::<Vec<_>>()));
    }
    Ok(())
}
/// A sound that yields its base value except at one sample.
struct Odd { base: f32, n: u64, at: u64, v: f32, id: Option<usize> }
impl Sound for Odd {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool { false }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool { false }
    fn process(&mut self, _: f32) -> f32 { self.n += 1; if self.n == self.at + 1 { self.v } else { self.base } }
    fn register(&mut self, id: usize) { self.id = Some(id) }
    fn unregister(&mut self) { self.id = None }
    fn get_id(&self) -> Option<usize> { self.id }
}
fn wild<SF: Sf>(r: &mut Run, cnt: usize, who: usize, at: u64, v: f32, g: f32, rem: bool) -> Res {
    let mut ch: StandardChannel<SF> = StandardChannel::new(g as f64);
    ch.set_process_time(Duration::from_nanos(62_500));
    let mut id = 0;
    for k in 0..cnt { let mut s: Arc<dyn Sound> = Arc::new(Odd { base: k as f32 + 0.5, n: 0, at: if k == who { at } else { 999 }, v, id: None }); ch.add_sound(&mut s); if k == who { id = s.get_id().unwrap_or(0) } }
    for blk in 0..4u64 {
        if blk == 2 && rem { ch.remove_sound(id); r.step() }
        ch.process(); r.step();
        ensure!(ch.get_output().len() == 3, "block {}: {} samples", blk, ch.get_output().len());
        for (t, f) in ch.get_output().iter().enumerate() { let t = t as u64 + blk * 3;
            let mut w = 0f32; for k in 0..cnt { if k == who && rem && blk >= 2 { continue } w += if k == who && t == at { v } else { k as f32 + 0.5 } }
            let want: Vec<f32> = SF::from_sample(w).chans().iter().map(|x| x * g).collect(); let got = f.chans();
            for (a, b) in got.iter().zip(&want) { ensure!(same(*a, *b) || close(*a as f64, *b as f64, 1e-6 * b.abs() as f64) || w.abs() == f32::MAX && !b.is_finite(), "{}: sample {} is {:?} instead of {:?}", SF::NAME, t, got, want) }
            r.outcome(hash(&got.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        }
        r.st(&(cnt, who, at, v.to_bits(), g.to_bits(), rem, blk));
    }
    Ok(())
}
/// A sound that can be paused (stands still, silent) and muted (runs on, silent) from outside.
struct Ctl { base: f32, n: Rc<Cell<u64>>, p: Rc<Cell<bool>>, m: Rc<Cell<bool>>, id: Option<usize> }
impl Sound for Ctl {
    fn toggle_pause(&mut self) { self.p.set(!self.p.get()) }
    fn is_paused(&self) -> bool { self.p.get() }
    fn toggle_mute(&mut self) { self.m.set(!self.m.get()) }
    fn is_muted(&self) -> bool { self.m.get() }
    fn process(&mut self, _: f32) -> f32 { if self.p.get() { return 0.0 } let n = self.n.get(); self.n.set(n + 1); if self.m.get() { 0.0 } else { self.base * (n % 8 + 1) as f32 } }
    fn register(&mut self, id: usize) { self.id = Some(id) }
    fn unregister(&mut self) { self.id = None }
    fn get_id(&self) -> Option<usize> { self.id }
}
/// ops: 0 process, 1.. pause/mute sound 0, 1; 5 remove sound 0
fn switched<SF: Sf>(r: &mut Run, start: usize, len: u64, ops: &[usize]) -> Res {
    let mut ch: StandardChannel<SF> = StandardChannel::new(0.5); ch.set_process_time(Duration::from_nanos((len * 1_000_000_000 + 24_000) / 48_000));
    let mut hs = vec![]; let mut ids = vec![];
    for k in 0..2 { let (n, p, m) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(start >> (2 * k) & 1 == 1)), Rc::new(Cell::new(start >> (2 * k + 1) & 1 == 1)));
        let mut s: Arc<dyn Sound> = Arc::new(Ctl { base: [1.0, -16.0][k], n: n.clone(), p: p.clone(), m: m.clone(), id: None }); ch.add_sound(&mut s); ids.push(s.get_id().ok_or("an added sound has no id")?); hs.push((n, p, m, 0u64, true)); }
    for (i, &o) in ops.iter().enumerate() { r.step(); match o {
        1..=4 => { let h = &hs[(o - 1) / 2]; let f = if o % 2 == 1 { &h.1 } else { &h.2 }; f.set(!f.get()) }
        5 => { ch.remove_sound(ids[0]); hs[0].4 = false }
        _ => {
            ch.process(); ensure!(ch.get_output().len() as u64 == len, "step {}: {} samples instead of {}", i, ch.get_output().len(), len);
            for (t, f) in ch.get_output().iter().enumerate() { let mut w = 0f32;
                for (k, h) in hs.iter_mut().enumerate() { if h.4 && !h.1.get() { if !h.2.get() { w += [1.0f32, -16.0][k] * (h.3 % 8 + 1) as f32 } h.3 += 1 } }
                let want = SF::from_sample(w).chans(); for (a, b) in f.chans().iter().zip(&want) { ensure!(close(*a as f64, *b as f64 * 0.5, 1e-4), "step {}: sample {} is {:?} instead of half of {:?}", i, t, f.chans(), want) } }
            for (k, h) in hs.iter().enumerate() { ensure!(h.0.get() == h.3, "step {}: sound {} (paused {}, muted {}) has run for {} samples instead of {}", i, k, h.1.get(), h.2.get(), h.0.get(), h.3) }
            r.outcome(hash(&(len, hs[0].3, hs[1].3)));
        } }
        r.st(&(SF::NAME, len, hs.iter().map(|h| (h.1.get(), h.2.get(), h.3, h.4)).collect::<Vec<_>>())); }
    Ok(())
}
fn both(c: &mut Ctx, ops: &[CO]) {
    c.case(|| format!("Mono channel, ops {:?}", ops), |r| run::<Mono>(r, 1.0, ops.iter().cloned()));
    c.case(|| format!("Stereo channel, ops {:?}", ops), |r| run::<Stereo>(r, 1.0, ops.iter().cloned()));
}

fn c25(c: &mut Ctx) {
    let ops = [CO::P, CO::Add, CO::Rem(0), CO::Rem(1), CO::RemUnknown, CO::Time(6), CO::Time(3), CO::Gain(0.5), CO::Gain(-2.0)];
    let d = c.q(6, 7);
    c.section("operation histories", format!("every sequence of {} operations from {:?}, starting at 3 samples, then two processes; mono and stereo", d, ops));
    words(ops.len(), d, |w| {
        let v: Vec<CO> = std::iter::once(CO::Time(3)).chain(w.iter().map(|i| ops[*i])).chain([CO::P, CO::P].iter().cloned()).collect();
        both(c, &v);
    });
    let ops = [CO::P, CO::Add, CO::Rem(0), CO::Rem(1), CO::Rem(2)];
    let d = c.q(8, 9);
    c.section("membership histories", format!("every sequence of {} operations from {:?} at 2 samples", d, ops));
    words(ops.len(), d, |w| {
        let v: Vec<CO> = std::iter::once(CO::Time(2)).chain(w.iter().map(|i| ops[*i])).chain([CO::P].iter().cloned()).collect();
        both(c, &v);
    });
    let ops = [CO::P, CO::Time(0), CO::Time(1), CO::Time(2), CO::Time(5), CO::Time(9), CO::Gain(0.25)];
    let d = c.q(5, 7);
    c.section("process times", format!("every sequence of {} operations from {:?} with two sounds, from the initial 10 ms", d, ops));
    words(ops.len(), d, |w| {
        let v: Vec<CO> = [CO::Add, CO::P, CO::Add].iter().cloned().chain(w.iter().map(|i| ops[*i])).chain([CO::P, CO::P].iter().cloned()).collect();
        if w.iter().take(4).filter(|i| **i == 0).count() > 2 { return }
        both(c, &v);
    });
    let d = c.q(6, 8);
    c.section("paused and muted sounds", format!("two sounds, each paused and/or muted or neither when added; every sequence of {} operations from process, pause/mute either, remove the first, then two processes, 1 or 3 samples per process: a muted sound runs on, a paused one stands still, both are silent", d));
    for start in 0..16 { for len in [1u64, 3] { words(6, d, |w| { let v: Vec<usize> = w.iter().cloned().chain([0, 0]).collect();
        c.case(|| format!("start {:04b}, {} samples, ops {:?}", start, len, v), |r| if len == 1 { switched::<Mono>(r, start, len, &v) } else { switched::<Stereo>(r, start, len, &v) }); }) } }
    let ops = [CO::P, CO::Add, CO::Rem(0), CO::Gain(0.5), CO::Time(2)];
    c.section("amplitudes", format!("every sequence of 4 operations from {:?} at 3 samples, then two processes, signals and gains scaled by 2^k, k in {:?}", ops, POWS));
    for p in POWS { words(ops.len(), 4, |w| {
        for g in 0..2 {
            let v: Vec<CO> = [CO::Time(3), CO::Add].iter().cloned().chain(w.iter().map(|i| match ops[*i] { CO::Gain(x) if g == 1 => CO::Gain(x * 2f64.powi(p)), o => o })).chain([CO::P, CO::P].iter().cloned()).collect();
            c.case(|| format!("Mono channel at 2^{}, ops {:?}", p, v), |r| at_amp(if g == 0 { p } else { 0 }, || run::<Mono>(r, 1.0, v.iter().cloned())));
            c.case(|| format!("Stereo channel at 2^{}, ops {:?}", p, v), |r| at_amp(if g == 0 { p } else { 0 }, || run::<Stereo>(r, 1.0, v.iter().cloned())));
        }
    }) }
    let ops = [CO::P, CO::Add, CO::Rem(0), CO::RemUnknown, CO::Time(5), CO::Time(0), CO::Gain(-2.0)];
    let d = c.q(5, 7);
    c.section("a format of the user's own", format!("a sample format of four channels, fed +1, +1/2, -1 and 0 times the signal, held on the heap and not Clone: every sequence of {} operations from {:?} with one sound at 3 samples, then two processes; paused and muted sounds, 4 operations; non-finite signals", d, ops));
    words(ops.len(), d, |w| { let v: Vec<CO> = [CO::Time(3), CO::Add].iter().cloned().chain(w.iter().map(|i| ops[*i])).chain([CO::P, CO::P].iter().cloned()).collect();
        c.case(|| format!("four-channel format, ops {:?}", v), |r| run::<Quad>(r, 1.0, v.iter().cloned())); });
    for start in 0..16 { words(6, 4, |w| { let v: Vec<usize> = w.iter().cloned().chain([0, 0]).collect();
        c.case(|| format!("four-channel format, start {:04b}, ops {:?}", start, v), |r| switched::<Quad>(r, start, 2, &v)); }) }
    for cnt in 1..=2usize { for at in 0..6u64 { for v in [f32::MAX, f32::MIN_POSITIVE, 1e-42, -1e30] { for g in [1.0f32, 0.5, -2.0, 0.0] { for rem in [false, true] {
        c.case(|| format!("four-channel format, {} sounds, sound 0 yields {} at sample {}, gain {}, {}", cnt, v, at, g, if rem { "then removed" } else { "kept" }), |r| wild::<Quad>(r, cnt, 0, at, v, g, rem)); } } } } }
    let ops = [CO::P, CO::Add, CO::RemLast(0), CO::RemLast(2), CO::RemUnknown, CO::Time(3), CO::Time(1), CO::Gain(0.5), CO::Gain(-2.0)];
    let n = c.q(4, 5);
    c.section("one long life", format!("one channel of 2..=40 sounds driven through every window of {} operations of {:?}", n, ops)); c.witness();
    let mut live = 0; let mut v = vec![CO::Time(3)];
    for i in debruijn(ops.len(), n) { let mut o = ops[i]; if o == CO::Add { if live >= 40 { o = CO::RemLast(1) } } match o { CO::Add => live += 1, CO::RemLast(k) => if live > k { live -= 1 }, _ => () } v.push(o) }
    both(c, &v);
    let top = c.q(5_000usize, 300_000);
    c.section("long stretches", format!("two sounds; N times one operation, then a sound added and processed; N around powers of two and round numbers up to {}", top)); c.witness();
    for n in stretches(top) { for rep in [&[CO::P][..], &[CO::Time(0), CO::P], &[CO::Time(1), CO::P], &[CO::Gain(0.5), CO::P], &[CO::RemUnknown, CO::P], &[CO::RemLast(0), CO::P, CO::Add], &[CO::Gain(0.0), CO::P]] {
        if n > 1_100 && rep.len() == 3 { continue }
        let v: Vec<CO> = [CO::Time(2), CO::Add, CO::Add, CO::P].iter().cloned().chain((0..n).flat_map(|_| rep.iter().cloned())).chain([CO::Gain(2.0), CO::Time(3), CO::Add, CO::P, CO::RemLast(1), CO::P].iter().cloned()).collect();
        c.case(|| format!("Mono channel: 2 samples, two sounds, {} times {:?}, gain 2, 3 samples, add, process, remove, process", n, rep), |r| run::<Mono>(r, 1.0, v.iter().cloned()));
        if n % 4 == 1 { c.case(|| format!("Stereo channel: 2 samples, two sounds, {} times {:?}, gain 2, 3 samples, add, process, remove, process", n, rep), |r| run::<Stereo>(r, 1.0, v.iter().cloned())); }
    } }
    let top = c.q(6_000u64, 200_000);
    c.section("whole-sample durations", format!("every duration of n samples (to the nanosecond), n = 0..={}: length after one process", top));
    for n in 0..=top { c.case(|| format!("{} samples", n), |r| {
        let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0);
        ch.set_process_time(Duration::from_nanos((n * 1_000_000_000 + 24_000) / 48_000)); ch.process(); r.steps(2); r.st(&("n", n)); r.outcome(n);
        ensure!(ch.get_output().len() as u64 == n, "process time of {} samples gives {} samples", n, ch.get_output().len()); Ok(()) }); }
    let step = c.q(1_009u64, 101);
    c.section("truncated durations", format!("every multiple of {} ns up to 3 ms", step));
    for m in 0..3_000_000 / step { let ns = m * step; c.case(|| format!("{} ns", ns), |r| {
        let mut ch: StandardChannel<Stereo> = StandardChannel::new(1.0);
        ch.set_process_time(Duration::from_nanos(ns)); ch.process(); r.steps(2);
        let (lo, hi) = (ns * 48_000 / 1_000_000_000, (ns + 1) * 48_000 / 1_000_000_000);
        let n = ch.get_output().len() as u64; r.outcome(n);
        ensure!(n == lo || n == hi, "a process time of {} ns gives {} samples instead of {}", ns, n, lo); Ok(()) }); }
    c.section("many sounds", "12 sounds, long runs, odd gains"); c.witness();
    for g in [1.0, 0.7, 0.0, -1.0] {
        let mut v = vec![CO::Gain(g)]; for i in 0..12 { v.push(CO::Add); v.push(CO::P); if i % 3 == 2 { v.push(CO::Rem(i / 2)); v.push(CO::P) } } for _ in 0..40 { v.push(CO::P); v.push(CO::Time(48)); }
        both(c, &v);
    }
    c.section("add and remove 3000 sounds", "ids stay distinct"); c.witness();
    let mut v = vec![CO::Time(2)]; for i in 0..3000 { v.push(CO::Add); if i >= 3 { v.push(CO::Rem(i - 3)) } if i % 50 == 0 { v.push(CO::P) } }
    if c.thorough { both(c, &v) } else { both(c, &v[..1200]) }
    c.section("ids that were not given out", "3, 40 and 300 sounds, every id one bit away from, or 2^k below, that of a sound, k = 0..=63, removed unless it was given out: nothing changes"); c.witness();
    for n in [3usize, 40, 300] { for k in 0..64 { let v: Vec<CO> = std::iter::once(CO::Time(2)).chain((0..n).map(|_| CO::Add)).chain([CO::P, CO::RemFlip(k), CO::P, CO::Rem(1), CO::P, CO::RemFlip(k), CO::P].iter().cloned()).collect();
        c.case(|| format!("{} sounds, bit {}", n, k), |r| run::<Mono>(r, 1.0, v.iter().cloned())); } }
    c.section("sounds that had an id before", "a spy, a simple sound, a muted, a paused and a complex sound, registered by hand under 0..=4, 1000, the largest id or not at all, or added to and removed from this or another channel up to 3 times, then added to a channel of 0..=3 sounds: it has a new id, is heard, and is removed by that id");
    for kind in 0..5usize { for pre in [None, Some(0usize), Some(1), Some(2), Some(3), Some(4), Some(1000), Some(usize::max_value())] { for others in 0..=3usize { for moves in 0..=3u32 { for elsewhere in [false, true] {
        if moves == 0 && elsewhere { continue }
        c.case(|| format!("{}, registered by hand under {:?}, {} times added to and removed from {} channel, then added to {} others", ["spy", "simple sound", "muted simple sound", "paused simple sound", "complex sound"][kind], pre, moves, if elsewhere { "another" } else { "the same" }, others), |r| {
            use bae_rs::generators::*;
            let gen = || Arc::new(StandardBlock::from_generator(Square::new(1e-3)));
            let mut s: Arc<dyn Sound> = match kind { 0 => Arc::new(Odd { base: 1.0, n: 0, at: 999, v: 0.0, id: None }),
                4 => { let mut x = ComplexSound::new(1.0, 1.0); let g = x.add_block(gen()); let o = x.get_output_gain(); x.add_connection(g, o); Arc::new(x) }
                _ => { let mut x = SimpleSound::new(1.0, 1.0, gen()); if kind == 2 { x.toggle_mute() } if kind == 3 { x.toggle_pause() } Arc::new(x) } };
            if let Some(p) = pre { Arc::get_mut(&mut s).unwrap().register(p) }
            let mut ch: StandardChannel<Stereo> = StandardChannel::new(1.0); ch.set_process_time(Duration::from_nanos(41_667));
            let mut other: StandardChannel<Mono> = StandardChannel::new(1.0);
            let mut ids = std::collections::HashSet::new(); let mut oids = std::collections::HashSet::new();
            for _ in 0..others { let mut s: Arc<dyn Sound> = Arc::new(Odd { base: 16.0, n: 0, at: 999, v: 0.0, id: None }); ch.add_sound(&mut s); let id = s.get_id().ok_or("no id")?; ensure!(ids.insert(id), "id {} twice", id); r.step() }
            for m in 0..moves {
                let id = if elsewhere { other.add_sound(&mut s); s.get_id() } else { ch.add_sound(&mut s); s.get_id() }.ok_or("no id")?; r.steps(2);
                ensure!((if elsewhere { &mut oids } else { &mut ids }).insert(id), "move {}: id {} was given out before", m, id);
                if elsewhere { other.remove_sound(id) } else { ch.remove_sound(id) }
                ensure!(Arc::get_mut(&mut s).is_some(), "move {}: the channel still holds the sound removed under its id {}", m, id);
            }
            ch.add_sound(&mut s); let id = s.get_id().ok_or("no id")?; ensure!(ids.insert(id), "id {} was given out before", id); drop(s);
            let own = if kind == 2 || kind == 3 { 0.0 } else { 1.0 }; let rest = 16.0 * others as f32;
            ch.process(); r.steps(2); let w = <Stereo as SampleFormat>::from_sample(own + rest); let f = &ch.get_output()[0]; ensure!(close(f.left as f64, w.left as f64, 1e-5) && close(f.right as f64, w.right as f64, 1e-5), "output {} {} instead of {} {}", f.left, f.right, w.left, w.right);
            ch.remove_sound(id); ch.process(); let w = <Stereo as SampleFormat>::from_sample(rest); let f = &ch.get_output()[0]; ensure!(close(f.left as f64, w.left as f64, 1e-5), "after its removal: output {} instead of {}", f.left, w.left);
            r.st(&(kind, pre, others, moves, elsewhere)); r.outcome(id as u64); Ok(()) }); } } } } }
    let n = c.q(200_000u64, 20_000_000);
    c.section("ids over a long life", format!("{} sounds added one after another, all, all but every 1000th, or none of them removed at once: no id is used twice, and the first sound is still heard", n)); c.witness();
    for k in 0..3 { c.case(|| format!("{} sounds, {} kept", n, ["none", "every 1000th", "the first"][k]), |r| {
        struct Mute(Option<usize>, f32);
        impl Sound for Mute { fn toggle_pause(&mut self) {} fn is_paused(&self) -> bool { false } fn toggle_mute(&mut self) {} fn is_muted(&self) -> bool { false } fn process(&mut self, _: f32) -> f32 { self.1 } fn register(&mut self, id: usize) { self.0 = Some(id) } fn unregister(&mut self) { self.0 = None } fn get_id(&self) -> Option<usize> { self.0 } }
        let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0); ch.set_process_time(Duration::from_nanos(41_667));
        let mut ids = std::collections::HashSet::with_capacity(n as usize); let mut kept = 0;
        for i in 0..n {
            let mut s: Arc<dyn Sound> = Arc::new(Mute(None, 1.0)); ch.add_sound(&mut s); r.step();
            let id = match s.get_id() { Some(x) => x, None => return Err(format!("sound {} has no id", i)) };
            ensure!(ids.insert(id), "sound {}: id {} was given out before", i, id);
            if match k { 0 => true, 1 => i % 1_000 != 0, _ => i != 0 } { ch.remove_sound(id) } else { kept += 1 }
            if i % 65_536 == 65_535 { ch.process(); r.step(); for f in ch.get_output() { ensure!(f.clone().into_sample() == kept as f32, "after {} sounds, {} of them kept, the output is {}", i + 1, kept, f.clone().into_sample()) } }
        }
        ch.process(); for f in ch.get_output() { ensure!(f.clone().into_sample() == kept as f32, "after {} sounds, {} of them kept, the output is {}", n, kept, f.clone().into_sample()) }
        r.outcome(k as u64 + 99); Ok(()) }); }
    c.section("overflow and non-finite signals", "1..=3 sounds of which one yields inf, -inf, NaN or the largest number at one sample of the first two blocks of 3 samples, gains 1, 0.5, -2, 0; four blocks, the sound removed after the second or kept");
    for cnt in 1..=3usize { for who in 0..cnt { for at in 0..6u64 { for v in [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX] { for g in [1.0f32, 0.5, -2.0, 0.0] { for rem in [false, true] {
        c.case(|| format!("{} sounds, sound {} yields {} at sample {}, gain {}, {}", cnt, who, v, at, g, if rem { "then removed" } else { "kept" }), |r| { wild::<Mono>(r, cnt, who, at, v, g, rem)?; wild::<Stereo>(r, cnt, who, at, v, g, rem) }); } } } } } }
    let top = c.q(24u32, 27);
    c.section("long process times", format!("2^k + m samples, k = 8..={}, m in -7, -1, 0, 1, 5, 47, 331: length after one process, with a shorter and a longer time before it", top)); c.witness();
    for k in 8..=top { for m in [-7i64, -1, 0, 1, 5, 47, 331] { if k > 21 && m % 5 != 0 && m != -7 { continue } let n = ((1i64 << k) + m) as usize; c.case(|| format!("2^{} + {} samples", k, m), |r| {
        let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0);
        for d in [Duration::from_nanos((n as u64 * 1_000_000_000 + 24_000) / 48_000), Duration::from_millis(1), bae_rs::utils::samples_to_seconds(n)] {
            ch.set_process_time(d); ch.process(); r.steps(2);
            let w = if d == Duration::from_millis(1) { 48 } else { n };
            ensure!(ch.get_output().len() == w, "a process time of {:?} gives {} samples instead of {}", d, ch.get_output().len(), w);
        }
        r.outcome(n as u64); Ok(()) }); } }
    let top = c.q(20u32, 26);
    c.section("just below and above", format!("durations 2 to 1000 ns short of n samples and 0 to 1000 ns above, n = every 0..=300 and 2^k + m, k = 9..={}, m in -1, 0, 1, 3: truncated", top)); c.witness();
    for n in (0..=300u64).chain((9..=top).flat_map(|k| [-1i64, 0, 1, 3].iter().map(move |m| ((1i64 << k) + m) as u64).collect::<Vec<_>>())) { for off in [-1_000i64, -31, -3, -2, 1, 2, 17, 1_000] { let ns = (n * 1_000_000_000 / 48_000) as i64 + off; if ns < 0 { continue }
        c.case(|| format!("{} ns from {} samples", off, n), |r| {
            let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0); ch.set_process_time(Duration::from_nanos(ns as u64)); ch.process(); r.steps(2);
            let w = if off < 0 { n - 1 } else { n }; let got = ch.get_output().len() as u64; r.st(&(n, off)); r.outcome(got);
            ensure!(got == w, "a process time of {} ns gives {} samples instead of {}", ns, got, w); Ok(()) }); } }
    c.section("real sounds", "simple and complex sounds in a channel equal the same sounds run by hand");
    for k in 0..4 { c.case(|| format!("real sounds, variant {}", k), |r| {
        use bae_rs::{generators::*, modifiers::*};
        let mk = |w: usize| -> Box<dyn Sound> { match w {
            0 => Box::new(SimpleSound::new(1.0, 0.5, Arc::new(StandardBlock::from_generator(Sine::new(440.0))))),
            1 => { let mut s = SimpleSound::new(1.0, 0.25, Arc::new(StandardBlock::from_generator(Square::new(100.0)))); s.add_modifier::<()>(Arc::new(StandardBlock::from_modifier(LowPass::new(900.0, 0.2)))); Box::new(s) }
            _ => { let mut s = ComplexSound::new(1.0, 0.5); let g = s.add_block(Arc::new(StandardBlock::from_generator(Sawtooth::new(220.0)))); let e = s.add_block(Arc::new(StandardBlock::from_modifier(Delay::new(Duration::from_micros(125))))); let o = s.get_output_gain(); s.add_connection(g, e); s.add_connection(e, o); s.add_connection(g, o); Box::new(s) } } };
        struct Any(Box<dyn Sound>);
        impl Sound for Any { fn toggle_pause(&mut self) { self.0.toggle_pause() } fn is_paused(&self) -> bool { self.0.is_paused() } fn toggle_mute(&mut self) { self.0.toggle_mute() } fn is_muted(&self) -> bool { self.0.is_muted() } fn process(&mut self, x: f32) -> f32 { self.0.process(x) } fn register(&mut self, i: usize) { self.0.register(i) } fn unregister(&mut self) { self.0.unregister() } fn get_id(&self) -> Option<usize> { self.0.get_id() } }
        let mut ch: StandardChannel<Stereo> = StandardChannel::new(0.5);
        let mut solo = vec![];
        for w in 0..3 { if k == 3 || k != w { let mut s: Arc<dyn Sound> = Arc::new(Any(mk(w))); ch.add_sound(&mut s); solo.push(mk(w)) } }
        for blk in 0..5 { ch.process(); r.step();
            ensure!(ch.get_output().len() == 480, "block {} has {} samples", blk, ch.get_output().len());
            for (t, f) in ch.get_output().iter().enumerate() { let mut l = 0f64; for s in solo.iter_mut() { l += s.process(0.0) as f64 } let w = SF2::chans(&<Stereo as SampleFormat>::from_sample(l as f32 * 0.5)); ensure!(close(f.left as f64, w.0 as f64, 2e-6) && close(f.right as f64, w.1 as f64, 2e-6), "block {} sample {}: {} {} instead of {:?}", blk, t, f.left, f.right, w) } }
        r.outcome(k as u64 + 77); Ok(()) }); }
    c.section("retained handles", "the caller keeps its handle to an added sound: processing, and adding it again");
    for k in 0..2 { c.case(|| if k == 0 { "add a sound, keep the handle, process".to_string() } else { "add a sound, keep the handle, add it again".to_string() }, |r| {
        r.key = Some(if k == 0 { "retained-handle-process" } else { "retained-handle-readd" }.into());
        let keep: RefCell<Arc<dyn Sound>> = RefCell::new(Arc::new(Spy { base: 1.0, n: Default::default(), id: Default::default(), bad_input: Default::default() }));
        let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0);
        ch.add_sound(&mut keep.borrow_mut()); r.step();
        if k == 1 { ch.add_sound(&mut keep.borrow_mut()); r.step(); return Ok(()) }
        ch.process(); r.step();
        ensure!(ch.get_output().len() == 480 && ch.get_output()[0].clone().into_sample() == 1.0, "a sound whose handle the caller kept is not heard");
        Ok(()) }); }
}
trait SF2 { fn chans(&self) -> (f32, f32); }
impl SF2 for Stereo { fn chans(&self) -> (f32, f32) { (self.left, self.right) } }
