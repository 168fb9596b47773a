//! C37 memory: rendering holds a constant amount, what is removed or dropped is released, files cost what they hold.
use crate::c_clone::devices;
use crate::c_unity::{kinds, ns, Op};
use crate::engine::*;
use crate::wavref::{encode, wrap};
use crate::{ensure, Check};
use bae_rs::channels::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static PEAK: Cell<i64> = const { Cell::new(0) }; }
/// Counts the bytes held by this thread.
pub struct Counter;
fn note(n: i64) { let _ = LIVE.try_with(|l| { let v = l.get() + n; l.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); }); }
unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { note(l.size() as i64) } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { note(l.size() as i64) } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); note(-(l.size() as i64)) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = System.realloc(p, l, n); if !q.is_null() { note(n as i64 - l.size() as i64) } q }
}
#[global_allocator] static ALLOC: Counter = Counter;
fn live() -> i64 { LIVE.with(|l| l.get()) }
/// Bytes held on top of what was held before, at the most, while `f` runs; and after it, with its result dropped.
fn cost<T>(f: impl FnOnce() -> T) -> (i64, i64) { let l0 = live(); PEAK.with(|p| p.set(l0)); let t = f(); let pk = PEAK.with(|p| p.get()); drop(t); (pk - l0, live() - l0) }

pub fn checks() -> Vec<Check> {
    vec![Check { one_process: false, id: "C37", level: "model_checking", run: c37, assumptions: &["memory is what the process holds of the global allocator; tables made once per process (or per distinct setting seen before) are not counted", "growth is judged between 64 and 2048 rounds of a pattern, with a slack of 2 KB"] }]
}

const SLACK: i64 = 2_048;
/// `round` keeps the structure as it is: later rounds hold no more than earlier ones, and everything goes when the object is dropped.
fn steady<T>(make: impl Fn() -> T, mut round: impl FnMut(&mut T, usize), early: usize, late: usize) -> Res {
    { let mut t = make(); for i in 0..3 { round(&mut t, i) } } // one-time tables
    let l0 = live();
    let mut t = make();
    for i in 0..early { round(&mut t, i) }
    let a = live() - l0;
    for i in early..late { round(&mut t, i) }
    let b = live() - l0;
    drop(t);
    let e = live() - l0;
    ensure!(b <= a + SLACK, "{} bytes are held after {} rounds, {} after {}", a, early, b, late);
    ensure!(e <= 0, "{} of the {} bytes held are still held when the object is gone", e, b);
    Ok(())
}

struct Dropped { gone: Rc<Cell<u32>>, id: Option<usize>, _ballast: Vec<u8> }
impl Drop for Dropped { fn drop(&mut self) { self.gone.set(self.gone.get() + 1) } }
impl Sound for Dropped { fn toggle_pause(&mut self) {} fn is_paused(&self) -> bool { false } fn toggle_mute(&mut self) {} fn is_muted(&self) -> bool { false } fn process(&mut self, _: f32) -> f32 { 0.5 } fn register(&mut self, id: usize) { self.id = Some(id) } fn unregister(&mut self) { self.id = None } fn get_id(&self) -> Option<usize> { self.id } }
struct DropG(Rc<Cell<u32>>); impl Drop for DropG { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } impl Generator for DropG { fn process(&mut self) -> f32 { 0.5 } }
struct DropM(Rc<Cell<u32>>); impl Drop for DropM { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } impl Modifier for DropM { fn process(&mut self, x: f32) -> f32 { x } }
struct DropB(Rc<Cell<u32>>); impl Drop for DropB { fn drop(&mut self) { self.0.set(self.0.get() + 1) } } impl Block for DropB { fn prime_input(&mut self, _: f32) {} fn process(&mut self) -> f32 { 0.5 } }

fn c37(c: &mut Ctx) {
    let (early, late) = (64usize, 2_048usize);
    let d = c.q(2usize, 3);
    let devs = devices();
    c.section("patterns of calls", format!("{} configurations of generators, modifiers, resamplers and players: every pattern of 1..={} calls, repeated: memory after {} and after {} rounds, and after dropping", devs.len(), d + 1, early, late));
    for dv in &devs { for l in 1..=d + 1 { words(dv.ops(), l, |w| c.case(|| format!("{}: calls {:?} over and over", dv.name(), w), |r| {
        r.steps((w.len() * late) as u64); r.st(&(dv.name(), w)); r.outcome(hash(dv.name()));
        steady(|| dv.fresh(), |t, _| { for &i in w { t.op(i); } }, early, late) })) } }
    c.section("clones over and over", "the same configurations: every pattern of 2 calls, the object replaced by its clone after each");
    for dv in &devs { words(dv.ops(), 2, |w| c.case(|| format!("{}: calls {:?}, clone, over and over", dv.name(), w), |r| {
        r.steps((3 * late) as u64); r.st(&("clone", dv.name(), w));
        steady(|| dv.fresh(), |t, _| { for &i in w { t.op(i); } *t = t.cloned() }, early, late) })) }
    let ks = kinds();
    c.section("patterns of settings", format!("{} kinds of object incl. sounds, graphs and channels: every pattern of up to {} steps of (draw a sample or block | go to a setting by a way of C36), repeated: memory after {} and after {} rounds, and after dropping", ks.len(), d, early, late));
    for k in &ks {
        let mut al = vec![Op::X(0)]; for t in 0..k.targets { for v in 0..k.variants { al.push(Op::Set(t, v)) } }
        for l in 1..=d { if l == 3 && al.len() > 20 { continue } words(al.len(), l, |w| c.case(|| format!("{}: steps {:?} over and over", k.name, w.iter().map(|i| al[*i]).collect::<Vec<_>>()), |r| {
            r.steps((w.len() * late) as u64); r.st(&(k.name, w)); r.outcome(hash(k.name));
            steady(|| (k.mk)(), |t, _| { for &i in w { t(al[i]); } t(Op::X(1)); }, early, late) })) }
    }
    let d2 = c.q(4usize, 6);
    c.section("patterns of changes to a sound", format!("a complex sound of two blocks: every pattern of up to {} of (sample | silent sample and node list | pause | mute | connect or disconnect 4 pairs, one of them a loop | register), repeated {} times and {} times", d2, early / 2, late / 4));
    for l in 1..=d2 { words(14, l, |w| { if l > 3 && w.iter().enumerate().any(|(i, a)| w[..i].contains(a)) { return } c.case(|| format!("complex sound: changes {:?} over and over", w), |r| {
        r.steps((w.len() * late / 4) as u64); r.st(&("cs", w));
        steady(|| { let mut s = ComplexSound::new(1.0, 1.0); let b = [s.add_block(Arc::new(StandardBlock::from_modifier(Passthrough::new()))), s.add_block(Arc::new(StandardBlock::from_modifier(Gain::new(0.25))))]; (s, b) }, |t, i| {
            let (i0, o) = (t.0.get_input_gain(), t.0.get_output_gain()); let es = [(i0, t.1[0]), (t.1[0], t.1[1]), (t.1[1], t.1[0]), (t.1[1], o)];
            for &k in w { match k { 0 => { t.0.process(1.0); } 1 => t.0.toggle_pause(), 2 => t.0.toggle_mute(), 3 => { t.0.process(0.0); t.0.get_nodes(); } 4 => t.0.register(i), 5 => t.0.unregister(), 6..=9 => t.0.add_connection(es[k - 6].0, es[k - 6].1), _ => t.0.remove_connection(es[k - 10].0, es[k - 10].1) } } }, early / 2, late / 4) }) }) }
    let long = c.q(300_000usize, 20_000_000);
    c.section("long lives", format!("{} samples and calls: memory after 1000 and at the end", long)); c.witness();
    for dv in &devs { let n = dv.ops(); c.case(|| format!("{}: {} calls", dv.name(), long), |r| { r.steps(long as u64); steady(|| dv.fresh(), |t, i| { t.op((i + i / 7) % n); }, 1_000, long) }) }
    for k in &ks { c.case(|| format!("{}: {} samples", k.name, long), |r| { r.steps(long as u64); steady(|| (k.mk)(), |t, i| { if i % 1_000 == 0 { t(Op::Set((i / 1_000 % k.targets as usize) as u8, (i / 7_000 % k.variants as usize) as u8)); } t(Op::X((i % 5) as u8)); }, 10_000, long) }) }

    let (n1, n2) = c.q((1usize << 15, 1usize << 17), (1 << 18, 1 << 20));
    c.section("ever new settings", format!("one parameter swept through ever new values, a sample after each, for every parameter of every kind; constructors and conversions likewise: memory after {} and after {} values (tables of bounded size are full by then)", n1, n2)); c.witness();
    let sweeps: Vec<(&str, fn() -> Box<dyn FnMut(f64)>)> = vec![
        ("Sine frequency", || { let mut g = Sine::new(100.0); Box::new(move |x| { g.set_frequency(100.0 + x); g.process(); }) }),
        ("Square frequency", || { let mut g = Square::new(100.0); Box::new(move |x| { g.set_frequency(100.0 + x); g.process(); }) }),
        ("Sawtooth frequency", || { let mut g = Sawtooth::new(100.0); Box::new(move |x| { g.set_frequency(100.0 + x); g.process(); }) }),
        ("Triangle frequency", || { let mut g = Triangle::new(100.0); Box::new(move |x| { g.set_frequency(100.0 + x); g.process(); }) }),
        ("LowPass cutoff", || { let mut m = LowPass::new(100.0, 0.5); Box::new(move |x| { m.set_central_frequency(100.0 + x); m.process(1.0); }) }),
        ("LowPass resonance", || { let mut m = LowPass::new(100.0, 0.5); Box::new(move |x| { m.set_resonance(x / 1e4); m.process(1.0); }) }),
        ("HighPass cutoff", || { let mut m = HighPass::new(100.0, 0.5); Box::new(move |x| { m.set_central_frequency(100.0 + x); m.process(1.0); }) }),
        ("HighPass resonance", || { let mut m = HighPass::new(100.0, 0.5); Box::new(move |x| { m.set_resonance(x / 1e4); m.process(1.0); }) }),
        ("BandPass centre", || { let mut m = BandPass::new(100.0, 1.0); Box::new(move |x| { m.set_central_frequency(100.0 + x); m.process(1.0); }) }),
        ("BandPass quality", || { let mut m = BandPass::new(100.0, 1.0); Box::new(move |x| { m.set_quality(1.0 + x); m.process(1.0); }) }),
        ("BandPass corners", || { let mut m = BandPass::new(100.0, 1.0); Box::new(move |x| { m.set_corner_frequencies((50.0, 100.0 + x)); m.process(1.0); }) }),
        ("playback speed", || { let mut m = MonoResampler::new((0..9).map(|i| Mono::from_sample(i as f32)).collect(), 44_100.0, 2, 7); Box::new(move |x| { m.set_playback_speed(0.5 + x / 1e4); m.process(); }) }),
        ("sound gains", || { let mut s = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(Square::new(100.0)))); Box::new(move |x| { s.set_input_gain(x); s.set_output_gain(-x); s.register((x * 1e3) as usize); s.process(x as f32); }) }),
        ("channel gain, process time and unknown ids", || { let mut c: StandardChannel<Mono> = StandardChannel::new(1.0); let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(Square::new(100.0))))); c.add_sound(&mut s); drop(s); Box::new(move |x| { c.set_gain(x); c.set_process_time(Duration::from_nanos(21_000 + (x * 1e3) as u64 % 40_000)); c.remove_sound(9 + (x * 1e3) as usize); c.process(); }) }),
        ("input of a sound", || { let mut s = ComplexSound::new(1.0, 1.0); let b = s.add_block(Arc::new(StandardBlock::from_modifier(Echo::new(ns(2), 0.5)))); let (i, o) = (s.get_input_gain(), s.get_output_gain()); s.add_connection(i, b); s.add_connection(b, o); Box::new(move |x| { s.process(x as f32); }) }),
        ("constructors", || Box::new(|x| { let x = x + 0.001; Sine::new(x).process(); Square::new(x).process(); Sawtooth::new(x).process(); Triangle::new(x).process(); LowPass::new(x, 0.3).process(1.0); HighPass::new(x, 0.3).process(1.0); BandPass::new(x, 2.0).process(1.0); BandPass::from_corners((x, 2.0 * x)).process(1.0); Envelope::new(x as f32, 2.0 * x as f32).process(1.0); Gain::new(x as f32).process(1.0); Echo::new(ns((x * 1e3) as u64 % 50), x).process(1.0); Delay::new(ns((x * 1e3) as u64 % 50)).process(1.0); ADSR::new(Duration::from_nanos((x * 1e7) as u64), ns(3), -x / 100.0, ns(3)).process(1.0); })),
        ("conversions", || Box::new(|x| { db_to_linear(x / 100.0); linear_to_db(x); samples_to_seconds((x * 1e3) as usize); seconds_to_samples(Duration::from_nanos((x * 1e6) as u64)); clerp(x, 0.0, 1e4, 1.0, 2.0); <Stereo as Panner<f64>>::to_sample_format(1.0, x / 1e4); <Stereo as Panner<f32>>::to_sample_format(1.0, x as f32 / 1e4); let mut t = vec![x as f32, 1.0, -1.0]; normalize(-x / 1e3, &mut t); sample_to_i16(x as f32 / 1e4); })),
    ];
    for (name, mk) in &sweeps { c.case(|| name.to_string(), |r| { r.steps(n2 as u64); r.outcome(hash(name));
        let mut f = mk(); let mut at = [0i64; 2]; for i in 0..n2 { if i == n1 { at[0] = live() } f(i as f64 * 0.01) } at[1] = live();
        ensure!(at[1] <= at[0] + SLACK, "{} bytes more are held after {} values than after {}", at[1] - at[0], n2, n1); Ok(()) }) }

    c.section("sounds come and go", format!("a channel that keeps k = 0..=4 sounds, the oldest, the newest or the middle one removed and another added each round, with m = 0..=2 processing calls per round; memory after {} and {} rounds, removed sounds gone by the end of the next processing call, no others", early, late));
    for keep in 0..=4usize { for which in 0..3usize { for m in 0..=2usize { for pre in [false, true] { c.case(|| format!("{} sounds kept, the {} removed, {} processing calls per round{}", keep, ["oldest", "middle", "newest"][which], m, if pre { ", one before removing" } else { "" }), |r| {
        type T = (StandardChannel<Stereo>, Vec<(usize, Rc<Cell<u32>>)>);
        let bad: Cell<Option<String>> = Cell::new(None);
        let add = |t: &mut T| { let g = Rc::new(Cell::new(0)); let mut s: Arc<dyn Sound> = Arc::new(Dropped { gone: g.clone(), id: None, _ballast: vec![0; 5_000] }); t.0.add_sound(&mut s); t.1.push((s.get_id().unwrap_or(0), g)) };
        r.steps((late * (2 + m)) as u64); r.st(&(keep, which, m, pre)); r.outcome(keep as u64);
        steady(|| { let mut t: T = (StandardChannel::new(1.0), vec![]); t.0.set_process_time(ns(2)); for _ in 0..keep { add(&mut t) } t }, |t, i| {
            add(t);
            if pre { t.0.process() }
            let k = match which { 0 => 0, 1 => t.1.len() / 2, _ => t.1.len() - 1 };
            let (id, g) = t.1.remove(k); t.0.remove_sound(id);
            if m > 0 && t.1.iter().any(|x| x.1.get() != 0) { bad.set(Some(format!("round {}: a sound that was not removed is gone", i))) }
            for _ in 0..m { t.0.process() }
            if m > 0 && g.get() != 1 { bad.set(Some(format!("round {}: the removed sound has been dropped {} times", i, g.get()))) }
        }, early, late)?;
        match bad.take() { Some(e) => Err(e), None => Ok(()) } }) } } } }
    c.section("owners", "what a block, simple sound, complex sound or channel was given is dropped with it, once, whether or not it was used, and not before");
    for kind in 0..5usize { for used in 0..3usize { c.case(|| format!("owner {}, processed {} times", kind, used), |r| {
        let gone = Rc::new(Cell::new(0)); let g = || gone.clone(); r.steps(used as u64 + 2); r.st(&("own", kind, used));
        let held = match kind {
            0 => { let mut b = StandardBlock::new(DropG(g()), DropM(g()), StandardBlock::default_interactor()); for _ in 0..used { b.process(); } ensure!(gone.get() == 0, "{} parts of a block dropped too early", gone.get()); 2 }
            1 => { let mut s = SimpleSound::new(1.0, 1.0, Arc::new(DropB(g()))); s.add_modifier::<()>(Arc::new(DropB(g()))); s.extend_modifiers(vec![Arc::new(DropB(g())), Arc::new(DropB(g()))]); for _ in 0..used { s.process(0.0); } ensure!(gone.get() == 0, "{} parts of a simple sound dropped too early", gone.get()); 4 }
            2 => { let mut s = ComplexSound::new(1.0, 1.0); let (a, b) = (s.add_block(Arc::new(DropB(g()))), s.add_block(Arc::new(DropB(g())))); let o = s.get_output_gain(); s.add_connection(a, b); s.add_connection(b, a); s.add_connection(b, o); for _ in 0..used { s.process(0.0); s.remove_connection(b, o) } ensure!(gone.get() == 0, "{} blocks of a complex sound dropped too early", gone.get()); 2 }
            3 => { let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0); for _ in 0..3 { let mut s: Arc<dyn Sound> = Arc::new(Dropped { gone: g(), id: None, _ballast: vec![] }); ch.add_sound(&mut s); } for _ in 0..used { ch.process() } ensure!(gone.get() == 0, "{} sounds of a channel dropped too early", gone.get()); 3 }
            _ => { let mut ch: StandardChannel<Mono> = StandardChannel::new(1.0); { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::new(DropG(g()), DropM(g()), StandardBlock::default_interactor())))); ch.add_sound(&mut s); } for _ in 0..used { ch.process() } ensure!(gone.get() == 0, "{} parts of a sound in a channel dropped too early", gone.get()); 2 } };
        ensure!(gone.get() == held, "{} of {} parts dropped with their owner", gone.get(), held); Ok(()) }) } }

    // files
    const LIMIT: i64 = 4 << 20;
    let base = encode(2, 16, 48_000, &(0..64).map(|i| i * 500 - 16_000).collect::<Vec<_>>());
    let vals: Vec<u32> = [0u32, 1, 2, 3, 7, 8, 15, 16, 17, 18, 40, 44, 100, 127, 128, 255, 256, 1_000, 32_767, 32_768, 65_535, 65_536, 1 << 20, (1 << 24) - 1, 1 << 28, 0x7fff_ffff, 0x8000_0000, 0xffff_fff7, 0xffff_fffe, 0xffff_ffff].to_vec();
    c.section("declared sizes", format!("a short file with every field of its header (sizes, channels, rates, block size, depth) set to each of {} values, alone and in pairs of the sizes, with a further chunk declaring such a size; reading holds at most 4 MB + 64 bytes per byte of the file at any time and nothing afterwards", vals.len()));
    let reads = |f: &[u8]| -> Res {
        let _ = guarded(|| read_wav(&mut &f[..]).is_ok());
        let (pk, rest) = cost(|| read_wav(&mut &f[..]));
        ensure!(pk <= LIMIT + 64 * f.len() as i64, "reading {} bytes holds {} bytes", f.len(), pk);
        ensure!(rest <= 0, "{} bytes are still held after reading", rest);
        Ok(())
    };
    let fields: [(usize, usize); 9] = [(4, 4), (16, 4), (20, 2), (22, 2), (24, 4), (28, 4), (32, 2), (34, 2), (40, 4)];
    let put = |b: &mut Vec<u8>, f: (usize, usize), v: u32| b[f.0..f.0 + f.1].copy_from_slice(&v.to_le_bytes()[..f.1]);
    for f in fields { for &v in &vals { c.case(|| format!("field at {} set to {}", f.0, v), |r| { let mut b = base.clone(); put(&mut b, f, v); r.steps(2); r.st(&(f, v)); reads(&b) });
        for g in fields { if g.0 <= f.0 { continue } for &u in &vals { c.case(|| format!("fields at {} and {} set to {} and {}", f.0, g.0, v, u), |r| { let mut b = base.clone(); put(&mut b, f, v); put(&mut b, g, u); r.steps(2); r.st(&(f, v, g, u)); reads(&b) }) } } } }
    for at in [12usize, 36, base.len()] { for id in [b"JUNK", b"LIST", b"fact", b"fmt ", b"data", b"RIFF", b"\0\0\0\0"] { for &v in &vals { for (riff, n) in [(false, 0usize), (true, 0), (true, 7)] { c.case(|| format!("chunk {:?} of {} declared bytes at {}, {} present, whole {}", String::from_utf8_lossy(id), v, at, n, riff), |r| {
        let mut b = base.clone(); let mut ch = id.to_vec(); ch.extend(v.to_le_bytes()); ch.extend(vec![0x5a; n]); b.splice(at..at, ch); if riff { put(&mut b, (4, 4), 0xffff_fff0) } r.steps(2); r.st(&(at, id, v, n)); reads(&b) }) } } } }
    c.section("reading and writing", "every kind of file (depths, 1..=9 channels, 0..=4 frames, and 48000 frames), truncated at every place of the header or whole, read over and over; written over and over, to a good destination and to one that fails at every byte: nothing is left behind");
    struct Fails(usize); impl std::io::Write for Fails { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::ErrorKind::BrokenPipe.into()) } let n = b.len().min(self.0); self.0 -= n; Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
    for bits in [8u16, 16, 24] { for ch in 1..=9u16 { for n in [0usize, 1, 2, 3, 4, 48_000] {
        if n == 48_000 && ch > 2 { continue }
        let f = wrap(ch, bits, 44_100, &vec![0x40; n * ch as usize * bits as usize / 8]);
        for cut in (0..f.len().min(80)).chain([f.len()]) { if n > 3 && cut % 11 != 0 && cut != f.len() { continue }
            c.case(|| format!("{} channel(s), {} bit, {} frames, first {} of {} bytes", ch, bits, n, cut, f.len()), |r| { r.steps(2); r.st(&(bits, ch, n, cut)); reads(&f[..cut]) }) }
        for fail in (0..f.len().min(70)).chain([usize::MAX]) { if n > 3 && fail % 13 != 0 && fail != usize::MAX { continue } for clip in [false, true] {
            c.case(|| format!("writing {} channel(s), {} bit, {} frames, failing after {} bytes", ch, bits, n, fail), |r| {
                let go = || { let tr: Vec<Vec<f32>> = (0..ch).map(|_| vec![0.25; n]).collect(); cost(|| write_wav(tr, bits, &mut Fails(fail), clip).is_ok()) };
                guarded(|| go()).map_err(|e| format!("{:?}", e))?; let (pk, rest) = go(); r.steps(2); r.st(&(bits, ch, n, fail, clip));
                ensure!(rest <= 0, "{} bytes are still held after writing", rest);
                ensure!(pk <= LIMIT + 64 * f.len() as i64, "writing {} bytes holds {} bytes", f.len(), pk); Ok(()) }) } }
    } } }
}
