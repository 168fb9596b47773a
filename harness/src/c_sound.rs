//! C20 blocks, C21 simple sounds, C22 pause/mute/registration.
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::generators::Generator;
use bae_rs::modifiers::Modifier;
use bae_rs::sounds::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C20", level: "model_checking", run: c20, assumptions: &["blocks own their generator, modifier and interactor exclusively (the API hands out shared pointers only on request)", "dyadic values, compared exactly"] },
        Check { one_process: false, id: "C21", level: "model_checking", run: c21, assumptions: &["blocks are handed over, not retained by the caller", "dyadic values, compared exactly"] },
        Check { one_process: false, id: "C22", level: "model_checking", run: c22, assumptions: &["blocks are handed over, not retained by the caller", "dyadic values, compared exactly"] },
    ]
}

// ---------------------------------------------------------------- spies
static AMP: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
/// Power of two by which all signal values of the spies and of the inputs are scaled.
pub fn amp() -> f32 { pow2(AMP.load(std::sync::atomic::Ordering::Relaxed)) }
pub fn at_amp(p: i32, f: impl FnOnce() -> Res) -> Res {
    struct Back; impl Drop for Back { fn drop(&mut self) { AMP.store(0, std::sync::atomic::Ordering::Relaxed) } }
    AMP.store(p, std::sync::atomic::Ordering::Relaxed); let _b = Back; f()
}
pub const POWS: [i32; 10] = [-132, -124, -100, -40, -24, -12, 12, 24, 40, 100];
pub type Log = Rc<RefCell<Vec<(u32, f32)>>>;
/// n-th call yields base + n/4 (n from 0).
struct SpyGen { id: u32, base: f32, n: u32, log: Log }
impl Generator for SpyGen { fn process(&mut self) -> f32 { let y = (self.base + self.n as f32 * 0.25) * amp(); self.n += 1; self.log.borrow_mut().push((self.id, 0.0)); y } }
/// stateful modifier: y = x*a + n/8
struct SpyMod { id: u32, a: f32, n: u32, log: Log }
impl Modifier for SpyMod { fn process(&mut self, x: f32) -> f32 { let y = x * self.a + self.n as f32 * 0.125 * amp(); self.n += 1; self.log.borrow_mut().push((self.id, x)); y } }
/// Block spy: y = a*sum + b + c*n, logs the sum of primed inputs.
pub struct SpyBlock { pub id: u32, pub a: f32, pub b: f32, pub c: f32, pub n: u32, pub sum: f32, pub log: Log }
impl Block for SpyBlock {
    fn prime_input(&mut self, x: f32) { self.sum += x }
    fn process(&mut self) -> f32 { let y = self.a * self.sum + (self.b + self.c * self.n as f32) * amp(); self.n += 1; self.log.borrow_mut().push((self.id, self.sum)); self.sum = 0.0; y }
}
pub fn spy(id: u32, a: f32, b: f32, c: f32, log: &Log) -> BlockSP { Arc::new(SpyBlock { id, a, b, c, n: 0, sum: 0.0, log: log.clone() }) }

// ---------------------------------------------------------------- C20
#[derive(Clone, Copy, Debug)]
enum BO { Prime(f32), Process, NewG, NewM }

fn block_run(r: &mut Run, kind: usize, ops: &[BO]) -> Res {
    let log: Log = Default::default();
    let ilog: Rc<RefCell<Vec<(f32, f32)>>> = Default::default();
    let g = SpyGen { id: 1, base: 1.5, n: 0, log: log.clone() };
    let m = SpyMod { id: 2, a: -0.5, n: 0, log: log.clone() };
    let il = ilog.clone(); let mut k = 0f32;
    let mut b = match kind {
        0 => StandardBlock::new(g, m, StandardBlock::default_interactor()),
        1 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()),
        2 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
        3 => StandardBlock::new(g, m, Arc::new(move |ge: f32, mo: f32| { il.borrow_mut().push((ge, mo)); k += 1.0; ge - 2.0 * mo + k * 4.0 * amp() })),
        4 => StandardBlock::from_generator(g),
        _ => StandardBlock::from_modifier(m),
    };
    let (mut gbase, mut gn, mut ma, mut mn, mut pend, mut calls) = (1.5f32, 0u32, -0.5f32, 0u32, 0f32, 0f32);
    let (mut has_g, mut has_m) = (kind != 5, kind != 4);
    for (i, o) in ops.iter().enumerate() {
        r.step();
        match *o {
            BO::Prime(x) => { let x = x * amp(); b.prime_input(x); pend += x; ensure!(log.borrow().is_empty(), "step {}: priming ran the generator or modifier", i); }
            BO::NewG => { *b.get_g_mut() = Arc::new(SpyGen { id: 1, base: -3.0, n: 0, log: log.clone() }); gbase = -3.0; gn = 0; has_g = true }
            BO::NewM => { *b.get_m_mut() = Arc::new(SpyMod { id: 2, a: 2.0, n: 0, log: log.clone() }); ma = 2.0; mn = 0; has_m = true }
            BO::Process => {
                let y = b.process();
                let l: Vec<(u32, f32)> = log.borrow_mut().drain(..).collect();
                let (ng, nm) = (l.iter().filter(|x| x.0 == 1).count(), l.iter().filter(|x| x.0 == 2).count());
                // blocks built from one part run a built-in for the other until it is replaced
                let (g_spy, m_spy) = (has_g, has_m);
                ensure!(ng == g_spy as usize && nm == m_spy as usize, "step {}: generator ran {} times, modifier {} times", i, ng, nm);
                if m_spy { let x = l.iter().find(|x| x.0 == 2).unwrap().1; ensure!(same(x, pend), "step {}: modifier received {} instead of the primed sum {}", i, x, pend) }
                let gv = if g_spy { (gbase + gn as f32 * 0.25) * amp() } else { 0.0 };
                let mv = if m_spy { pend * ma + mn as f32 * 0.125 * amp() } else { pend };
                if g_spy { gn += 1 } if m_spy { mn += 1 }
                calls += 1.0;
                let w = match kind { 0 => gv * mv, 1 | 4 => gv, 2 | 5 => mv, _ => gv - 2.0 * mv + calls * 4.0 * amp() };
                ensure!(same(y, w), "step {}: block returned {} instead of {} (generator {} modifier {})", i, y, w, gv, mv);
                if kind == 3 { let c: Vec<(f32, f32)> = ilog.borrow_mut().drain(..).collect(); ensure!(c.len() == 1 && same(c[0].0, gv) && same(c[0].1, mv), "step {}: interactor called with {:?} instead of {:?}", i, c, (gv, mv)) }
                pend = 0.0;
                r.outcome(hash(&(kind, y.to_bits())));
            }
        }
        r.st(&(kind, pend.to_bits(), gn, mn));
    }
    Ok(())
}

fn c20(c: &mut Ctx) {
    let ops = [BO::Process, BO::Prime(1.0), BO::Prime(-0.5), BO::Prime(0.25), BO::Prime(0.0)];
    let d = c.q(8, 9);
    c.section("prime/process histories", format!("every sequence of {} operations from {:?}, then one process, 6 ways to build a block", d, ops));
    for kind in 0..6 { words(ops.len(), d, |w| {
        let o: Vec<BO> = w.iter().map(|i| ops[*i]).chain([BO::Process].iter().cloned()).collect();
        c.case(|| format!("block kind {} ops {:?}", kind, o), |r| block_run(r, kind, &o));
    }) }
    let ops = [BO::Process, BO::Prime(1.0), BO::NewG, BO::NewM];
    let d = c.q(7, 8);
    c.section("replacing parts", format!("every sequence of {} operations from {:?}, then two processes", d, ops));
    for kind in 0..6 { words(ops.len(), d, |w| {
        let o: Vec<BO> = w.iter().map(|i| ops[*i]).chain([BO::Process, BO::Process].iter().cloned()).collect();
        c.case(|| format!("block kind {} ops {:?}", kind, o), |r| block_run(r, kind, &o));
    }) }
    c.section("amplitudes", format!("every sequence of 5 operations from {:?}, then two processes, all signals scaled by 2^k, k in {:?}", ops, POWS));
    for p in POWS { for kind in 0..6 { words(ops.len(), 5, |w| {
        let o: Vec<BO> = w.iter().map(|i| ops[*i]).chain([BO::Process, BO::Prime(-0.5), BO::Process].iter().cloned()).collect();
        c.case(|| format!("block kind {} ops {:?} at 2^{}", kind, o, p), |r| at_amp(p, || block_run(r, kind, &o)));
    }) } }
    let n = c.q(6, 8);
    c.section("one long life", format!("one block driven through every window of {} operations over process, prime 1, prime -0.5, new generator, new modifier", n)); c.witness();
    let al = [BO::Process, BO::Prime(1.0), BO::Prime(-0.5), BO::NewG, BO::NewM];
    for kind in 0..6 { for k in [3usize, 5] { c.case(|| format!("block kind {}, {} operations, window {}", kind, k, n + 2 * (5 - k)), |r| block_run(r, kind, &debruijn(k, n + 2 * (5 - k)).iter().map(|i| al[*i]).collect::<Vec<_>>())); } }
    let d = c.q(6, 7);
    let ops = [BO::Process, BO::Prime(1.0), BO::Prime(f32::INFINITY), BO::Prime(f32::NEG_INFINITY), BO::Prime(f32::NAN), BO::Prime(f32::MAX), BO::Prime(-f32::MAX)];
    c.section("overflow and non-finite inputs", format!("every sequence of {} operations from {:?}, then process, prime 0.5, process, process", d, ops));
    for kind in 0..6 { words(ops.len(), d, |w| {
        let o: Vec<BO> = w.iter().map(|i| ops[*i]).chain([BO::Process, BO::Prime(0.5), BO::Process, BO::Process].iter().cloned()).collect();
        c.case(|| format!("block kind {} ops {:?}", kind, o), |r| block_run(r, kind, &o));
    }) }
    let kmax = c.q(23, 40);
    c.section("sums of every size", format!("two primed inputs a and +-a * 2^-k, a and -a * (1 +- 2^-k), k = 0..={}, for a = 1, 0.75 and 2^-100, then a third input 0, 1 or -a, in every order; then process twice", kmax));
    for a in [1.0f32, 0.75, pow2(-100)] { for k in 0..=kmax { let e = pow2(-k); for b in [a * e, -a * e, -a * (1.0 - e), -a * (1.0 + e)] { for t in [None, Some(0.0), Some(1.0), Some(-a)] {
        let mut xs = vec![a, b]; xs.extend(t);
        for kind in 0..6 { let n = xs.len(); words(n, n, |w| { if (0..n).any(|i| !w.contains(&i)) { return }
            let o: Vec<BO> = w.iter().map(|i| BO::Prime(xs[*i])).chain([BO::Process, BO::Process]).collect();
            c.case(|| format!("block kind {} ops {:?}", kind, o), |r| block_run(r, kind, &o)); }) }
    } } } }
    c.section("non-finite parts", "a generator, a modifier or an interactor that yields inf, -inf, NaN or the largest number at one call, 8 calls");
    for kind in 0..4 { for part in 0..3 { for at in 0..8u32 { for v in [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, -0.0, f32::MIN_POSITIVE] {
        if part == 2 && kind != 3 { continue }
        c.case(|| format!("block kind {}, {} yields {} at call {}", kind, ["generator", "modifier", "interactor"][part], v, at), |r| {
            struct G(u32, u32, f32, std::rc::Rc<std::cell::Cell<u32>>); impl Generator for G { fn process(&mut self) -> f32 { self.3.set(self.3.get() + 1); self.0 += 1; if self.0 == self.1 + 1 { self.2 } else { self.0 as f32 } } }
            struct M(u32, u32, f32, std::rc::Rc<std::cell::Cell<u32>>); impl Modifier for M { fn process(&mut self, x: f32) -> f32 { self.3.set(self.3.get() + 1); self.0 += 1; if self.0 == self.1 + 1 { self.2 } else { x * 2.0 + self.0 as f32 } } }
            let (gc, mc, ic) = (std::rc::Rc::new(std::cell::Cell::new(0)), std::rc::Rc::new(std::cell::Cell::new(0)), std::rc::Rc::new(std::cell::Cell::new(0)));
            let g = G(0, if part == 0 { at } else { 99 }, v, gc.clone()); let m = M(0, if part == 1 { at } else { 99 }, v, mc.clone());
            let (ic2, iat) = (ic.clone(), if part == 2 { at } else { 99 });
            let mut b = match kind { 0 => StandardBlock::new(g, m, StandardBlock::default_interactor()), 1 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()), 2 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
                _ => StandardBlock::new(g, m, Arc::new(move |a: f32, b: f32| { ic2.set(ic2.get() + 1); if ic2.get() == iat + 1 { v } else { a - b * 0.5 + ic2.get() as f32 } })) };
            for i in 0..8u32 {
                b.prime_input(i as f32 - 2.0); b.prime_input(0.5);
                let y = b.process(); r.step();
                let (ge, mo) = (if part == 0 && at == i { v } else { i as f32 + 1.0 }, if part == 1 && at == i { v } else { (i as f32 - 1.5) * 2.0 + i as f32 + 1.0 });
                let w = match kind { 0 => ge * mo, 1 => ge, 2 => mo, _ => if part == 2 && at == i { v } else { ge - mo * 0.5 + i as f32 + 1.0 } };
                ensure!(same(y, w), "call {}: block returned {} instead of {} (generator {} modifier {})", i, y, w, ge, mo);
                ensure!(gc.get() == i + 1 && mc.get() == i + 1 && (kind < 3 || ic.get() == i + 1), "after call {} the generator ran {} times, the modifier {}, the interactor {}", i, gc.get(), mc.get(), ic.get());
                r.st(&(kind, part, i, y.to_bits())); r.outcome(y.to_bits() as u64);
            }
            Ok(()) }); } } } }
    let top = c.q(5_000usize, 1_000_000);
    c.section("long stretches", format!("2 operations, then N times one of process / prime 0, process / prime 1, process / new generator, process / prime 1, then prime, process, process; N up to 40 and around powers of two and round numbers up to {}", top)); c.witness();
    for kind in 0..6 { for n in stretches(top) { for rep in [&[BO::Process][..], &[BO::Prime(0.0), BO::Process], &[BO::Prime(1.0), BO::Process], &[BO::NewG, BO::Process], &[BO::Prime(0.25)]] { words(2, 2, |w| {
        if n > 1_100 && w != [0, 1] { return }
        let al = [BO::Prime(1.0), BO::Process];
        c.case(|| format!("block kind {}: {:?}, then {} times {:?}, prime -0.5, process, process", kind, w, n, rep), |r| block_run(r, kind, &w.iter().map(|i| al[*i]).chain((0..n).flat_map(|_| rep.iter().cloned())).chain([BO::Prime(-0.5), BO::Process, BO::Process].iter().cloned()).collect::<Vec<_>>()));
    }) } } }
    c.section("many inputs", "1000 primed inputs per process, 100 processes; large and cancelling inputs"); c.witness();
    for kind in 0..6 { c.case(|| format!("block kind {}", kind), |r| {
        let mut o = vec![]; for j in 0..100 { for i in 0..1000 { o.push(BO::Prime(((i * 31 + j) % 64) as f32 - 32.0)) } o.push(BO::Process); o.push(BO::Prime(65_536.0)); o.push(BO::Prime(-65_536.0)); o.push(BO::Prime(0.5)); o.push(BO::Process) }
        block_run(r, kind, &o) }); }
}

// ---------------------------------------------------------------- C21
#[derive(Clone, Copy, Debug, PartialEq)]
enum SO { P(f32), In(f64), Out(f64), Add(u32), Ext(u32, u32), ExtN(u32), ExtNone }
fn coef(id: u32) -> (f32, f32, f32) { match id { 0 => (0.5, 1.0, 0.25), 1 => (-0.5, 0.25, 0.125), 2 => (2.0, -1.0, 0.0), 3 => (1.0, 0.5, -0.5), 4 => (0.0, 2.0, 1.0), _ => (0.25, 0.0, 0.5) } }

fn simple_run(r: &mut Run, gi: f64, go: f64, ops: impl Iterator<Item = SO>) -> Res {
    let log: Log = Default::default();
    let mk = |uid: u32, kind: u32| { let (a, b, c) = coef(kind); spy(uid, a, b, c, &log) };
    let mut uid = 1;
    let mut s = SimpleSound::new(gi, go, mk(0, 0));
    let mut chain: Vec<(u32, u32, u32)> = vec![(0, 0, 0)]; // uid, kind, calls
    let (mut gi, mut go) = (gi as f32, go as f32);
    for (i, o) in ops.enumerate() {
        r.step();
        match o {
            SO::In(g) => { s.set_input_gain(g); gi = g as f32 }
            SO::Out(g) => { s.set_output_gain(g); go = g as f32 }
            SO::Add(k) => { s.add_modifier::<()>(mk(uid, k)); chain.push((uid, k, 0)); uid += 1 }
            SO::Ext(a, b) => { s.extend_modifiers(vec![mk(uid, a), mk(uid + 1, b)]); chain.push((uid, a, 0)); chain.push((uid + 1, b, 0)); uid += 2 }
            SO::ExtN(n) => { s.extend_modifiers((0..n).map(|k| mk(uid + k, 1 + k % 5)).collect()); for k in 0..n { chain.push((uid, 1 + k % 5, 0)); uid += 1 } }
            SO::ExtNone => s.extend_modifiers(vec![]),
            SO::P(x) => {
                let x = x * amp();
                let y = s.process(x);
                let l: Vec<(u32, f32)> = log.borrow_mut().drain(..).collect();
                let mut v = x * gi; let mut want = vec![];
                for e in chain.iter_mut() { let (a, b, c) = coef(e.1); want.push((e.0, v)); v = a * v + (b + c * e.2 as f32) * amp(); e.2 += 1 }
                ensure!(l.len() == want.len() && l.iter().zip(&want).all(|(a, b)| a.0 == b.0 && same(a.1, b.1)), "step {}: blocks ran as (block, input) {:?} instead of {:?}", i, l, want);
                ensure!(same(y, v * go), "step {}: output {} instead of {}", i, y, v * go);
                r.outcome(hash(&(chain.len(), y.to_bits())));
            }
        }
        ensure!(close(s.get_input_gain(), gi as f64, 1e-6 * gi.abs() as f64) && close(s.get_output_gain(), go as f64, 1e-6 * go.abs() as f64), "step {}: gains read back as {} {} instead of {} {}", i, s.get_input_gain(), s.get_output_gain(), gi, go);
        ensure!(log.borrow().is_empty(), "step {} {:?}: a block ran outside process", i, o);
        r.st(&(gi.to_bits(), go.to_bits(), chain.clone()));
    }
    Ok(())
}

fn c21(c: &mut Ctx) {
    let ops = [SO::P(1.0), SO::P(-0.5), SO::In(2.0), SO::In(-0.25), SO::Out(0.5), SO::Add(1), SO::Add(2), SO::Ext(1, 3), SO::ExtNone];
    let d = c.q(6, 7);
    c.section("operation histories", format!("every sequence of {} operations from {:?}, then two samples", d, ops));
    words(ops.len(), d, |w| {
        c.case(|| format!("SimpleSound(1,1) ops {:?}", w.iter().map(|i| ops[*i]).collect::<Vec<_>>()), |r| simple_run(r, 1.0, 1.0, w.iter().map(|i| ops[*i]).chain([SO::P(1.0), SO::P(0.25)].iter().cloned())));
    });
    c.section("amplitudes", format!("every sequence of 4 operations from {:?}, then two samples, signals scaled by 2^k, and gains scaled by 2^k, k in {:?}", ops, POWS));
    for p in POWS { words(ops.len(), 4, |w| {
        c.case(|| format!("SimpleSound(1,1) ops {:?} at 2^{}", w.iter().map(|i| ops[*i]).collect::<Vec<_>>(), p), |r| at_amp(p, || simple_run(r, 1.0, 1.0, w.iter().map(|i| ops[*i]).chain([SO::P(1.0), SO::P(0.25)].iter().cloned()))));
        let g = 2f64.powi(p);
        let sc = |o: SO| match o { SO::In(x) => SO::In(x * g), SO::Out(x) => SO::Out(x * g), o => o };
        c.case(|| format!("SimpleSound(2^{},1) ops {:?} with gains times 2^{}", p, w.iter().map(|i| ops[*i]).collect::<Vec<_>>(), p), |r| simple_run(r, g, 1.0, w.iter().map(|i| sc(ops[*i])).chain([SO::P(1.0), SO::P(0.25)].iter().cloned())));
    }) }
    let wild = [SO::P(1.0), SO::P(f32::INFINITY), SO::P(f32::NEG_INFINITY), SO::P(f32::NAN), SO::P(f32::MAX), SO::In(0.0), SO::In(2.0), SO::Out(0.0), SO::Out(-2.0), SO::Add(2)];
    let d = c.q(5, 6);
    c.section("overflow and non-finite inputs", format!("every sequence of {} operations from {:?}, then gains 1 and two samples", d, wild));
    words(wild.len(), d, |w| {
        c.case(|| format!("SimpleSound(1,1) ops {:?}", w.iter().map(|i| wild[*i]).collect::<Vec<_>>()), |r| simple_run(r, 1.0, 1.0, w.iter().map(|i| wild[*i]).chain([SO::In(1.0), SO::Out(1.0), SO::P(1.0), SO::P(0.25)].iter().cloned())));
    });
    let n = c.q(4, 6);
    c.section("block chains", format!("every chain of up to {} modifiers of 5 kinds, every input of 3 samples over 0,1,-0.5, gains 0.5/-2", n));
    for l in 0..=n { words(5, l, |w| words(3, 3, |x| {
        let al = [0.0f32, 1.0, -0.5];
        c.case(|| format!("SimpleSound(0.5,-2) modifiers {:?} input {:?}", w, x), |r| simple_run(r, 0.5, -2.0, w.iter().map(|k| SO::Add(*k as u32 + 1)).chain(x.iter().map(|i| SO::P(al[*i])))));
    })) }
    c.section("real blocks", "SimpleSound over real generators and filters equals the chain run by hand; gains 0.3, 0.7"); 
    for gk in 0..4 { for mk in 0..4 { for gi in [0.0, 0.3, 1.0] { for go in [0.7, -1.5] {
        c.case(|| format!("generator {} modifiers {} input gain {} output gain {}", gk, mk, gi, go), |r| real_chain(r, gk, mk, gi, go));
    } } } }
    let n = c.q(6, 8);
    c.section("one long life", format!("one sound with 3 modifiers driven through every window of {} over process, gains; and through every window of 3 with modifiers being added", n)); c.witness();
    let al = [SO::P(1.0), SO::P(-0.5), SO::In(2.0), SO::In(-0.25), SO::Out(0.5), SO::Out(-1.0)];
    c.case(|| format!("window {}", n), |r| simple_run(r, 1.0, 1.0, [SO::Add(1), SO::Add(4), SO::Add(5)].iter().cloned().chain(debruijn(6, n).into_iter().map(|i| al[i]))));
    let al = [SO::P(1.0), SO::P(-0.5), SO::In(-0.25), SO::Out(0.5), SO::Add(4), SO::Ext(5, 4), SO::ExtNone];
    c.case(|| "window 3".into(), |r| simple_run(r, 1.0, 1.0, debruijn(7, 3).into_iter().map(|i| al[i])));
    let top = c.q(5_000usize, 500_000);
    c.section("long stretches", format!("a sound of 3 blocks: one sample, N times the same operation (silence, a constant, gains, silence at gain 0), then samples 1, -0.5, 0; N around powers of two and round numbers up to {}", top)); c.witness();
    for n in stretches(top) { for rep in [&[SO::P(0.0)][..], &[SO::P(1.0)], &[SO::In(2.0), SO::P(0.0)], &[SO::In(0.0), SO::Out(0.0), SO::P(1.0)], &[SO::Out(0.5), SO::P(-0.5)]] { for k in 0..2 {
        c.case(|| format!("input 1, {} times {:?}, gains {}, input 1, -0.5, 0", n, rep, if k == 0 { "kept" } else { "set to 1" }), |r| simple_run(r, 0.5, -2.0, [SO::Add(1), SO::Add(5), SO::P(1.0)].iter().cloned().chain((0..n).flat_map(|_| rep.iter().cloned())).chain(if k == 0 { vec![] } else { vec![SO::In(1.0), SO::Out(1.0)] }).chain([SO::P(1.0), SO::P(-0.5), SO::P(0.0)].iter().cloned())));
    } } }
    let mut ls: Vec<u32> = (0..=c.q(80, 300)).collect(); ls.extend([100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1_000, 1_023, 1_024, 1_025, 4_096, 5_000, 10_000]);
    c.section("lists of every length", format!("a chain of 0..=2 modifiers extended by a list of n, n = 0..={} and round sizes up to 10000, then by k more or by one, samples between and after", c.q(80, 300))); c.witness();
    for &n in &ls { for pre in 0..=2usize { for post in 0..4usize { c.case(|| format!("{} modifiers added, {} in a list, then {}", pre, n, ["nothing", "one more", "a list of two", "the same number again"][post]), |r| simple_run(r, 0.5, -2.0, (0..pre).map(|i| SO::Add(2 - i as u32)).chain([SO::P(1.0), SO::ExtN(n), SO::P(-0.5), SO::P(1.0)].iter().cloned()).chain(match post { 0 => vec![], 1 => vec![SO::Add(5)], 2 => vec![SO::Ext(3, 4)], _ => vec![SO::ExtN(n)] }).chain([SO::P(0.25), SO::P(-1.0)].iter().cloned()))) } } }
    c.section("long chain", "300 modifiers, 2000 samples"); c.witness();
    c.case(|| "300 modifiers".into(), |r| simple_run(r, 1.0, 1.0, (0..300).map(|i| SO::Add([1, 3, 4, 5, 1][i % 5])).chain((0..c_len()).map(|i| SO::P(if i % 3 == 0 { 1.0 } else { -0.5 })))));
}
fn c_len() -> usize { 200 }

fn real_chain(r: &mut Run, gk: usize, mk: usize, gi: f64, go: f64) -> Res {
    use bae_rs::generators::*;
    use bae_rs::modifiers::*;
    use std::time::Duration;
    let gen = || -> Box<dyn Generator> { match gk { 0 => Box::new(Sine::new(440.0)), 1 => Box::new(Square::new(1000.0)), 2 => Box::new(Sawtooth::new(333.0)), _ => Box::new(Zero::new()) } };
    let mods = || -> Vec<Box<dyn Modifier>> { match mk { 0 => vec![], 1 => vec![Box::new(LowPass::new(500.0, 0.5))], 2 => vec![Box::new(Delay::new(Duration::from_micros(125))), Box::new(Gain::new(-0.5))], _ => vec![Box::new(Echo::new(Duration::from_micros(250), 0.5)), Box::new(HighPass::new(80.0, 0.0)), Box::new(Envelope::new(20.0, 2000.0))] } };
    struct AnyG(Box<dyn Generator>); impl Generator for AnyG { fn process(&mut self) -> f32 { self.0.process() } }
    struct AnyM(Box<dyn Modifier>); impl Modifier for AnyM { fn process(&mut self, x: f32) -> f32 { self.0.process(x) } }
    // the sound's source block: generator plus input, so that the input gain matters
    let mut s = SimpleSound::new(gi, go, Arc::new(StandardBlock::new(AnyG(gen()), Passthrough::new(), Arc::new(|a, b| a + b))));
    s.extend_modifiers(mods().into_iter().map(|m| Arc::new(StandardBlock::from_modifier(AnyM(m))) as BlockSP).collect());
    let (mut g, mut ms) = (gen(), mods());
    for i in 0..400 {
        let x = ((i * 37 % 101) as f32 - 50.0) / 50.0;
        let y = s.process(x); r.step();
        let mut v = g.process() + x * gi as f32;
        for m in ms.iter_mut() { v = m.process(v) }
        let w = v * go as f32;
        ensure!((y - w).abs() <= 1e-6 * w.abs().max(1.0), "sample {}: {} instead of {}", i, y, w);
        if i == 399 { r.outcome(hash(&(gk, mk, y.to_bits()))) }
        r.st(&(gk, mk, i, y.to_bits()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Copy, Debug, PartialEq)]
enum PO { P(f32), Pause, Mute, Reg(usize), Unreg }

/// 0: SimpleSound with two blocks; 1: ComplexSound chain; 2: ComplexSound with a feedback loop; 3: ComplexSound diamond
fn build(kind: usize, log: &Log) -> Box<dyn Sound> {
    match kind {
        0 => { let mut s = SimpleSound::new(0.5, 2.0, spy(0, 1.0, 0.5, 0.25, log)); s.add_modifier::<()>(spy(1, -0.5, 0.0, 0.125, log)); Box::new(s) }
        _ => {
            let mut s = ComplexSound::new(0.5, 2.0);
            let a = s.add_block(spy(0, 1.0, 0.5, 0.25, log)); let b = s.add_block(spy(1, -0.5, 0.0, 0.125, log));
            let (i, o) = (s.get_input_gain(), s.get_output_gain());
            s.add_connection(i, a); s.add_connection(a, b); s.add_connection(b, o);
            if kind == 2 { s.add_connection(b, a) }
            if kind == 3 { s.add_connection(i, b); s.add_connection(a, o) }
            Box::new(s)
        }
    }
}
fn toggles(r: &mut Run, kind: usize, ops: impl Iterator<Item = PO>) -> Res {
    let (log, tlog): (Log, Log) = Default::default();
    let mut s = build(kind, &log);
    let mut twin = build(kind, &tlog);
    let (mut p, mut m, mut id) = (false, false, None);
    for (i, o) in ops.enumerate() {
        r.step();
        match o {
            PO::Pause => { s.toggle_pause(); p = !p }
            PO::Mute => { s.toggle_mute(); m = !m }
            PO::Reg(n) => { s.register(n); id = Some(n) }
            PO::Unreg => { s.unregister(); id = None }
            PO::P(x) => {
                let x = x * amp();
                let y = s.process(x);
                let l: Vec<(u32, f32)> = log.borrow_mut().drain(..).collect();
                if p {
                    ensure!(y == 0.0, "step {}: paused sound returned {}", i, y);
                    ensure!(l.is_empty(), "step {}: paused sound ran blocks {:?}", i, l);
                } else {
                    let w = twin.process(x);
                    let tl: Vec<(u32, f32)> = tlog.borrow_mut().drain(..).collect();
                    ensure!(l.len() == 2 && tl.len() == 2 && l.iter().zip(&tl).all(|(a, b)| a.0 == b.0 && same(a.1, b.1)), "step {}: blocks ran as {:?} instead of {:?}", i, l, tl);
                    let w = if m { 0.0 } else { w };
                    ensure!(same(y, w), "step {}: returned {} instead of {} (muted: {})", i, y, w, m);
                    r.outcome(hash(&(kind, m, y.to_bits())));
                }
            }
        }
        ensure!(log.borrow().is_empty(), "step {} {:?}: a block ran outside process", i, o);
        ensure!(s.is_paused() == p && s.is_muted() == m && s.get_id() == id, "step {} {:?}: paused {} muted {} id {:?} instead of {} {} {:?}", i, o, s.is_paused(), s.is_muted(), s.get_id(), p, m, id);
        r.st(&(kind, p, m, id, i));
    }
    Ok(())
}

fn c22(c: &mut Ctx) {
    let ops = [PO::P(1.0), PO::P(-0.5), PO::Pause, PO::Mute, PO::Reg(0), PO::Reg(7), PO::Unreg];
    let d = c.q(7, 8);
    c.section("toggle histories", format!("every sequence of {} operations from {:?}, then unpause/unmute and two samples; simple sound, complex chain, feedback loop and diamond", d, ops));
    for kind in 0..4 { words(ops.len(), d, |w| {
        let (np, nm) = (w.iter().filter(|i| **i == 2).count() % 2, w.iter().filter(|i| **i == 3).count() % 2);
        c.case(|| format!("sound kind {} ops {:?}", kind, w.iter().map(|i| ops[*i]).collect::<Vec<_>>()), |r|
            toggles(r, kind, w.iter().map(|i| ops[*i]).chain(std::iter::repeat(PO::Pause).take(np)).chain(std::iter::repeat(PO::Mute).take(nm)).chain([PO::P(0.25), PO::P(1.0)].iter().cloned())));
    }) }
    let d = c.q(12, 14);
    c.section("pause/mute only", format!("every sequence of {} operations from process, pause, mute", d));
    for kind in 0..4 { words(3, d, |w| {
        c.case(|| format!("sound kind {} ops {:?}", kind, w), |r| toggles(r, kind, w.iter().map(|i| [PO::P(1.0), PO::Pause, PO::Mute][*i])));
    }) }
    c.section("amplitudes", format!("every sequence of 5 operations from process, pause, mute, then a sample, signals scaled by 2^k, k in {:?}", POWS));
    for p in POWS { for kind in 0..4 { words(3, 5, |w| {
        c.case(|| format!("sound kind {} ops {:?} at 2^{}", kind, w, p), |r| at_amp(p, || toggles(r, kind, w.iter().map(|i| [PO::P(1.0), PO::Pause, PO::Mute][*i]).chain(std::iter::once(PO::P(-0.5))))));
    }) } }
    let d = c.q(6, 8);
    let wild = [PO::P(1.0), PO::Pause, PO::Mute, PO::P(f32::INFINITY), PO::P(f32::NAN), PO::P(-f32::MAX)];
    c.section("overflow and non-finite signals", format!("every sequence of {} operations from {:?}, then unpause/unmute and two samples", d, wild));
    for kind in 0..4 { words(wild.len(), d, |w| {
        let (np, nm) = (w.iter().filter(|i| **i == 1).count() % 2, w.iter().filter(|i| **i == 2).count() % 2);
        c.case(|| format!("sound kind {} ops {:?}", kind, w.iter().map(|i| wild[*i]).collect::<Vec<_>>()), |r| toggles(r, kind, w.iter().map(|i| wild[*i]).chain(std::iter::repeat(PO::Pause).take(np)).chain(std::iter::repeat(PO::Mute).take(nm)).chain([PO::P(0.25), PO::P(1.0)].iter().cloned())));
    }) }
    let n = c.q(5, 7);
    c.section("one long life", format!("one sound driven through every window of {} operations of {:?}", n, ops)); c.witness();
    for kind in 0..4 { c.case(|| format!("sound kind {}", kind), |r| toggles(r, kind, debruijn(7, n).into_iter().map(|i| ops[i]))); }
    let top = c.q(5_000usize, 500_000);
    c.section("long stretches", format!("a sound paused, muted, both or neither for N samples of silence or of a constant, then back and 3 samples; N around powers of two and round numbers up to {}", top)); c.witness();
    for kind in 0..4 { for n in stretches(top) { for x in [0.0f32, 1.0] { for st in [&[PO::Pause][..], &[PO::Mute], &[PO::Pause, PO::Mute], &[]] {
        c.case(|| format!("sound kind {}: input 1, {:?}, {} samples of {}, the same again, inputs 1, -0.5, 0", kind, st, n, x), |r| toggles(r, kind, Some(PO::P(1.0)).into_iter().chain(st.iter().cloned()).chain(std::iter::repeat(PO::P(x)).take(n)).chain(st.iter().cloned()).chain([PO::P(1.0), PO::P(-0.5), PO::P(0.0)].iter().cloned())));
    } } } }
    c.section("ids", "extreme registration ids and long toggle runs"); c.witness();
    for kind in 0..4 { c.case(|| format!("sound kind {}", kind), |r| toggles(r, kind, (0..600usize).flat_map(|i| vec![PO::Reg(usize::max_value() - i), PO::Pause, PO::P(1.0), PO::Mute, PO::Pause, PO::P(-0.5), if i % 3 == 0 { PO::Unreg } else { PO::Mute }]))); }
}
