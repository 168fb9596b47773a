//! C23 acyclic complex sounds, C24 feedback loops.
use crate::c_sound::{amp, at_amp, spy, Log, POWS};
use crate::engine::*;
use crate::{ensure, Check};
use bae_rs::sounds::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C23", level: "model_checking", run: c23, assumptions: &["no connections into the input gain or out of the output gain node", "blocks without any connection may or may not be listed and run", "blocks are handed over, not retained by the caller"] },
        Check { one_process: false, id: "C24", level: "model_checking", run: c24, assumptions: &["blocks without any connection may or may not be listed and run", "the reported node list defines which connections are backward; connections between different loops (strongly connected parts) must be forward", "blocks are handed over, not retained by the caller"] },
    ]
}

/// Nodes: 0 input gain, 1 output gain, 2.. inner blocks.
type E = (usize, usize);
struct Sys { s: ComplexSound, nodes: Vec<GraphNode>, log: Log }
fn co(i: usize) -> (f32, f32) { [(1.0, 0.0), (1.0, 0.0), (0.5, 1.0), (-1.0, 2.0), (0.75, -0.5), (0.5, 4.0), (-0.5, 8.0), (1.0, 0.25)][if i < 2 { i } else { 2 + (i - 2) % 6 }] }
const GI: f32 = 0.5;
const GO: f32 = -4.0;
fn sys(n: usize) -> Sys {
    let log: Log = Default::default();
    let mut s = ComplexSound::new(GI as f64, GO as f64);
    let mut nodes = vec![s.get_input_gain(), s.get_output_gain()];
    for i in 2..n + 2 { let (a, b) = co(i); nodes.push(s.add_block(spy(i as u32, a, b, 0.0, &log))) }
    Sys { s, nodes, log }
}
fn reach(n: usize, es: &[E]) -> Vec<u64> {
    let mut r = vec![0u64; n + 2];
    for &(a, b) in es { r[a] |= 1 << b }
    for k in 0..n + 2 { for i in 0..n + 2 { if r[i] >> k & 1 == 1 { r[i] |= r[k] } } }
    r
}
/// For graphs too large for bit masks: the number of the strongly connected part each node is in.
fn parts(n: usize, es: &[E]) -> Vec<usize> {
    let (mut f, mut b) = (vec![vec![]; n + 2], vec![vec![]; n + 2]);
    for &(x, y) in es { f[x].push(y); b[y].push(x) }
    let (mut seen, mut post) = (vec![false; n + 2], vec![]);
    for s in 0..n + 2 { if seen[s] { continue } seen[s] = true; let mut st = vec![(s, 0)];
        while let Some((u, i)) = st.pop() { if i < f[u].len() { st.push((u, i + 1)); let v = f[u][i]; if !seen[v] { seen[v] = true; st.push((v, 0)) } } else { post.push(u) } } }
    let mut comp = vec![usize::MAX; n + 2];
    for &s in post.iter().rev() { if comp[s] != usize::MAX { continue } comp[s] = s; let mut st = vec![s]; while let Some(u) = st.pop() { for &v in &b[u] { if comp[v] == usize::MAX { comp[v] = s; st.push(v) } } } }
    comp
}
/// u can reach itself through at least one edge?
fn acyclic(n: usize, es: &[E]) -> bool { let r = reach(n, es); (0..n + 2).all(|i| r[i] >> i & 1 == 0) }

/// Checks the reported node list against the edges and returns it as node numbers.
fn check_list(y: &Sys, n: usize, es: &[E]) -> Result<Vec<usize>, String> {
    let l: Vec<usize> = y.s.get_nodes().iter().map(|g| y.nodes.iter().position(|x| x == g).unwrap_or(usize::MAX)).collect();
    ensure!(!l.contains(&usize::MAX), "the node list {:?} contains unknown nodes", y.s.get_nodes());
    ensure!(l.first() == Some(&0) && l.last() == Some(&1), "the node list {:?} does not start with the input gain (0) and end with the output gain (1)", l);
    let r = if n > 62 { vec![] } else { reach(n, es) };
    let p = if n > 62 { parts(n, es) } else { vec![] };
    let (mut count, mut place, mut conn) = (vec![0; n + 2], vec![0; n + 2], vec![false; n + 2]);
    for (k, &i) in l.iter().enumerate() { count[i] += 1; place[i] = k }
    for e in es { conn[e.0] = true; conn[e.1] = true }
    for i in 0..n + 2 {
        let c = count[i];
        let connected = i < 2 || conn[i];
        ensure!(c <= 1 && (c == 1 || !connected), "block {} is listed {} times in {:?} (0 = input gain, 1 = output gain)", i, c, l);
    }
    for &(a, b) in es {
        if a == b || a == 1 || b == 0 { continue }
        let cyc = if n > 62 { p[a] == p[b] } else { r[b] >> a & 1 == 1 };
        if !cyc { ensure!(place[a] < place[b], "block {} feeds block {} (not part of a loop) but is listed after it in {:?}", a, b, l) }
    }
    Ok(l)
}

/// One sample against the model; `pend` is what each block has been handed for its next run.
fn sample(r: &mut Run, y: &mut Sys, n: usize, es: &[E], pend: &mut Vec<f32>, x: f32, at: &str) -> Res {
    let l = check_list(y, n, es)?;
    let x = x * amp();
    let got = y.s.process(x);
    let runs: Vec<(u32, f32)> = y.log.borrow_mut().drain(..).collect();
    r.step();
    pend[0] += x;
    let mut outs = vec![0f32; n + 2];
    let ok = |a: f32, b: f32| same(a, b) || (a - b).abs() <= 1e-5 * b.abs().max(amp());
    let mut k = 0;
    for &b in &l {
        let mut p = pend[b]; pend[b] = 0.0;
        let o = match b { 0 => p * GI, 1 => p * GO, _ => {
            ensure!(k < runs.len() && runs[k].0 == b as u32 && ok(runs[k].1, p), "{}: connections {:?}: blocks ran as (block, input) {:?}; entry {} should be {:?} (order {:?})", at, es, runs, k, (b, p), l);
            // go on from what the block really received, so that rounding does not pile up in feedback
            p = runs[k].1; k += 1;
            let (a, c) = co(b); a * p + c * amp() } };
        outs[b] = o;
        for e in es { if e.0 == b { pend[e.1] += o } }
    }
    ensure!(k == runs.len(), "{}: connections {:?}: blocks ran as (block, input) {:?}, more than the listed {:?}", at, es, runs, l);
    ensure!(ok(got, outs[1]), "{}: connections {:?}, input {}: output {} instead of {} (order {:?})", at, es, x, got, outs[1], l);
    r.st(&(es.to_vec(), pend.iter().map(|p| p.to_bits()).collect::<Vec<_>>()));
    r.outcome(got.to_bits() as u64);
    Ok(())
}

/// Graphs of many blocks, built and run like the small ones; a few connections are then removed and added again.
fn big(c: &mut Ctx, cyclic: bool) {
    let sizes: &[usize] = if c.thorough { &[63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 511, 513, 1_000, 1_025, 2_050] } else { &[63, 65, 127, 129, 200, 255, 257, 513, 1_025] };
    c.section("hundreds of blocks", format!("{} of {:?} blocks, 3 insertion orders, 4 samples, then connections at 5 places removed and put back, a sample after each", if cyclic { "rings, rings in a row and chains of short loops" } else { "chains, fans, ladders, trees and layered graphs" }, sizes)); c.witness();
    for &n in sizes { let inner: Vec<usize> = (2..n + 2).collect(); let last = n + 1;
        let rev: Vec<usize> = inner.iter().rev().cloned().collect();
        let chain = |v: &[usize]| { let mut e = vec![(0, v[0])]; e.extend(v.windows(2).map(|w| (w[0], w[1]))); e.push((v[v.len() - 1], 1)); e };
        let shapes: Vec<(&str, Vec<E>)> = if cyclic { vec![
            ("ring", inner.iter().map(|&i| (i, if i == last { 2 } else { i + 1 })).chain(vec![(0, 2), (n / 2, 1)]).collect()),
            ("chain of pairs feeding back", chain(&inner).into_iter().chain(inner.iter().filter(|i| **i % 7 == 3 && **i < last).map(|&i| (i + 1, i))).collect()),
            ("reversed chain with self-loops", chain(&rev).into_iter().chain(inner.iter().filter(|i| **i % 11 == 0).map(|&i| (i, i))).collect()),
        ] } else { vec![
            ("chain", chain(&inner)), ("reversed chain", chain(&rev)),
            ("fan", inner.iter().flat_map(|&i| vec![(0, i), (i, 1)]).collect()),
            ("ladder", chain(&inner).into_iter().chain(inner.windows(3).map(|w| (w[0], w[2]))).collect::<Vec<_>>().into_iter().filter(|e| e.0 % 8 != 0 || e.1 == e.0 + 1).collect()),
            ("tree", inner.iter().map(|&i| (if i == 2 { 0 } else { (i - 3) / 2 + 2 }, i)).chain(inner.iter().filter(|i| 2 * (**i - 2) + 3 > last).map(|&i| (i, 1))).collect()),
        ] };
        for (name, es) in shapes { for k in [0usize, 1, 4] { if n > 600 && k == 1 { continue } let o = reorder(&es, k); c.case(|| format!("{} of {} blocks, insertion order {}", name, n, k), |r| {
            let mut y = sys(n); for &(a, b) in &o { y.s.add_connection(y.nodes[a], y.nodes[b]) }
            let mut pend = vec![0f32; n + 2]; let mut cur = o.clone();
            for i in 0..4 { sample(r, &mut y, n, &cur, &mut pend, XS[i % 6], &format!("sample {}", i))? }
            for q in 0..5 { let at = (q * o.len() / 5 + q) % o.len(); let e = o[at]; y.s.remove_connection(y.nodes[e.0], y.nodes[e.1]); cur.retain(|x| *x != e); sample(r, &mut y, n, &cur, &mut pend, 1.0, &format!("without {:?}", e))?; y.s.add_connection(y.nodes[e.0], y.nodes[e.1]); cur.push(e); sample(r, &mut y, n, &cur, &mut pend, -0.5, &format!("with {:?} again", e))? }
            Ok(()) }); } } }
}
/// Blocks and connections added in turn, up to every size.
fn grown(c: &mut Ctx, cyclic: bool) {
    let top = c.q(140usize, 600);
    c.section("grown block by block", format!("every size from 1 to {} blocks: a block is added and connected {} (added at the end, at the front, fanned between the gains, in the middle), with no sample or one sample after each addition; then 3 samples, the same connections added again, and all removed", top, if cyclic { "so that a loop is closed and opened again" } else { "without a loop" })); c.witness();
    for n in 1..=top { for how in 0..4usize { for each in [false, true] { if each && n % 20 != 0 && n > 20 { continue }
        c.case(|| format!("{} blocks, way {}, {} sample after each", n, how, if each { "a" } else { "no" }), |r| {
            let mut y = sys(0); let mut es: Vec<E> = vec![]; let mut pend = vec![0f32; 2];
            fn set(y: &mut Sys, es: &mut Vec<E>, e: E, on: bool) { if on { y.s.add_connection(y.nodes[e.0], y.nodes[e.1]); if !es.contains(&e) { es.push(e) } } else { y.s.remove_connection(y.nodes[e.0], y.nodes[e.1]); es.retain(|x| *x != e) } }
            let mut order: Vec<usize> = vec![]; // the chain, first to last
            for k in 0..n {
                let i = k + 2; let (a, b) = co(i); let g = y.s.add_block(spy(i as u32, a, b, 0.0, &y.log)); y.nodes.push(g); pend.push(0.0);
                let at = match how { 0 => order.len(), 1 => 0, 2 => usize::MAX, _ => order.len() / 2 };
                if at == usize::MAX { set(&mut y, &mut es, (0, i), true); set(&mut y, &mut es, (i, 1), true); if cyclic { set(&mut y, &mut es, (i, i), true); if k > 0 { set(&mut y, &mut es, (i - 1, i - 1), k % 5 == 0) } } }
                else {
                    let p = if at == 0 { 0 } else { order[at - 1] }; let q = if at == order.len() { 1 } else { order[at] };
                    if cyclic && order.len() > 1 { set(&mut y, &mut es, (order[order.len() - 1], order[0]), false) }
                    if !order.is_empty() { set(&mut y, &mut es, (p, q), false) }
                    set(&mut y, &mut es, (p, i), true); set(&mut y, &mut es, (i, q), true); order.insert(at, i);
                    if cyclic && order.len() > 1 { set(&mut y, &mut es, (order[order.len() - 1], order[0]), true) }
                }
                r.step();
                if each { sample(r, &mut y, k + 1, &es, &mut pend, XS[k % 6], &format!("after {} blocks", k + 1))? }
            }
            for i in 0..3 { sample(r, &mut y, n, &es, &mut pend, XS[i], &format!("sample {}", i))? }
            for e in es.clone() { set(&mut y, &mut es, e, true) }
            sample(r, &mut y, n, &es, &mut pend, 1.0, "connected again")?;
            for e in es.clone() { set(&mut y, &mut es, e, false) }
            if !cyclic { sample(r, &mut y, n, &es, &mut pend, 1.0, "disconnected")? }
            Ok(()) }) } } }
}
/// One sample that is infinite, not a number or the largest there is, on every graph with two inner blocks.
fn wild(c: &mut Ctx, es: &[E], cyclic: bool) {
    c.section("overflow and non-finite inputs", format!("2 inner blocks: every {} graph, 6 samples of which one is inf, -inf, NaN or the largest number", if cyclic { "cyclic" } else { "acyclic" }));
    for mask in 1..1u64 << es.len() { let v = pick(es, mask); if acyclic(2, &v) == cyclic { continue } for at in [0usize, 1, 3] { for x in [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX] {
        c.case(|| format!("2 inner blocks, connections {:?}, sample {} is {}", v, at, x), |r| {
            let mut y = sys(2); for &(a, b) in &v { y.s.add_connection(y.nodes[a], y.nodes[b]) }
            let mut pend = vec![0f32; 4];
            for i in 0..6 { let big = pend.iter().any(|p| p.abs() > 1e37 && p.is_finite()); if big && i > 0 { break } sample(r, &mut y, 2, &v, &mut pend, if i == at { x } else { XS[i % 6] }, &format!("sample {}", i))? }
            Ok(()) });
    } } }
}
const XS: [f32; 6] = [1.0, 0.0, -0.5, 0.0, 0.25, 0.0];
fn graph_run(r: &mut Run, n: usize, order: &[E], samples: usize, extra: bool) -> Res {
    let mut y = sys(n);
    for (i, &(a, b)) in order.iter().enumerate() {
        y.s.add_connection(y.nodes[a], y.nodes[b]); r.step();
        if extra { check_list(&y, n, &order[..=i])?; }
    }
    let mut pend = vec![0f32; n + 2];
    for i in 0..samples { sample(r, &mut y, n, order, &mut pend, XS[i % 6], &format!("sample {}", i))? }
    Ok(())
}

fn dag_edges(n: usize) -> Vec<E> {
    let mut v = vec![(0, 1)];
    for i in 2..n + 2 { v.push((0, i)) }
    for i in 2..n + 2 { for j in 2..n + 2 { if i != j { v.push((i, j)) } } }
    for i in 2..n + 2 { v.push((i, 1)) }
    v
}
fn pick(es: &[E], mask: u64) -> Vec<E> { es.iter().enumerate().filter(|x| mask >> x.0 & 1 == 1).map(|x| *x.1).collect() }
fn reorder(v: &[E], k: usize) -> Vec<E> {
    let n = v.len(); if n == 0 { return vec![] }
    match k { 0 => v.to_vec(), 1 => v.iter().rev().cloned().collect(), 2 => { let mut w = v.to_vec(); w.sort_by_key(|e| (e.1, e.0)); w }
        3 => { let mut w = v.to_vec(); w.sort_by_key(|e| (std::cmp::Reverse(e.0), e.1)); w }
        k => { let mut w = v.to_vec(); let mut s = 0x9E37u64.wrapping_mul(k as u64 + 1) ^ n as u64; for i in (1..n).rev() { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); w.swap(i, (s >> 33) as usize % (i + 1)) } w } }
}

fn c23(c: &mut Ctx) {
    c.section("no connections", "input gain and output gain only, 0..=2 unconnected blocks");
    for n in 0..=2 { c.case(|| format!("{} unconnected blocks, 3 samples, then one connection", n), |r| {
        let mut y = sys(n);
        for x in [1.0, -0.5, 0.25] { let o = y.s.process(x); r.step(); ensure!(o == 0.0, "a sound without connections returned {}", o) }
        y.log.borrow_mut().clear();
        let es = [(0usize, 1usize)];
        y.s.add_connection(y.nodes[0], y.nodes[1]);
        let o = y.s.process(0.5); r.step();
        ensure!(o == 0.5 * GI * GO, "after connecting input to output, input 0.5 gives {} instead of {}", o, 0.5 * GI * GO);
        check_list(&y, n, &es).map(|_| ())
    }); }
    let top = 4usize;
    for n in 0..=top {
        let es = dag_edges(n);
        let orders = if n <= 2 { 1 } else if n == 3 { 6 } else { c.q(2, 4) };
        c.section(&format!("all acyclic graphs with {} inner blocks", n), format!("every acyclic subset of the {} possible connections, {} insertion orders each, 3 samples", es.len(), orders));
        for mask in 0..1u64 << es.len() {
            if mask == 0 { continue }
            let v = pick(&es, mask);
            if !acyclic(n, &v) { continue }
            for k in 0..orders { let o = reorder(&v, k); c.case(|| format!("{} inner blocks, connections in order {:?}", n, o), |r| graph_run(r, n, &o, 3, n <= 3)); }
        }
    }
    let es = dag_edges(2);
    c.section("all insertion orders", format!("2 inner blocks: every ordering of every acyclic subset of the {} connections", es.len()));
    for mask in 1..1u64 << es.len() {
        let v = pick(&es, mask);
        if !acyclic(2, &v) { continue }
        perms(v.len(), &mut |p| { let o: Vec<E> = p.iter().map(|i| v[*i]).collect(); c.case(|| format!("2 inner blocks, connections in order {:?}", o), |r| graph_run(r, 2, &o, 2, true)); });
    }
    let d = c.q(5, 6);
    c.section("add/remove histories", format!("2 inner blocks: every sequence of {} add/remove operations (repeats and absent removals included) whose graphs stay acyclic, one sample after each", d));
    words(2 * es.len(), d, |w| {
        let mut cur: Vec<E> = vec![]; 
        for &i in w { let e = es[i / 2]; if i % 2 == 0 { if !cur.contains(&e) { cur.push(e) } } else { cur.retain(|x| *x != e) } if !acyclic(2, &cur) { return } }
        c.case(|| format!("2 inner blocks: {:?}", w.iter().map(|i| (if i % 2 == 0 { "add" } else { "remove" }, es[i / 2])).collect::<Vec<_>>()), |r| history(r, 2, w.iter().map(|i| (i % 2 == 0, es[i / 2]))));
    });
    c.section("remove from full graphs", "3 inner blocks: every acyclic graph, removing each connection and adding it back, sample after each step");
    let es3 = dag_edges(3);
    for mask in 1..1u64 << es3.len() {
        let v = pick(&es3, mask);
        if !acyclic(3, &v) { continue }
        c.case(|| format!("3 inner blocks: {:?}, then each removed and re-added", v), |r| { let h: Vec<(bool, E)> = v.iter().map(|e| (true, *e)).chain(v.iter().flat_map(|e| vec![(false, *e), (true, *e)])).collect(); history(r, 3, h.into_iter()) });
    }
    let es2 = dag_edges(2);
    c.section("amplitudes", format!("2 inner blocks: every acyclic graph, 4 samples, signals scaled by 2^k, k in {:?}", POWS));
    for p in POWS { for mask in 1..1u64 << es2.len() { let v = pick(&es2, mask); if !acyclic(2, &v) { continue } c.case(|| format!("2 inner blocks, connections {:?} at 2^{}", v, p), |r| at_amp(p, || graph_run(r, 2, &v, 4, false))); } }
    growing(c, false);
    stretch_graphs(c, &dag_edges(2), false);
    wild(c, &dag_edges(2), false);
    big(c, false);
    grown(c, false);
    c.section("large graphs", "chains (both numbering directions), wide fans, ladders and dense layered graphs with up to 60 blocks"); c.witness();
    for n in [5usize, 12, 60] {
        let inner: Vec<usize> = (2..n + 2).collect();
        let chain = |v: &[usize]| { let mut e = vec![(0, v[0])]; e.extend(v.windows(2).map(|w| (w[0], w[1]))); e.push((v[v.len() - 1], 1)); e };
        let rev: Vec<usize> = inner.iter().rev().cloned().collect();
        let mut cases: Vec<(String, Vec<E>)> = vec![("chain".into(), chain(&inner)), ("reversed chain".into(), chain(&rev))];
        cases.push(("fan".into(), inner.iter().flat_map(|i| vec![(0, *i), (*i, 1)]).collect()));
        cases.push(("ladder".into(), chain(&inner).into_iter().chain(inner.windows(3).map(|w| (w[0], w[2]))).collect()));
        if n <= 12 { cases.push(("dense".into(), inner.iter().flat_map(|i| inner.iter().filter(move |j| *j > i).map(move |j| (*i, *j))).chain(vec![(0, 2), (n + 1, 1)]).collect())) }
        cases.push(("late shortcut".into(), { let mut e = chain(&rev); e.insert(0, (0, rev[rev.len() - 1])); e.push((rev[0], 1)); e }));
        for (name, es) in cases { for k in 0..4 { let mut o = reorder(&es, k); o.dedup(); let mut seen = vec![]; o.retain(|e| { let new = !seen.contains(e); seen.push(*e); new });
            c.case(|| format!("{} of {} blocks, insertion order {}", name, n, k), |r| graph_run(r, n, &o, 4, false)); } }
    }
}

fn history(r: &mut Run, n: usize, h: impl Iterator<Item = (bool, E)>) -> Res {
    let mut y = sys(n);
    let mut cur: Vec<E> = vec![];
    let mut pend = vec![0f32; n + 2];
    for (i, (add, e)) in h.enumerate() {
        if add { y.s.add_connection(y.nodes[e.0], y.nodes[e.1]); if !cur.contains(&e) { cur.push(e) } }
        else { y.s.remove_connection(y.nodes[e.0], y.nodes[e.1]); cur.retain(|x| *x != e) }
        r.step();
        sample(r, &mut y, n, &cur, &mut pend, XS[i % 6] + 1.0, &format!("step {}", i))?;
    }
    Ok(())
}

/// Blocks appear one by one: op 0 adds a block, op 2i+1 / 2i+2 add / remove connection i (ignored, None, when it names a block that does not exist yet).
fn grow(r: &mut Run, es: &[E], top: usize, ops: &[usize]) -> Res {
    let mut y = sys(0);
    let mut n = 0; let mut cur: Vec<E> = vec![]; let mut pend = vec![0f32; top + 2];
    for (i, &o) in ops.iter().enumerate() {
        if o == 0 { let (a, b) = co(n + 2); let g = y.s.add_block(spy(n as u32 + 2, a, b, 0.0, &y.log)); ensure!(!y.nodes.contains(&g), "step {}: add_block returned the node {:?} of another block", i, g); y.nodes.push(g); n += 1 }
        else { let e = es[(o - 1) / 2]; if o % 2 == 1 { y.s.add_connection(y.nodes[e.0], y.nodes[e.1]); if !cur.contains(&e) { cur.push(e) } } else { y.s.remove_connection(y.nodes[e.0], y.nodes[e.1]); cur.retain(|x| *x != e) } }
        r.step();
        sample(r, &mut y, n, &cur, &mut pend, XS[i % 6] + 1.0, &format!("step {}", i))?;
    }
    Ok(())
}
/// Is the growth history well-formed (connections name existing blocks), and is it acyclic throughout?
fn grow_ok(es: &[E], top: usize, ops: &[usize]) -> Option<bool> {
    let mut n = 0; let mut cur: Vec<E> = vec![]; let mut cyc = false;
    for &o in ops {
        if o == 0 { n += 1; if n > top { return None } }
        else { let e = es[(o - 1) / 2]; if e.0 >= n + 2 || e.1 >= n + 2 { return None } if o % 2 == 1 { if cur.contains(&e) { return None } cur.push(e) } else { if !cur.contains(&e) { return None } cur.retain(|x| *x != e) } cyc |= !acyclic(top, &cur) }
    }
    Some(!cyc)
}
/// N samples of silence (or of a constant) between two inputs, on every graph with two inner blocks.
fn stretch_graphs(c: &mut Ctx, es: &[E], cyclic: bool) {
    let top = c.q(1_100usize, 20_000);
    c.section("long stretches", format!("2 inner blocks: every {} graph, input 1, N samples of silence or of 0.25, then 1, -0.5, 0 (stopping where the graph itself diverges); N around powers of two and round numbers up to {}", if cyclic { "cyclic" } else { "acyclic" }, top)); c.witness();
    for mask in 1..1u64 << es.len() { let v = pick(es, mask); if acyclic(2, &v) == cyclic || mask % 3 != 0 && cyclic { continue } for n in stretches(top) { if n < 40 && n % 8 != 0 { continue } for x in [0.0f32, 0.25] {
        c.case(|| format!("2 inner blocks, connections {:?}: 1, {} samples of {}, 1, -0.5, 0", v, n, x), |r| {
            let mut y = sys(2); for &(a, b) in &v { y.s.add_connection(y.nodes[a], y.nodes[b]) }
            let mut pend = vec![0f32; 4];
            for i in 0..n + 4 {
                let x = if i == 0 || i == n + 1 { 1.0 } else if i <= n { x } else if i == n + 2 { -0.5 } else { 0.0 };
                sample(r, &mut y, 2, &v, &mut pend, x, &format!("sample {}", i))?;
                if pend.iter().any(|p| !(p.abs() < 1e20)) { break }
            }
            Ok(()) });
    } } }
}
fn growing(c: &mut Ctx, cyclic: bool) {
    let top = 3; let mut es = dag_edges(top); if cyclic { for i in 2..top + 2 { es.push((i, i)) } }
    let d = c.q(7, 8);
    c.section("blocks added between samples", format!("every history of {} steps over add a block (at most {}), add a connection, remove one of the connections, one sample after each; graphs {}", d, top, if cyclic { "passing through a loop" } else { "acyclic throughout" }));
    // depth-first over well-formed prefixes
    fn rec(c: &mut Ctx, es: &[E], top: usize, d: usize, w: &mut Vec<usize>, cyclic: bool) {
        match grow_ok(es, top, w) { None => return, Some(a) => { if !cyclic && !a { return }
            if w.len() == d { if cyclic != a { c.case(|| format!("{:?}", w.iter().map(|o| match o { 0 => "new block".to_string(), o => format!("{} {:?}", if o % 2 == 1 { "add" } else { "remove" }, es[(o - 1) / 2]) }).collect::<Vec<_>>()), |r| grow(r, es, top, w)) } return } } }
        for o in 0..=2 * es.len() { w.push(o); rec(c, es, top, d, w, cyclic); w.pop(); }
    }
    rec(c, &es, top, d, &mut vec![], cyclic);
    let nw = c.q(3, 4);
    c.section("one long life", format!("2 inner blocks: one sound driven through every window of {} add/remove operations{}, one sample after each", nw, if cyclic { "" } else { " (operations that would close a loop skipped)" })); c.witness();
    let mut es = dag_edges(2); if cyclic { es.push((2, 2)); es.push((3, 3)) }
    let mut cur: Vec<E> = vec![]; let mut h = vec![];
    for i in debruijn(2 * es.len(), nw) { let e = es[i / 2]; if i % 2 == 0 { if !cur.contains(&e) { cur.push(e); if !cyclic && !acyclic(2, &cur) { cur.pop(); continue } } } else { cur.retain(|x| *x != e) } h.push((i % 2 == 0, e)) }
    c.case(|| format!("de Bruijn history of {} operations", h.len()), |r| history(r, 2, h.iter().cloned()));
}

fn c24(c: &mut Ctx) {
    let all = |n: usize, ends: bool| { let mut v = dag_edges(n); for i in 2..n + 2 { v.push((i, i)) } if ends { for i in 2..n + 2 { v.push((1, i)); } v.push((1, 0)); v } else { v } };
    for (n, ends) in [(1usize, true), (2, true), (3, false)] {
        let es = all(n, ends);
        let orders = c.q(if n < 3 { 2 } else { 1 }, 4);
        c.section(&format!("all digraphs with {} inner blocks{}", n, if ends { " and feedback from the output gain" } else { "" }), format!("every cyclic subset of {} connections (self-loops included), {} insertion orders, 6 samples", es.len(), orders));
        for mask in 1..1u64 << es.len() {
            let v = pick(&es, mask);
            if acyclic(n, &v) { continue }
            for k in 0..orders { let o = reorder(&v, k); c.case(|| format!("{} inner blocks, connections in order {:?}", n, o), |r| graph_run(r, n, &o, 6, false)); }
        }
    }
    let es = all(2, false);
    let d = c.q(5, 6);
    c.section("all insertion orders", "2 inner blocks: every ordering of every cyclic graph with at most 5 (thorough 6) connections");
    for mask in 1..1u64 << es.len() {
        let v = pick(&es, mask);
        if v.len() > c.q(5, 6) || acyclic(2, &v) { continue }
        perms(v.len(), &mut |p| { let o: Vec<E> = p.iter().map(|i| v[*i]).collect(); c.case(|| format!("2 inner blocks, connections in order {:?}", o), |r| graph_run(r, 2, &o, 4, false)); });
    }
    c.section("add/remove histories", format!("2 inner blocks: every sequence of {} add/remove operations that passes through a loop, one sample after each", d));
    words(2 * es.len(), d, |w| {
        let mut cur: Vec<E> = vec![]; let mut cyc = false;
        for &i in w { let e = es[i / 2]; if i % 2 == 0 { if !cur.contains(&e) { cur.push(e) } } else { cur.retain(|x| *x != e) } cyc |= !acyclic(2, &cur) }
        if !cyc { return }
        c.case(|| format!("2 inner blocks: {:?}", w.iter().map(|i| (if i % 2 == 0 { "add" } else { "remove" }, es[i / 2])).collect::<Vec<_>>()), |r| history(r, 2, w.iter().map(|i| (i % 2 == 0, es[i / 2]))));
    });
    c.section("amplitudes", format!("2 inner blocks: every cyclic graph, 6 samples, signals scaled by 2^k, k in {:?}", POWS));
    for p in POWS { for mask in 1..1u64 << es.len() { let v = pick(&es, mask); if acyclic(2, &v) { continue } c.case(|| format!("2 inner blocks, connections {:?} at 2^{}", v, p), |r| at_amp(p, || graph_run(r, 2, &v, 6, false))); } }
    if c.thorough {
        let es = all(4, false);
        c.section("4 inner blocks, sparse", "every cyclic graph with at most 6 of 25 connections, one insertion order");
        for k in 2..=6usize { let mut idx: Vec<usize> = (0..k).collect(); loop {
            let v: Vec<E> = idx.iter().map(|i| es[*i]).collect();
            if !acyclic(4, &v) { c.case(|| format!("4 inner blocks: {:?}", v), |r| graph_run(r, 4, &v, 5, false)); }
            let mut i = k; while i > 0 && idx[i - 1] == es.len() - k + i - 1 { i -= 1 }
            if i == 0 { break } idx[i - 1] += 1; for j in i..k { idx[j] = idx[j - 1] + 1 }
        } }
    }
    growing(c, true);
    stretch_graphs(c, &es, true);
    wild(c, &es, true);
    big(c, true);
    grown(c, true);
    c.section("large loops", "rings (tapped at each place), chained rings, complete graphs with up to 40 blocks, 12 samples"); c.witness();
    for n in [4usize, 7, 40] { for k in 0..3 {
        let ring: Vec<E> = (2..n + 2).map(|i| (i, if i == n + 1 { 2 } else { i + 1 })).collect();
        for tap in [2, n / 2 + 2, n + 1] { let o = reorder(&ring.iter().cloned().chain(vec![(0, 2), (tap, 1)]).collect::<Vec<_>>(), k); c.case(|| format!("ring of {} tapped at {}, order {}", n, tap, k), |r| graph_run(r, n, &o, 12, false)); }
        if n >= 4 { let h = n / 2; let mut e: Vec<E> = (2..h + 2).map(|i| (i, if i == h + 1 { 2 } else { i + 1 })).collect(); e.extend((h + 2..n + 2).map(|i| (i, if i == n + 1 { h + 2 } else { i + 1 }))); e.extend(vec![(0, n + 1), (h + 2, 3), (2, 1)]); let o = reorder(&e, k); c.case(|| format!("two rings of {} feeding each other one way, order {}", n, k), |r| graph_run(r, n, &o, 12, false)); }
        if n <= 7 { let e: Vec<E> = (2..n + 2).flat_map(|i| (2..n + 2).map(move |j| (i, j))).chain(vec![(0, 2), (n + 1, 1)]).collect(); let o = reorder(&e, k); c.case(|| format!("complete graph of {} with self-loops, order {}", n, k), |r| graph_run(r, n, &o, 4, false)); }
    } }
}
