//! C11 PCM conversions, C12 frame algebra, C13 panning.
use crate::engine::*;
use crate::wavref::decode_code;
use crate::{ensure, Check};
use bae_rs::sample_format::*;
use std::convert::TryFrom;

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C11", level: "model_checking", run: c11, assumptions: &["exact ties may round either way; 8/16-bit encoders may be off by 2e-3 of a step at a tie because they scale in single precision"] },
        Check { one_process: false, id: "C12", level: "model_checking", run: c12, assumptions: &["values from a finite alphabet; every operation is component-wise so pairs of values per channel cover it", "scalar double products may differ from the exact product by single-precision rounding"] },
        Check { one_process: false, id: "C13", level: "model_checking", run: c13, assumptions: &["reference law evaluated in double precision, tolerance 2e-6 relative to the sample"] },
    ]
}

fn scale(bits: u16) -> f64 { match bits { 8 => 128.0, 16 => 32767.0, _ => 8388607.0 } }
fn enc(bits: u16, s: f32) -> i64 { match bits { 8 => sample_to_u8(s) as i64 - 128, 16 => sample_to_i16(s) as i64, _ => sample_to_i24(s) as i64 } }
fn slack(bits: u16) -> f64 { match bits { 8 => 1e-4, 16 => 2e-3, _ => 1e-6 } }
/// nearest-code oracle for s in [-1,1]
#[inline]
fn nearest(bits: u16, s: f32) -> Res {
    let y = enc(bits, s);
    let x = s as f64 * scale(bits);
    if bits == 8 && x > 127.0 { ensure!(y == 127 || (x < 127.501 && y == 127), "sample {:e} encodes to 8-bit code {}", s, y + 128); return Ok(()) }
    ensure!((y as f64 - x).abs() <= 0.5 + slack(bits), "sample {:e} ({} in {}-bit steps) encodes to {}", s, x, bits, y);
    Ok(())
}
fn bytes_agree(s: f32) -> Res {
    ensure!(sample_to_u8_bytes(s) == [sample_to_u8(s)], "u8 byte form differs for {}", s);
    ensure!(sample_to_i16_bytes(s) == sample_to_i16(s).to_le_bytes(), "i16 byte form differs for {}", s);
    ensure!(sample_to_i24_bytes(s)[..] == sample_to_i24(s).to_le_bytes()[..3], "i24 byte form {:?} differs from code {:#x} for sample {}", sample_to_i24_bytes(s), sample_to_i24(s), s);
    Ok(())
}

fn c11(c: &mut Ctx) {
    c.section("8-bit codes", "all 256 codes");
    c.case(|| "codes 0..=255".into(), |r| {
        let mut last = f32::MIN;
        for v in 0..=255u8 {
            let s = sample_from_u8(v); r.step(); r.st(&("u8", v)); r.outcome(s.to_bits() as u64);
            ensure!(s as f64 == decode_code(8, v as i32), "8-bit code {} decodes to {}", v, s);
            ensure!(sample_from_u8_bytes([v]).to_bits() == s.to_bits(), "byte form of 8-bit code {} decodes to {}", v, sample_from_u8_bytes([v]));
            ensure!(s > last, "8-bit decoding not increasing at {}", v); last = s;
            ensure!(sample_to_u8(s) == v && sample_to_u8_bytes(s) == [v], "8-bit code {} decodes and encodes to {}", v, sample_to_u8(s));
        }
        Ok(()) });
    c.section("16-bit codes", "all 65536 codes");
    c.case(|| "codes -32768..=32767".into(), |r| {
        let mut last = f32::MIN;
        for v in i16::MIN..=i16::MAX {
            let s = sample_from_i16(v); r.step(); r.st(&("i16", v)); r.outcome(s.to_bits() as u64);
            ensure!(close(s as f64, decode_code(16, v as i32), 1.2e-7), "16-bit code {} decodes to {}", v, s);
            ensure!(sample_from_i16_bytes(v.to_le_bytes()).to_bits() == s.to_bits(), "byte form of 16-bit code {} differs", v);
            ensure!(s > last, "16-bit decoding not increasing at {}", v); last = s;
            ensure!(sample_to_i16(s) == v && sample_to_i16_bytes(s) == v.to_le_bytes(), "16-bit code {} decodes and encodes to {}", v, sample_to_i16(s));
        }
        ensure!(sample_from_i16(0) == 0.0 && sample_from_i16(32767) == 1.0 && sample_from_i16(-32767) == -1.0, "16-bit silence or full scale wrong");
        Ok(()) });
    c.section("24-bit codes", "all 2^24 codes with upper byte 00, FF, 5A, 80 and sign-extended");
    for hi in 0..256i32 { c.case(|| format!("24-bit codes with third byte {:02x}", hi), |r| {
        for lo in 0..65536i32 {
            let u = (hi << 16) | lo;                       // 24-bit pattern
            let v = (u << 8) >> 8;                         // its value
            let s = sample_from_i24(v);
            if lo % 16 == 0 { r.st(&("i24", v)); r.outcome(s.to_bits() as u64) }
            ensure!(close(s as f64, decode_code(24, v), 1.2e-7), "24-bit code {} decodes to {}", v, s);
            for top in [0u32, 0xFF, 0x5A, 0x80] {
                let w = (u as u32 | top << 24) as i32;
                ensure!(sample_from_i24(w).to_bits() == s.to_bits(), "24-bit code {} held as {:#010x} decodes to {} instead of {}", v, w, sample_from_i24(w), s);
            }
            let b = [u as u8, (u >> 8) as u8, (u >> 16) as u8];
            ensure!(sample_from_i24_bytes(b).to_bits() == s.to_bits(), "byte form {:02x?} of 24-bit code {} decodes to {} instead of {}", b, v, sample_from_i24_bytes(b), s);
            let e = sample_to_i24(s);
            ensure!((e << 8) >> 8 == v && (e >> 24 == 0 || e >> 23 == -1 || e >> 23 == 0), "24-bit code {} decodes and encodes to {}", v, e);
            ensure!(sample_to_i24_bytes(s) == b, "24-bit code {} decodes and encodes to bytes {:02x?}", v, sample_to_i24_bytes(s));
            ensure!(v == -(1 << 23) || s > sample_from_i24(v - 1), "24-bit decoding not increasing at {}", v);
        }
        r.steps(65536 * 7);
        Ok(()) }); }
    c.case(|| "24-bit silence and full scale".into(), |_| { ensure!(sample_from_i24(0) == 0.0 && sample_from_i24(8388607) == 1.0 && sample_from_i24(-8388607) == -1.0, "24-bit silence or full scale wrong"); Ok(()) });

    c.section("rounding at half steps", "every boundary between neighbouring 8-, 16- and 24-bit codes: the nearest f32 and 3 neighbours on either side");
    for bits in [8u16, 16, 24] {
        let n = scale(bits) as i64;
        let lo = if bits == 8 { -128 } else { -n };
        let chunk = 32_768;
        let mut a = lo;
        while a < n { let b = (a + chunk).min(n);
            c.case(|| format!("{}-bit codes {}..{}", bits, a, b), |r| {
                for k in a..b {
                    let m = ((k as f64 + 0.5) / scale(bits)) as f32;
                    for d in -3i32..=3 {
                        let s = f32::from_bits((m.to_bits() as i32 + d) as u32);
                        if s.abs() > 1.0 { continue }
                        nearest(bits, s)?;
                    }
                    if k % 64 == 0 { r.outcome(enc(bits, m) as u64); r.st(&("half", bits, k)) }
                    if k % 16 == 0 { bytes_agree(m)? }
                }
                r.steps((b - a) as u64 * 7); Ok(()) });
            a = b;
        }
    }
    let stride = 1u32;
    c.section("encoding of f32 values", "every f32 in [-1,1], three depths");
    let one = 1.0f32.to_bits();
    let chunk = one / 128 + 1;
    for sign in [0u32, 1 << 31] { for k in 0..128u32 {
        let (a, b) = (k * chunk, ((k + 1) * chunk).min(one + 1));
        c.case(|| format!("f32 bit patterns {:#x}..{:#x}", a | sign, b | sign), |r| {
            let mut i = a; let mut n = 0;
            while i < b { let s = f32::from_bits(i | sign); nearest(8, s)?; nearest(16, s)?; nearest(24, s)?; i += stride; n += 3; }
            bytes_agree(f32::from_bits(a | sign))?;
            r.outcome(enc(24, f32::from_bits(a | sign)) as u64);
            r.steps(n); Ok(()) });
    } }
    c.section("saturation", "8 and 16 bit, |sample| in (1, 4e9] on a geometric grid, and infinity");
    c.case(|| "out-of-range samples".into(), |r| {
        let mut x = 1.0f64;
        while x < 4e9 { x *= 1.0001; let s = x as f32;
            let s = if s <= 1.0 { 1.0000002 } else { s };
            r.step();
            ensure!(sample_to_u8(s) == 255 && sample_to_u8(-s) == 0, "8-bit saturation at +-{}: {} {}", s, sample_to_u8(s), sample_to_u8(-s));
            let (p, m) = (sample_to_i16(s), sample_to_i16(-s));
            ensure!(if s > 1.0001 { p == i16::MAX && (m == i16::MIN || m == -i16::MAX) } else { p == i16::MAX && m <= -i16::MAX }, "16-bit saturation at +-{}: {} {}", s, p, m);
        }
        for s in [f32::INFINITY, f32::MAX] { ensure!(sample_to_u8(s) == 255 && sample_to_u8(-s) == 0 && sample_to_i16(s) == i16::MAX && sample_to_i16(-s) <= -i16::MAX, "saturation at {}", s) }
        Ok(()) });
}

trait Fmt: SampleFormat + Copy { const N: usize; const NAME: &'static str; fn mk(v: &[f32]) -> Self; fn get(&self) -> Vec<f32>; }
impl Fmt for Mono { const N: usize = 1; const NAME: &'static str = "Mono"; fn mk(v: &[f32]) -> Self { Mono::from(v[0]) } fn get(&self) -> Vec<f32> { vec![self.mono] } }
impl Fmt for Stereo { const N: usize = 2; const NAME: &'static str = "Stereo"; fn mk(v: &[f32]) -> Self { Stereo::from(v[0], v[1]) } fn get(&self) -> Vec<f32> { vec![self.left, self.right] } }

fn same(what: &str, got: &[f32], want: &[f64], exact: bool) -> Res {
    ensure!(got.len() == want.len(), "{}: {} channels", what, got.len());
    for (g, w) in got.iter().zip(want) {
        let wf = *w as f32;
        let ok = if wf.is_nan() { g.is_nan() } else if exact { *g == wf } else { (*g as f64 - w).abs() <= 2e-7 * w.abs() + 1e-42 || *g == wf };
        ensure!(ok, "{}: got {:?}, expected {:?}", what, got, want);
    }
    Ok(())
}
fn algebra<F: Fmt>(r: &mut Run, a: &[f32], b: &[f32], sc: f64) -> Res {
    let (x, y) = (F::mk(a), F::mk(b));
    let z = |f: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { a.iter().zip(b).map(|(p, q)| f(*p as f64, *q as f64) as f32 as f64).collect() };
    same("constructor", &x.get(), &a.iter().map(|v| *v as f64).collect::<Vec<_>>(), true)?;
    same("-a", &(-x).get(), &a.iter().map(|v| -*v as f64).collect::<Vec<_>>(), true)?;
    same("a+b", &(x + y).get(), &z(&|p, q| p + q), true)?;
    same("a-b", &(x - y).get(), &z(&|p, q| p - q), true)?;
    same("a*b", &(x * y).get(), &z(&|p, q| p * q), true)?;
    let mut t = x; t += y; same("a+=b", &t.get(), &z(&|p, q| p + q), true)?;
    let mut t = x; t -= y; same("a-=b", &t.get(), &z(&|p, q| p - q), true)?;
    let mut t = x; t *= y; same("a*=b", &t.get(), &z(&|p, q| p * q), true)?;
    let sf = if (sc as f32).is_finite() { sc as f32 } else { 2.5 };
    let p32: Vec<f64> = a.iter().map(|v| (*v * sf) as f64).collect();
    same("a*f32", &(x * sf).get(), &p32, true)?;
    let mut t = x; t *= sf; same("a*=f32", &t.get(), &p32, true)?;
    let p64: Vec<f64> = a.iter().map(|v| *v as f64 * sc).collect();
    same("a*f64", &(x * sc).get(), &p64, false)?;
    let mut t = x; t *= sc; same("a*=f64", &t.get(), &p64, false)?;
    let bits = |v: Vec<f32>| v.iter().map(|q| q.to_bits()).collect::<Vec<_>>();
    ensure!(bits(t.get()) == bits((x * sc).get()), "a*=f64 gives {:?} but a*f64 gives {:?} for {:?} * {}", t.get(), (x * sc).get(), a, sc);
    r.steps(13); r.st(&(F::NAME, bits(a.to_vec()), bits(b.to_vec()), sc.to_bits()));
    r.outcome(hash(&bits((x * y).get())) ^ hash(&bits((x - y).get())) ^ hash(&bits(t.get())));
    Ok(())
}
fn single<F: Fmt>(r: &mut Run, s: f32) -> Res {
    let f = F::from_sample(s);
    let tol = 4e-7 * s.abs() as f64 + 6e-45;
    ensure!(close(f.into_sample() as f64, s as f64, tol), "{}: sample {} becomes {:?} and back {}", F::NAME, s, f.get(), f.into_sample());
    let g: F = From::from(s); let back: f32 = f.into();
    ensure!(g.get() == f.get() && close(back as f64, s as f64, tol), "{}: From/Into disagree: {:?} vs {:?}, {} back", F::NAME, g.get(), f.get(), back);
    ensure!(f.get().windows(2).all(|w| w[0] == w[1]), "{}: from_sample favours a channel: {:?}", F::NAME, f.get());
    // folding down weighs every channel alike
    for i in 0..F::N {
        let mut v = vec![0f32; F::N]; v[i] = s;
        let one = F::mk(&v).into_sample() as f64;
        let all = F::mk(&vec![s; F::N]).into_sample() as f64;
        ensure!(close(one * F::N as f64, all, 4.0 * tol), "{}: channel {} alone folds to {}, all together to {}", F::NAME, i, one, all);
    }
    r.steps(4); r.outcome(hash(&back.to_bits())); r.st(&(F::NAME, s.to_bits()));
    Ok(())
}
/// an alphabet tuple of codes of each depth
fn vecs<F: Fmt>(r: &mut Run, v8: &[u8], v16: &[i16], v24: &[i32]) -> Res {
    let (n, need) = (v8.len(), F::N);
    let eq = |what: &str, got: Result<F, String>, want: Vec<f64>| -> Res {
        match got {
            Ok(g) => { ensure!(n >= need, "{}: {} from {} codes succeeded", F::NAME, what, n); same(what, &g.get(), &want[..need], false) }
            Err(_) => { ensure!(n < need, "{}: {} from {} codes failed", F::NAME, what, n); Ok(()) }
        }
    };
    eq("Vec<u8>", F::try_from(v8.to_vec()), v8.iter().map(|c| sample_from_u8(*c) as f64).collect())?;
    eq("Vec<i16>", F::try_from(v16.to_vec()), v16.iter().map(|c| sample_from_i16(*c) as f64).collect())?;
    eq("Vec<i32>", F::try_from(v24.to_vec()), v24.iter().map(|c| sample_from_i24(*c) as f64).collect())?;
    if n >= need {
        let f = F::mk(&v16[..need].iter().map(|c| sample_from_i16(*c)).collect::<Vec<_>>());
        let o8: Vec<u8> = f.into(); let o16: Vec<i16> = f.into(); let o24: Vec<i32> = f.into();
        ensure!(o8 == f.get().iter().map(|s| sample_to_u8(*s)).collect::<Vec<_>>(), "{}: {:?} into Vec<u8> gives {:?}", F::NAME, f.get(), o8);
        ensure!(o16 == v16[..need], "{}: {:?} into Vec<i16> gives {:?}", F::NAME, f.get(), o16);
        ensure!(o24 == f.get().iter().map(|s| sample_to_i24(*s)).collect::<Vec<_>>(), "{}: {:?} into Vec<i32> gives {:?}", F::NAME, f.get(), o24);
        r.outcome(hash(&(o8, o16, o24)));
    } else { r.outcome(n as u64) }
    r.steps(6); r.st(&(F::NAME, v8.to_vec(), v16.to_vec(), v24.to_vec()));
    Ok(())
}

fn c12(c: &mut Ctx) {
    c.section("default and size", "both formats");
    c.case(|| "default, new, num_samples".into(), |r| {
        r.steps(6);
        ensure!(Mono::default().get() == [0.0] && Mono::new().get() == [0.0] && Stereo::default().get() == [0.0, 0.0] && Stereo::new().get() == [0.0, 0.0], "default frame is not silence");
        ensure!(Mono::num_samples() == 1 && Stereo::num_samples() == 2, "num_samples");
        Ok(()) });
    let inf = f32::INFINITY;
    let al: Vec<f32> = c.q(vec![0.0, 1.0, -1.0, 0.5, -0.3, 1e-3, 3.0e7, -7.25, 1e-20, 1e-42, 3e38, inf], vec![0.0, 1.0, -1.0, 0.5, -0.3, 1e-3, 3.0e7, -7.25, 1e-20, 1e-42, 3e38, inf, 0.1, -0.9999999, 1.5e15, -2.0, -1e-39, 16777217.0]);
    let sc: [f64; 9] = [0.0, 1.0, -1.0, 0.1, 16777217.0, -0.333, 1e-300, 1e-45, 1e60];
    c.section("algebra", format!("every pair of frames over {:?} per channel x scalars {:?}", al, sc));
    let k = al.len();
    words(k, 2, |w| for s in sc { let (a, b) = ([al[w[0]]], [al[w[1]]]); c.case(|| format!("Mono {:?} {:?} scalar {}", a, b, s), |r| algebra::<Mono>(r, &a, &b, s)) });
    words(k, 4, |w| for s in sc { let (a, b) = ([al[w[0]], al[w[1]]], [al[w[2]], al[w[3]]]); c.case(|| format!("Stereo {:?} {:?} scalar {}", a, b, s), |r| algebra::<Stereo>(r, &a, &b, s)) });
    c.section("single samples", "4001 samples in [-2,2] and extreme magnitudes");
    for i in -2000..=2000 { let s = i as f32 / 1000.0; c.case(|| format!("sample {}", s), |r| { single::<Mono>(r, s)?; single::<Stereo>(r, s) }) }
    for s in [1e30f32, -1e30, 1e-30, 12345.678] { c.case(|| format!("sample {}", s), |r| { single::<Mono>(r, s)?; single::<Stereo>(r, s) }) }
    let bits = c.q(14u32, 22);
    c.section("single samples of every magnitude", format!("every f32 up to 1e38 with {} top bits (sign, exponent, {} of the mantissa)", bits, bits - 9));
    for k in 0..128u32 { c.case(|| format!("top bits {:#x}..{:#x}", k << 25, (k + 1) as u64 * (1 << 25)), |r| {
        let sub = 1u32 << (bits - 7);
        for i in 0..sub { let s = f32::from_bits(k << 25 | i << (32 - bits)); if !(s.abs() <= 1e38) { continue } single::<Mono>(r, s)?; single::<Stereo>(r, s)? } Ok(()) }) }
    c.section("vectors", "vectors of length 0..=6, every tuple over 5 codes of each depth; every ordered pair of 8-bit codes");
    let a8 = [128u8, 0, 255, 1, 200]; let a16 = [0i16, i16::MIN, i16::MAX, -1, 1234]; let a24 = [0i32, -(1 << 23), (1 << 23) - 1, -1, 1234567];
    for n in 0..=6 { words(5, n, |w| { let (x, y, z): (Vec<_>, Vec<_>, Vec<_>) = (w.iter().map(|i| a8[*i]).collect(), w.iter().map(|i| a16[*i]).collect(), w.iter().map(|i| a24[*i]).collect());
        c.case(|| format!("{:?} {:?} {:?}", x, y, z), |r| { vecs::<Mono>(r, &x, &y, &z)?; vecs::<Stereo>(r, &x, &y, &z) }) }) }
    for a in 0..=255u8 { c.case(|| format!("left code {} with every right code", a), |r| { for b in 0..=255u8 {
        let s = [(a as i32 * 257 - 32_768) as i16, 77 - b as i16 * 120]; vecs::<Stereo>(r, &[a, b], &s, &[a as i32 * 30_000, -(b as i32) * 32_000])?; vecs::<Mono>(r, &[a], &s[..1], &[b as i32 - a as i32])?; } Ok(()) }) }
    c.section("long vectors", "every length 0..=1200, and 2^k + j for k in 11..=17 (thorough 20), |j| <= 3: the first codes become the frame");
    let top = c.q(17u32, 20);
    for n in (0..=1200usize).chain((11..=top).flat_map(|k| (0..=6usize).map(move |j| (1usize << k) + j - 3))) { c.case(|| format!("length {}", n), |r| {
        let f = |i: usize| (i * 37 + 11) % 65_536;
        let (x, y, z): (Vec<u8>, Vec<i16>, Vec<i32>) = ((0..n).map(|i| f(i) as u8).collect(), (0..n).map(|i| f(i) as u16 as i16).collect(), (0..n).map(|i| f(i) as i32 * 100 - 3_000_000).collect());
        vecs::<Mono>(r, &x, &y, &z)?; vecs::<Stereo>(r, &x, &y, &z) }) }
    c.section("every 16- and 24-bit code", "every 16-bit code and every 61st (thorough every) 24-bit code in each channel");
    for a in 0..=255i32 { c.case(|| format!("16-bit codes from {}, 24-bit codes from {}", a * 256 - 32_768, a * 65_536 - 8_388_608), |r| {
        for i in 0..256i32 { let v = [(a * 256 + i - 32_768) as i16, (i * 256 + a - 32_768) as i16]; vecs::<Stereo>(r, &[a as u8, i as u8], &v, &[a * 65_536 + i * 251 - 8_388_608, i * 65_536 + a - 8_388_608])?; vecs::<Mono>(r, &[i as u8], &v[..1], &[a * 65_536 + i * 251 - 8_388_608])?; }
        let st = if top == 17 { 61 } else { 1 }; let mut i = 0; while i < 65_536i32 { let v = a * 65_536 + i - 8_388_608; let w = -v - 1;
            let want = (sample_from_i24(v), sample_from_i24(w));
            let (m, t) = (Mono::try_from(vec![v])?, Stereo::try_from(vec![v, w])?);
            ensure!(m.mono == want.0 && t.left == want.0 && t.right == want.1, "24-bit codes {} {} become {:?} {:?}", v, w, m.get(), t.get());
            let (o, q): (Vec<i32>, Vec<i32>) = (m.into(), t.into());
            ensure!(o.len() == 1 && q.len() == 2 && (o[0] << 8) >> 8 == v && (q[0] << 8) >> 8 == v && (q[1] << 8) >> 8 == w, "24-bit codes {} {} come back as {:?} {:?}", v, w, o, q);
            r.step(); i += st }
        Ok(()) }) }
    let fb = c.q(12u32, 15);
    c.section("folding frames of every magnitude", format!("every pair of f32 up to 1e37 with {} top bits as the two channels: what a frame folds to is the sum of what its channels fold to alone", fb));
    for k in 0..128u32 { c.case(|| format!("left channel's top bits {:#x}..", k << 25), |r| { let sub = 1u32 << (fb - 7);
        for i in 0..sub { for j in 0..1u32 << fb { let (x, y) = (f32::from_bits(k << 25 | i << (32 - fb)), f32::from_bits(j << (32 - fb) | 1 << (31 - fb))); if !(x.abs() <= 1e37 && y.abs() <= 1e37) { continue } folds::<Stereo>(&[x, y])?; if j == 0 { folds::<Mono>(&[x])? } r.step() } } r.st(&("fold", k)); r.outcome(k as u64); Ok(()) }) }
    let (b1, b2) = c.q((13u32, 6u32), (16, 9));
    c.section("algebra over every magnitude", format!("every f32 with {} top bits x every f32 with {} top bits x 5 scalars, both formats", b1, b2));
    for k in 0..128u32 { c.case(|| format!("first operand's top bits {:#x}..", k << 25), |r| { for i in 0..1u32 << (b1 - 7) { for j in 0..1u32 << b2 {
        let (x, y) = (f32::from_bits(k << 25 | i << (32 - b1)), f32::from_bits(j << (32 - b2) | 1 << (31 - b2)));
        if x.is_nan() || y.is_nan() { continue }
        for sc in [y as f64, 1.0 / 3.0, -1e-7, 65_536.5, 1e25] { quiet_algebra::<Mono>(&[x], &[y], sc)?; quiet_algebra::<Stereo>(&[x, y], &[y, -x], sc)?; r.steps(22) } } } r.st(&("mag", k)); Ok(()) }) }
}
/// Folding a frame down gives the sum of what its channels give alone.
fn folds<F: Fmt>(v: &[f32]) -> Res {
    let got = F::mk(v).into_sample() as f64; let back: f32 = F::mk(v).into();
    let (mut want, mut size) = (0.0, 0.0f64);
    for i in 0..F::N { let mut one = vec![0f32; F::N]; one[i] = v[i]; let o = F::mk(&one).into_sample() as f64; want += o; size += o.abs() }
    ensure!(close(got, want, 1e-6 * size + 6e-45) && back as f64 == got, "{}: {:?} folds to {} (as f32 {}), its channels alone to {} in all", F::NAME, v, got, back, want);
    Ok(())
}
/// `algebra` without the bookkeeping, compared bit by bit (any NaN equals any NaN, signs of zero ignored).
fn quiet_algebra<F: Fmt>(a: &[f32], b: &[f32], sc: f64) -> Res {
    let (x, y) = (F::mk(a), F::mk(b));
    let eq = |what: &str, g: F, w: &dyn Fn(f32, f32) -> f32| -> Res {
        for (i, v) in g.get().iter().enumerate() { let w = w(a[i], b[i]); ensure!(*v == w || v.is_nan() && w.is_nan(), "{} {} of {:?}, {:?}, {}: channel {} is {}, expected {}", F::NAME, what, a, b, sc, i, v, w) } Ok(()) };
    eq("-a", -x, &|p, _| -p)?;
    eq("a+b", x + y, &|p, q| p + q)?; eq("a-b", x - y, &|p, q| p - q)?; eq("a*b", x * y, &|p, q| p * q)?;
    let mut t = x; t += y; eq("a+=b", t, &|p, q| p + q)?; let mut t = x; t -= y; eq("a-=b", t, &|p, q| p - q)?; let mut t = x; t *= y; eq("a*=b", t, &|p, q| p * q)?;
    let sf = sc as f32; eq("a*f32", x * sf, &|p, _| p * sf)?; let mut t = x; t *= sf; eq("a*=f32", t, &|p, _| p * sf)?;
    let near = |what: &str, g: F| -> Res { for (i, v) in g.get().iter().enumerate() { let w = a[i] as f64 * sc; let wf = w as f32;
        ensure!(*v == wf || v.is_nan() && wf.is_nan() || (*v as f64 - w).abs() <= 2e-7 * w.abs() + 3e-45, "{} {} of {:?} by {}: channel {} is {}, expected {}", F::NAME, what, a, sc, i, v, w) } Ok(()) };
    near("a*f64", x * sc)?; let mut t = x; t *= sc; near("a*=f64", t)
}

fn law(g: f64) -> (f64, f64) {
    let g = g.max(-1.0).min(1.0);
    let fav = |t: f64| 10f64.powf((-3.0 + 3.0 * t) / 20.0);      // t: 0 centre .. 1 full
    let oth = |t: f64| 10f64.powf((-3.0 - 117.0 * t) / 20.0);
    if g <= 0.0 { (fav(-g), oth(-g)) } else { (oth(g), fav(g)) }
}
fn c13(c: &mut Ctx) {
    let n: i32 = c.q(32_768, 1 << 20);
    let ss = [1.0f32, -1.0, 0.5, -0.125, 0.7, 100.0, 0.0, 1e-5];
    c.section("pan positions", format!("g = k/{} for |k| <= {} (and beyond, clamped), samples {:?}, f32 and f64", n, n + 200, ss));
    let stereo = |s: f32, g: f64| -> Stereo { <Stereo as Panner<f64>>::to_sample_format(s, g) };
    for k in (-n - 200)..=(n + 200) { let g = k as f64 / n as f64;
        c.case(|| format!("g = {}", g), |r| {
            let (l, rr) = law(g);
            for s in ss {
                let f = stereo(s, g); let h = <Stereo as Panner<f32>>::to_sample_format(s, g as f32); let m = stereo(s, -g);
                let t = 2e-6 * s.abs() as f64;
                ensure!(close(f.left as f64, l * s as f64, t) && close(f.right as f64, rr * s as f64, t), "sample {} panned to {}: ({}, {}), law gives ({}, {})", s, g, f.left, f.right, l * s as f64, rr * s as f64);
                ensure!(close(h.left as f64, f.left as f64, t) && close(h.right as f64, f.right as f64, t), "precisions disagree at {}: ({}, {}) vs ({}, {})", g, h.left, h.right, f.left, f.right);
                ensure!(close(m.left as f64, f.right as f64, t) && close(m.right as f64, f.left as f64, t), "not mirror symmetric at {}", g);
                let (a, b) = (<Mono as Panner<f64>>::to_sample_format(s, g), <Mono as Panner<f32>>::to_sample_format(s, g as f32));
                ensure!(a.mono == s && b.mono == s, "mono pan of {} to {} gives {} / {}", s, g, a.mono, b.mono);
                r.steps(5); r.outcome(hash(&(f.left.to_bits(), f.right.to_bits())));
            }
            let (p, q) = (stereo(1.0, g), stereo(1.0, (k + 1) as f64 / n as f64));
            ensure!(q.left <= p.left + 2e-7 && q.right >= p.right - 2e-7, "not monotone at {}", g);
            r.st(&k);
            Ok(()) });
    }
    c.section("any f32 position", "every f32 g with 14 (thorough 20) top bits and |g| <= 4, both precisions, both formats of the law");
    let bits = c.q(14u32, 20);
    for k in 0..64u32 { c.case(|| format!("top bits {:#x}..", k << 26), |r| {
        for i in 0..1u32 << (bits - 6) { let g = f32::from_bits(k << 26 | i << (32 - bits)); if !(g.abs() <= 4.0) { continue }
            let (l, rr) = law(g as f64);
            for s in [1.0f32, -0.6] { let t = 2e-6;
                let f = stereo(s, g as f64); let h = <Stereo as Panner<f32>>::to_sample_format(s, g);
                ensure!(close(f.left as f64, l * s as f64, t) && close(f.right as f64, rr * s as f64, t), "sample {} panned to {:e}: ({}, {}), law gives ({}, {})", s, g, f.left, f.right, l * s as f64, rr * s as f64);
                ensure!(close(h.left as f64, l * s as f64, t) && close(h.right as f64, rr * s as f64, t), "f32: sample {} panned to {:e}: ({}, {}), law gives ({}, {})", s, g, h.left, h.right, l * s as f64, rr * s as f64);
                r.steps(2); r.outcome(hash(&(f.left.to_bits(), f.right.to_bits()))); }
            r.st(&(1u8, g.to_bits())); }
        Ok(()) }) }
    c.section("quiet channel in decibels", "the unfavoured channel's level in dB is linear down to -120, every k/2000, relative accuracy");
    for k in 0..=2000i32 { c.case(|| format!("|g| = {}/2000", k), |r| { let g = k as f64 / 2000.0; for sg in [1.0, -1.0] {
        let f = stereo(1.0, sg * g); let h = <Stereo as Panner<f32>>::to_sample_format(1.0, (sg * g) as f32);
        let (fav, oth) = if sg > 0.0 { (f.right, f.left) } else { (f.left, f.right) }; let (hf, ho) = if sg > 0.0 { (h.right, h.left) } else { (h.left, h.right) };
        let db = |x: f32| 20.0 * (x as f64).log10(); r.steps(2); r.outcome(hash(&oth.to_bits()));
        for (a, want) in [(fav, -3.0 + 3.0 * g), (hf, -3.0 + 3.0 * g), (oth, -3.0 - 117.0 * g), (ho, -3.0 - 117.0 * g)] { ensure!(close(db(a), want, 2e-4), "level {} dB at {}, law gives {} dB", db(a), sg * g, want) } } Ok(()) }) }
    let bits = c.q(11u32, 14);
    c.section("samples of every magnitude", format!("every finite f32 sample with {} top bits x 41 positions, both precisions; relative accuracy 1e-6", bits));
    for k in 0..64u32 { c.case(|| format!("sample top bits {:#x}..", k << 26), |r| { for i in 0..1u32 << (bits - 6) {
        let s = f32::from_bits(k << 26 | i << (32 - bits) | 1); if !s.is_finite() { continue }
        for j in -20..=20 { let g = j as f64 / 20.0; let (l, rr) = law(g); let t = 2e-6 * s.abs() as f64; let te = |x: f64| x.abs() * t + 3e-45;
            let f = stereo(s, g); let h = <Stereo as Panner<f32>>::to_sample_format(s, g as f32);
            ensure!(close(f.left as f64, l * s as f64, te(l)) && close(f.right as f64, rr * s as f64, te(rr)), "sample {:e} panned to {}: ({:e}, {:e}), law gives ({:e}, {:e})", s, g, f.left, f.right, l * s as f64, rr * s as f64);
            ensure!(close(h.left as f64, l * s as f64, 20.0 * te(l)) && close(h.right as f64, rr * s as f64, 20.0 * te(rr)), "f32: sample {:e} panned to {}: ({:e}, {:e}), law gives ({:e}, {:e})", s, g, h.left, h.right, l * s as f64, rr * s as f64);
            let (a, b) = (<Mono as Panner<f64>>::to_sample_format(s, g), <Mono as Panner<f32>>::to_sample_format(s, g as f32));
            ensure!(a.mono == s && b.mono == s, "mono pan of {:e} to {} gives {:e} / {:e}", s, g, a.mono, b.mono);
            r.steps(4) }
        r.st(&("s", s.to_bits())); } Ok(()) }) }
    c.section("far values", "infinite and huge positions, smallest steps around 0");
    for g in [f64::INFINITY, 1e300, 2.0, 1e-300, 1e-17, f64::MIN_POSITIVE] { for sg in [1.0, -1.0] { let g = g * sg; c.case(|| format!("g = {:e}", g), |r| {
        let (l, rr) = law(g); let f = stereo(1.0, g); let h = <Stereo as Panner<f32>>::to_sample_format(1.0, g as f32); r.steps(2); r.outcome(hash(&f.left.to_bits()));
        ensure!(close(f.left as f64, l, 2e-6) && close(f.right as f64, rr, 2e-6), "({}, {}) expected ({}, {})", f.left, f.right, l, rr);
        ensure!(close(h.left as f64, l, 2e-6) && close(h.right as f64, rr, 2e-6), "f32: ({}, {}) expected ({}, {})", h.left, h.right, l, rr);
        Ok(()) }) } }
}
