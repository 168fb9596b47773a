//! C08 round trip, C09 write faults, C10 read faults.
use crate::engine::*;
use crate::wavref::{decode_code, encode, wrap};
use crate::{ensure, Check};
use bae_rs::utils::{read_wav, write_wav};
use std::io::{Error, ErrorKind, Read, Write};

pub fn checks() -> Vec<Check> {
    vec![
        Check { one_process: false, id: "C08", level: "model_checking", run: c08, assumptions: &["the harness's own encoder defines the canonical file", "exact ties between codes may go either way", "samples are never NaN"] },
        Check { one_process: false, id: "C09", level: "fault_enumeration", run: c09, assumptions: &["a destination either accepts at least one byte, returns Ok(0) or fails; bytes it accepted stay accepted", "flushing is left to the caller"] },
        Check { one_process: false, id: "C10", level: "fault_enumeration", run: c10, assumptions: &["defects of the riff and wav dependencies listed in known_findings.txt are reported as known findings", "a read that does not return within 2 s of a 60-byte file is a hang"] },
    ]
}

fn scale(bits: u16) -> f64 { match bits { 8 => 128.0, 16 => 32767.0, _ => 8388607.0 } }
fn code(bits: u16, s: f32) -> i32 { let x = (s as f64 * scale(bits)).round(); if bits == 8 { (x + 128.0).max(0.0).min(255.0) as i32 } else { x as i32 } }
fn codes(bits: u16, tr: &[Vec<f32>]) -> Vec<i32> { let n = tr.first().map(|t| t.len()).unwrap_or(0); (0..n).flat_map(|i| tr.iter().map(move |t| code(bits, t[i]))).collect() }
fn clipped(tr: &[Vec<f32>]) -> Vec<Vec<f32>> { tr.iter().map(|t| t.iter().map(|s| s.max(-1.0).min(1.0)).collect()).collect() }
fn file(bits: u16, tr: &[Vec<f32>]) -> Vec<u8> { encode(tr.len() as u16, bits, 48_000, &codes(bits, tr)) }

/// got == want, except that codes may differ by one at exact ties
fn same_file(got: &[u8], bits: u16, tr: &[Vec<f32>]) -> Res {
    let want = file(bits, tr);
    if got == &want[..] { return Ok(()) }
    ensure!(got.len() == want.len(), "wrote {} bytes, canonical file has {}: {:02x?}", got.len(), want.len(), &got[..got.len().min(60)]);
    ensure!(got[..44] == want[..44], "header {:02x?} differs from canonical {:02x?}", &got[..44], &want[..44]);
    let b = bits as usize / 8;
    let n = tr[0].len();
    for i in 0..n { for (k, t) in tr.iter().enumerate() {
        let o = 44 + (i * tr.len() + k) * b;
        if got[o..o + b] == want[o..o + b] { continue }
        let mut v = [0u8; 4]; v[..b].copy_from_slice(&got[o..o + b]);
        let c = match bits { 8 => v[0] as i32 - 128, 16 => i16::from_le_bytes([v[0], v[1]]) as i32, _ => (i32::from_le_bytes(v) << 8) >> 8 };
        let x = t[i] as f64 * scale(bits);
        ensure!((c as f64 - x).abs() <= 0.5 + if bits == 16 { 2e-3 } else { 1e-4 }, "frame {} channel {}: sample {} written as code {} ({} steps)", i, k, t[i], c, x);
    } }
    if (n * tr.len() * b) % 2 == 1 { ensure!(got[got.len() - 1] == 0, "padding byte {}", got[got.len() - 1]) }
    Ok(())
}

fn round_trip(r: &mut Run, tr: &[Vec<f32>], bits: u16, clip: bool) -> Res {
    let mut out = vec![];
    write_wav(tr.to_vec(), bits, &mut out, clip).map_err(|e| format!("write failed: {}", e))?;
    let eff = if clip { clipped(tr) } else { tr.to_vec() };
    same_file(&out, bits, &eff)?;
    let (h, back) = read_wav(&mut &out[..]).map_err(|e| format!("read failed: {}", e))?;
    ensure!(h.channel_count as usize == tr.len() && h.sampling_rate == 48_000 && h.bits_per_sample == bits && h.audio_format == 1, "header {:?}", h);
    ensure!(back.len() == tr.len(), "{} tracks read back, {} written", back.len(), tr.len());
    for (k, (a, b)) in eff.iter().zip(&back).enumerate() {
        ensure!(a.len() == b.len(), "track {}: {} samples read back, {} written", k, b.len(), a.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            let step = 1.0 / scale(bits);
            let tol = if bits == 8 && *x > 127.0 / 128.0 { step } else { step * 0.5 };
            ensure!(((*x - *y) as f64).abs() <= tol * (1.0 + 1e-5) + 1.2e-7, "track {} sample {}: {} read back as {} ({} bit)", k, i, x, y, bits);
        }
    }
    r.steps(2 + (tr.len() * tr[0].len()) as u64); r.st(&(bits, clip, &out)); r.outcome(hash(&back.iter().map(|t| t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    Ok(())
}

fn c08(c: &mut Ctx) {
    let al = [0.0f32, 1.0, -1.0, 0.5003, -0.3, 1e-4];
    let al2 = [0.25f32, 1.5, -2.0, f32::INFINITY, f32::NEG_INFINITY, -1.0000001];
    let cells = c.q(6, 7);
    c.section("small files", format!("1..=4 channels, up to {} samples in total, every assignment from {:?} (and, clipped, {:?}), 8/16/24 bit", cells, al, al2));
    for ch in 1..=4usize { for frames in 0..=cells / ch { for bits in [8u16, 16, 24] { for set in 0..2 {
        words(6, ch * frames, |w| {
            let a = if set == 0 { &al } else { &al2 };
            let tr: Vec<Vec<f32>> = (0..ch).map(|k| (0..frames).map(|i| a[w[i * ch + k]]).collect()).collect();
            if set == 0 { c.case(|| format!("{:?} {} bit unclipped", tr, bits), |r| round_trip(r, &tr, bits, false)); }
            c.case(|| format!("{:?} {} bit clipped", tr, bits), |r| round_trip(r, &tr, bits, true));
        });
    } } } }
    c.section("shapes", format!("every channel count 1..={} x 0..=9 frames x depth, distinct samples", c.q(100, 400)));
    for ch in 1..=c.q(100usize, 400) { for frames in 0..=9usize { for bits in [8u16, 16, 24] {
        let tr: Vec<Vec<f32>> = (0..ch).map(|k| (0..frames).map(|i| (((k * 131 + i * 37 + 11) % 2001) as f32 - 1000.0) / 1000.0).collect()).collect();
        c.case(|| format!("{} channels of {} frames, {} bit", ch, frames, bits), |r| round_trip(r, &tr, bits, false));
    } } }
    c.section("all codes", format!("every 8- and 16-bit code, every {} 24-bit code, as one track per 4096 codes", c.q("7th", "single")));
    for bits in [8u16, 16, 24] {
        let (lo, hi) = match bits { 8 => (0i64, 256), 16 => (-32767, 32768), _ => (-8388607, 8388608) };
        let st = if bits == 24 { c.q(7, 1) } else { 1 };
        let mut a = lo;
        while a < hi { let b = (a + 4096 * st).min(hi);
            c.case(|| format!("{} bit codes {}..{} step {}", bits, a, b, st), |r| {
                let cs: Vec<i32> = (a..b).step_by(st as usize).map(|x| x as i32).collect();
                let t: Vec<f32> = cs.iter().map(|x| decode_code(bits, *x) as f32).collect();
                let mut out = vec![];
                write_wav(vec![t.clone()], bits, &mut out, false).map_err(|e| e.to_string())?;
                ensure!(out == encode(1, bits, 48_000, &cs), "codes {}..{} do not survive writing", a, b);
                let (_, back) = read_wav(&mut &out[..]).map_err(|e| e.to_string())?;
                ensure!(back.len() == 1 && back[0].len() == t.len() && back[0].iter().zip(&t).all(|(x, y)| (x - y).abs() <= 1.2e-7), "codes {}..{} do not survive reading", a, b);
                r.steps(2 * cs.len() as u64); r.outcome(hash(&(bits, a))); r.st(&(bits, a)); Ok(()) });
            a = b; }
    }
    let stp = c.q(37u32, 1);
    c.section("fine samples", "f32 values in [-1,1] on a dense grid, 24 bit and 16 bit, 3 channels");
    for k in 0..64u32 { for bits in [16u16, 24, 8] { c.case(|| format!("block {} {} bit", k, bits), |r| {
        let n = 3 * (6000 / stp.min(4));
        let v: Vec<f32> = (0..n).map(|i| ((k * n + i) as f64 / (32.0 * n as f64) - 1.0 + 1.7e-8 * i as f64) as f32).map(|x| x.max(-1.0).min(1.0)).collect();
        let tr: Vec<Vec<f32>> = (0..3).map(|j| v.iter().skip(j).step_by(3).copied().collect()).collect();
        round_trip(r, &tr, bits, k % 2 == 0) }) } }
    let stp = c.q(65_537u32, 1_031);
    c.section("clipped levels", format!("every f32 of the first 8192 above 1, every {} bit patterns from there to infinity, both signs, 1..=3 channels, each depth: clipped to full scale", stp));
    for bits in [8u16, 16, 24] { for ch in 1..=3usize {
        let v: Vec<u32> = (0..8_192u32).map(|i| 0x3f80_0000 + i).chain((0x3f80_2000..=0x7f80_0000u32).step_by(stp as usize)).collect();
        for (k, w) in v.chunks(1_024).enumerate() { c.case(|| format!("{} bit, {} channels, magnitudes {} to {}", bits, ch, f32::from_bits(w[0]), f32::from_bits(w[w.len() - 1])), |r| {
            let tr: Vec<Vec<f32>> = (0..ch).map(|j| w.iter().map(|b| if (*b as usize + j + k) % 2 == 0 { f32::from_bits(*b) } else { -f32::from_bits(*b) }).collect()).collect();
            round_trip(r, &tr, bits, true)?; let tr: Vec<Vec<f32>> = tr.iter().map(|t| t.iter().map(|x| -x).collect()).collect(); round_trip(r, &tr, bits, true) }); }
    } }
    c.section("wide files", "channel counts around and far beyond one byte, up to the most the header can hold (65535, and less where a frame would exceed 65535 bytes), 1..=3 frames"); c.witness();
    for bits in [8u16, 16, 24] { let most = 65_535 / (bits as usize / 8);
        for ch in [127usize, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1_000, 4_096, 10_923, 21_845, 32_767, 32_768, 65_535] { if ch > most { continue }
            for frames in 0..=3usize { c.case(|| format!("{} channels of {} frames, {} bit", ch, frames, bits), |r| {
                let tr: Vec<Vec<f32>> = (0..ch).map(|k| (0..frames).map(|i| (((k * 131 + i * 37 + 11) % 2001) as f32 - 1000.0) / 1000.0).collect()).collect();
                round_trip(r, &tr, bits, frames == 2) }); } } }
    c.section("long files", "seconds of audio; sample counts, byte counts and frame counts around 2^15..2^17"); c.witness();
    for ch in 1..=3usize { for n in [32_767usize, 32_768, 32_769, 65_535, 65_536, 65_537, 131_072] { for bits in [8u16, 16, 24] { for div in [1usize, ch * bits as usize / 8] { let n = n / div;
        c.case(|| format!("{} channels of {} frames {} bit", ch, n, bits), |r| { let tr: Vec<Vec<f32>> = (0..ch).map(|k| (0..n).map(|i| ((i * (k + 1) * 7919) % 20_011) as f32 / 10_005.5 - 1.0).map(|x: f32| x.min(1.0)).collect()).collect(); round_trip(r, &tr, bits, false) });
    } } } }
    for (ch, bits, n) in [(1usize, 8u16, (1usize << 24) + 1), (2, 16, (1 << 22) + 1), (1, 24, 5_592_406), (3, 24, (1 << 20) - 1), (1, 16, 1 << 23)] {
        c.case(|| format!("{} channels of {} frames {} bit", ch, n, bits), |r| {
            let cs: Vec<i32> = (0..n * ch).map(|i| { let v = (i as i64 * 2_654_435_761 + 99) & 0xFFFF_FFFF; match bits { 8 => (v >> 24) as i32, 16 => ((v >> 16) as i32 - 32_768).max(-32_767), _ => ((v >> 8) as i32 - (1 << 23)).max(-8_388_607) } }).collect();
            let tr: Vec<Vec<f32>> = (0..ch).map(|k| cs.iter().skip(k).step_by(ch).map(|c| decode_code(bits, *c) as f32).collect()).collect();
            let mut out = vec![]; write_wav(tr.clone(), bits, &mut out, true).map_err(|e| e.to_string())?;
            ensure!(out == encode(ch as u16, bits, 48_000, &cs), "{} frames do not survive writing", n);
            let (_, back) = read_wav(&mut &out[..]).map_err(|e| e.to_string())?; r.steps(2 * cs.len() as u64);
            ensure!(back.len() == ch && back.iter().zip(&tr).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1.2e-7)), "{} frames do not survive reading", n);
            Ok(()) }); }
    for (ch, n) in [(1usize, 300_001usize), (2, 100_000), (7, 20_000)] { for bits in [8u16, 16, 24] {
        c.case(|| format!("{} channels of {} frames {} bit", ch, n, bits), |r| { let tr: Vec<Vec<f32>> = (0..ch).map(|k| (0..n).map(|i| ((i * (k + 1) * 7919) % 20_011) as f32 / 10_005.5 - 1.0).map(|x: f32| x.min(1.0)).collect()).collect(); round_trip(r, &tr, bits, false) });
    } }
}

/// Every kind of I/O error a caller can make, except Interrupted (which asks for a retry).
const KINDS: [ErrorKind; 38] = { use ErrorKind::*; [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong, Unsupported, UnexpectedEof, OutOfMemory, Other] };

// ---------- writing ----------
#[derive(Clone, Debug)]
enum Fault { None, FailAt(usize, ErrorKind), ZeroAt(usize), FailOnce(usize, ErrorKind) }
struct Dest { got: Vec<u8>, calls: usize, pat: Vec<usize>, intr: u32, fault: Fault, fired: bool }
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let i = self.calls; self.calls += 1;
        if i < 32 && self.intr >> i & 1 == 1 { return Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
        if b.is_empty() { return Ok(0) }
        let mut n = b.len();
        if !self.pat.is_empty() { n = n.min(self.pat[i % self.pat.len()]) }
        let at = match self.fault { Fault::FailAt(k, _) | Fault::ZeroAt(k) => Some(k), Fault::FailOnce(k, _) if !self.fired => Some(k), _ => None };
        if let Some(k) = at {
            if self.got.len() >= k { self.fired = true; return match self.fault { Fault::FailAt(_, e) | Fault::FailOnce(_, e) => Err(Error::new(e, "injected")), _ => Ok(0) } }
            n = n.min(k - self.got.len());
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn dest(pat: &[usize], intr: u32, fault: Fault) -> Dest { Dest { got: vec![], calls: 0, pat: pat.to_vec(), intr, fault, fired: false } }

fn tracks(ch: usize, frames: usize) -> Vec<Vec<f32>> { (0..ch).map(|k| (0..frames).map(|i| ((k * 5 + i * 3 + 1) % 9) as f32 / 8.0 - 0.5).collect()).collect() }

fn c09(c: &mut Ctx) {
    c.section("bad depths", "every 16-bit depth except 8, 16, 24 x 0..=2 frames x 1..=2 channels x clip");
    for blk in 0..256u32 { c.case(|| format!("depths {}..{}", blk * 256, blk * 256 + 256), |r| { for bps in (blk * 256..blk * 256 + 256).map(|b| b as u16) { if [8, 16, 24].contains(&bps) { continue }
        for ch in 1..=2 { for fr in 0..=2 { for clip in [false, true] {
            let mut d = dest(&[], 0, Fault::None);
            let e = write_wav(tracks(ch, fr), bps, &mut d, clip); r.step();
            ensure!(e.is_err(), "depth {} accepted", bps); ensure!(d.got.is_empty(), "depth {}: {} bytes written", bps, d.got.len());
        } } } r.outcome(bps as u64) } Ok(()) }) }
    c.section("bad tracks", "every tuple of 0..=4 track lengths in 0..=3 with a mismatch (or no track), every depth incl. invalid, clip on/off");
    for n in 0..=4usize { words(4, n, |w| { if n > 0 && w.iter().all(|x| *x == w[0]) { return } for bits in [8u16, 16, 24, 0, 32] { for clip in [false, true] {
        c.case(|| format!("track lengths {:?}, {} bit, clip {}", w, bits, clip), |r| {
            let tr: Vec<Vec<f32>> = w.iter().map(|l| vec![0.25; *l]).collect();
            let mut d = dest(&[], 0, Fault::None);
            let e = write_wav(tr, bits, &mut d, clip); r.step(); r.outcome(hash(w));
            ensure!(e.is_err(), "accepted"); ensure!(d.got.is_empty(), "{} bytes written before the error", d.got.len()); Ok(()) }) } } }) }
    let counts: Vec<usize> = c.q((5..=140).collect::<Vec<usize>>(), (5..=600).collect());
    c.section("one track out of many", "5..=140 tracks (thorough 600) and counts around powers of two up to 65535: one track, at every place (beyond 140 tracks: at 12 places), is a frame longer, shorter, empty or far longer than the others, every depth");
    for n in counts.iter().cloned().chain([255usize, 256, 257, 258, 300, 511, 512, 513, 1_000, 1_024, 1_025, 4_096, 10_923, 21_845, 32_767, 32_768, 65_535]) { if n > 140 && n < 255 && !c.thorough { continue }
        let at: Vec<usize> = if n <= 140 { (0..n).collect() } else { let mut v = vec![0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1, 127, 128, 255, 256]; v.retain(|i| *i < n); v };
        for i in at { c.case(|| format!("{} tracks, track {} differs", n, i), |r| { for bits in [8u16, 16, 24] { for (len, odd) in [(2usize, 3usize), (2, 1), (2, 0), (0, 1), (3, 300)] {
            let mut tr = vec![vec![0.25f32; len]; n]; tr[i] = vec![0.25; odd]; let mut d = dest(&[], 0, Fault::None);
            let e = write_wav(tr, bits, &mut d, i % 2 == 0); r.step();
            ensure!(e.is_err(), "{} frames, but {} in track {}: accepted at {} bit", len, odd, i, bits); ensure!(d.got.is_empty(), "{} bytes written before the error", d.got.len()) } } r.outcome(n as u64); r.st(&(n, i)); Ok(()) }) } }
    let kinds = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied];
    let fmax = c.q(7, 12);
    c.section("faults", format!("1..=3 channels x 0..={} frames x depth x every byte offset x (error of kinds {:?}, refusal Ok(0), transient error) x write sizes whole/1/3", fmax, kinds));
    for ch in 1..=3 { for fr in 0..=fmax { for bits in [8u16, 16, 24] {
        let tr = tracks(ch, fr); let want = file(bits, &tr);
        for k in 0..want.len() { for (fi, pat) in [vec![], vec![1], vec![3]].iter().enumerate() {
            let mut fs: Vec<Fault> = kinds.iter().map(|e| Fault::FailAt(k, *e)).collect();
            fs.push(Fault::ZeroAt(k)); fs.push(Fault::FailOnce(k, ErrorKind::Other));
            if fi > 0 { fs.drain(1..kinds.len()); }
            for f in fs { c.case(|| format!("{} ch, {} frames, {} bit, {:?} after {} of {} bytes, write sizes {:?}", ch, fr, bits, f, k, want.len(), pat), |r| {
                let mut d = dest(pat, 0, f.clone());
                let e = write_wav(tr.clone(), bits, &mut d, false);
                r.steps(d.calls as u64); r.st(&(ch, fr, bits, k, d.got.len())); r.outcome(hash(&(&d.got, e.is_ok())));
                ensure!(e.is_err(), "reported success although the destination failed after {} bytes", k);
                ensure!(d.got.len() <= want.len() && d.got[..] == want[..d.got.len()], "wrote {:02x?}, not a prefix of the file", d.got);
                Ok(()) }) }
        } }
    } } }
    c.section("error kinds survive", "the destination's own error is what the caller sees, every offset of one file");
    { let tr = tracks(2, 3); let want = file(16, &tr); for k in 0..want.len() { for e in kinds { c.case(|| format!("{:?} after {} bytes", e, k), |r| { let mut d = dest(&[], 0, Fault::FailAt(k, e)); let x = write_wav(tr.clone(), 16, &mut d, true); r.step(); r.outcome(hash(&(k, format!("{:?}", e)))); ensure!(x.is_err(), "success"); Ok(()) }) } } }
    c.section("every kind of error", format!("1..=2 channels x 1..=3 frames x depth x every byte offset x lasting and passing errors of each of {} kinds x write sizes whole/3 x clip on/off", KINDS.len()));
    for ch in 1..=2 { for fr in 1..=3 { for bits in [8u16, 16, 24] { let tr = tracks(ch, fr); let want = file(bits, &tr); for k in 0..want.len() { for e in KINDS { for (m, pat) in [vec![], vec![3]].iter().enumerate() { for once in [false, true] {
        c.case(|| format!("{} ch, {} frames, {} bit, {} {:?} after {} bytes, write sizes {:?}", ch, fr, bits, if once { "passing" } else { "lasting" }, e, k, pat), |r| {
            let mut d = dest(pat, 0, if once { Fault::FailOnce(k, e) } else { Fault::FailAt(k, e) });
            let x = write_wav(tr.clone(), bits, &mut d, m == 1); r.steps(d.calls as u64); r.outcome(hash(&(k, format!("{:?}", e)))); r.st(&(ch, fr, bits, k));
            ensure!(x.is_err(), "reported success although the destination failed ({:?}) after {} bytes", e, k);
            ensure!(d.got.len() <= want.len() && d.got[..] == want[..d.got.len()], "wrote {:02x?}, not a prefix of the file", d.got);
            Ok(()) }) } } } } } } }
    let d = c.q(5, 6);
    c.section("short writes", format!("1..=3 channels x 0..={} frames x depth x every cyclic pattern of {} write sizes from 1,2,5,44,1000", fmax, d));
    let sz = [1usize, 2, 5, 44, 1000];
    for ch in 1..=3 { for fr in 0..=fmax { for bits in [8u16, 16, 24] { let tr = tracks(ch, fr);
        words(sz.len(), d, |w| c.case(|| format!("{} ch, {} frames, {} bit, write sizes {:?}", ch, fr, bits, w.iter().map(|i| sz[*i]).collect::<Vec<_>>()), |r| {
            let mut o = dest(&w.iter().map(|i| sz[*i]).collect::<Vec<_>>(), 0, Fault::None);
            write_wav(tr.clone(), bits, &mut o, false).map_err(|e| format!("failed: {}", e))?;
            r.steps(o.calls as u64); r.outcome(hash(&o.got)); r.st(&(ch, fr, bits, o.calls));
            same_file(&o.got, bits, &tr) })) } } }
    let nb = c.q(12, 15);
    c.section("interruptions", format!("every subset of the first {} write calls interrupted, write sizes whole/1/7", nb));
    for bits in [8u16, 16, 24] { for pat in [vec![], vec![1], vec![7]] { for m in 0..(1u32 << nb) { let tr = tracks(2, 3);
        c.case(|| format!("{} bit, interrupted calls {:0w$b}, write sizes {:?}", bits, m, pat, w = nb), |r| {
            let mut o = dest(&pat, m, Fault::None);
            write_wav(tr.clone(), bits, &mut o, false).map_err(|e| format!("failed: {}", e))?;
            r.steps(o.calls as u64); r.outcome(hash(&(&o.got, o.calls)));
            same_file(&o.got, bits, &tr) }) } } }
    c.section("many interruptions", "files of 1..=200001 frames written in pieces of 1 (short files), 7, 4095 and 65537 bytes and whole, interrupted before every 1st, 2nd, 3rd, 17th call, once or up to 1000 times in a row: written as if never interrupted"); c.witness();
    for (fr, pats) in [(5usize, vec![1usize, 7, 1 << 30]), (3_000, vec![1, 7, 4_095, 1 << 30]), (200_001, vec![4_095, 65_537, 1 << 30])] { for bits in [8u16, 16, 24] { let tr = tracks(1, fr); for &pat in &pats {
        for (every, row) in [(1usize, 1usize), (2, 1), (3, 2), (17, 1), (5, 40), (usize::max_value(), 1_000), (30, 1_000)] { if fr * bits as usize / 8 / pat / every * row > 400_000 { continue }
            c.case(|| format!("{} frames, {} bit, {} bytes per write, {} interruptions before every {} writes", fr, bits, pat, row, every), |r| {
                struct Often { got: Vec<u8>, pat: usize, every: usize, row: usize, left: usize, n: usize, calls: u64 }
                impl Write for Often { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.calls += 1;
                    if self.left > 0 { self.left -= 1; return Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
                    let n = b.len().min(self.pat); self.got.extend_from_slice(&b[..n]); self.n += 1; if self.n % self.every == 0 { self.left = self.row } Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
                let mut d = Often { got: vec![], pat, every, row, left: row, n: 0, calls: 0 };
                write_wav(tr.clone(), bits, &mut d, false).map_err(|e| format!("failed: {}", e))?; r.steps(d.calls); r.st(&(fr, bits, pat, every, row)); r.outcome(d.got.len() as u64);
                same_file(&d.got, bits, &tr) }) } } } }
    c.section("large files through slow destinations", "200000 frames, write sizes 1, 4095, 65537; failure near the end"); c.witness();
    for pat in [1usize, 4095, 65_537] { for bits in [8u16, 16, 24] { c.case(|| format!("200001 frames, {} bit, {} bytes per write", bits, pat), |r| {
        let tr = tracks(1, 200_001); let want = file(bits, &tr);
        let mut o = dest(&[pat], 0, Fault::None); write_wav(tr.clone(), bits, &mut o, false).map_err(|e| e.to_string())?; r.steps(o.calls as u64); same_file(&o.got, bits, &tr)?;
        for k in [70_000, want.len() - 2, want.len() - 1] { let mut o = dest(&[pat], 0, Fault::FailAt(k, ErrorKind::Other)); ensure!(write_wav(tr.clone(), bits, &mut o, false).is_err(), "success although byte {} failed", k); ensure!(o.got[..] == want[..o.got.len()], "not a prefix"); r.steps(o.calls as u64) }
        Ok(()) }) } }
}

// ---------- reading ----------
struct Src<'a> { b: &'a [u8], pos: usize, pat: Vec<usize>, calls: usize, intr: u32, fail: Option<(usize, ErrorKind)> }
impl<'a> Read for Src<'a> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let i = self.calls; self.calls += 1;
        if i < 32 && self.intr >> i & 1 == 1 { return Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
        if o.is_empty() { return Ok(0) }
        let mut n = o.len().min(self.b.len() - self.pos);
        if !self.pat.is_empty() { n = n.min(self.pat[i % self.pat.len()]) }
        if let Some((k, e)) = self.fail { if self.pos >= k { return Err(Error::new(e, "injected")) } n = n.min(k - self.pos) }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]); self.pos += n;
        Ok(n)
    }
}
fn src(b: &[u8]) -> Src { Src { b, pos: 0, pat: vec![], calls: 0, intr: 0, fail: None } }

#[derive(Debug)]
struct Parsed { tracks: Vec<Vec<f64>>, rate: u32, bits: u16, ch: u16, well_formed: bool }
/// Reference parser. None: must be rejected. Some with well_formed=false: may be rejected, but if accepted it must be this.
fn parse(b: &[u8]) -> Option<Parsed> {
    if b.len() < 12 || &b[..4] != b"RIFF" || &b[8..12] != b"WAVE" { return None }
    let u32a = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize;
    let u16a = |o: usize| u16::from_le_bytes([b[o], b[o + 1]]);
    let mut wf = u32a(4) + 8 == b.len();
    let (mut fmt, mut data) = (None, None);
    let mut o = 12;
    while o + 8 <= b.len() {
        let (id, len) = (&b[o..o + 4], u32a(o + 4));
        let end = o + 8 + len;
        if end > b.len() { wf = false; break }
        if id == b"fmt " && fmt.is_none() && len >= 16 { fmt = Some(o + 8); if len != 16 { wf = false } }
        if id == b"data" && data.is_none() { data = Some((o + 8, end)); }
        o = end + len % 2;
        if o > b.len() { wf = false }
    }
    if o != b.len() { wf = false }
    let (f, (s, e)) = (fmt?, data?);
    let (af, ch, rate, bits) = (u16a(f), u16a(f + 2), u32::from_le_bytes([b[f + 4], b[f + 5], b[f + 6], b[f + 7]]), u16a(f + 14));
    if af != 1 || ch == 0 || ![8, 16, 24].contains(&bits) { return None }
    let n = bits as usize / 8;
    if u16a(f + 12) as usize != n * ch as usize || u32a(f + 8) != (rate as usize * n * ch as usize) { wf = wf && true }
    if (e - s) % (n * ch as usize) != 0 { wf = false }
    let mut tracks = vec![vec![]; ch as usize];
    for (i, w) in b[s..e].chunks_exact(n).enumerate() {
        let c = match bits { 8 => w[0] as i32, 16 => i16::from_le_bytes([w[0], w[1]]) as i32, _ => (i32::from_le_bytes([w[0], w[1], w[2], 0]) << 8) >> 8 };
        tracks[i % ch as usize].push(decode_code(bits, c));
    }
    Some(Parsed { tracks, rate, bits, ch, well_formed: wf })
}
fn agrees(p: &Parsed, h: &wav::Header, t: &[Vec<f32>]) -> Res {
    ensure!(h.channel_count == p.ch && h.sampling_rate == p.rate && h.bits_per_sample == p.bits && h.audio_format == 1, "header reported as {:?}", h);
    ensure!(t.len() == p.tracks.len(), "{} tracks reported, file has {}", t.len(), p.tracks.len());
    for (k, (a, b)) in t.iter().zip(&p.tracks).enumerate() {
        ensure!(a.len() == b.len(), "track {} has {} samples, file has {}", k, a.len(), b.len());
        for (i, (x, y)) in a.iter().zip(b).enumerate() { ensure!(close(*x as f64, *y, 2e-7), "track {} sample {} is {}, file has {}", k, i, x, y) }
    }
    Ok(())
}
/// Reads `s` (whose bytes are `b`) and judges the result against the reference parser.
fn judge(r: &mut Run, b: &[u8], mut s: Src, source_fails: bool) -> Res {
    // known endless loop in the wav crate: zero channels with 16/24-bit data; run it where it can be stopped
    if b.len() >= 36 && b[22] == 0 && b[23] == 0 && !source_fails {
        let mut v = Err("".to_string());
        for _ in 0..2 { let bb = b.to_vec(); v = forked(2000, move || read_wav(&mut &bb[..]).is_err()); if v != Err("hang".into()) { break } }
        r.step(); r.outcome(hash(&format!("{:?}", v)));
        if v == Err("hang".into()) { r.key = Some("hang:zero-channels".into()) }
        ensure!(v == Ok(true), "reading a file with zero channels: {:?}", v);
        return Ok(());
    }
    let res = read_wav(&mut s);
    r.steps(s.calls as u64);
    match res {
        Err(_) => {
            r.outcome(0);
            if source_fails { return Ok(()) }
            if let Some(p) = parse(b) { ensure!(!p.well_formed, "a well-formed file was rejected") }
            Ok(())
        }
        Ok((h, t)) => {
            r.outcome(hash(&t.iter().map(|t| t.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>()));
            match parse(b) {
                None => Err(format!("accepted although it is not a readable PCM WAV file; header {:?}, {} tracks", h, t.len())),
                Some(p) => { agrees(&p, &h, &t)?; ensure!(!source_fails || s.pos >= s.b.len() - 1, "success although the source failed after {} bytes", s.pos); Ok(()) }
            }
        }
    }
}
fn sample_file(ch: u16, bits: u16, frames: usize) -> Vec<u8> {
    let full = 1i64 << bits;
    let cs: Vec<i32> = (0..frames * ch as usize).map(|i| { let v = (i as i64 * 2_654_435_761 + 12_345).rem_euclid(full); (if bits == 8 { v } else { v - full / 2 }) as i32 }).collect();
    encode(ch, bits, 44_100, &cs)
}

fn c10(c: &mut Ctx) {
    let fmax = c.q(4, 8);
    c.section("split reads", format!("1..=3 channels x 0..={} frames x depth x every cyclic pattern of 4 read sizes from 1,2,3,16,1000", fmax));
    let sz = [1usize, 2, 3, 16, 1000];
    for ch in 1..=3u16 { for fr in 0..=fmax { for bits in [8u16, 16, 24] { let b = sample_file(ch, bits, fr);
        words(sz.len(), 4, |w| c.case(|| format!("{} ch, {} frames, {} bit, read sizes {:?}", ch, fr, bits, w.iter().map(|i| sz[*i]).collect::<Vec<_>>()), |r| {
            r.st(&(ch, fr, bits));
            let mut s = src(&b); s.pat = w.iter().map(|i| sz[*i]).collect(); judge(r, &b, s, false) })) } } }
    let nb = c.q(12, 16);
    c.section("interrupted reads", format!("every subset of the first {} read calls interrupted, whole and single-byte reads", nb));
    for bits in [8u16, 16, 24] { for pat in [vec![], vec![1]] { for m in 0..(1u32 << nb) { let b = sample_file(2, bits, 3);
        c.case(|| format!("{} bit, interrupted calls {:0w$b}, read sizes {:?}", bits, m, pat, w = nb), |r| { let mut s = src(&b); s.intr = m; s.pat = pat.clone(); judge(r, &b, s, false) }) } } }
    c.section("truncated", format!("every proper prefix of every file with 1..=3 channels, 0..={} frames, each depth", fmax));
    for ch in 1..=3u16 { for fr in 0..=fmax { for bits in [8u16, 16, 24] { let b = sample_file(ch, bits, fr); for k in 0..b.len() {
        c.case(|| format!("{} ch, {} frames, {} bit cut to {} of {} bytes", ch, fr, bits, k, b.len()), |r| {
            r.st(&(ch, fr, bits, k));
            let pad = b.len() - 1 == k && (fr * ch as usize * bits as usize / 8) % 2 == 1;
            match read_wav(&mut src(&b[..k])) { Err(_) => { r.step(); r.outcome(k as u64); Ok(()) } Ok((h, t)) => { ensure!(pad, "truncated file read as {:?}, {} tracks", h, t.len()); agrees(&parse(&b).unwrap(), &h, &t) } } }) } } } }
    let kinds = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::WouldBlock];
    c.section("failing sources", format!("every byte offset x kinds {:?} x whole/single-byte reads", kinds));
    for ch in 1..=2u16 { for fr in [0usize, 1, 3] { for bits in [8u16, 16, 24] { let b = sample_file(ch, bits, fr); for k in 0..b.len() { for e in kinds { for pat in [vec![], vec![1]] {
        c.case(|| format!("{} ch, {} frames, {} bit: {:?} after {} bytes, read sizes {:?}", ch, fr, bits, e, k, pat), |r| { let mut s = src(&b); s.fail = Some((k, e)); s.pat = pat.clone(); judge(r, &b, s, true) }) } } } } } }
    c.section("every kind of error", format!("1..=2 channels x 0, 1, 3, 20 frames x depth x every byte offset x each of {} kinds of error x read sizes whole/1/7; errors made by kind alone and with a message", KINDS.len()));
    for ch in 1..=2u16 { for fr in [0usize, 1, 3, 20] { for bits in [8u16, 16, 24] { let b = sample_file(ch, bits, fr); for k in 0..b.len() { for e in KINDS { for pat in [vec![], vec![1], vec![7]] {
        c.case(|| format!("{} ch, {} frames, {} bit: {:?} after {} bytes, read sizes {:?}", ch, fr, bits, e, k, pat), |r| { let mut s = src(&b); s.fail = Some((k, e)); s.pat = pat.clone(); judge(r, &b, s, true) }) } } } } } }
    c.section("corrupted bytes", "every byte of the 44-byte header (and the first data bytes) set to every value, 1 and 2 channels, each depth");
    for ch in 1..=2u16 { for bits in [8u16, 16, 24] { let b = sample_file(ch, bits, 4); for k in 0..50.min(b.len()) { for v in 0..=255u8 { if b[k] == v { continue }
        let mut m = b.clone(); m[k] = v;
        c.case(|| format!("{} ch, {} bit: byte {} set to {:#04x}", ch, bits, k, v), |r| { r.st(&(ch, bits, k, v)); judge(r, &m, src(&m), false) }) } } } }
    c.section("corrupted fields", "every pair of header fields set to boundary values, each depth");
    let fields: [(usize, usize); 10] = [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 2), (22, 2), (34, 2), (36, 4), (40, 4)];
    let vals: [u32; 22] = [0, 1, 2, 3, 7, 8, 15, 16, 18, 24, 32, 40, 255, 256, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFF8, 0xFFFF_FFFF, 0x6174_6164, 0x5453_494C];
    for bits in [8u16, 16, 24] { let b = sample_file(1, bits, 4); for i in 0..fields.len() { for j in i + 1..fields.len() { for v in vals { for w in vals {
        let mut m = b.clone();
        for (f, x) in [(fields[i], v), (fields[j], w)] { for q in 0..f.1 { m[f.0 + q] = (x >> (8 * q)) as u8 } }
        c.case(|| format!("{} bit: field at {} = {}, field at {} = {}", bits, fields[i].0, v, fields[j].0, w), |r| {
            // zero-channel 16/24-bit files loop for ever in the wav crate: covered one by one in the previous section
            if m[22] == 0 && m[23] == 0 { return Ok(()) }
            judge(r, &m, src(&m), false) }) } } } } }
    c.section("extra chunks", "an unknown chunk of 0..=5 bytes before fmt, between fmt and data, or after data; LIST likewise; well-formed files");
    for bits in [8u16, 16, 24] { for ch in 1..=2u16 { for place in 0..3 { for len in 0..=5usize { for list in [false, true] {
        c.case(|| format!("{} bit, {} ch, {} chunk of {} bytes {}", bits, ch, if list { "LIST" } else { "JUNK" }, len, ["before fmt", "between fmt and data", "after data"][place]), |r| {
            let base = sample_file(ch, bits, 4);
            let mut x: Vec<u8> = vec![];
            if list { x.extend(b"LIST"); x.extend(4u32.to_le_bytes()); x.extend(b"INFO"); if len > 0 { return Ok(()) } }
            else { x.extend(b"JUNK"); x.extend((len as u32).to_le_bytes()); x.extend((0..len as u8).map(|i| i + 65)); if len % 2 == 1 { x.push(0) } }
            let mut b = base.clone();
            let at = [12, 36, base.len()][place];
            b.splice(at..at, x.iter().copied());
            let sz = (b.len() - 8) as u32; b[4..8].copy_from_slice(&sz.to_le_bytes());
            let p = parse(&base).unwrap();
            match guarded(|| read_wav(&mut src(&b))) {
                Ok(Ok((h, t))) => { r.step(); r.outcome(hash(&(bits, ch, t.len(), t[0].len())));
                    let a = agrees(&p, &h, &t);
                    if a.is_err() && place < 2 { r.key = Some("wav-0.3-reads-second-chunk".into()) }
                    a }
                Ok(Err(e)) => { if place < 2 { r.key = Some("wav-0.3-reads-second-chunk".into()) } Err(format!("rejected: {}", e)) }
                Err((l, m)) => { if place < 2 && l.contains("wav-0.3") { r.key = Some("wav-0.3-reads-second-chunk".into()) } Err(format!("panicked at {}: {}", l, m)) }
            } }) } } } } }
    c.section("chunk names", "an extra chunk whose name is one byte away from data or fmt, is the same letters in another order or case, or is RIFF, WAVE, RIFX or zeros, holding what could be a format or samples, before fmt, between fmt and data, after data, each depth: skipped");
    let mut names: Vec<[u8; 4]> = vec![*b"DATA", *b"Data", *b"FMT ", *b"Fmt ", *b"atad", *b" tmf", *b" fmt", *b"tada", *b"RIFF", *b"WAVE", *b"RIFX", *b"LIST", [0; 4], [255; 4]];
    for base in [b"data", b"fmt "] { for i in 0..4 { for v in 0..=255u8 { let mut n = *base; n[i] = v; if n != *base { names.push(n) } } } }
    for bits in [8u16, 16, 24] { for place in [12usize, 36, 999] { for n in &names { for len in [16u8, 13] {
        c.case(|| format!("{} bit, chunk {:?} of {} bytes at {}", bits, n, len, place), |r| {
            let base = sample_file(1, bits, 4); let mut b = base.clone(); let mut x = n.to_vec(); x.extend((len as u32).to_le_bytes()); x.extend([1u8, 0, 2, 0, 0x80, 0xBB, 0, 0, 0, 0xEE, 2, 0, 4, 0, 16, 0].iter().take(len as usize)); if len % 2 == 1 { x.push(0) }
            let at = place.min(base.len()); b.splice(at..at, x); let sz = (b.len() - 8) as u32; b[4..8].copy_from_slice(&sz.to_le_bytes());
            r.st(&(bits, place, n, len)); judge(r, &b, src(&b), false) }) } } } }
    c.section("many interruptions", "files of 1..=200001 frames read in pieces of 1 (short files), 7, 4095 and 65537 bytes and whole, every, every 2nd, 3rd, 17th call interrupted, or up to 1000 calls in a row at one place: read as if never interrupted"); c.witness();
    for (fr, pats) in [(5usize, vec![1usize, 7, 1 << 30]), (3_000, vec![1, 7, 4_095, 1 << 30]), (200_001, vec![4_095, 65_537, 1 << 30])] { for bits in [8u16, 16, 24] { let b = sample_file(1, bits, fr); for &pat in &pats {
        for (every, row) in [(1usize, 1usize), (2, 1), (3, 2), (17, 1), (5, 40), (usize::max_value(), 1_000), (30, 1_000)] { if b.len() / pat / every * row > 400_000 { continue }
            c.case(|| format!("{} frames, {} bit, {} bytes per read, {} interruptions before every {} reads", fr, bits, pat, row, every), |r| {
                struct Often<'a> { b: &'a [u8], pos: usize, pat: usize, every: usize, row: usize, left: usize, n: usize, calls: u64 }
                impl<'a> Read for Often<'a> { fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> { self.calls += 1;
                    if self.left > 0 { self.left -= 1; return Err(Error::new(ErrorKind::Interrupted, "interrupted")) }
                    let n = o.len().min(self.pat).min(self.b.len() - self.pos); o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]); self.pos += n; self.n += 1; if self.n % self.every == 0 { self.left = self.row } Ok(n) } }
                let mut s = Often { b: &b, pos: 0, pat, every, row, left: row, n: 0, calls: 0 };
                let (h, t) = read_wav(&mut s).map_err(|e| format!("failed: {}", e))?; r.steps(s.calls); r.st(&(fr, bits, pat, every, row));
                agrees(&parse(&b).unwrap(), &h, &t) }) } } } }
    c.section("long extra chunks", "a JUNK chunk of 2^k + m bytes (k = 3..=21, m in -1, 0, 1) before fmt, between fmt and data, after data, each depth; whole reads and reads of 4095 bytes"); c.witness();
    for bits in [8u16, 16, 24] { for place in [12usize, 36, 999] { for k in 3..=21u32 { for m in [-1i64, 0, 1] { for pat in [vec![], vec![4_095]] { let len = ((1i64 << k) + m) as usize;
        c.case(|| format!("{} bit, JUNK chunk of {} bytes at {}, read sizes {:?}", bits, len, place, pat), |r| {
            let base = sample_file(2, bits, 4); let mut b = base.clone(); let mut x: Vec<u8> = b"JUNK".to_vec(); x.extend((len as u32).to_le_bytes()); x.extend((0..len).map(|i| (i * 7 + 3) as u8)); if len % 2 == 1 { x.push(0) }
            let at = place.min(base.len()); b.splice(at..at, x); let sz = (b.len() - 8) as u32; b[4..8].copy_from_slice(&sz.to_le_bytes());
            let mut s = src(&b); s.pat = pat.clone(); r.st(&(bits, place, len)); judge(r, &b, s, false) }) } } } } }
    c.section("many extra chunks", "1..=40 and around powers of two up to 4097 chunks (JUNK, cue, fact, of 0..=5 bytes) before fmt, between fmt and data, after data, each depth"); c.witness();
    for bits in [8u16, 16, 24] { for place in [12usize, 36, 999] { for n in (1..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 1_000, 1_024, 4_097]) {
        c.case(|| format!("{} bit, {} extra chunks at {}", bits, n, place), |r| {
            let base = sample_file(1, bits, 4); let mut b = base.clone(); let mut x: Vec<u8> = vec![];
            for i in 0..n { x.extend([b"JUNK", b"cue ", b"fact"][i % 3]); let len = i * 7 % 6; x.extend((len as u32).to_le_bytes()); x.extend((0..len).map(|i| i as u8 + 65)); if len % 2 == 1 { x.push(0) } }
            let at = place.min(base.len()); b.splice(at..at, x); let sz = (b.len() - 8) as u32; b[4..8].copy_from_slice(&sz.to_le_bytes());
            r.st(&(bits, place, n)); judge(r, &b, src(&b), false) }) } } }
    c.section("two extra chunks after the data", "every pair of chunks (JUNK or cue of 0..=5 bytes, LIST) after the data chunk, 8/16/24 bit, 1..=3 channels, even and odd data; whole and single-byte reads");
    let extra = |k: usize| -> Vec<u8> { let mut x: Vec<u8> = vec![]; if k == 12 { x.extend(b"LIST"); x.extend(4u32.to_le_bytes()); x.extend(b"INFO") } else { let len = k % 6; x.extend(if k < 6 { b"JUNK" } else { b"cue " }); x.extend((len as u32).to_le_bytes()); x.extend((0..len as u8).map(|i| i + 65)); if len % 2 == 1 { x.push(0) } } x };
    for bits in [8u16, 16, 24] { for ch in 1..=3u16 { for fr in [3usize, 4] { for k in 0..13 { for l in 0..13 { for pat in [vec![], vec![1]] {
        c.case(|| format!("{} bit, {} ch, {} frames, extra chunks {} and {}, read sizes {:?}", bits, ch, fr, k, l, pat), |r| {
            let mut b = sample_file(ch, bits, fr); b.extend(extra(k)); b.extend(extra(l));
            let sz = (b.len() - 8) as u32; b[4..8].copy_from_slice(&sz.to_le_bytes());
            let mut s = src(&b); s.pat = pat.clone(); judge(r, &b, s, false) }) } } } } } }
    c.section("fmt chunk sizes", "fmt chunks of 16..=40 bytes (extension bytes zero or 0xFF), each depth, 1 and 2 channels, sizes corrected");
    for bits in [8u16, 16, 24] { for ch in 1..=2u16 { for ext in 0..=24usize { for fill in [0u8, 255] {
        c.case(|| format!("{} bit, {} ch, fmt chunk of {} bytes", bits, ch, 16 + ext), |r| {
            let mut b = sample_file(ch, bits, 4); let mut x = vec![fill; ext]; if ext % 2 == 1 { x.push(0) }
            b[16..20].copy_from_slice(&(16 + ext as u32).to_le_bytes()); b.splice(36..36, x);
            let sz = (b.len() - 8) as u32; b[4..8].copy_from_slice(&sz.to_le_bytes());
            judge(r, &b, src(&b), false) }) } } } }
    c.section("bytes after the end", "1..=16 bytes (zeros, 0xFF, a chunk header) after a complete file");
    for bits in [8u16, 16, 24] { for ch in 1..=2u16 { for n in 1..=16usize { for fill in 0..3 {
        c.case(|| format!("{} bit, {} ch, {} bytes of kind {}", bits, ch, n, fill), |r| {
            let mut b = sample_file(ch, bits, 4); b.extend((0..n).map(|i| match fill { 0 => 0, 1 => 255, _ => b"data\x04\0\0\0abcdefgh"[i] }));
            let (full, p) = (b.clone(), parse(&b[..b.len() - n]).unwrap());
            match read_wav(&mut src(&full)) { Err(_) => Ok(()), Ok((h, t)) => { r.step(); agrees(&p, &h, &t) } } }) } } } }
    c.section("large files", "200001 frames, 1..=3 channels, each depth: read sizes whole, 1, 4095 and 65537; cut, and failing, at places throughout"); c.witness();
    for ch in 1..=3u16 { for bits in [8u16, 16, 24] { for pat in [0usize, 1, 4_095, 65_537] {
        c.case(|| format!("{} ch, {} bit, read sizes {}", ch, bits, pat), |r| {
            let b = sample_file(ch, bits, 200_001); let p = if pat == 0 { vec![] } else { vec![pat] };
            let mut s = src(&b); s.pat = p.clone(); judge(r, &b, s, false)?;
            for k in [43usize, 44, 45, 1_000, 4_096, 65_536, 65_537, 100_000, b.len() / 2, b.len() - 2] {
                let mut s = src(&b); s.pat = p.clone(); s.fail = Some((k, ErrorKind::Other)); judge(r, &b, s, true)?;
                let mut s = src(&b[..k]); s.pat = p.clone(); ensure!(read_wav(&mut s).is_err(), "accepted although only {} of {} bytes are there", k, b.len()); r.step();
            }
            Ok(()) }) } } }
    c.section("wide files", "every channel count 1..=300 and counts around the powers of two up to the most the header can hold (65535 bytes per frame), 0..=3 frames, each depth");
    for bits in [8u16, 16, 24] { let most = 65_535 / (bits / 8);
        let more = (8..16).flat_map(|k| { let p = 1u32 << k; [p - 2, p - 1, p, p + 1, p + 2] }).chain([10_922, 10_923, 21_845, 21_846, 32_767, 65_534, 65_535]).filter(|n| *n > 300);
        for ch in (1..=300u32).chain(more) { if ch > most as u32 { continue } for fr in 0..=3usize { c.case(|| format!("{} channels of {} frames, {} bit", ch, fr, bits), |r| { let b = sample_file(ch as u16, bits, fr); r.st(&(ch, fr, bits)); judge(r, &b, src(&b), false) }) } } }
    c.section("sampling rates", "1..=1000 Hz, 2^k and 2^k +- 1 Hz up to 2^32 - 1, the usual rates, 1..=2 channels, each depth: reported as they are, samples unchanged");
    for rate in (1..=1000u32).chain((10..=28).flat_map(|k| { let p = 1u32 << k; [p - 1, p, p + 1] })).chain([(1 << 29) - 1, 1 << 29, (1 << 30) + 1, 1 << 31, (1 << 31) + 1, u32::max_value() - 1, u32::max_value()]).chain([11_025, 22_050, 44_100, 48_000, 88_200, 96_000, 176_400, 192_000]) { for bits in [8u16, 16, 24] { for ch in 1..=2u16 {
        c.case(|| format!("{} Hz, {} channels, {} bit", rate, ch, bits), |r| { let mut b = sample_file(ch, bits, 3); b[24..28].copy_from_slice(&rate.to_le_bytes()); let br = rate.wrapping_mul(ch as u32 * bits as u32 / 8); b[28..32].copy_from_slice(&br.to_le_bytes()); r.st(&(rate, bits, ch)); judge(r, &b, src(&b), false) }) } } }
    c.section("every code in every track", "all 256 8-bit codes, 16-bit codes and 24-bit codes at every 257th (thorough every) value, in files of 1..=5 channels");
    for bits in [8u16, 16, 24] { for ch in 1..=5u16 { let (n, st) = match bits { 8 => (256usize, 1usize), 16 => (65_536, 1), _ => (1 << 24, c.q(257, 5)) };
        c.case(|| format!("{} bit, {} channels", bits, ch), |r| { let mut cs: Vec<i32> = (0..n).step_by(st).map(|v| if bits == 8 { v as i32 } else { (v as i64 - (n / 2) as i64) as i32 }).collect(); while cs.len() % ch as usize != 0 { cs.push(1) } let b = encode(ch, bits, 8_000, &cs); r.steps(cs.len() as u64); judge(r, &b, src(&b), false) }) } }
    c.section("odd data lengths", "data chunk of every length 0..=13 for 1..=3 channels, each depth (partial frames)");
    for ch in 1..=3u16 { for bits in [8u16, 16, 24] { for n in 0..=13usize { let b = wrap(ch, bits, 44_100, &(0..n as u8).map(|i| i * 17 + 3).collect::<Vec<_>>());
        c.case(|| format!("{} ch, {} bit, {} data bytes", ch, bits, n), |r| judge(r, &b, src(&b), false)) } } }
    c.section("short inputs", "every input of length 0..=2 over 256 values, and RIFF/WAVE stubs"); 
    for n in 0..=2usize { words(256, n, |w| { let b: Vec<u8> = w.iter().map(|x| *x as u8).collect(); c.case(|| format!("{:02x?}", b), |r| judge(r, &b, src(&b), false)) }) }
    c.section("nesting", "LIST chunks nested 10 and 200000 deep"); c.witness();
    for d in [10usize, 200_000] { c.case(|| format!("{} nested LIST chunks", d), |r| {
        let mut b = vec![]; b.extend(b"RIFF"); b.extend(((d * 12) as u32 + 4).to_le_bytes()); b.extend(b"WAVE");
        for i in 0..d { b.extend(b"LIST"); b.extend((((d - i - 1) * 12) as u32 + 4).to_le_bytes()); b.extend(b"INFO") }
        let v = forked(20_000, move || read_wav(&mut &b[..]).is_err());
        r.step(); r.outcome(hash(&format!("{:?}", v)));
        if matches!(&v, Err(e) if e.starts_with("signal")) { r.key = Some("abort:nested-list".into()) }
        ensure!(v == Ok(true), "{:?}", v); Ok(()) }) }
}
