From bb6485069edabd0bccb95940e126ab087a6ba716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:18 +0000
Subject: [PATCH 01/24] fix: keep the resampler position in double precision

A single-precision position stalls on long tracks, drifts at rates that are not
dyadic, and rounding in ind+1 could index past the end of the track.
---
 src/utils/mono_resampler.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 39b9759..7020ef9 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -7,14 +7,14 @@ use super::*;
 use sample_format::{SampleFormat, MonoTrackT};
 
 /// Type used for fractional indexing.
-type IndexT = SampleT;
+type IndexT = MathT;
 
 /// Struct tracking all of the data required for resampling, with some extra
 /// features like playback speed and looping.
 pub struct MonoResampler {
     data: MonoTrackT,
     ind: IndexT,
-    inc: SampleT,
+    inc: MathT,
     speed: MathT,
     loop_start: usize,
     loop_end: usize,
@@ -39,7 +39,7 @@ impl MonoResampler {
         MonoResampler {
             data,
             ind: 0.0,
-            inc: (source_sample_rate as MathT * INV_SAMPLE_RATE) as SampleT,
+            inc: source_sample_rate * INV_SAMPLE_RATE,
             speed: 1.0,
             loop_start,
             loop_end,
@@ -67,7 +67,7 @@ impl MonoResampler {
         } else if self.ind.trunc() as usize + 1 >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[(self.ind + 1.0).trunc() as usize].into_sample()
+            self.data[self.ind.trunc() as usize + 1].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
@@ -75,7 +75,7 @@ impl MonoResampler {
 
         let y = x1 + self.ind.fract() as SampleT * (x2 - x1);
 
-        self.ind += self.inc * self.speed as SampleT;
+        self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
             self.ind -= (self.loop_end - self.loop_start) as IndexT;
-- 
2.43.0


From e23eb1d7b0b3bdf3ae978dddae4beb9c415b6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:40 +0000
Subject: [PATCH 02/24] fix: wrap looped playback at the loop end, not the
 track end

The seam interpolated towards the wrong sample, one subtraction was not enough
when a step is longer than the loop, loop ends beyond the track indexed out of
bounds, and equal loop points panicked at the end of the track.
---
 src/utils/mono_resampler.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/utils/mono_resampler.rs b/src/utils/mono_resampler.rs
index 7020ef9..be4de34 100644
--- a/src/utils/mono_resampler.rs
+++ b/src/utils/mono_resampler.rs
@@ -30,12 +30,20 @@ impl MonoResampler {
     /// * `loop_start` - The start point of looping.
     /// * `loop_end` - The end point of looping. If this value is 0, no looping is assumed.
     /// 
-    /// If `loop_end` is less than `loop_start`, they are swapped.
+    /// If `loop_end` is less than `loop_start`, they are swapped. A `loop_end`
+    /// beyond the end of the track is treated as the end of the track, and equal
+    /// loop points disable looping.
     pub fn new(data:MonoTrackT, source_sample_rate: MathT, mut loop_start: usize, mut loop_end: usize) -> Self {
         if loop_end < loop_start {
             std::mem::swap(&mut loop_start, &mut loop_end);
         }
 
+        loop_end = loop_end.min(data.len());
+        if loop_start >= loop_end {
+            loop_start = 0;
+            loop_end = 0;
+        }
+
         MonoResampler {
             data,
             ind: 0.0,
@@ -62,12 +70,13 @@ impl MonoResampler {
             return SampleT::default();
         }
 
-        let p1: SampleT = if self.ind.trunc() as usize + 1 >= self.data.len() && self.loop_end != 0 {
-            self.data[(self.ind - (self.loop_end - self.loop_start) as IndexT) as usize].into_sample()
-        } else if self.ind.trunc() as usize + 1 >= self.data.len() {
+        let next = self.ind.trunc() as usize + 1;
+        let p1: SampleT = if self.loop_end != 0 && next >= self.loop_end {
+            self.data[self.loop_start].into_sample()
+        } else if next >= self.data.len() {
             self.data[self.ind.trunc() as usize].into_sample()
         } else {
-            self.data[self.ind.trunc() as usize + 1].into_sample()
+            self.data[next].into_sample()
         };
 
         let x1: SampleT = self.data[self.ind.trunc() as usize].into_sample();
@@ -78,7 +87,9 @@ impl MonoResampler {
         self.ind += self.inc * self.speed;
 
         if self.ind >= self.loop_end as IndexT && self.loop_end != 0 {
-            self.ind -= (self.loop_end - self.loop_start) as IndexT;
+            let start = self.loop_start as IndexT;
+            let len = (self.loop_end - self.loop_start) as IndexT;
+            self.ind = start + (self.ind - start) % len;
         }
 
         y
-- 
2.43.0


From f08b01d232e66f0307e872f3452615b64a951ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:02 +0000
Subject: [PATCH 03/24] fix: Mono subtraction added its operands

---
 src/sample_format/mono.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mono.rs b/src/sample_format/mono.rs
index a473592..83a0903 100644
--- a/src/sample_format/mono.rs
+++ b/src/sample_format/mono.rs
@@ -86,7 +86,7 @@ impl Sub<Mono> for Mono {
 
     fn sub(self, rhs: Mono) -> Self {
         Mono {
-            mono: self.mono + rhs.mono
+            mono: self.mono - rhs.mono
         }
     }
 }
-- 
2.43.0


From b96e018b5723157eadce997645cb0ffad6c12d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 04/24] fix: Stereo::into_sample returned twice the sample it
 was made from

---
 src/sample_format/stereo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index 65eb571..a0478a3 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -50,7 +50,7 @@ impl SampleFormat for Stereo
     }
 
     fn into_sample(self) -> SampleT {
-        (self.left + self.right)/SampleT::sqrt(0.5)
+        (self.left + self.right) * SampleT::sqrt(0.5)
     }
 
     fn num_samples() -> usize {
-- 
2.43.0


From 95f9c251caf4705ebe6be32bd64e16b4c9388d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:05 +0000
Subject: [PATCH 05/24] fix: Stereo *= MathT rounded the factor to single
 precision first

---
 src/sample_format/stereo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index a0478a3..d1bee10 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -192,8 +192,8 @@ impl std::ops::Mul<MathT> for Stereo {
 }
 impl std::ops::MulAssign<MathT> for Stereo {
     fn mul_assign(&mut self, rhs: MathT) {
-        self.left *= rhs as SampleT;
-        self.right *= rhs as SampleT;
+        self.left = (self.left as MathT * rhs) as SampleT;
+        self.right = (self.right as MathT * rhs) as SampleT;
     }
 }
 
-- 
2.43.0


From 89e0e4d01dbbcd785594a680df1ad6910f50c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:07 +0000
Subject: [PATCH 06/24] fix: Stereo panning law was inverted between centre and
 full pan

---
 src/sample_format/stereo.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sample_format/stereo.rs b/src/sample_format/stereo.rs
index d1bee10..e54e7e8 100644
--- a/src/sample_format/stereo.rs
+++ b/src/sample_format/stereo.rs
@@ -65,14 +65,14 @@ impl SampleFormat for Stereo
 impl Panner<f32> for Stereo {
     fn to_sample_format(s: SampleT, g: f32) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
@@ -84,14 +84,14 @@ impl Panner<f32> for Stereo {
 impl Panner<f64> for Stereo {
     fn to_sample_format(s: SampleT, g: f64) -> Self {
         let l_lerp = if g <= 0.0 {
-            utils::clerp(g as MathT, -1.0, 0.0, -3.0, -120.0)
+            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
         } else {
-            utils::clerp(g as MathT, 0.0, 1.0, 0.0, -3.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
         };
         let r_lerp = if g >= 0.0 {
-            utils::clerp(g as MathT, 0.0, 1.0, -3.0, -120.0)
+            utils::clerp(g as MathT, 0.0, 1.0, -3.0, 0.0)
         } else {
-            utils::clerp(g as MathT, -1.0, 0.0, 0.0, -3.0)
+            utils::clerp(g as MathT, -1.0, 0.0, -120.0, -3.0)
         };
 
         Stereo {
-- 
2.43.0


From dac8f9a99c2ed411899cf68191d9f2c1e0082d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:09 +0000
Subject: [PATCH 07/24] fix: sign-extend 24-bit samples and ignore their upper
 byte

Negative samples read from 24-bit data decoded as positive values above 1.
---
 src/sample_format/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index abd2375..b471c34 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -136,11 +136,11 @@ pub fn sample_to_i16_bytes(s: SampleT) -> [u8; 2] {
 
 /// Converts an i32 24-bit sample to a `SampleT`.
 pub fn sample_from_i24(v: i32) -> SampleT {
-    v as SampleT / ((1 << 23) as SampleT - 1.0)
+    ((v << 8) >> 8) as SampleT / ((1 << 23) as SampleT - 1.0)
 }
 /// Converts raw bytes to a `SampleT`.
 pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
-    (i32::from_le_bytes([v[0],v[1],v[2],0]) as SampleT) / ((1 << 23) as SampleT - 1.0)
+    sample_from_i24(i32::from_le_bytes([v[0],v[1],v[2],0]))
 }
 
 /// Converts a `SampleT` to an `i24`.
-- 
2.43.0


From ae6d54dc2b0f84e1544129e8e4ed27713b773edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:10 +0000
Subject: [PATCH 08/24] fix: encode 24-bit samples to the nearest code

The single-precision product was rounded to a half step before being rounded
to a code, so about half of the samples above 0.5 were off by one.
---
 src/sample_format/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sample_format/mod.rs b/src/sample_format/mod.rs
index b471c34..037495e 100644
--- a/src/sample_format/mod.rs
+++ b/src/sample_format/mod.rs
@@ -145,7 +145,7 @@ pub fn sample_from_i24_bytes(v:[u8;3]) -> SampleT {
 
 /// Converts a `SampleT` to an `i24`.
 pub fn sample_to_i24(s: SampleT) -> i32 {
-    (s * ((1<<23) as SampleT - 1.0)).round() as i32
+    (s as MathT * ((1<<23) as MathT - 1.0)).round() as i32
 }
 /// Converts a `SampleT` to raw little-endian bytes.
 pub fn sample_to_i24_bytes(s: SampleT) -> [u8; 3] {
-- 
2.43.0


From 83c26a89ba9f8b1de7262ea4d097e6ab11fb0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:12 +0000
Subject: [PATCH 09/24] fix: samples_to_seconds multiplied by the sample rate

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6b6ea99..6ce7fa5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -43,7 +43,7 @@ pub fn clerp<T>(x:T, x1:T, x2:T, y1:T, y2:T) -> T
 
 /// Converts a given sample count to seconds.
 pub fn samples_to_seconds(s: usize) -> std::time::Duration {
-    std::time::Duration::from_secs_f64(s as f64 * SAMPLE_RATE as f64)
+    std::time::Duration::from_secs_f64(s as f64 / SAMPLE_RATE as f64)
 }
 
 /// Converts the given duration to samples, rounded to the nearest sample.
-- 
2.43.0


From fbef5708e6113df7f7a65ae2de01459aa869a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:58 +0000
Subject: [PATCH 10/24] fix: normalize turned tracks without signal into NaN or
 noise

The scale factor was infinite for silent tracks, and single-precision rounding
of the mean made constant tracks come out at full level.
---
 src/utils/mod.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 6ce7fa5..c88ced6 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -62,29 +62,32 @@ pub fn db_to_linear(db: MathT) -> MathT {
 }
 
 /// Normalizes the given audio track to have a peak value at the given dBFS
-/// value.
+/// value. A track without signal (e.g. all samples are equal) becomes silent.
 pub fn normalize(db: MathT, t: &mut SampleTrackT) {
-    let y = t.clone();
-    let mut dc = 0.0;
+    let mut dc: MathT = 0.0;
 
-    for s in &y {
-        dc += s;
+    for s in t.iter() {
+        dc += *s as MathT;
     }
 
-    dc /= y.len() as SampleT;
+    dc /= t.len() as MathT;
 
-    let mut max = 0.0;
+    let mut max: MathT = 0.0;
 
-    for s in y {
-        if (s - dc).abs() > max {
-            max = (s - dc).abs();
+    for s in t.iter() {
+        if (*s as MathT - dc).abs() > max {
+            max = (*s as MathT - dc).abs();
         }
     }
 
-    let factor = db_to_linear(db) as SampleT / max;
+    let factor = if max > 0.0 {
+        db_to_linear(db) / max
+    } else {
+        0.0
+    };
 
     for s in t {
-        *s = (*s - dc) * factor;
+        *s = ((*s as MathT - dc) * factor) as SampleT;
     }
 }
 
-- 
2.43.0


From 1ea9236040ecbb3eea27f8cc42aa24fe4275b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:31 +0000
Subject: [PATCH 11/24] fix: report malformed or truncated WAV data as an error

The riff and wav crates panic on truncated length fields, short fmt chunks and
partial frames, loop forever on zero channels, and take the second chunk for
the audio data whatever it is. Check the chunk structure before handing it on.
---
 src/utils/mod.rs | 77 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 76 insertions(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index c88ced6..40f232a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -91,6 +91,80 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
     }
 }
 
+/// Reads exactly the given number of bytes, failing if the source ends early.
+fn read_bytes(s: &mut dyn std::io::Read, n: u64) -> std::io::Result<Vec<u8>> {
+    use std::io::Read;
+
+    let mut v = Vec::new();
+    s.take(n).read_to_end(&mut v)?;
+
+    if (v.len() as u64) < n {
+        return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "WAV data is truncated"));
+    }
+
+    Ok(v)
+}
+
+/// Reads WAV data from the given source and returns it reduced to its `fmt `
+/// and `data` chunks. The crates parsing the result panic on (or endlessly
+/// parse) malformed chunks and expect `data` to directly follow `fmt `, so what
+/// they rely on is checked here.
+fn read_wav_chunks(s: &mut dyn std::io::Read) -> std::io::Result<Vec<u8>> {
+    use std::io::{Error, ErrorKind};
+    use std::convert::TryInto;
+
+    let riff = read_bytes(s, 12)?;
+    if &riff[0..4] != b"RIFF" || &riff[8..12] != b"WAVE" {
+        return Err(Error::new(ErrorKind::Other, "File not a WAVE file"));
+    }
+
+    let len = u32::from_le_bytes(riff[4..8].try_into().unwrap()) as u64;
+    let mut count = 4;
+    let mut fmt = None;
+    let mut data = None;
+
+    while count < len {
+        let head = read_bytes(s, 8)?;
+        let size = u32::from_le_bytes(head[4..8].try_into().unwrap()) as u64;
+        let mut body = read_bytes(s, size + size % 2)?;
+        body.truncate(size as usize);
+
+        match &head[0..4] {
+            b"fmt " => { fmt.get_or_insert(body); },
+            b"data" => { data.get_or_insert(body); },
+            _ => (),
+        }
+
+        count += 8 + size + size % 2;
+    }
+
+    let (fmt, data) = match (fmt, data) {
+        (Some(f), Some(d)) if f.len() >= 16 => (f, d),
+        _ => return Err(Error::new(ErrorKind::Other, "Could not parse audio data")),
+    };
+
+    let channels = u16::from_le_bytes([fmt[2], fmt[3]]) as usize;
+    let bytes = u16::from_le_bytes([fmt[14], fmt[15]]) as usize / 8;
+    if channels == 0 || bytes == 0 || data.len() % (channels * bytes) != 0 {
+        return Err(Error::new(ErrorKind::Other, "Audio data doesn't consist of whole frames"));
+    }
+
+    let mut v = Vec::with_capacity(45 + data.len());
+    v.extend_from_slice(b"RIFF");
+    v.extend_from_slice(&((36 + data.len() + data.len() % 2) as u32).to_le_bytes());
+    v.extend_from_slice(b"WAVEfmt ");
+    v.extend_from_slice(&16u32.to_le_bytes());
+    v.extend_from_slice(&fmt[0..16]);
+    v.extend_from_slice(b"data");
+    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
+    v.extend_from_slice(&data);
+    if data.len() % 2 != 0 {
+        v.push(0);
+    }
+
+    Ok(v)
+}
+
 /// Takes the given path and reads the track data from the WAV file at the given
 /// location.
 /// 
@@ -104,13 +178,14 @@ pub fn normalize(db: MathT, t: &mut SampleTrackT) {
 /// 
 /// This function fails if:
 /// * Anything that [`wav::read_wav`] specifies.
+/// * The source is truncated or its audio data doesn't consist of whole frames.
 /// 
 /// [`std::io::Result`]: https://doc.rust-lang.org/std/io/type.Result.html
 /// [`wav::Header`]: https://docs.rs/wav/0.1.1/wav/struct.Header.html
 /// [`TrackT`]: ../../type.TrackT.html
 /// [`wav::read_wav`]: https://docs.rs/wav/0.1.1/wav/fn.read_wav.html
 pub fn read_wav(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> {
-    let (h, bd) = wav::read_wav(s)?;
+    let (h, bd) = wav::read_wav(&mut read_wav_chunks(s)?.as_slice())?;
 
     let mut tracks = Vec::new();
     for _ in 0..h.channel_count {
-- 
2.43.0


From 778be002fd6c96b09b76e61b338f5f093cd1daa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:06 +0000
Subject: [PATCH 12/24] fix: write_wav lost data on destinations that accept
 short writes

The riff crate ignores how many bytes each write accepted, so the file was
silently corrupted while success was reported.
---
 src/utils/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 40f232a..907e1cf 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -275,6 +275,9 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
         }
     }
 
+    // Encoded in memory first, as the encoder ignores short writes.
+    let mut bytes = Vec::new();
+
     match bps {
         8 => {
             let mut v = Vec::new();
@@ -288,7 +291,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Eight(v),
-                d
+                &mut bytes
             )?;
         },
         16 => {
@@ -303,7 +306,7 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::Sixteen(v),
-                d
+                &mut bytes
             )?;
         },
         24 => {
@@ -318,11 +321,11 @@ pub fn write_wav(mut tracks: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::W
             wav::write_wav(
                 wav::Header::new(1, tracks.len() as u16, SAMPLE_RATE as u32, bps),
                 wav::BitDepth::TwentyFour(v),
-                d
+                &mut bytes
             )?;
         },
         _ => return Err(Error::new(ErrorKind::Other, "Unsupported bit depth, aborting.")),
     }
 
-    Ok(())
+    d.write_all(&bytes)
 }
-- 
2.43.0


From 5493753df1969fa40f46854b6ef0c14ed21ac1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:08 +0000
Subject: [PATCH 13/24] fix: sine wrapped one wavetable entry early

Indices in the last entry became negative and were read as entry 0, putting a
glitch into every period.
---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 06121c7..542dbcf 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -59,7 +59,7 @@ impl Generator for Sine {
 
         self.ind += self.inc;
 
-        if self.ind >= (WAVETABLE_SIZE as MathT)-1.0 {
+        if self.ind >= WAVETABLE_SIZE as MathT {
             self.ind -= WAVETABLE_SIZE as MathT;
         }
 
-- 
2.43.0


From dd72a1cabb34a07ea3f59baad5dd5cd0df0c3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 14/24] fix: retuning a square wave shifted its phase

---
 src/generators/square.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generators/square.rs b/src/generators/square.rs
index 7a6ad93..dbdf7f6 100644
--- a/src/generators/square.rs
+++ b/src/generators/square.rs
@@ -19,7 +19,14 @@ impl FreqMod for Square {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.inv = SAMPLE_RATE as MathT/(2.0 * f);
+        let inv = SAMPLE_RATE as MathT/(2.0 * f);
+
+        // `ind` is measured in samples, keep its position within the period.
+        let ind = self.ind * (inv / self.inv);
+        if ind.is_finite() {
+            self.ind = ind;
+        }
+        self.inv = inv;
     }
 
     fn get_frequency(&self) -> MathT {
-- 
2.43.0


From 068fc844e1176ed194fe686369a8145dabdf3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:20 +0000
Subject: [PATCH 15/24] fix: triangle lost its direction on retuning and
 reported negative frequencies

---
 src/generators/triangle.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generators/triangle.rs b/src/generators/triangle.rs
index ecc58d4..f39a683 100644
--- a/src/generators/triangle.rs
+++ b/src/generators/triangle.rs
@@ -19,11 +19,12 @@ impl FreqMod for Triangle {
     }
 
     fn set_frequency(&mut self, f: MathT) {
-        self.irate = 4.0 * f * INV_SAMPLE_RATE;
+        // The sign of `irate` is the direction of the current slope, keep it.
+        self.irate = (4.0 * f * INV_SAMPLE_RATE).copysign(self.irate);
     }
 
     fn get_frequency(&self) -> MathT {
-        self.irate / (4.0 * INV_SAMPLE_RATE)
+        self.irate.abs() / (4.0 * INV_SAMPLE_RATE)
     }
 }
 
@@ -50,7 +51,7 @@ impl Generator for Triangle {
 impl Clone for Triangle {
     fn clone(&self) -> Self {
         Triangle {
-            irate: self.irate,
+            irate: self.irate.abs(),
             inc: 0.0
         }
     }
-- 
2.43.0


From f5c04681abbbbc2099c2a897ba42bae39f712e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 16/24] fix: generic filter sized its history by the last tap
 only

---
 src/modifiers/generic.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/modifiers/generic.rs b/src/modifiers/generic.rs
index 87d4e8d..edbc1c2 100644
--- a/src/modifiers/generic.rs
+++ b/src/modifiers/generic.rs
@@ -29,16 +29,9 @@ pub struct Generic {
 impl Generic {
     /// Creates a new Generic filter from the given pole and zero parameters.
     pub fn new(zeros: Zeros, poles: Poles) -> Generic {
-        let z_back = if let Some(z) = zeros.back() {
-            z.0 + 1
-        } else {
-            0
-        };
-        let p_back = if let Some(p) = poles.back() {
-            p.0 + 1
-        } else {
-            0
-        };
+        let z_back = zeros.iter().map(|z| z.0 + 1).max().unwrap_or(0);
+        let p_back = poles.iter().map(|p| p.0 + 1).max().unwrap_or(0);
+
         Generic {
             zeros,
             poles,
-- 
2.43.0


From 1c62814b03442ab4880383c034fd76fdbf61a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:26 +0000
Subject: [PATCH 17/24] fix: echoes without delay panicked and whole-sample
 delays were one short

---
 src/modifiers/echo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index cfba8e0..3ceb949 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -12,12 +12,13 @@ pub struct Echo {
 
 impl Echo {
     /// Creates a new ['Echo'] object with the given delay duration and feedback
-    /// amount.
+    /// amount. The duration is rounded to the nearest sample, but is at least
+    /// one sample.
     /// 
     /// [`Echo`]: struct.Echo.html
     pub fn new(d: Duration, g: MathT) -> Self{
         let mut v = VecDeque::new();
-        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT) as usize) {
+        for _ in 0..((d.as_secs_f64()*SAMPLE_RATE as MathT).round() as usize).max(1) {
             v.push_back(SampleT::default());
         }
 
-- 
2.43.0


From d8713874914ce5544ec7c432d8be282d432c3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 18/24] fix: ADSR produced NaN, got stuck or missed its release
 time

---
 src/modifiers/adsr.rs | 45 ++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/modifiers/adsr.rs b/src/modifiers/adsr.rs
index a94f6dd..251052c 100644
--- a/src/modifiers/adsr.rs
+++ b/src/modifiers/adsr.rs
@@ -22,12 +22,22 @@ pub enum ADSRState {
 /// 
 /// Creates a simple envelope for the given signal.
 pub struct ADSR {
-    a:SampleT,
-    d:SampleT,
-    s:SampleT,
-    r:SampleT,
+    a:MathT,
+    d:MathT,
+    s:MathT,
+    r:Duration,
+    slope:MathT,
     state:ADSRState,
-    g:SampleT,
+    g:MathT,
+}
+
+/// Returns the per-sample step for a change spread over the given duration.
+fn step(change:MathT,d:Duration) -> MathT {
+    if d == Duration::default() {
+        MathT::INFINITY.copysign(change)
+    } else {
+        change/(d.as_secs_f64() * SAMPLE_RATE as MathT)
+    }
 }
 
 impl ADSR {
@@ -42,18 +52,26 @@ impl ADSR {
     pub fn new(a:Duration,d:Duration,s:MathT,r:Duration) -> Self {
         let s = s.min(0.0);
         ADSR {
-            a: 1.0/(a.as_secs_f64() * SAMPLE_RATE as MathT) as SampleT,
-            d: ((db_to_linear(s)-1.0)/(d.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
-            s: db_to_linear(s) as SampleT,
-            r: ((-db_to_linear(s))/(r.as_secs_f64() * SAMPLE_RATE as MathT)) as SampleT,
+            a: step(1.0, a),
+            d: step(-(1.0-db_to_linear(s)), d),
+            s: db_to_linear(s),
+            r,
+            slope: 0.0,
             state: ADSRState::Attack,
             g: 0.0
         }
     }
 
-    /// Changes adsr state to release
+    /// Changes adsr state to release, the gain falls from its current value to
+    /// 0 over the release time. Has no effect if it was released before.
     pub fn release(&mut self) {
-        self.state = ADSRState::Release;
+        match self.state {
+            ADSRState::Release | ADSRState::Stopped => (),
+            _ => {
+                self.slope = step(-self.g, self.r);
+                self.state = ADSRState::Release;
+            },
+        }
     }
 }
 
@@ -77,7 +95,7 @@ impl Modifier for ADSR {
             ADSRState::Sustain => {
             },
             ADSRState::Release => {
-                self.g += self.r;
+                self.g += self.slope;
                 if self.g <= 0.0 {
                     self.state = ADSRState::Stopped;
                     self.g = 0.0;
@@ -86,7 +104,7 @@ impl Modifier for ADSR {
             ADSRState::Stopped => return SampleT::default(),
         }
 
-        x * self.g
+        x * self.g as SampleT
     }
 }
 
@@ -97,6 +115,7 @@ impl Clone for ADSR {
             d: self.d,
             s: self.s,
             r: self.r,
+            slope: 0.0,
             state: ADSRState::Attack,
             g: 0.0
         }
-- 
2.43.0


From 0e77b62b6b03e89af37107e46e5df8f666c1ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:50 +0000
Subject: [PATCH 19/24] fix: low- and high-pass filters diverged at low cutoffs
 in single precision

---
 src/modifiers/highpass.rs | 83 ++++++++++++++++++++-------------------
 src/modifiers/lowpass.rs  | 20 +++++-----
 2 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/src/modifiers/highpass.rs b/src/modifiers/highpass.rs
index 599ffcb..75f0b93 100644
--- a/src/modifiers/highpass.rs
+++ b/src/modifiers/highpass.rs
@@ -8,20 +8,20 @@ use super::*;
 /// High pass filter adapted from the 3rd Order Butterworth Low Pass Filter with
 /// resonance.
 pub struct HighPass {
-    a0: SampleT,
-    a1: SampleT,
-    a2: SampleT,
-    a3: SampleT,
-    b1: SampleT,
-    b2: SampleT,
-    b3: SampleT,
-
-    x1: SampleT,
-    x2: SampleT,
-    x3: SampleT,
-    y1: SampleT,
-    y2: SampleT,
-    y3: SampleT,
+    a0: MathT,
+    a1: MathT,
+    a2: MathT,
+    a3: MathT,
+    b1: MathT,
+    b2: MathT,
+    b3: MathT,
+
+    x1: MathT,
+    x2: MathT,
+    x3: MathT,
+    y1: MathT,
+    y2: MathT,
+    y3: MathT,
 
     fc: MathT,
     r: MathT
@@ -40,19 +40,19 @@ impl HighPass {
         let fc = fc.min(SAMPLE_RATE as MathT / 2.0);
         let r = r.min(1.0).max(0.0);
         let mut hp = HighPass {
-            a0: SampleT::default(),
-            a1: SampleT::default(),
-            a2: SampleT::default(),
-            a3: SampleT::default(),
-            b1: SampleT::default(),
-            b2: SampleT::default(),
-            b3: SampleT::default(),
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            a0: MathT::default(),
+            a1: MathT::default(),
+            a2: MathT::default(),
+            a3: MathT::default(),
+            b1: MathT::default(),
+            b2: MathT::default(),
+            b3: MathT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc,
             r,
         };
@@ -95,19 +95,20 @@ impl HighPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.a0 = ( 1.0/g) as SampleT;
-        self.a1 = (-3.0/g) as SampleT;
-        self.a2 = ( 3.0/g) as SampleT;
-        self.a3 = (-1.0/g) as SampleT;
+        self.a0 = 1.0/g;
+        self.a1 = -3.0/g;
+        self.a2 = 3.0/g;
+        self.a3 = -1.0/g;
 
-        self.b1 = ((k*t.powf(2.0) + 2.0*k*t + 3.0)/g) as SampleT;
-        self.b2 = ((-k*t - 3.0)/g) as SampleT;
-        self.b3 = (1.0/g) as SampleT;
+        self.b1 = (k*t.powf(2.0) + 2.0*k*t + 3.0)/g;
+        self.b2 = (-k*t - 3.0)/g;
+        self.b3 = 1.0/g;
     }
 }
 
 impl Modifier for HighPass {
     fn process(&mut self, x: SampleT) -> SampleT {
+        let x = x as MathT;
         let y = self.a0*x + self.a1*self.x1 + self.a2*self.x2 + self.a3*self.x3 +
             self.b1*self.y1 + self.b2*self.y2 + self.b3*self.y3;
 
@@ -118,7 +119,7 @@ impl Modifier for HighPass {
         self.y2 = self.y1;
         self.y1 = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -132,12 +133,12 @@ impl Clone for HighPass {
             b1: self.b1,
             b2: self.b2,
             b3: self.b3,
-            x1: SampleT::default(),
-            x2: SampleT::default(),
-            x3: SampleT::default(),
-            y1: SampleT::default(),
-            y2: SampleT::default(),
-            y3: SampleT::default(),
+            x1: MathT::default(),
+            x2: MathT::default(),
+            x3: MathT::default(),
+            y1: MathT::default(),
+            y2: MathT::default(),
+            y3: MathT::default(),
             fc: self.fc,
             r: self.r,
         }
diff --git a/src/modifiers/lowpass.rs b/src/modifiers/lowpass.rs
index 3810279..44cf4f8 100644
--- a/src/modifiers/lowpass.rs
+++ b/src/modifiers/lowpass.rs
@@ -9,8 +9,8 @@ use super::*;
 pub struct LowPass {
     fc: MathT,
     r: MathT,
-    coeff: [SampleT; 4],
-    outs: [SampleT; 3]
+    coeff: [MathT; 4],
+    outs: [MathT; 3]
 }
 
 impl LowPass {
@@ -30,7 +30,7 @@ impl LowPass {
             fc,
             r,
             coeff: [0.0; 4],
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         };
 
         lp.reset();
@@ -71,16 +71,16 @@ impl LowPass {
         let t = w * INV_SAMPLE_RATE;
         let g = t.powf(3.0) + k*t.powf(2.0) + k*t + 1.0;
 
-        self.coeff[0] = (t.powf(3.0) / g) as SampleT;
-        self.coeff[1] = ((k*t.powf(2.0) + 2.0*k*t + 3.0) / g) as SampleT;
-        self.coeff[2] = ((-k*t - 3.0) / g) as SampleT;
-        self.coeff[3] = (1.0 / g) as SampleT;
+        self.coeff[0] = t.powf(3.0) / g;
+        self.coeff[1] = (k*t.powf(2.0) + 2.0*k*t + 3.0) / g;
+        self.coeff[2] = (-k*t - 3.0) / g;
+        self.coeff[3] = 1.0 / g;
     }
 }
 
 impl Modifier for LowPass {
     fn process(&mut self, x: SampleT) -> SampleT {
-        let y = self.coeff[0]*x +
+        let y = self.coeff[0]*x as MathT +
                 self.coeff[1]*self.outs[0] +
                 self.coeff[2]*self.outs[1] +
                 self.coeff[3]*self.outs[2];
@@ -89,7 +89,7 @@ impl Modifier for LowPass {
         self.outs[1] = self.outs[0];
         self.outs[0] = y;
 
-        y
+        y as SampleT
     }
 }
 
@@ -99,7 +99,7 @@ impl Clone for LowPass {
             fc: self.fc,
             r: self.r,
             coeff: self.coeff,
-            outs: [SampleT::default(); 3]
+            outs: [MathT::default(); 3]
         }
     }
 }
-- 
2.43.0


From 687e4a1f1dbb02138be0762778d0b7ec9832c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:32 +0000
Subject: [PATCH 20/24] fix: complex sounds processed blocks out of order or
 not at all

---
 src/sounds/complex_sound.rs | 42 ++++++++++++-------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/sounds/complex_sound.rs b/src/sounds/complex_sound.rs
index 312cd87..fd6d95b 100644
--- a/src/sounds/complex_sound.rs
+++ b/src/sounds/complex_sound.rs
@@ -66,7 +66,7 @@ impl ComplexSound {
             )
         );
 
-        ComplexSound {
+        let mut sound = ComplexSound {
             graph,
             process_order: ProcessOrder::new(),
             input_gain,
@@ -74,7 +74,11 @@ impl ComplexSound {
             id: None,
             is_muted: false,
             is_paused: false
-        }
+        };
+
+        sound.process_order();
+
+        sound
     }
 
     /// Returns the ['GraphNode'] containing the input gain [`Modifier`].
@@ -138,19 +142,14 @@ impl ComplexSound {
     fn process_order(&mut self) {
         self.process_order.clear();
 
-        self.process_order.extend(self.graph.externals(petgraph::Direction::Incoming));
-        let mut i = 0;
-        while i < self.process_order.len() {
-            let neighbors = self.graph.neighbors(self.process_order[i]);
-            self.process_order.extend(neighbors);
-
-            let mut j = 0;
-            while j < i {
-                Self::remove_dups(&mut self.process_order, j);
-                j += 1;
+        // Reversed post-order is a topological order, except for connections
+        // that are part of a cycle.
+        let mut dfs = petgraph::visit::DfsPostOrder::empty(&self.graph);
+        for n in self.graph.node_indices() {
+            dfs.move_to(n);
+            while let Some(n) = dfs.next(&self.graph) {
+                self.process_order.push_front(n);
             }
-
-            i += 1;
         }
 
         let ig = self.input_gain;
@@ -161,21 +160,6 @@ impl ComplexSound {
         self.process_order.push_front(self.input_gain);
         self.process_order.push_back(self.output_gain);
     }
-
-    /// Removes duplicate [`GraphNode`]s from the process order to prevent parsing cycles
-    /// 
-    /// [`GraphNode`]: type.GraphNode.html
-    fn remove_dups(v: &mut ProcessOrder, whitelist: usize) {
-        let mut i = whitelist + 1;
-
-        while i < v.len() {
-            if v[i] == v[whitelist] {
-                v.remove(i);
-            } else {
-                i += 1;
-            }
-        }
-    }
 }
 
 impl Sound for ComplexSound {
-- 
2.43.0


From 45d9c31fcf4db3d097ae905d1acfb1e41e1e215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:05 +0000
Subject: [PATCH 21/24] fix: channels never produced any samples

---
 src/channels/standard_channel.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/channels/standard_channel.rs b/src/channels/standard_channel.rs
index 0b0a1dd..e0a9cfb 100644
--- a/src/channels/standard_channel.rs
+++ b/src/channels/standard_channel.rs
@@ -14,6 +14,7 @@ pub struct StandardChannel<SF>
     where SF: SampleFormat
 {
     output: Vec<SF>,
+    len: usize,
     sounds: HashMap<usize, SoundSP>,
     gain: SampleT,
     id_counter: usize
@@ -30,13 +31,20 @@ impl<SF> StandardChannel<SF>
     /// [`set_process_time`]: ../trait.Channel.html#tymethod.set_process_time
     pub fn new(gain: MathT) -> Self {
         StandardChannel {
-            output: Vec::with_capacity((0.01 * SAMPLE_RATE as MathT) as usize),
+            output: Vec::new(),
+            len: Self::sample_count(Duration::from_millis(10)),
             sounds: HashMap::new(),
             gain: gain as SampleT,
             id_counter: 0
         }
     }
 
+    /// Truncates the duration to samples. Durations are whole nanoseconds, those
+    /// representing a whole number of samples may be up to one short of it.
+    fn sample_count(d: Duration) -> usize {
+        ((d.as_nanos() + 1) * SAMPLE_RATE as u128 / 1_000_000_000) as usize
+    }
+
     fn get_id(&mut self) -> usize {
         let old = self.id_counter;
 
@@ -50,7 +58,7 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     where SF: SampleFormat
 {
     fn set_process_time(&mut self, d: Duration) {
-        self.output = Vec::with_capacity((d.as_secs_f64() * SAMPLE_RATE as MathT) as usize);
+        self.len = Self::sample_count(d);
     }
 
     fn get_output(&self) -> &Vec<SF> {
@@ -62,7 +70,8 @@ impl<SF> Channel<SF> for StandardChannel<SF>
     }
 
     fn process(&mut self) {
-        self.output.resize_with(self.output.len(), SF::default);
+        self.output.clear();
+        self.output.resize_with(self.len, SF::default);
 
         for sample in &mut self.output {
             for mut sound in &mut self.sounds {
-- 
2.43.0


From bfff6e28900049f5e6395b677c36a965042dc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:04 +0000
Subject: [PATCH 22/24] fix: cloned delay and echo lines were 48000 times too
 long

---
 src/modifiers/delay.rs | 2 +-
 src/modifiers/echo.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifiers/delay.rs b/src/modifiers/delay.rs
index 70ff81d..8078dda 100644
--- a/src/modifiers/delay.rs
+++ b/src/modifiers/delay.rs
@@ -45,7 +45,7 @@ impl Clone for Delay {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
diff --git a/src/modifiers/echo.rs b/src/modifiers/echo.rs
index 3ceb949..07e1b3a 100644
--- a/src/modifiers/echo.rs
+++ b/src/modifiers/echo.rs
@@ -44,7 +44,7 @@ impl Clone for Echo {
             delay: {
                 let mut v = VecDeque::new();
 
-                for _ in 0..(self.delay.len() * SAMPLE_RATE as usize) {
+                for _ in 0..self.delay.len() {
                     v.push_back(SampleT::default());
                 }
 
-- 
2.43.0


From 688687212621d73ec33b5b0703246ee24d9c6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:07 +0000
Subject: [PATCH 23/24] fix: bin2str reported success after writing only part
 of the table

---
 utility/bin2str/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/bin2str/src/main.rs b/utility/bin2str/src/main.rs
index 69edf81..cfe1340 100644
--- a/utility/bin2str/src/main.rs
+++ b/utility/bin2str/src/main.rs
@@ -57,7 +57,7 @@ fn main() -> std::io::Result<()> {
         binstr.push_str("\n];\n");
 
         let mut out_file = std::fs::File::create("output.rs")?;
-        out_file.write(binstr.as_bytes())?;
+        out_file.write_all(binstr.as_bytes())?;
     // }
 
     Ok(())
-- 
2.43.0


From 67a3b634fb74c67bfbc160de7f13df05c3a7cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:59 +0000
Subject: [PATCH 24/24] fix: sine panicked at frequencies beyond the sample
 rate

---
 src/generators/sine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generators/sine.rs b/src/generators/sine.rs
index 542dbcf..2d19b2e 100644
--- a/src/generators/sine.rs
+++ b/src/generators/sine.rs
@@ -60,7 +60,7 @@ impl Generator for Sine {
         self.ind += self.inc;
 
         if self.ind >= WAVETABLE_SIZE as MathT {
-            self.ind -= WAVETABLE_SIZE as MathT;
+            self.ind %= WAVETABLE_SIZE as MathT;
         }
 
         y
-- 
2.43.0

