From c4a34a60be815c31656832ff0924823c57cf76b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 01/24] fix: get_sub_slice no longer grants windows outside the
 parent

offset + sub_length overflowed for huge lengths, so a release build handed out
a slice reaching far beyond the parent (and a debug build panicked); windows
ending exactly at the parent's end were refused.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..82fd3a7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length > self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From 378bf002adf10fa0e28fee027823df2a4ca03b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 02/24] fix: get_slice_of_four_wrapped at the top of the index
 range

index + 3 overflowed for the three largest indices: a panic in debug builds,
an unchecked read far out of bounds in release builds.
---
 src/memory/memory_slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 82fd3a7..3863aa4 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -166,7 +166,9 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
-        if index + 3 >= self.length as isize || index < 0 {
+        if index >= self.length as isize - 3 || index < 0 {
+            // Wrap first, so that the offsets cannot overflow
+            let index = index.rem_euclid(self.length as isize);
             unsafe {
                 [
                     self.get_wrapped_unchecked(index + 0),
-- 
2.43.0


From 0be4cba622385c64ae447b8d4daf7a0559bd0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 03/24] fix: lerp on an empty MemorySlice reports
 IndexOutOfBound

length - 1 underflowed and panicked for a slice of length 0.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 3863aa4..b7bc0b7 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -202,7 +202,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if index < 0.0 {
+        if self.length == 0 || index < 0.0 {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From 098c76c1a3ca180ca9a0c2f4e6f53bbf7becb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 04/24] fix: lagrange_wrapped evaluates its window at the right
 position

The window starts before the integral position, but was evaluated as if it
started at it, so windows of 4 and more samples returned a neighbouring
sample; odd windows also left their last sample at 0.
---
 src/memory/memory_slice.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index b7bc0b7..2294ede 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -239,17 +239,17 @@ where
             window_size = 100;
         }
 
-        let lower_bound = ((window_size / 2) as isize).neg() + 1;
-        let upper_bound = (window_size / 2) as isize;
+        let lower_bound = ((window_size.saturating_sub(1) / 2) as isize).neg();
 
-        for i in lower_bound..=upper_bound {
-            unsafe {
-                let wrapped_index = self.get_wrapped_unchecked(int_index + i);
-                slice[(i + lower_bound.neg()) as usize] = wrapped_index;
-            }
+        for (i, sample) in slice[..window_size].iter_mut().enumerate() {
+            *sample = unsafe { self.get_wrapped_unchecked(int_index + lower_bound + i as isize) };
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        // The window starts at `lower_bound`, relative to the integral position
+        lagrange(
+            &slice[..window_size],
+            index - int_index as f32 - lower_bound as f32,
+        )
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-- 
2.43.0


From 331bbcf814709c4eaeed02b3937ca5e79fe27f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 05/24] fix: lagrange_four_points_wrapped interpolates inside
 its window

The four samples start at floor(index), but the polynomial was evaluated at
the absolute index instead of the fractional part.
---
 src/memory/memory_slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 2294ede..c475301 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -253,10 +253,12 @@ where
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
+        let int_index = index.floor() as isize;
+
         unsafe {
             lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                &self.get_slice_of_four_wrapped(int_index)[..],
+                index - int_index as f32,
             )
         }
     }
-- 
2.43.0


From 42b0881e4773c50bb15a7f31729c9ea80b646593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 06/24] fix: DelayLine::change_buffer keeps its position inside
 the new buffer

---
 src/delay_line.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..34c9fe4 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,11 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        // The position may lie outside of a shorter buffer
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From a5802fb30e5d6ac732444918505b9afbcfff3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 07/24] fix: lerp rejects a NaN interpolation amount

---
 src/float/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/interpolation.rs b/src/float/interpolation.rs
index 52e563c..1aa0b54 100644
--- a/src/float/interpolation.rs
+++ b/src/float/interpolation.rs
@@ -12,7 +12,7 @@ pub fn lerp_unchecked(a: f32, b: f32, interpolate: f32) -> f32 {
 }
 
 pub fn lerp(a: f32, b: f32, interpolate: f32) -> Result<f32, InterpolationError> {
-    if a.is_nan() || b.is_nan() {
+    if a.is_nan() || b.is_nan() || interpolate.is_nan() {
         return Err(InterpolationError::InputNaN);
     }
 
-- 
2.43.0


From 77a32bf6cbe85c4740b0163e23ba5169b665a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 08/24] fix: lookup_bl_rect stays inside its table at the peaks

---
 src/float/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..6aebc96 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -165,22 +165,22 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp(f_index * len as f32).unwrap_or(0.0);
         }
 
         if *self <= 0.5 {
             let f_index = (0.25 - (self - 0.25)) * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp(f_index * len as f32).unwrap_or(0.0);
         }
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp(f_index * len as f32).unwrap_or(0.0);
         }
 
         if *self < 1.0 {
             let f_index = (0.25 - (self - 0.75)) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp(f_index * len as f32).unwrap_or(0.0);
         }
 
         return 0.0;
-- 
2.43.0


From 81aa78bc6b118919a949dc066fd1f2a48bddbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 09/24] fix: SoftPhaseAccumulator::set_freq changes the
 accumulator it is called on

---
 src/oscillator/phase_accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..51f042f 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -72,7 +72,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
-- 
2.43.0


From 55928681b5783761bd80f5bd89bab79cad68a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 10/24] fix: the normalized phase stays below 1.0

---
 src/oscillator/phase_accumulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 51f042f..75e7eed 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,9 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+
+        // Only keep what fits into the mantissa, so that it cannot round up to 1.0
+        (self.counter.wrapping_add(self.shift) >> 8) as f32 / (1 << 24) as f32
     }
 }
 
-- 
2.43.0


From f8b4f3c221bf631cd5b55116fdc8abe0a7a8b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 11/24] fix: WavetableOscillator stays inside its table

---
 src/oscillator/osc_wavetable.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..263cef4 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -20,11 +20,9 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         // calculate phase
         let phase = self.acc.next_value_normalized();
 
-        // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        // get interpolated sample, the last one leads over to the first one
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From 84f893ff0a71e550c1f8262525015143955884f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 12/24] fix: SoftPhaseAccumulator::set_freq reports frequencies
 above Nyquist

---
 src/oscillator/phase_accumulator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 75e7eed..4800b56 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -83,6 +83,11 @@ impl SoftPhaseAccumulator {
             return Err(Negative);
         }
 
+        // More than half a period per step
+        if freq * self.min_step > (u32::MAX / 2) as f32 {
+            return Err(BiggerThanNyquist);
+        }
+
         return Ok(self.set_freq_unchecked(freq));
     }
 }
-- 
2.43.0


From 1e595662995974d583cc524e343bbf5470909c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 13/24] fix: ADSR stages end at their end, however short they
 are

---
 src/envelope.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..923b6cd 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -136,7 +136,7 @@ impl AudioRateADSR {
     // =================
 
     fn next_attack(&mut self) -> f32 {
-        self.t += self.attack;
+        self.t = (self.t + self.attack).min(1.0);
         self.envelope_value = self.t.powf(1.0 / self.slope);
 
         if self.envelope_value >= 1.0 {
@@ -149,7 +149,7 @@ impl AudioRateADSR {
     }
 
     fn next_decay(&mut self) -> f32 {
-        self.t += self.decay;
+        self.t = (self.t + self.decay).min(1.0);
         self.envelope_value =
             ((1.0 - self.t.powf(self.slope)) * (1.0 - self.sustain)) + self.sustain;
 
@@ -162,7 +162,7 @@ impl AudioRateADSR {
     }
 
     fn next_release(&mut self) -> f32 {
-        self.t += self.release;
+        self.t = (self.t + self.release).min(1.0);
         self.envelope_value = (1.0 - self.t.powf(self.slope)) * self.release_val;
 
         // reach idle at ca. -140dB
-- 
2.43.0


From fc18e61e010e6e4200466876b15d52f09bc66555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 14/24] fix: AudioRateADSR::new limits the slope like set_slope

---
 src/envelope.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 923b6cd..3ad5534 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -49,7 +49,7 @@ impl AudioRateADSR {
             release: set_time_parameter(release_in_secs, sr),
 
             sr,
-            slope,
+            slope: clamp_slope(slope),
             t: 0.0,
             state: Idle,
             release_val: 0.0,
@@ -78,7 +78,7 @@ impl AudioRateADSR {
     }
 
     pub fn set_slope(&mut self, slope: f32) {
-        self.slope = slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE);
+        self.slope = clamp_slope(slope);
     }
 
     pub fn set_sr(&mut self, sr: f32) {
@@ -180,6 +180,10 @@ fn set_time_parameter(parameter_in_secs: f32, sr: f32) -> f32 {
     (1.0 / (parameter_in_secs * sr)).clamp(SHORTEST_TIME_BASE / sr, f32::MAX)
 }
 
+fn clamp_slope(slope: f32) -> f32 {
+    slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8ee6636253d6bf011b0fbfc36dc1d85c99c0a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 15/24] fix: Decibels for NaN, zero and infinite ratios

---
 src/decibels.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/decibels.rs b/src/decibels.rs
index a9fcc1e..78e8390 100644
--- a/src/decibels.rs
+++ b/src/decibels.rs
@@ -25,24 +25,29 @@ impl Decibels for f32 {
 
     #[inline(always)]
     fn to_decibels(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
+        if self.is_nan() || *self < 0.0 {
             return Err(Nan);
         }
 
+        // the logarithm is an approximation for positive, finite ratios
+        if *self == 0.0 {
+            return Ok(f32::NEG_INFINITY);
+        }
+
+        if *self == f32::INFINITY {
+            return Ok(f32::INFINITY);
+        }
+
         Ok(self.to_decibels_unchecked())
     }
 
     #[inline(always)]
     fn to_decibels_checked(&self) -> Result<f32, FpCategory> {
-        if *self < 0.0 {
-            return Err(Nan);
-        }
-
         if *self == 0.0 {
             return Err(Infinite);
         }
 
-        Ok(self.to_decibels_unchecked())
+        self.to_decibels()
     }
 
     #[inline(always)]
-- 
2.43.0


From 283ae933b39dd220e6937db10079a917db6af59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 16/24] fix: Simpson's rule counted every odd node twice

---
 src/float/integral.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/float/integral.rs b/src/float/integral.rs
index 343181d..24b3cc7 100644
--- a/src/float/integral.rs
+++ b/src/float/integral.rs
@@ -12,7 +12,6 @@ pub fn simpsons_rule<const N: usize>(f: fn(f32) -> f32, a: f32, b: f32) -> f32 {
         * (f(a)
             + 4.0 * y[1..N].iter().step_by(2).sum::<f32>()
             + 2.0 * y[2..N - 1].iter().step_by(2).sum::<f32>()
-            + 4.0 * y[1..].iter().step_by(2).sum::<f32>()
             + if N % 2 == 0 { f(b) } else { 0.0 });
     integral
 }
-- 
2.43.0


From 88ee4819c0c9543d2a5a65137b8fe4c97184f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 17/24] fix: release from the sustain level being heard

Changing the sustain level during the sustain stage left the envelope value
at the old level, from which the release then started.
---
 src/envelope.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 3ad5534..20c4315 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,7 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => self.next_sustain(),
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
@@ -161,6 +161,13 @@ impl AudioRateADSR {
         return self.envelope_value;
     }
 
+    fn next_sustain(&mut self) -> f32 {
+        // The sustain level might have been changed in the meantime
+        self.envelope_value = self.sustain;
+
+        return self.envelope_value;
+    }
+
     fn next_release(&mut self) -> f32 {
         self.t = (self.t + self.release).min(1.0);
         self.envelope_value = (1.0 - self.t.powf(self.slope)) * self.release_val;
-- 
2.43.0


From 55fe821bfbc1e632b0fcbe3e49593ad3ef79ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 18/24] fix: retriggering the envelope continues from the
 current level

The attack took over the progress of whatever stage was interrupted, so that
retriggering late in the release jumped to almost full level, and early in it
dropped to almost silence.
---
 src/envelope.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 20c4315..dfa7493 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -28,6 +28,7 @@ pub struct AudioRateADSR {
     state: EnvelopeState,
 
     envelope_value: f32,
+    attack_val: f32,
     release_val: f32,
 
     sr: f32,
@@ -52,6 +53,7 @@ impl AudioRateADSR {
             slope: clamp_slope(slope),
             t: 0.0,
             state: Idle,
+            attack_val: 0.0,
             release_val: 0.0,
             envelope_value: 0.0,
         }
@@ -109,15 +111,10 @@ impl AudioRateADSR {
     }
 
     pub fn trigger_on(&mut self) {
-        match self.state {
-            Idle | Attack => {
-                self.state = Attack;
-                self.t = 0.0;
-            }
-
-            // Retrigger
-            Decay | Sustain | Release => self.state = Attack,
-        }
+        // Retriggering continues from the current level
+        self.state = Attack;
+        self.attack_val = self.envelope_value;
+        self.t = 0.0;
     }
 
     pub fn trigger_off(&mut self) {
@@ -137,7 +134,7 @@ impl AudioRateADSR {
 
     fn next_attack(&mut self) -> f32 {
         self.t = (self.t + self.attack).min(1.0);
-        self.envelope_value = self.t.powf(1.0 / self.slope);
+        self.envelope_value = 1.0 - (1.0 - self.t.powf(1.0 / self.slope)) * (1.0 - self.attack_val);
 
         if self.envelope_value >= 1.0 {
             self.state = Decay;
-- 
2.43.0


From aa4e1aab64d189104d13fbb7367f629d02714793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 19/24] fix: sinc(x) near zero

The fixed point sine is too coarse to be divided by a small number: sinc(1e-5)
was 0, sinc(1e-4) 0.92.
---
 src/float/math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 6aebc96..fa44edd 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -223,8 +223,9 @@ impl AdditionalF32Ext for f32 {
 /// Computes sin(x)/x for f32 with a fixed point approximation of sin(x)
 #[inline(always)]
 fn __sinc_f32(val: f32) -> f32 {
-    if val == 0.0 {
-        1.0
+    if val.abs() < 0.25 {
+        // The quotient would magnify the steps of the fixed point sine
+        1.0 - val * val / 6.0
     } else {
         val.fixed_point_sin() / val
     }
-- 
2.43.0


From 675230863b6fc3c1e502131d5911e8c8fa1b93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 20/24] fix: MemorySlice::lerp accepts the last sample of
 slices longer than 32

The tolerance of 10 epsilon is lost in rounding from position 32 on, so that
the last sample of a longer slice was refused, and lookup_bl_rect was silent
at its peaks.
---
 src/memory/memory_slice.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index c475301..389a831 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -206,16 +206,17 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
-            return Ok(unsafe { self.get_unchecked(index as usize) });
+        let int_index = index as usize;
+        let a = self.get(int_index)?;
+
+        // There's no neighbour to look up at an integral position
+        if index == int_index as f32 {
+            return Ok(a);
         }
 
-        let a = self.get(index as usize)?;
-        let b = self.get(index as usize + 1)?;
+        let b = self.get(int_index + 1)?;
 
-        Ok(lerp_unchecked(a, b, index - (index as usize) as f32))
+        Ok(lerp_unchecked(a, b, index - int_index as f32))
     }
 
     #[inline(always)]
-- 
2.43.0


From 1a03f772a1a867746159aacaffdff7212bf62964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 21/24] fix: MemorySlice::lerp refuses a NaN position

It was taken for a position inside the slice, and NaN returned as its sample.
---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 389a831..824bf46 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -202,7 +202,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if self.length == 0 || index < 0.0 {
+        if index.is_nan() || index < 0.0 {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From 1e2d10f45dada22a4a43fdae04a771fdac6e0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 22/24] fix: MemorySlice::lagrange_wrapped with a window of a
 single sample

The position between two samples is outside of a window of one, so it panicked.
---
 src/memory/memory_slice.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 824bf46..a7ea234 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -234,6 +234,12 @@ where
 
     pub fn lagrange_wrapped(&self, index: f32, mut window_size: usize) -> f32 {
         let int_index = index.floor() as isize;
+
+        // It's a constant that runs through a single sample
+        if window_size < 2 {
+            return self.get_wrapped(int_index);
+        }
+
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
         if window_size > 100 {
-- 
2.43.0


From 06e6bc668d45f7c29b9d62e4b1c062a7809fa3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 23/24] fix: DelayLine::read_wrapped_at with offsets near
 isize::MAX

Adding the position overflowed.
---
 src/delay_line.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index 34c9fe4..c7242c4 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -35,6 +35,8 @@ impl DelayLine {
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
+        // Wrap first, so that the sum cannot overflow
+        let offset = offset % self.buffer.len() as isize;
         self.buffer.get_wrapped(self.index as isize + offset)
     }
 
-- 
2.43.0


From a2d6c18c804c95972bf8ff59686ce42132b34bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 24/24] fix: interpolated wrapped reads at positions beyond
 2^31

micromath's floor saturates there, so the distance to the sample in front was
huge, and the read extrapolated by it.
---
 src/memory/memory_slice.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index a7ea234..1e5ed97 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -221,11 +221,23 @@ where
 
     #[inline(always)]
     pub fn lerp_wrapped(&self, index: f32) -> f32 {
-        let int_index = index.floor() as isize;
+        let (int_index, fraction) = self.split_position(index);
         let a = self.get_wrapped(int_index);
         let b = self.get_wrapped(int_index + 1);
 
-        lerp_unchecked(a, b, index - (int_index as f32))
+        lerp_unchecked(a, b, fraction)
+    }
+
+    /// Splits a position into the index of the sample in front of it and the distance to that sample
+    #[inline(always)]
+    fn split_position(&self, index: f32) -> (isize, f32) {
+        // Positions from 2^23 on are integral, and soon out of the range of `floor`
+        if index.abs() >= 8_388_608.0 {
+            return ((index as isize).rem_euclid(self.length as isize), 0.0);
+        }
+
+        let int_index = index.floor() as isize;
+        (int_index, index - int_index as f32)
     }
 
     ///////////////////////////////////////////////////////////////////////////////
@@ -233,7 +245,7 @@ where
     ///////////////////////////////////////////////////////////////////////////////
 
     pub fn lagrange_wrapped(&self, index: f32, mut window_size: usize) -> f32 {
-        let int_index = index.floor() as isize;
+        let (int_index, fraction) = self.split_position(index);
 
         // It's a constant that runs through a single sample
         if window_size < 2 {
@@ -253,20 +265,14 @@ where
         }
 
         // The window starts at `lower_bound`, relative to the integral position
-        lagrange(
-            &slice[..window_size],
-            index - int_index as f32 - lower_bound as f32,
-        )
+        lagrange(&slice[..window_size], fraction - lower_bound as f32)
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-        let int_index = index.floor() as isize;
+        let (int_index, fraction) = self.split_position(index);
 
         unsafe {
-            lagrange_only_4_elements(
-                &self.get_slice_of_four_wrapped(int_index)[..],
-                index - int_index as f32,
-            )
+            lagrange_only_4_elements(&self.get_slice_of_four_wrapped(int_index)[..], fraction)
         }
     }
 
-- 
2.43.0

