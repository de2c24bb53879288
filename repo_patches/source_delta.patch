From 90af47b5b8a27ea7356b0fce226179f07a5d6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 01/51] fix: inverse transforms of runtime typed vectors yield
 time domain (and for sifft real) vectors

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..ad1e82b 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -142,7 +142,7 @@ where
         if self.domain() != DataDomain::Frequency {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
-            self.domain.to_freq();
+            self.domain.to_time();
             return Self::TimeResult::rededicate_from_force(self);
         }
 
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
@@ -193,8 +193,8 @@ where
     {
         if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeInFrequencyDomain,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -203,8 +203,8 @@ where
 
         if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeConjSymmetric,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -215,8 +215,9 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
-- 
2.43.0


From 177d9849d16856086ab1d82360d051bb9b421ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 02/51] fix: mirror rejects vectors which are not in frequency
 domain or not complex

---
 vector/src/vector_types/time_freq/freq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..0d08143 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,7 +53,7 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
-- 
2.43.0


From 8bb504a6f3dec231e4985cd520055da0eaa91d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 03/51] fix: rededicate_from empties the vector if either
 number space or domain can't be kept

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From 4f2aa7e73043ec3fc5e3a2ebdf2426414c8366f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 04/51] fix: dot products only consider the valid part of the
 storage

---
 vector/src/vector_types/general/dot_products.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..3d56e4c 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -79,7 +79,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
@@ -130,7 +130,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
@@ -178,7 +178,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
@@ -228,7 +228,7 @@ where
         }
 
         let data_length = self.len();
-        let array = self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
         let chunks = Chunk::get_zipped(
-- 
2.43.0


From 691dba90b3712ea88c90b3442029f040845ba1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 05/51] fix: dot products reject arguments of a different
 length, number space or domain

---
 .../src/vector_types/general/dot_products.rs  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index 3d56e4c..cee6739 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,7 +78,15 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -130,6 +138,10 @@ where
         }
 
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -177,7 +189,15 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
@@ -228,6 +248,10 @@ where
         }
 
         let data_length = self.len();
+        if data_length != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
         let other = factor.data(..);
-- 
2.43.0


From 1ae04108f5c807cf5012660056ed3d778f0f705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 06/51] fix: symmetric FFTs of real vectors (length of the half
 spectrum, sample step of runtime typed vectors)

---
 .../src/vector_types/time_freq/time_to_freq.rs   | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..8c66b88 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -177,10 +177,10 @@ where
 
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
-        let len = $points;
-        let len = len / 2 + 1;
+        // Points of a half spectrum, each of them is a complex number
+        let len = $points / 2 + 1;
         $self_
-            .resize(len)
+            .resize(2 * len)
             .expect("Shrinking a vector should always succeed");
     };
 }
@@ -219,8 +219,6 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
@@ -251,10 +249,8 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
@@ -287,11 +283,9 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
-- 
2.43.0


From ea86f61f3513d28f993b01b551133f6d2ff14286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 07/51] fix: sifft doesn't shift the half spectrum and scales
 by the mirrored length

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index ad1e82b..87e830c 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -225,12 +225,13 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        let points = self.points();
+        // `self` holds a half spectrum starting at 0 Hz: It isn't shifted and `plain_sifft`
+        // mirrors it to `2 * points - 1` points.
+        let points = (2 * self.points()).saturating_sub(1);
         self.scale(Complex::<T>::new(
             T::one() / T::from(points).unwrap(),
             T::zero(),
         ));
-        self.ifft_shift();
         self.plain_sifft(buffer)
     }
 
-- 
2.43.0


From f7403538e9e92736da3e19346f3558a22aadee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 08/51] fix: get_real_imag and get_mag_phase set the sample
 step of the targets

---
 vector/src/vector_types/complex/complex_to_real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..86c8813 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -678,6 +678,8 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         imag.resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        real.set_delta(self.delta);
+        imag.set_delta(self.delta);
         let real = real.data_mut(0..data_length / 2);
         let imag = imag.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
@@ -698,6 +700,8 @@ where
         phase
             .resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        mag.set_delta(self.delta);
+        phase.set_delta(self.delta);
         let mag = mag.data_mut(0..data_length / 2);
         let phase = phase.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
-- 
2.43.0


From ebb4612d042bab5076143ecccf35638b8727176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 09/51] fix: set_real_imag and set_mag_phase reject vectors of
 the wrong number space

---
 .../src/vector_types/complex/complex_to_real.rs   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 86c8813..4491d08 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -716,6 +716,19 @@ where
     }
 }
 
+macro_rules! assert_self_complex_and_args_real {
+    ($self_: ident, $first: ident, $second: ident) => {
+        if !$self_.is_complex() {
+            $self_.mark_vector_as_invalid();
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
+        if $first.is_complex() || $second.is_complex() {
+            return Err(ErrorReason::InputMustBeReal);
+        }
+    };
+}
+
 impl<S, T, N, NR, D, O, DO> ComplexToRealSetterOps<O, T, NR, DO> for DspVec<S, T, N, D>
 where
     DspVec<S, T, N, D>: ToRealResult,
@@ -728,6 +741,7 @@ where
     DO: PosEq<D> + Domain,
 {
     fn set_real_imag(&mut self, real: &O, imag: &O) -> VoidResult {
+        assert_self_complex_and_args_real!(self, real, imag);
         {
             if real.len() != imag.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
@@ -751,6 +765,7 @@ where
     }
 
     fn set_mag_phase(&mut self, mag: &O, phase: &O) -> VoidResult {
+        assert_self_complex_and_args_real!(self, mag, phase);
         {
             if mag.len() != phase.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
-- 
2.43.0


From 3bf2306043ff3503c091ae30af42bcef58e89f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 10/51] fix: apply_window and unapply_window invalidate vectors
 which aren't in time domain

---
 vector/src/vector_types/time_freq/time.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/time.rs b/vector/src/vector_types/time_freq/time.rs
index 7d40746..f3d631e 100644
--- a/vector/src/vector_types/time_freq/time.rs
+++ b/vector/src/vector_types/time_freq/time.rs
@@ -1,5 +1,6 @@
 use super::super::{
-    DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain, ToFreqResult, ToSliceMut,
+    DataDomain, DspVec, MetaData, NumberSpace, RededicateForceOps, TimeDomain,
+    ToFreqResult, ToSliceMut,
 };
 use crate::array_to_complex_mut;
 use crate::numbers::*;
@@ -30,6 +31,11 @@ where
     D: TimeDomain,
 {
     fn apply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
@@ -48,6 +54,11 @@ where
     }
 
     fn unapply_window(&mut self, window: &dyn WindowFunction<T>) {
+        if self.domain() != DataDomain::Time {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         if self.is_complex() {
             self.multiply_window_priv(
                 window.is_symmetric(),
-- 
2.43.0


From ac72f16dc4ff63c511c5b040f8d70e96cd0c484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 11/51] fix: diff of an empty vector, diffs of complex vectors
 only look at the valid part of the storage

---
 vector/src/vector_types/general/diff_sum.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..c2b3bec 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,11 +66,15 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -91,7 +95,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
-- 
2.43.0


From 0600d50b6bf86b13f3aaf452c8c1478fdb70e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 12/51] fix: zero_interleave_b only zeroes the part of the
 target which belongs to the current chunk

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..f266a37 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -277,7 +277,7 @@ macro_rules! zero_interleave {
                     // Zero target
                     let ptr = &mut target[0] as *mut T;
                     unsafe {
-                        ptr::write_bytes(ptr, 0, new_len);
+                        ptr::write_bytes(ptr, 0, target.len());
                     }
                     let skip = step * $tuple;
                     let mut i = 0;
-- 
2.43.0


From 8088e0d9123975f8bed4c8a630026f16d48066d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 13/51] fix: zero_pad_b zeroes all padded values if a vector is
 padded at its center

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f266a37..fa8d2bc 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -453,7 +453,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From c71e659e8eb8db40f9a1998624781e79e75a358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 14/51] fix: zero_pad and zero_pad_b surround a vector with the
 same number of zeros

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index fa8d2bc..9caa5be 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -326,7 +326,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
-- 
2.43.0


From ceb8081580068848750facd7800bbd17809c051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 15/51] fix: split_into, merge and zero_interleave only use the
 valid part of the storage

---
 vector/src/vector_types/general/data_reorganization.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 9caa5be..a72a3eb 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -372,7 +372,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
@@ -501,7 +501,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
@@ -545,7 +545,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From 847d58dd8d3773b8b75b363549e69b2ece675e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 16/51] fix: map_inplace and map_aggregate only consider the
 valid part of the storage

---
 vector/src/vector_types/general/mapping.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..a452b15 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From 34fde01a6fe130f85d80ddf74acecfb75f339e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 17/51] fix: elementwise operations with an empty argument or
 with a storage of odd length

---
 vector/src/vector_types/general/elementary.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..9f84a2b 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -444,7 +444,7 @@ macro_rules! impl_binary_complex_vector_operation {
                         }
                 });
 
-                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(array)).zip(partition.cedge_iter(array_to_complex(other))) {
+                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(&mut array[0..data_length])).zip(partition.cedge_iter(array_to_complex(other))) {
                     *n = n.$scal_op(*o);
                 }
             }
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -503,7 +503,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
                     |operand, range, target, _arg| {
                         let target = array_to_complex_mut(&mut target[..]);
                         let operand = array_to_complex(&operand[..]);
-                        let mut i = range.start;
+                        let mut i = range.start / 2;
                         for n in &mut target[..] {
                             *n = n.$scal_op(operand[i % operand.len()]);
                             i += 1;
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.is_empty() || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.is_empty() || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From 4cd1b4e9618e9402203cda99940282758dbb19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 18/51] fix: symmetric windows on short vectors and if the
 vector can't be split into chunks of the same size

---
 vector/src/multicore_support/no_threading.rs | 16 +------
 vector/src/multicore_support/threading.rs    | 47 ++++++++++----------
 2 files changed, 26 insertions(+), 37 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..12fc071 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -5,7 +5,6 @@ use crate::inline_vector::InlineVector;
 use crate::numbers::*;
 use std::iter::Iterator;
 use std::ops::Range;
-use std::slice::ChunksMut;
 
 /// Empty struct since multicore support is disabled
 #[derive(Debug, Copy, Clone)]
@@ -142,10 +141,8 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
-        let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
+        let len1 = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let (mut chunks1, mut chunks2) = array.split_at_mut(len1);
         function(
             &mut chunks1,
             &Range {
@@ -258,15 +255,6 @@ impl Chunk {
         );
     }
 
-    #[inline]
-    fn partition_mut<T>(array: &mut [T], step_size: usize, number_of_chunks: usize) -> ChunksMut<T>
-    where
-        T: Copy + Clone + Send,
-    {
-        let chunk_size = Chunk::calc_chunk_size(array.len(), step_size, number_of_chunks);
-        array.chunks_mut(chunk_size)
-    }
-
     #[inline]
     fn calc_chunk_size(array_length: usize, step_size: usize, number_of_chunks: usize) -> usize {
         let mut chunk_size = (array_length as f64 / number_of_chunks as f64).ceil() as usize;
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..c98f72b 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -565,36 +565,37 @@ impl Chunk {
         let number_of_chunks =
             2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
         if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+            let chunk_size = Chunk::calc_chunk_size(array_length, step_size, number_of_chunks);
+            let mut rest = array;
+            let mut start = 0;
+            let mut end = array_length;
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                // Takes chunks of the same size from both ends so that every pair is symmetric,
+                // the pair in the middle gets what is left.
+                while start < end {
+                    let remaining = end - start;
+                    let (len1, len2) = if remaining > 2 * chunk_size {
+                        (chunk_size, chunk_size)
+                    } else {
+                        let len1 = Chunk::calc_chunk_size(remaining, step_size, 2).min(remaining);
+                        (len1, remaining - len1)
+                    };
+                    let (mut chunks1, tail) = mem::replace(&mut rest, &mut []).split_at_mut(len1);
+                    let (middle, mut chunks2) = tail.split_at_mut(remaining - len1 - len2);
+                    rest = middle;
+                    let range1 = start..start + len1;
+                    let range2 = end - len2..end;
+                    start += len1;
+                    end -= len2;
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunks1, &range1, &mut chunks2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
+            let len1 = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+            let (mut chunks1, mut chunks2) = array.split_at_mut(len1);
             function(
                 &mut chunks1,
                 &Range {
-- 
2.43.0


From 1cb7b0c30d2b1ec6759d419f5ae2f59a3b196cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 19/51] fix: zero_interleave and everything built on it on an
 empty vector

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index a72a3eb..67c7e33 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -275,7 +275,7 @@ macro_rules! zero_interleave {
                 (),
                 move |original, range, target, _arg| {
                     // Zero target
-                    let ptr = &mut target[0] as *mut T;
+                    let ptr = target.as_mut_ptr();
                     unsafe {
                         ptr::write_bytes(ptr, 0, target.len());
                     }
-- 
2.43.0


From d8a02f69951b91411b1f99a05d057ef0cc77939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 20/51] fix: mirror on an empty vector

---
 vector/src/vector_types/time_freq/freq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index 0d08143..48dd78d 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -60,6 +60,10 @@ where
 
         let len = self.len();
         let step = 2;
+        if len == 0 {
+            return;
+        }
+
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
         {
-- 
2.43.0


From 2a8d96f599e23a712037224a548e1b0b6cf29631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 21/51] fix: magnitude into a destination if the storage is
 larger than the vector

---
 vector/src/vector_types/complex/complex_to_real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 4491d08..04e7dfb 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
-- 
2.43.0


From 294e7676e6b618d84f0212fa06cef99ed6df7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 22/51] fix: prepare_argument_padded on vectors with less than
 two points

---
 vector/src/vector_types/time_freq/correlation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..bd1e192 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -107,10 +107,12 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
-                "zero_pad_b shouldn't fail since the argument is always larger than the vector",
-            );
+        if points > 1 {
+            self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                .expect(
+                    "zero_pad_b shouldn't fail since the argument is always larger than the vector",
+                );
+        }
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
-- 
2.43.0


From 978b05f997e5f43e315e49cf7123fea34c709f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 23/51] fix: ifft_shift on a vector with one point

---
 vector/src/vector_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..99cde12 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -181,7 +181,7 @@ where
     } else {
         let step = if forward { len / 2 } else { len / 2 + 1 };
         let mut temp = data[0];
-        let mut pos = step;
+        let mut pos = step % len;
         for _ in 0..len {
             let pos_new = (pos + step) % len;
             mem::swap(&mut temp, &mut data[pos]);
-- 
2.43.0


From 9a77f6cd61d5985f6250f839d85e38fdd4cb1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 24/51] fix: interpolatef with a long convolution on a short
 vector

---
 vector/src/vector_types/time_freq/interpolation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..d72ca79 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -410,6 +410,7 @@ where
         let new_len = new_len + new_len % 2;
         if conv_len <= 202
             && new_len >= 2000
+            && 2 * (2 * conv_len + 1) <= self.points()
             && (interpolation_factor.round() - interpolation_factor).abs() < T::from(1e-6).unwrap()
         {
             let interpolation_factor = interpolation_factor.round().to_usize().unwrap();
-- 
2.43.0


From 64a70fc3a9be1e42aadc958dfc300e7eabc6cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 25/51] fix: multi threaded operations on empty arrays if the
 thresholds are zero

---
 vector/src/multicore_support/threading.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index c98f72b..056d73c 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -374,7 +374,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // An empty array must not lead to chunks without any elements
+        chunk_size.max(step_size)
     }
 
     /// This function returns the ranges which correspond to the chunks generated by
-- 
2.43.0


From 4d56f78683500c474008f5a953cad3f91876870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 26/51] fix: operations on slices which aren't aligned to the
 registers

---
 vector/src/simd_extensions/mod.rs                  |  6 +++++-
 vector/src/vector_types/time_freq/interpolation.rs | 12 +++++++++---
 vector/src/vector_types/time_freq/mod.rs           | 12 +++++++++---
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..ca08a7f 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -197,7 +197,11 @@ macro_rules! simd_generic_impl {
                 let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
                 assert!(left % mem::size_of::<$data_type>() == 0);
                 let left = left / mem::size_of::<$data_type>();
-                if left + Self::LEN > data_length {
+                // Number of elements until the next aligned address
+                let left = (Self::LEN - left) % Self::LEN;
+                // If the number is odd then the left side would end in between the
+                // real and imaginary part of a complex number
+                if left % 2 != 0 || left + Self::LEN > data_length {
                     SimdPartition::new_all_scalar(data_length)
                 } else {
                     let right = (data_length - left) % Self::LEN;
diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index d72ca79..a9f9648 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -238,17 +238,23 @@ where
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // Everything is scalar if the data can't be loaded into registers
+            let (scalar_left, scalar_right) = if simd.is_empty() {
+                (len, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             // Length of a SIMD reg relative to the length of type T
             // which is 1 for real numbers or 2 for complex numbers
             let simd_len_in_t = Reg::LEN / step;
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[scalar_left..len - scalar_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = range.start + scalar_len;
+                    let mut i = range.start + scalar_left;
                     for num in dest_range {
                         let rounded = (i + interpolation_factor - 1) / interpolation_factor;
                         let end = rounded + conv_len - left_points;
@@ -275,7 +281,7 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_left, scalar_right) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..0633833 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -572,14 +572,20 @@ where
             let step = if self.is_complex() { 2 } else { 1 };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
+            // Everything is scalar if the data can't be loaded into registers
+            let (scalar_left, scalar_right) = if simd.is_empty() {
+                (points, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[scalar_left..points - scalar_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = (scalar_len + range.start) as isize;
+                    let mut i = (scalar_left + range.start) as isize;
                     for num in dest_range {
                         let end = (i + conv_len) as usize - scalar_left_points;
                         let shift = end % shifts.len();
@@ -596,7 +602,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_left, scalar_right) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From 59e77b9ced9f15f002ed509889fc0e6c01c9da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 27/51] fix: atan32 and atan64 calculate the atan

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..79549e8 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..a89aa12 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From ed4d130334a0bc9a9812e93896a2d98286f792c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 28/51] fix: sub32 and sub64 expect their operand in the same
 way as all other functions

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 79549e8..c5fc82f 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index a89aa12..2872878 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 8b2d7446bfc51dadb19bc28cc6e8fc1606fa79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 29/51] fix: overwrite_data accepts as many values as the
 vector has

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index c5fc82f..40838ad 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 2872878..1a3a6e2 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From 310acccaf8dd3eede9716975adc240191cc8d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 30/51] fix: export fft_shift and ifft_shift

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 40838ad..666c220 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 1a3a6e2..93c6361 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From f033d2fdcc4ff3d5a42938ec31fd68b6abc8cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 31/51] fix: getters and clone don't free the vector which they
 read

---
 interop/src/facade32.rs | 16 ++++++++--------
 interop/src/facade64.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 666c220..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 93c6361..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0


From afe1647dcb0e5b3e6338a2263b937cf0110367d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 32/51] fix: functions which only return a result code return
 zero on success

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From 3374cc8f67d8d9a60ae6a3cc190eeaf1167cf3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 33/51] fix: sum and sum_sq of matrices with three or four rows

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From 05e97a17d15ead2337de0bdca0137d7a4fc93a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 34/51] fix: get_magnitude, get_magnitude_squared and get_phase
 of a matrix returned the imaginary part

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From ccb1c75a19509b9fca88847251228d64ed08d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 35/51] fix: diff_with_start and cum_sum of a matrix calculated
 diff

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From 3bff954146588ae80b5b6f541bd6e398deb85643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 36/51] fix: convolve with a real function skipped every second
 sample of long real vectors

---
 vector/src/vector_types/time_freq/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..c24e5b2 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -159,10 +159,11 @@ where
 
             let mut i = 0;
             let mut j = -(T::from(len).unwrap());
+            let step = if self.is_complex() { 2 } else { 1 };
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
-- 
2.43.0


From dc28a277e0c3255a0f9e2365db8cbbd204d6482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 37/51] fix: convolve with a complex function panicked on long
 vectors

---
 vector/src/vector_types/time_freq/convolution.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index c24e5b2..a2bf59c 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -219,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -232,7 +232,7 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
-                i += 2;
+                i += 1;
                 *imp_resp.data_mut(i) = value.im;
                 i += 1;
                 j = j + T::one();
-- 
2.43.0


From bba105ece3bac65670d7edada2ab8780f1404b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 38/51] fix: convolve_signal left a gap in long complex vectors

---
 vector/src/vector_types/time_freq/convolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index a2bf59c..46df9d8 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -339,7 +339,8 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // The FFTs don't reach the last `fft_len` points
+        let remainder_len = 2 * fft_len;
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From b0e6f2f7a15dfc19a71b2631ba94dbc33058118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 39/51] fix: convolve_mat used the length of the impulse
 response for the complex data

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 0633833..9bdf26f 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -415,7 +415,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From 290bbd90df06e84498a5073a62893eacf3130035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 40/51] fix: statistics lost a minimum if the same chunk holds
 a new maximum

---
 vector/src/vector_types/general/statistics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..bd82d84 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -227,7 +227,8 @@ where
             if stat.max > max {
                 max = stat.max;
                 max_index = stat.max_index;
-            } else if stat.min < min {
+            }
+            if stat.min < min {
                 min = stat.min;
                 min_index = stat.min_index;
             }
@@ -316,7 +317,8 @@ where
                 max = stat.max;
                 max_norm = max.norm();
                 max_index = stat.max_index;
-            } else if stat.min.norm() < min_norm {
+            }
+            if stat.min.norm() < min_norm {
                 min = stat.min;
                 min_norm = min.norm();
                 min_index = stat.min_index;
-- 
2.43.0


From af4b00c2a3be021113bf3005d3f2b84e83a175df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 41/51] fix: statistics_split_prec shared the rounding error
 among all columns

---
 vector/src/vector_types/general/precise_stats.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..19cfa02 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,11 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
                     let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    stats.add_prec(*num, j / len, &mut sumc[j % len], &mut rmsc[j % len]);
                     j += 1;
                 }
 
@@ -507,11 +507,11 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
                     let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    stat.add_prec(*num, j / len, &mut sumc[j % len], &mut rmsc[j % len]);
                     j += 1;
                 }
 
-- 
2.43.0


From b9cf532c01a0bf9305b48576a4088f5abf906940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 42/51] fix: lookup tables are zero on both sides outside of
 their table

---
 vector/src/conv_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/conv_types.rs b/vector/src/conv_types.rs
index 9a60f03..44023a7 100644
--- a/vector/src/conv_types.rs
+++ b/vector/src/conv_types.rs
@@ -167,7 +167,7 @@ macro_rules! add_linear_table_lookup_impl {
                         let x = x / self.delta + center_float;
                         let round_float = x.round();
                         let round = round_float as usize;
-                        if round >= len {
+                        if round_float < 0.0 || round >= len {
                             return $result_type::zero();
                         }
 
-- 
2.43.0


From f59046e66a8b62bac8c319b8b1d864ee5deca80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 43/51] fix: From for complex vectors rejects odd lengths like
 the other conversions

---
 vector/src/vector_types/to_from_vec_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/to_from_vec_conversions.rs b/vector/src/vector_types/to_from_vec_conversions.rs
index a2f3db3..eaa2638 100644
--- a/vector/src/vector_types/to_from_vec_conversions.rs
+++ b/vector/src/vector_types/to_from_vec_conversions.rs
@@ -255,7 +255,7 @@ where
             delta: T::one(),
             domain: meta::Time,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             delta: T::one(),
             domain: meta::Freq,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
-- 
2.43.0


From a3b2917d2089c61616d0a53a6fb248994583c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 44/51] fix: to_gen_dsp_vec for slices rejects odd complex
 lengths

---
 vector/src/vector_types/support_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..6b8377d 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -516,7 +516,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
-- 
2.43.0


From ba7305cfcc3482832e86f76cbc88f1f1f7f61d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 45/51] fix: conversions between complex and float vectors
 support empty vectors and odd capacities

---
 vector/src/vector_types/support_std.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..2a654b8 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -646,12 +646,7 @@ where
     expand_to_full_capacity(&mut vec);
     let boxed = vec.into_boxed_slice();
     let len = boxed.len();
-    unsafe {
-        let mut trans: Box<[T]> = mem::transmute(boxed);
-        let vec = Vec::<T>::from_raw_parts(&mut trans[0] as *mut T, len * 2, len * 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
-    }
+    unsafe { Vec::<T>::from_raw_parts(Box::into_raw(boxed) as *mut T, len * 2, len * 2) }
 }
 
 fn interleaved_vec_to_complex_vec<T>(mut vec: Vec<T>) -> Vec<Complex<T>>
@@ -659,15 +654,12 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
+    // A complex number consists of two floats, so that an odd float has to be dropped
+    // before the allocation can be reinterpreted.
+    let len = vec.len() / 2;
+    vec.truncate(2 * len);
     let boxed = vec.into_boxed_slice();
-    let len = boxed.len();
-    unsafe {
-        let mut trans: Box<[Complex<T>]> = mem::transmute(boxed);
-        let vec =
-            Vec::<Complex<T>>::from_raw_parts(&mut trans[0] as *mut Complex<T>, len / 2, len / 2);
-        mem::forget(trans); // TODO memory leak?
-        vec
-    }
+    unsafe { Vec::<Complex<T>>::from_raw_parts(Box::into_raw(boxed) as *mut Complex<T>, len, len) }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6a255e3a7dc4eee0db77e58ee70a69955eb0f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 46/51] fix: converting a complex vector into a Vec returns
 only its valid points

---
 vector/src/vector_types/support_std.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 2a654b8..6fd82a5 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -626,7 +626,9 @@ where
     fn from(mut vector: DspVec<Vec<T>, T, meta::Complex, D>) -> Self {
         let len = vector.valid_len;
         vector.data.truncate(len);
-        interleaved_vec_to_complex_vec(vector.data)
+        let mut complex = interleaved_vec_to_complex_vec(vector.data);
+        complex.truncate(len / 2);
+        complex
     }
 }
 
-- 
2.43.0


From 2e50ec74ff8f7c85561720e5aef8415ac6ff755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:53 +0000
Subject: [PATCH 47/51] fix: get on complex slices supports odd storage lengths

---
 vector/src/vector_types/support_core.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 6b8377d..36ac275 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -784,7 +784,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        let even = self.data.len() / 2 * 2;
+        (array_to_complex(&self.data[..even]), len)
     }
 }
 
@@ -797,6 +798,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        let data = self.data;
+        let even = data.len() / 2 * 2;
+        (array_to_complex_mut(&mut data[..even]), len)
     }
 }
-- 
2.43.0


From bdef50b61213ab8946cc0515be3fa388f7b0f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 48/51] fix: delays in interpolate treat the highest positive
 frequency of odd spectra as positive

---
 vector/src/vector_types/time_freq/interpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index a9f9648..1f64140 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -326,7 +326,7 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
+        let pos_points = (points + 1) / 2;
         let neg_points = points - pos_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
-- 
2.43.0


From f487d15c3acc787051e61cf0e6e3e9c2d55bfdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:28 +0000
Subject: [PATCH 49/51] fix: interpolate_hermite panicked for factors with a
 fraction and for delays

---
 .../vector_types/time_freq/real_interpolation.rs    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..f38cc2a 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -95,8 +95,16 @@ where
             let start = ((T::one() - delay) * interpolation_factor)
                 .ceil()
                 .to_usize()
-                .unwrap();
-            let end = start + 1;
+                .unwrap()
+                .min(dest_len);
+            // The last points are calculated with a loop which doesn't rely on having two points after
+            // the current position
+            let end = (((T::one() + delay) * interpolation_factor)
+                .ceil()
+                .to_usize()
+                .unwrap()
+                + 1)
+                .min(dest_len - start);
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
@@ -149,7 +157,6 @@ where
                 let rounded = i / interpolation_factor + delay;
                 let beforef = rounded.floor();
                 let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
                 let before_before = before - 1;
                 let y0 = data[before_before];
                 let y1 = data[before];
-- 
2.43.0


From 0362e5ec55c0d342fc707bda77bde6137b152235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:35 +0000
Subject: [PATCH 50/51] fix: interpolate_lin with a delay read past the last
 sample, and panicked for empty vectors

---
 .../vector_types/time_freq/real_interpolation.rs  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index f38cc2a..8136558 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -35,6 +35,13 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let data_len = self.len();
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+        if data_len == 0 {
+            return;
+        }
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -42,10 +49,6 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
@@ -55,8 +58,8 @@ where
             for num in &mut dest[0..dest_len - 1] {
                 let rounded = i / interpolation_factor + delay;
                 let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let next = before + 1;
+                let before = beforef.to_usize().unwrap().min(data_len - 1);
+                let next = (before + 1).min(data_len - 1);
                 let x0 = beforef;
                 let y0 = data[before];
                 let y1 = data[next];
-- 
2.43.0


From f5478664b4eed42ad239e25728e00abdeef2d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:36 +0000
Subject: [PATCH 51/51] fix: interpolations of an even number of points counted
 the negative frequencies of asymmetric functions off by one

---
 vector/src/vector_types/time_freq/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 9bdf26f..816a00f 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -648,8 +648,15 @@ where
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
+                        // `fft_swap_x` counts the negative frequencies of an odd number of points,
+                        // for an even number of points they start one point later
+                        let x = if is_fft_shifted && offset == 0 && j > T::zero() {
+                            j + T::one()
+                        } else {
+                            j
+                        };
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, x, max) * ratio);
                         j = j + T::one();
                     }
                 },
-- 
2.43.0

