From fe14374e18fd4cdf76d3dd8d248cff306f58b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 01/41] fix: PhaseCounter ends the last finite phase (phase
 becomes None) and accepts only empty phases

---
 src/aspsim/counter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..895622b 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -57,8 +57,8 @@ class PhaseCounter:
 
         self.start_idxs = {phase_name:start_idx for phase_name, start_idx in zip(self.phase_names, self.start_idxs)}
 
-        self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
-        self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        self._phase_names = [phase_name for phase_name in self.phase_names if self.phase_lengths.get(phase_name, np.inf) > 0]
+        self._start_idxs = [self.start_idxs[phase_name] for phase_name in self._phase_names]
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From 996e50c844950313e7b61ef7ba75683e36f15501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 02/41] fix: Sequence end modes: play the last sample and apply
 amp_factor with 'raise', play silence with 'zeros'

---
 src/aspsim/signal/sources.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..548da90 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -80,14 +80,15 @@ class Sequence(Source):
                 self.current_sample = (self.current_sample + block_len) % self.tot_samples
                 i += block_len
         elif self.end_mode == "zeros":
-            raise NotImplementedError
+            num_left = min(num_samples, self.tot_samples - self.current_sample)
+            sig[:,:num_left] = self.audio[:,self.current_sample:self.current_sample+num_left]
+            self.current_sample += num_left
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From 06126c0bd9e6f5b17493284dcdfa38a363876ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 03/41] fix: Counter returns one row per channel

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 548da90..ea40c60 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -162,7 +162,7 @@ class Counter(Source):
         self.metadata["start number"] = start_number 
 
     def get_samples(self, num_samples):
-        values = np.arange(self.current_number, self.current_number+num_samples)
+        values = np.arange(self.current_number, self.current_number+num_samples)[None,:]
         self.current_number += num_samples
         return values
 
-- 
2.43.0


From 7f09eb1f2a0ddff3534782f92c9f3a13e6b621b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 04/41] fix: MLS starts from the given state and returns one
 row per channel

---
 src/aspsim/signal/sources.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index ea40c60..6eae524 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -403,7 +403,7 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
@@ -413,7 +413,7 @@ class MLS(Source):
         seq, self.state = spsig.max_len_seq(
             self.order, state=self.state, length=num_samples, taps=self.poly
         )
-        return seq * 2 - 1
+        return (seq * 2 - 1)[None,:]
 
 
 class GoldSequenceSource(Source):
@@ -445,12 +445,12 @@ class GoldSequenceSource(Source):
         if 5 <= order <= 11:
             mls1 = MLS(1, order, self.preferredSequences[order][0])
             mls2 = MLS(1, order, self.preferredSequences[order][1])
-            seq1 = mls1.get_samples(2 ** order - 1)
-            seq2 = mls2.get_samples(2 ** order - 1)
+            seq1 = mls1.get_samples(2 ** order - 1)[0,:]
+            seq2 = mls2.get_samples(2 ** order - 1)[0,:]
         elif order > 11:
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
-            seq1 = mls1.get_samples(2**order - 1)
+            seq1 = mls1.get_samples(2**order - 1)[0,:]
             k = util.getSmallestCoprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
-- 
2.43.0


From b1b7714060fa66eaae0f756b0e2a2784dedbc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 05/41] fix: GoldSequenceSource of order above 11 calls an
 existing function

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 6eae524..a27ca40 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -451,7 +451,7 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)[0,:]
-            k = util.getSmallestCoprime(order)
+            k = coreutil.get_smallest_coprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
             seq2 = np.copy(seq1[decimatedIndices])
-- 
2.43.0


From 0b9f774dd328ce04124f78dbe6f42a37a5e7516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 06/41] fix: multi-channel noise of BandlimitedNoiseSource and
 AutocorrSource does not depend on the block size

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index a27ca40..ddc103f 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -233,7 +233,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -382,7 +382,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From 920f71ea8e718e74c5f99a77fb69fb1235c55a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 07/41] fix: SineSource accepts one power per channel

---
 src/aspsim/signal/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index ddc103f..1dd9ac2 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -124,6 +124,8 @@ class SineSource(Source):
         super().__init__(num_channels, rng)
         self.power = power
         self.amplitude = np.sqrt(2 * self.power)
+        if isinstance(self.amplitude, np.ndarray) and self.amplitude.ndim == 1:
+            self.amplitude = self.amplitude[:,None]
         # p = a^2 / 2
         # 2p = a^2
         # sqrt(2p) = a
-- 
2.43.0


From 44e1ad35aa31574f4f1e87d84a8608cfebbe451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 08/41] fix: BandlimitedNoiseSource.get_samples accepts zero
 samples

---
 src/aspsim/signal/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1dd9ac2..5bf5a44 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -235,6 +235,8 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
+        if num_samples == 0:
+            return np.zeros((self.num_channels, 0)) # sosfilt does not accept empty signals
         noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
-- 
2.43.0


From eeae387688f384c40d8011c868a444b69337d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 09/41] fix: AutocorrSource.get_samples keeps its state when
 asked for zero samples

---
 src/aspsim/signal/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 5bf5a44..b8b564d 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -386,6 +386,8 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
+        if num_samples == 0:
+            return np.zeros((self.num_channels, 0)) # lfilter loses its state for empty signals
         return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
-- 
2.43.0


From 82bc3ba2f75215902bdca8e784d641b81cb0730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 10/41] fix: LinearTrajectory constant_time mode has as many
 segments as there are

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..81c4493 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments + 1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From 4f4c4f684dec006addb870723476f14f33409a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 11/41] fix: equidistant_rectangle keeps the last point when
 offset is 1

---
 src/aspsim/room/generatepoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index cb01379..24e0abc 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -190,6 +190,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     points = np.zeros((num_points, 2))
     breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]))
     idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(4)]
+    idxs[3] = breakpoints[3] <= pos_on_circumference # a last point in the first corner (offset 1) belongs to the last side
     
     points = []
     pos_side = pos_on_circumference[idxs[0]] - breakpoints[0] - x_extent[1]
-- 
2.43.0


From df40dce89b68711a491a52cedc40715ac76d2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 12/41] fix: Rectangle and Disc in 3D decide membership point
 by point

---
 src/aspsim/room/region.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..bcc63f7 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -200,13 +200,11 @@ class Rectangle(Region):
         is_in : boolan np.ndarray of shape (N,)
             True if the coordinate is within the region, False otherwise.
         """
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
@@ -270,13 +268,11 @@ class Disc(Region):
         self.volume = self.radius**2 * np.pi
 
     def is_in_region(self, coordinates):
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
-- 
2.43.0


From 9f2dea953e518982663a96aa9b56485a686d6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 13/41] fix: CombinedRegion.is_in_region is the union of its
 regions

---
 src/aspsim/room/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index bcc63f7..ed07f7e 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.logical_or.reduce([reg.is_in_region(coordinate) for reg in self.regions])
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
-- 
2.43.0


From 3e2f5e9214bf93fd91583d174eb7300d27f7efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 14/41] fix: CombinedRegion samples each region in proportion
 to its own volume

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index ed07f7e..12f9189 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        sample_result = test_val[None,:] >= sample_limit[:-1,None]
+        reg_idx = np.sum(sample_result, axis=0)
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From ea6ce56fd1466b83a97de528d6b77f8e0abe3e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 15/41] fix: Propagator.prepare puts the propagated sample
 before time 0 only where it belongs

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From b61be75abd91945807d0787603fe2d3ea8a39bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 16/41] fix: simulations without processor and with a very
 short buffer record every sample

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..b777df2 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -286,7 +286,7 @@ class Simulator:
 
         # the else value (which happens when there is no processor) can be changed to just about anything. Could be set to 1, or 
         # set to a high value that can be used to speed up. 
-        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else self.sim_info.sim_buffer // 4  
+        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else max(self.sim_info.sim_buffer // 4, 1)  
 
         print("SIM START")
         self.n_tot = 0
-- 
2.43.0


From 071fa452f90e6cfeba25ce7da7f61a272c41c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 17/41] fix: get_values_from_selection returns no values when
 all times are at or after max_idx

---
 src/aspsim/diagnostics/core.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..0adcaa7 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -527,11 +527,7 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
-    if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
-            above_max_idx = len(time_indices)
-
-    time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
+    before_max_idx = time_indices < max_idx
+    time_indices = time_indices[before_max_idx]
+    signal = signal[:,before_max_idx]
     return signal, time_indices
-- 
2.43.0


From 8a04fff421c109507910bdddef5c6b15ba089cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 18/41] fix: diagnostics are exported at every export index
 also when no data is saved near it

---
 src/aspsim/diagnostics/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 0adcaa7..1c3c181 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -96,6 +96,9 @@ class Logger:
                 diag.save(processors, sig, (start_lcl, end_lcl), (start, global_idx))
                 diag.progress_save(global_idx)
 
+            if diag.next_save()[0] >= global_idx: # there is nothing more to save before global_idx
+                diag.save_at.saved_until = max(diag.save_at.saved_until, global_idx)
+
 
     def update_next_export(self): 
         try:
-- 
2.43.0


From 47c82423fdd5cf7d5d1552d757bdaff6d5172eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 19/41] fix: StatePower does not interchange save_frequency and
 export_at

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..7fbb78e 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From db54743c99059cb7ef617241da3aff96f9191eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 20/41] fix: RecordState saves states of any shape

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 7fbb78e..a33265a 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From c6a3e2b16725f4bf32e1cef24b6a1153507bdd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 21/41] fix: states with more than one dimension can be
 exported

---
 src/aspsim/diagnostics/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 1c3c181..0ceadd3 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -517,14 +517,13 @@ def get_values_from_selection(signal, time_indices, max_idx):
     max_idx is exlusive
     """
     signal = np.atleast_2d(signal)
-    assert signal.ndim == 2
-    nan_filter = np.logical_not(np.isnan(signal))
+    nan_filter = np.logical_not(np.isnan(signal)).reshape(-1, signal.shape[-1])
     assert np.isclose(nan_filter, nan_filter[0, :]).all()
     nan_filter = nan_filter[0, :]
 
     assert time_indices.shape[-1] == signal.shape[-1]
     time_indices = time_indices[nan_filter]
-    signal = signal[:,nan_filter]
+    signal = signal[...,nan_filter]
 
     if len(time_indices) == 0:
         assert signal.shape[-1] == 0
@@ -532,5 +531,5 @@ def get_values_from_selection(signal, time_indices, max_idx):
 
     before_max_idx = time_indices < max_idx
     time_indices = time_indices[before_max_idx]
-    signal = signal[:,before_max_idx]
+    signal = signal[...,before_max_idx]
     return signal, time_indices
-- 
2.43.0


From e21796b96ab83a24d4d5b022b525b94c4d712910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 22/41] fix: SignalPowerRatio smooths across chunks and blocks
 of saved data

---
 src/aspsim/diagnostics/diagnostics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index a33265a..bc1b038 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,13 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From 6bc77259212baaedd6c55e88bb1ba7be2be8af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 23/41] fix: SoundfieldPower works without a processor

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bc1b038..2484d80 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From a32c75e5677efd79b8e9ad136ee1e409906f8ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 24/41] fix: find_all_earlier_files accepts names that end with
 other digits than 0-9

---
 src/aspsim/fileutilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..831c3f5 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -83,7 +83,7 @@ def find_all_earlier_files(
 
     earlier_files = []
     for f in folder.iterdir():
-        if f.stem.startswith(name) and f.stem[len(name):].isdigit():
+        if f.stem.startswith(name) and f.stem[len(name):].isdecimal():
             f_idx = int(f.stem[len(name) :])
             if f_idx > current_idx:
                 if error_if_future_files_exist:
-- 
2.43.0


From dce2280570019f5dadf20d06cccb67df1d168a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 25/41] fix: earlier plot folders are those of the same
 diagnostic also when a name contains a dot

---
 src/aspsim/fileutilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 831c3f5..a061fa0 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -83,8 +83,9 @@ def find_all_earlier_files(
 
     earlier_files = []
     for f in folder.iterdir():
-        if f.stem.startswith(name) and f.stem[len(name):].isdecimal():
-            f_idx = int(f.stem[len(name) :])
+        stem = f.name if f.is_dir() else f.stem # a folder has no suffix
+        if stem.startswith(name) and stem[len(name):].isdecimal():
+            f_idx = int(stem[len(name) :])
             if f_idx > current_idx:
                 if error_if_future_files_exist:
                     raise ValueError
-- 
2.43.0


From b21b83aa046548b5e2f1ed7bd0813fbd31576ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 26/41] fix: get_multiple_unique_folder_names returns only
 names that are not taken

---
 src/aspsim/fileutilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index a061fa0..440b225 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -48,8 +48,12 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     base_name = sub_folder_name[:-start_idx_len]
 
     folder_names = []
-    for i in range(num_names):
-        folder_names.append(base_folder.joinpath(base_name + str(i + start_idx)))
+    idx = start_idx
+    while len(folder_names) < num_names:
+        folder_name = base_folder.joinpath(base_name + str(idx))
+        if not folder_name.exists():
+            folder_names.append(folder_name)
+        idx += 1
 
     return folder_names
 
-- 
2.43.0


From 2141707a1e30cde54baa613ae8bd093c11f7dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 27/41] fix: a configuration with reverb random can be created
 and loaded

---
 src/aspsim/configutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..2631a3e 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -37,7 +37,7 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
-- 
2.43.0


From c87606c699a0db0c8a6aa23e0a75485dc11b741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 28/41] fix: a path set by the user stays as it is when one of
 its arrays moves

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..8e7c535 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -272,7 +272,8 @@ class ArrayCollection():
             The microphone array
         """
         reverb = self.path_type[src.name][mic.name]
-        assert reverb != "modified"
+        if reverb == "modified":
+            return
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
 
     def update(self, glob_idx):
-- 
2.43.0


From 1c170269740ec4879b2582fb939d2202b9aaa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 29/41] fix: moving microphones can be updated when there are
 no sources

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 8e7c535..d2aed4d 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -307,7 +307,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if self.names_src:
+                    self._rir_dynamic_all.append(self.paths[self.names_src[-1]][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From 9cade5859450d8c4e0724b322ab86ae3fb1e8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 30/41] fix: a path set by the user is used whatever path type
 is set for its arrays

---
 src/aspsim/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index d2aed4d..4b2f0c8 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -198,6 +198,7 @@ class ArrayCollection():
         assert path.shape[1] == self.arrays[mic_name].num
         assert path.ndim == 3
         self.paths[src_name][mic_name] = path
+        self.path_type[src_name][mic_name] = "modified"
     
     def set_path_types(self, path_types):
         """Sets the propagation type between some sources and microphones
@@ -215,7 +216,8 @@ class ArrayCollection():
                 assert src_name in self.names_src
                 assert mic_name in self.names_mic
                 assert isinstance(pt, str)
-                self.path_type[src_name][mic_name] = pt
+                if self.path_type[src_name].get(mic_name) != "modified": # a path set by the user stays
+                    self.path_type[src_name][mic_name] = pt
 
 
     
-- 
2.43.0


From 5e6c153299dc2fbd26bf9b739ad2623a35cdca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 31/41] fix: add_arrays keeps the paths that were set by the
 user

---
 src/aspsim/simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index b777df2..a90b19d 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -57,7 +57,7 @@ class SimulatorSetup:
         #self.diag = diacore.DiagnosticHandler(self.sim_info) 
 
     def add_arrays(self, array_collection):
-        """Adds all arrays and path types from an array collection
+        """Adds all arrays, path types and user-supplied paths from an array collection
         
         Parameters
         ----------
@@ -66,6 +66,10 @@ class SimulatorSetup:
         for ar in array_collection:
             self.arrays.add_array(ar)
         self.arrays.set_path_types(array_collection.path_type)
+        for src_name, src_path_types in array_collection.path_type.items():
+            for mic_name, path_type in src_path_types.items():
+                if path_type == "modified":
+                    self.arrays.set_prop_path(array_collection.paths[src_name][mic_name], src_name, mic_name)
 
             #if ar.is_source:
             #    self.arrays.paths[ar.name] = {}
-- 
2.43.0


From c677260552d3af210db2efb980d8ad5e2e400983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 32/41] fix: paths of moving arrays loaded from a session are
 still recomputed when the arrays move

---
 src/aspsim/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 4b2f0c8..539760a 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -106,6 +106,8 @@ class ArrayCollection():
             if not mic.name in self.path_type[src.name] and not mic.name in self.paths[src.name]:
                 self.path_type[src.name][mic.name] = path_type
             elif mic.name in self.paths[src.name]:
+                if (src.dynamic or mic.dynamic) and mic.name in self.path_type[src.name]:
+                    continue # must be recomputed when the array moves
                 self.path_type[src.name][mic.name] = "modified"
 
     def empty(self):
-- 
2.43.0


From baffda4370eebfcfdb798d0a4d583d956f474ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 33/41] fix: a simulation with a loaded session uses its own
 configuration, trajectories, groups and sources

---
 src/aspsim/array.py           | 16 ++++++++++++++++
 src/aspsim/saveloadsession.py |  7 +++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 539760a..cf49879 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -265,6 +265,22 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
 
+    def set_loaded_paths(self, loaded, sim_info):
+        """Uses the paths of another collection with equal arrays instead of generating them with setup_ir
+
+        Parameters
+        ----------
+        loaded : ArrayCollection
+            The collection to take the paths from, for which prototype_equals(self, loaded) is True
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+        for src, mic in self.mic_src_combos():
+            self.paths[src.name][mic.name] = loaded.paths[src.name][mic.name]
+            self.path_info[f"{src.name}->{mic.name}"] = loaded.path_info[f"{src.name}->{mic.name}"]
+
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
         
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..b072e15 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -24,10 +24,9 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    # only the paths are taken from the session, everything else is as chosen now
+    chosen_arrays.set_loaded_paths(loaded_arrays, chosen_sim_info)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 60783cff8305d44640384cbb849a142ecad4e93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 34/41] fix: a session with other (also slightly other)
 positions or user-supplied paths is not reused

---
 src/aspsim/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index cf49879..63b4130 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -466,13 +466,13 @@ def prototype_equals(prototype, initialized):
             return False
         if ar.num != initialized[ar_name].num:
             return False
-        if not np.allclose(ar.pos,initialized[ar_name].pos):
+        if not np.array_equal(ar.pos,initialized[ar_name].pos):
             return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
         if prototype.path_type[src.name][mic.name] == "modified":
-            if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
+            if not np.array_equal(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
                 return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
             return False
-- 
2.43.0


From 4f4deb5707a6d5ea10fc10f347747a2afb70e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 35/41] fix: a session with another directivity is not reused

---
 src/aspsim/array.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 63b4130..6b6f824 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -468,6 +468,14 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.array_equal(ar.pos,initialized[ar_name].pos):
             return False
+        if ar.dynamic != initialized[ar_name].dynamic:
+            return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
+        if (ar.directivity_dir is None) != (initialized[ar_name].directivity_dir is None):
+            return False
+        if ar.directivity_dir is not None and not np.array_equal(ar.directivity_dir, initialized[ar_name].directivity_dir):
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-- 
2.43.0


From 272888b37f61aabba5c7ad3fd8f8b3455fa615e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 36/41] fix: a session with another high-pass filter or path
 length is not reused for paths other than ism

---
 src/aspsim/configutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 2631a3e..451f818 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -63,16 +63,16 @@ def equal_audio(info1, info2, path_types):
     same_audio =  info1.samplerate == info2.samplerate and \
                 info1.c == info2.c and \
                 info1.spatial_dims == info2.spatial_dims and \
-                info1.reverb == info2.reverb
+                info1.reverb == info2.reverb and \
+                info1.max_room_ir_length == info2.max_room_ir_length and \
+                info1.highpass_cutoff == info2.highpass_cutoff
     
     if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
         same_audio = same_audio and \
             info1.room_size == info2.room_size and \
             info1.room_center == info2.room_center and \
             info1.rt60 == info2.rt60 and \
-            info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From 35f73188bfd832bb408ba983830a9e857f6add11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 37/41] fix: load_from_path works for sessions without
 additional metadata

---
 src/aspsim/saveloadsession.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index b072e15..02844c5 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -38,9 +38,10 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     return loaded_sim_info, loaded_arrays
 
 def copy_sim_metadata(from_folder, to_folder):
-    shutil.copy(
-        from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
-    )
+    if from_folder.joinpath("metadata_sim.json").exists():
+        shutil.copy(
+            from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
+        )
 
 
 class MatchingSessionNotFoundError(ValueError): pass
-- 
2.43.0


From ac8cd318e941a6d46f8b0eb528463e4be55b4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 38/41] fix: a simulator does not change when the configuration
 of its setup is changed afterwards

---
 src/aspsim/simulator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index a90b19d..9ff9493 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -185,27 +185,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
         if self.sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From 843abeb4e6f28eab5c9bbb4c7a82e58ec15e2ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 39/41] fix: paths can be generated when an array has no
 sources or microphones

---
 src/aspsim/room/roomimpulseresponse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..91e9998 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -89,7 +89,8 @@ class PathGenerator:
 
         shortest_distance = np.inf
         for src, mic in self.arrays.mic_src_combos():
-            shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
+            if src.num > 0 and mic.num > 0:
+                shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-- 
2.43.0


From 8a467cf94a6632bd302c69efd0f26ef08560d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 40/41] fix: paths of moving arrays do not use the speed of
 sound and delay of another simulator

---
 src/aspsim/room/roomimpulseresponse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index 91e9998..12c031f 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -74,7 +74,8 @@ class PathGenerator:
             The simulation info object
         
         """
-        pra.constants.set("c", sim_info.c)
+        self.c = sim_info.c
+        pra.constants.set("c", self.c)
 
         room_center = np.array(sim_info.room_center)
         room_size = np.array(sim_info.room_size)
@@ -95,6 +96,7 @@ class PathGenerator:
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
         frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
+        self.frac_dly_len = frac_dly_len
         pra.constants.set("frac_delay_length",frac_dly_len)
         #if verbose:
         if frac_dly_len < 20:
@@ -131,6 +133,9 @@ class PathGenerator:
         elif reverb == "random":
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
+            # the constants are global, and might have been set by another PathGenerator
+            pra.constants.set("c", self.c)
+            pra.constants.set("frac_delay_length", self.frac_dly_len)
             if sim_info.spatial_dims == 3:
                 path = ir_room_image_source_3d(
                         src.pos, 
-- 
2.43.0


From 03e8f9f4748c6693a117d86195ce717e31b3a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 41/41] fix: arrays can move when another array has no sources
 or microphones

---
 src/aspsim/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 6b6f824..232b11c 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -292,7 +292,7 @@ class ArrayCollection():
             The microphone array
         """
         reverb = self.path_type[src.name][mic.name]
-        if reverb == "modified":
+        if reverb == "modified" or src.num == 0 or mic.num == 0:
             return
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
 
-- 
2.43.0

