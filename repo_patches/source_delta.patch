From af4fe85cf31dd626f6baca2c9130e6cec5f3a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 01/56] fix: index arrays with units by numpy integers, integer
 arrays, masks, zero-bounded slices and new axes

---
 zounds/core/axis.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8e510c3..91d1499 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -4,6 +4,12 @@ from zounds.util import tuplify
 from .dimensions import IdentityDimension
 
 
+def _is_integer(x):
+    # numpy considers timedelta64 to be a subclass of integer
+    return isinstance(x, (int, np.integer)) \
+        and not isinstance(x, np.timedelta64)
+
+
 class CustomSlice(object):
     def __init__(self):
         super(CustomSlice, self).__init__()
@@ -236,25 +242,26 @@ class ArrayWithUnits(np.ndarray):
         if not isinstance(sl, slice):
             return False
 
-        try:
-            return \
-                (sl.start is None or sl.start.bit_length()) \
-                and (sl.stop is None or sl.stop.bit_length())
-        except AttributeError:
-            return False
+        return \
+            (sl.start is None or _is_integer(sl.start)) \
+            and (sl.stop is None or _is_integer(sl.stop))
 
     def _compute_indices(self, index):
         dims_pos = 0
+        n_new_axes = len([sl for sl in index if sl is None])
         for sl in index:
-            if sl is None \
-                    or isinstance(sl, int) \
+            if sl is None:
+                # a new axis doesn't use up any existing dimension
+                yield sl
+            elif _is_integer(sl) \
                     or self._is_integer_based_slice(sl) \
-                    or isinstance(sl, list):
+                    or isinstance(sl, (list, np.ndarray)):
                 # burn one
                 dims_pos += 1
                 yield sl
             elif sl is Ellipsis:
-                dims_pos += len(self.dimensions) - (len(index) - 1)
+                dims_pos += \
+                    len(self.dimensions) - (len(index) - n_new_axes - 1)
                 yield Ellipsis
             else:
                 dim = self.dimensions[dims_pos]
@@ -268,11 +275,12 @@ class ArrayWithUnits(np.ndarray):
         for sl in index:
             if sl is None:
                 # additional dimension via np.newaxis
+                shape_pos += 1
                 yield IdentityDimension()
-            elif isinstance(sl, int):
+            elif _is_integer(sl):
                 # burn a dimension
                 dims_pos += 1
-            elif isinstance(sl, list):
+            elif isinstance(sl, (list, np.ndarray)):
                 dims_pos += 1
                 shape_pos += 1
                 yield IdentityDimension()
@@ -306,7 +314,7 @@ class ArrayWithUnits(np.ndarray):
                 return a
             else:
                 return a,
-        if isinstance(a, np.ndarray) and a.dtype == np.bool:
+        if isinstance(a, np.ndarray):
             return a,
         try:
             return tuple(a)
@@ -326,7 +334,7 @@ class ArrayWithUnits(np.ndarray):
                 and index.dtype == np.bool:
             return np.asarray(self)[index]
 
-        if self.ndim == 1 and isinstance(index, int):
+        if self.ndim == 1 and _is_integer(index):
             return np.asarray(self)[index]
 
         index = self._tuplify(index)
-- 
2.43.0


From 0e3897f76737b385ce1a3a463d12590bf1ca4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 02/56] fix: a time slice that ends before time zero selects
 nothing

---
 zounds/timeseries/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index b20938e..80c109f 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -271,7 +271,7 @@ class TimeDimension(Dimension):
         ratio = np.round(end / self.frequency, 2)
 
 
-        stop_index = np.ceil(ratio)
+        stop_index = max(0, np.ceil(ratio))
         return slice(int(start_index), int(stop_index))
 
     def __eq__(self, other):
-- 
2.43.0


From 1b5bdd7d6a0384452c4b06adba35f6344faae979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 03/56] fix: scales with one band, slices of bark and mel
 scales, equality of explicit scales of different lengths

---
 zounds/spectral/frequencyscale.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index f775818..f9a4df0 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -401,7 +401,8 @@ class LinearScale(FrequencyScale):
         freqs = np.linspace(
             self.start_hz, self.stop_hz, self.n_bands, endpoint=False)
         # constant, non-overlapping bandwidth
-        bandwidth = freqs[1] - freqs[0]
+        bandwidth = \
+            freqs[1] - freqs[0] if self.n_bands > 1 else self.stop_hz - self.start_hz
         return tuple(FrequencyBand(f, f + bandwidth) for f in freqs)
 
 
@@ -509,7 +510,9 @@ class ExplicitScale(FrequencyScale):
         return self._bands
 
     def __eq__(self, other):
-        return all([a == b for (a, b) in zip(self, other)])
+        return \
+            len(self) == len(other) \
+            and all([a == b for (a, b) in zip(self, other)])
 
 
 class Bark(Hertz):
@@ -534,6 +537,10 @@ class BarkScale(FrequencyScale):
     def __init__(self, frequency_band, n_bands):
         super(BarkScale, self).__init__(frequency_band, n_bands)
 
+    def _construct_scale_from_slice(self, bands):
+        # bands overlap, so a sub-range isn't described by its outer bounds
+        return ExplicitScale(bands)
+
     def _compute_bands(self):
         start = Bark.to_bark(self.frequency_band.start_hz)
         stop = Bark.to_bark(self.frequency_band.stop_hz)
@@ -563,6 +570,10 @@ class MelScale(FrequencyScale):
     def __init__(self, frequency_band, n_bands):
         super(MelScale, self).__init__(frequency_band, n_bands)
 
+    def _construct_scale_from_slice(self, bands):
+        # bands overlap, so a sub-range isn't described by its outer bounds
+        return ExplicitScale(bands)
+
     def _compute_bands(self):
         start = Mel.to_mel(self.frequency_band.start_hz)
         stop = Mel.to_mel(self.frequency_band.stop_hz)
-- 
2.43.0


From 12687648adba0cedffa0033a12fba73db170b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 04/56] fix: reducing every axis of an array with units by name
 gives a scalar

---
 zounds/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 91d1499..de99fa2 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -134,7 +134,7 @@ class ArrayWithUnits(np.ndarray):
         return self.__class__.zeros(self)
 
     def _apply_reduction_to_dimensions(self, result, axis, keepdims):
-        if axis is None:
+        if axis is None or np.ndim(result) == 0:
             return result
 
         ndims = len(self.dimensions)
-- 
2.43.0


From 9358f82c9b15cd2b9b0ca03339c98fa154ba1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 05/56] fix: variable-rate series end with their latest entry,
 encode exact picoseconds, accept numpy integer indices

---
 zounds/timeseries/variablerate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index a96c071..cbc5de2 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -58,8 +58,8 @@ class VariableRateTimeSeries(object):
     @property
     def end(self):
         try:
-            return self._data.timeslice[-1].end
-        except IndexError:
+            return max(ts.end for ts in self._data.timeslice)
+        except ValueError:
             return Seconds(0)
 
     def __getitem__(self, index):
@@ -72,7 +72,7 @@ class VariableRateTimeSeries(object):
                  if x.timeslice.end > index.start and
                  (index.duration is None or x.timeslice.start < index.end))
             return VariableRateTimeSeries(g)
-        elif isinstance(index, int):
+        elif isinstance(index, (int, np.integer)):
             return self._data[index]
         else:
             return VariableRateTimeSeries(self._data[index])
@@ -90,8 +90,8 @@ class VariableRateTimeSeriesEncoder(NumpyEncoder):
         ])
         ps = Picoseconds(1)
         output.slicedata[:] = data.slicedata
-        output.start[:] = [ts.start / ps for ts in data.slices]
-        output.duration[:] = [ts.duration / ps for ts in data.slices]
+        output.start[:] = [ts.start // ps for ts in data.slices]
+        output.duration[:] = [ts.duration // ps for ts in data.slices]
         return output
 
 
-- 
2.43.0


From 21e4b7c6f71fc6c8af1c2b2aa6c77a992bf6ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 06/56] fix: padded windows reach the end of the input, and
 windowing does not depend on chunk boundaries

---
 zounds/nputil/npx.py              | 6 ++++--
 zounds/spectral/sliding_window.py | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index e6c18da..8fe9312 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -99,7 +99,9 @@ def _wpad(l, windowsize, stepsize):
     nsteps = ((l // stepsize) * stepsize)
     overlap = (windowsize - stepsize)
     if overlap:
-        return nsteps + overlap
+        padded = nsteps + overlap
+        # the last window must reach the end of the input
+        return padded if padded >= l else padded + stepsize
 
     diff = (l - nsteps)
     left = max(0, windowsize - diff)
@@ -117,7 +119,7 @@ def _wcut(l, windowsize, stepsize):
         The length the input array should be so that leftover samples are ignored
     """
     end = l - windowsize
-    if l <= windowsize:
+    if l < windowsize:
         return 0, 0
     elif end % stepsize:
         l = windowsize + ((end // stepsize) * stepsize)
diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index c63776e..82b28c1 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -189,6 +189,9 @@ class SlidingWindow(Node):
             self._cache = self._cache.concatenate(data)
 
     def _dequeue(self):
+        if self._cache is None or not len(self._cache):
+            raise NotEnoughData()
+
         duration = TimeSlice(duration=self._scheme.duration)
         frequency = TimeSlice(duration=self._scheme.frequency)
         leftover, arr = self._cache.sliding_window_with_leftovers(
-- 
2.43.0


From 0d6fc54d682e937bffb72fc29d3847d097b87ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 07/56] fix: silence is silent and keeps its channels for every
 length

---
 zounds/timeseries/audiosamples.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index e77be9f..6425d22 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -84,19 +84,17 @@ class AudioSamples(ArrayWithUnits):
 
     @classmethod
     def silence(cls, samplerate, duration, dtype=np.float32, channels=1):
-        shape = (int(duration / samplerate.frequency), channels)
-        silence = np.zeros(shape, dtype=dtype).squeeze()
+        n_samples = int(duration / samplerate.frequency)
+        shape = (n_samples,) if channels == 1 else (n_samples, channels)
+        silence = np.zeros(shape, dtype=dtype)
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-        x = self.__class__.silence(
+        return self.__class__.silence(
             self.samplerate, duration, self.dtype, self.channels)
-        x[:] = 1
-        return x
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
-        silence = self.__class__.silence(
-            self.samplerate, silence_duration, self.dtype)
+        silence = self.silence_like(silence_duration)
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
-- 
2.43.0


From 94bfdeee31f826ffba31ea1ee3d58125c9c6da82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 08/56] fix: slices and weights along explicit frequency axes
 refer to the columns of the array at hand; overlap-add step of square
 frequency-adaptive arrays

---
 zounds/spectral/frequencyadaptive.py |  5 ++--
 zounds/spectral/tfrepresentation.py  | 36 ++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/zounds/spectral/frequencyadaptive.py b/zounds/spectral/frequencyadaptive.py
index 6b0fdd8..fd4ad63 100644
--- a/zounds/spectral/frequencyadaptive.py
+++ b/zounds/spectral/frequencyadaptive.py
@@ -128,10 +128,9 @@ class FrequencyAdaptive(ArrayWithUnits):
             # no overlap add is necessary
             return ArrayWithUnits(stacked, [td, fdim])
 
-        step_size_samples = int(n_coeffs * overlap_ratio)
+        step_size_samples = int(np.round(n_coeffs * (1 - overlap_ratio)))
 
-        first_dim = int(np.round(
-            (stacked.shape[0] * overlap_ratio) + (n_coeffs * overlap_ratio)))
+        first_dim = (step_size_samples * (len(arr) - 1)) + n_coeffs
 
         output = ArrayWithUnits(
             np.zeros((first_dim, self.n_bands)),
diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 555c926..75a82fe 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -1,7 +1,7 @@
 import numpy as np
 from . import frequencyscale
 from .frequencyscale import Hertz
-from zounds.core import Dimension
+from zounds.core import Dimension, IdentityDimension
 from zounds.spectral.frequencyscale import ExplicitScale
 
 
@@ -107,10 +107,12 @@ class ExplicitFrequencyDimension(Dimension):
         return ExplicitFrequencyDimension(self.scale, self.slices)
 
     def weights(self, weights, arr, i):
-        w = np.zeros(self.slices[-1].stop - self.slices[0].start)
+        shape = [1] * arr.ndim
+        shape[i] = arr.shape[i]
+        w = np.zeros(arr.shape[i])
         for weight, sl in zip(weights, self.slices):
             w[sl] = weight
-        return w
+        return w.reshape(shape)
 
     def modified_dimension(self, size, windowsize, stepsize=None):
         raise NotImplementedError()
@@ -118,16 +120,30 @@ class ExplicitFrequencyDimension(Dimension):
     def metaslice(self, index, size):
         if isinstance(index, frequencyscale.FrequencyBand):
             try:
-                slce = self._lookup[index]
-                return ExplicitFrequencyDimension(
-                    ExplicitScale([index]), [slce])
+                slices = [self._lookup[index]]
+                scale = ExplicitScale([index])
             except KeyError:
                 slce = self.scale.get_slice(index)
+                slices = self.slices[slce]
+                scale = self.scale[slce]
+            start, stop = slices[0].start, slices[-1].stop
         else:
-            slce = index
-
-        print(slce)
-        return ExplicitFrequencyDimension(self.scale[slce], self.slices[slce])
+            # index refers to positions along the axis, and not to bands
+            start, stop, step = index.indices(self.slices[-1].stop)
+            positions = [
+                i for i, s in enumerate(self.slices)
+                if s.start < stop and s.stop > start]
+            if step != 1 or stop <= start or not positions:
+                return IdentityDimension()
+            slce = slice(positions[0], positions[-1] + 1)
+            slices = self.slices[slce]
+            scale = self.scale[slce]
+
+        # the slices are relative to the beginning of the new axis
+        slices = [
+            slice(max(s.start, start) - start, min(s.stop, stop) - start)
+            for s in slices]
+        return ExplicitFrequencyDimension(scale, slices)
 
     def integer_based_slice(self, index):
         if not isinstance(index, frequencyscale.FrequencyBand):
-- 
2.43.0


From 37cf538549ea6b054d32767c3412bd271c87cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 09/56] fix: even-sized slices stay even at the top of a scale

---
 zounds/spectral/frequencyscale.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index f9a4df0..e1c6517 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -325,7 +325,11 @@ class FrequencyScale(object):
             # KLUDGE: This is simple, but it may make sense to choose move the
             # upper *or* lower bound, based on which one introduces a lower
             # error
-            stop_index += 1
+            if stop_index < len(self) or not start_index:
+                stop_index += 1
+            else:
+                # there's no band left above the upper bound
+                start_index -= 1
         return slice(start_index, stop_index)
 
     def __getitem__(self, index):
-- 
2.43.0


From 0caa8bdacbf4572aca70dd1d4dfa6334e4a8462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 10/56] fix: hertz built from an integer converts to float

---
 zounds/spectral/frequencyscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index e1c6517..8c0947d 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -21,7 +21,7 @@ class Hertz(float):
         return Hertz(self.hz + other)
 
     def __float__(self):
-        return self.hz
+        return float(self.hz)
 
 
 Hz = Hertz
-- 
2.43.0


From 3c79be6c874971ad411ce0b5295e769b033ca614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 11/56] fix: DCT-IV keeps the imaginary part of its twiddled
 input, so it is the transform and its own inverse

---
 zounds/spectral/spectral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index 22ef1a6..b590b4c 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -109,8 +109,8 @@ class DCTIV(Node):
     def _process_raw(self, data):
         l = data.shape[1]
         tf = np.arange(0, l)
-        z = np.zeros((len(data), l * 2))
-        z[:, :l] = (data * np.exp(-1j * np.pi * tf / 2 / l)).real
+        z = np.zeros((len(data), l * 2), dtype=np.complex128)
+        z[:, :l] = data * np.exp(-1j * np.pi * tf / 2 / l)
         z = np.fft.fft(z)[:, :l]
         raw = np.sqrt(2 / l) * \
               (z * np.exp(-1j * np.pi * (tf + 0.5) / 2 / l)).real
-- 
2.43.0


From ef675bf1a8a5768c31a1f291e7edc544c662b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 12/56] fix: DCT and DCT-IV accept every window size at every
 sampling rate

---
 zounds/spectral/spectral.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index b590b4c..aa19a9b 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -81,7 +81,8 @@ class DCT(Node):
         transformed = dct(data, norm='ortho', axis=self._axis)
 
         sr = audio_sample_rate(
-            int(data.shape[1] / data.dimensions[0].duration_in_seconds))
+            int(np.round(
+                data.shape[1] / data.dimensions[0].duration_in_seconds)))
         scale = LinearScale.from_sample_rate(
             sr, transformed.shape[-1], always_even=self.scale_always_even)
 
@@ -119,7 +120,8 @@ class DCTIV(Node):
     def _process(self, data):
         raw = self._process_raw(data)
         sr = audio_sample_rate(
-            int(data.shape[1] / data.dimensions[0].duration_in_seconds))
+            int(np.round(
+                data.shape[1] / data.dimensions[0].duration_in_seconds)))
         scale = LinearScale.from_sample_rate(
             sr, data.shape[1], always_even=self.scale_always_even)
         yield ArrayWithUnits(
-- 
2.43.0


From 6847e41516cb8a801009f4ef0597527a22b516fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 13/56] fix: phase shift works along any axis, pitch shift
 keeps the full length

---
 zounds/spectral/functional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index e33d6a0..a3764f2 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -193,7 +193,7 @@ def pitch_shift(x, semitones, frame_sample_rate=None):
     batch_size = stretched.shape[0]
     window_size = 1024
     step = (1, window_size)
-    new_window_shape = int(window_size * factor)
+    new_window_shape = int(np.ceil(window_size * factor))
     padding = window_size - int(stretched.shape[-1] % window_size)
     stretched = np.pad(stretched, ((0, 0), (0, padding)), mode='constant')
     windowed = sliding_window(stretched, step, step, flatten=False).squeeze()
@@ -233,7 +233,10 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
     slices = [slice(None) for _ in range(coeffs.ndim)]
     slices[axis] = frequency_band
-    new_coeffs[tuple(slices)] *= shift[frequency_band]
+    shape = [1 for _ in range(coeffs.ndim)]
+    shape[axis] = -1
+    new_coeffs[tuple(slices)] *= \
+        np.asarray(shift[frequency_band]).reshape(shape)
     return new_coeffs
 
 
-- 
2.43.0


From a0eb8605d7f8194c8c9b4f5c777bee2e2fa1f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 14/56] fix: spectral centroid is the magnitude-weighted mean
 of the bins

---
 zounds/spectral/spectral.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index aa19a9b..ab170a2 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -280,12 +280,13 @@ class SpectralCentroid(Node):
 
     def _first_chunk(self, data):
         self._bins = np.arange(1, data.shape[-1] + 1)
-        self._bins_sum = np.sum(self._bins)
         return data
 
     def _process(self, data):
         data = np.abs(data)
-        yield (data * self._bins).sum(axis=1) / self._bins_sum
+        total = data.sum(axis=1)
+        total[total == 0] = 1
+        yield (data * self._bins).sum(axis=1) / total
 
 
 class SpectralFlatness(Node):
-- 
2.43.0


From f24507940324ecc703d772c8b1ea49bb484e9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 15/56] fix: complex-domain onset detection and spectral flux
 work on arrays with units

---
 zounds/segment/onset.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 0c9c3e3..1a4bfc9 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -70,9 +70,13 @@ class ComplexDomain(Node):
         # delta between expected and actual phase
         # TODO: unwrap phases before computing deltas, to avoid artifacts
         # or discontinuties from phase boundary wrapping
+        dimensions = data.dimensions
+        data = np.asarray(data)
         angle = np.angle(data)
         angle = np.unwrap(angle, axis=1)
-        angle = np.angle(angle[:, 2] - (2 * angle[:, 1]) + angle[:, 0])
+        angle = angle[:, 2] - (2 * angle[:, 1]) + angle[:, 0]
+        # principal value of the phase delta
+        angle = np.angle(np.exp(1j * angle))
 
         # expected magnitude
         expected = np.abs(data[:, 1, :])
@@ -95,9 +99,9 @@ class ComplexDomain(Node):
              (2 * expected * actual * np.cos(angle))) ** 0.5)[
             nonzero_phase_delta_indices]
 
+        # each value describes a single frame of the three in each window
         dims = \
-            [TimeDimension(data.frequency, data.duration // 3)] \
-            + data.dimensions[1:]
+            [TimeDimension(dimensions[0].frequency, dimensions[1].duration)]
         output = ArrayWithUnits(detect.sum(axis=1), dims)
         yield output
 
@@ -124,7 +128,7 @@ class Flux(Node):
         diff = np.diff(data, axis=0)
 
         yield ArrayWithUnits(
-            np.linalg.norm(diff, axis=-1), data.dimensions)
+            np.linalg.norm(diff, axis=-1), data.dimensions[:-1])
 
 
 class BasePeakPicker(Node):
-- 
2.43.0


From fb049311c1539b1aa1baba5205f933cbcad2f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 16/56] fix: complex-domain onset strength is never negative or
 NaN

---
 zounds/segment/onset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 1a4bfc9..0a32d9d 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -89,15 +89,18 @@ class ComplexDomain(Node):
         # between expected and actual magnitude
         zero_phase_delta_indices = np.where(angle == 0)
         detect[zero_phase_delta_indices] = \
-            (expected - actual)[zero_phase_delta_indices]
+            np.abs(expected - actual)[zero_phase_delta_indices]
 
         # where phase delta is non-zero, detection function combines magnitude
         # and phase deltas
         nonzero_phase_delta_indices = np.where(angle != 0)
-        detect[nonzero_phase_delta_indices] = (
-            ((expected ** 2) + (actual ** 2) -
-             (2 * expected * actual * np.cos(angle))) ** 0.5)[
-            nonzero_phase_delta_indices]
+        # (rounding error can make the difference of a steady tone negative)
+        squared = np.maximum(
+            0,
+            (expected ** 2) + (actual ** 2) -
+            (2 * expected * actual * np.cos(angle)))
+        detect[nonzero_phase_delta_indices] = \
+            (squared ** 0.5)[nonzero_phase_delta_indices]
 
         # each value describes a single frame of the three in each window
         dims = \
-- 
2.43.0


From 2456397a68ebcb2f67782a61c0e7c7cf942f47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 17/56] fix: ogg vorbis window of length zero is empty, like
 numpy's windows

---
 zounds/spectral/sliding_window.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index 82b28c1..3b2af0f 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -16,6 +16,9 @@ def oggvorbis(s):
     except TypeError:
         s = np.arange(s[0])
 
+    if not len(s):
+        return np.zeros(0)
+
     i = np.sin((s + .5) / len(s) * np.pi) ** 2
     f = np.sin(.5 * np.pi * i)
     return f * (1. / f.max())
-- 
2.43.0


From 7241fbb7a1bbd9d21e8ae57f46ff9ddbdd7c5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 18/56] fix: packed arrays with units can be stored as a
 feature and read back; negative durations survive encoding

---
 zounds/persistence/arraywithunits.py | 8 +++++---
 zounds/persistence/util.py           | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 25877af..8afdfbe 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -1,4 +1,4 @@
-from zounds.core import ArrayWithUnits
+from zounds.core import ArrayWithUnits, IdentityDimension
 from zounds.persistence import DimensionEncoder, DimensionDecoder
 from featureflow import Node, Decoder, Feature, NumpyMetaData
 import struct
@@ -49,7 +49,9 @@ class PackedArrayWithUnitsEncoder(Node):
 
     def _process(self, data):
         if self.dimensions is None:
-            self.dimensions = data.dimensions
+            # each byte of the last axis holds eight elements
+            self.dimensions = \
+                tuple(data.dimensions[:-1]) + (IdentityDimension(),)
             d = list(self.encoder.encode(self.dimensions))
             encoded = json.dumps(d)
             yield struct.pack('I', len(encoded))
@@ -118,7 +120,7 @@ class PackedArrayWithUnitsFeature(Feature):
             encoder=PackedArrayWithUnitsEncoder,
             decoder=ArrayWithUnitsDecoder(),
             **extractor_args):
-        super(ArrayWithUnitsFeature, self).__init__(
+        super(PackedArrayWithUnitsFeature, self).__init__(
                 extractor,
                 needs=needs,
                 store=store,
diff --git a/zounds/persistence/util.py b/zounds/persistence/util.py
index 43af291..9798e00 100644
--- a/zounds/persistence/util.py
+++ b/zounds/persistence/util.py
@@ -9,13 +9,13 @@ TIMEDELTA_DTYPE_RE = re.compile(r'\[(?P<dtype>[^\]]+)\]')
 def encode_timedelta(td):
     dtype = TIMEDELTA_DTYPE_RE.search(str(td.dtype)).groupdict()['dtype']
     # base64 encoded value, encoded as a utf-8
-    encoded = base64.b64encode(td.astype(np.uint64).tostring()).decode()
+    encoded = base64.b64encode(td.astype(np.int64).tostring()).decode()
     return encoded, dtype
 
 
 def decode_timedelta(t):
     try:
-        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.uint64)[0]
+        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.int64)[0]
         s = t[1]
         return np.timedelta64(int(v), s)
     except IndexError:
-- 
2.43.0


From 955ed1837c32f2c55262e52c71b8f109b74de95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 19/56] fix: unit norm of arrays with more than two axes,
 padding when windows are further apart than they are long

---
 zounds/nputil/npx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index 8fe9312..9c2cf04 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -60,7 +60,7 @@ def safe_unit_norm(a):
     # values to another number. It doesn't matter what, since we'll be dividing
     # a vector of zeros by the number, and 0 / N always equals 0.
     norm[norm == 0] = -1e12
-    return a / norm[:, np.newaxis]
+    return a / norm[..., np.newaxis]
 
 
 def pad(a, desiredlength):
@@ -98,6 +98,10 @@ def _wpad(l, windowsize, stepsize):
 
     nsteps = ((l // stepsize) * stepsize)
     overlap = (windowsize - stepsize)
+    if overlap < 0:
+        # the last window is the last one to start inside of the input
+        return max(l, ((l - 1) // stepsize) * stepsize + windowsize)
+
     if overlap:
         padded = nsteps + overlap
         # the last window must reach the end of the input
@@ -157,7 +161,7 @@ def windowed(a, windowsize, stepsize=None, dopad=False):
         return np.zeros((0,) + a.shape[1:], dtype=a.dtype), a
 
     if windowsize == 1 and stepsize > 1:
-        return np.zeros(0, dtype=a.dtype), a[::stepsize]
+        return np.zeros((0,) + a.shape[1:], dtype=a.dtype), a[::stepsize]
 
     # the original length of the input array
     l = a.shape[0]
-- 
2.43.0


From 8287ad040bf3e9606853973b52a39a22bd3efa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 20/56] fix: whole ogg, flac and adpcm streams are decoded when
 they arrive in several chunks; ogg chunks do not drift

---
 zounds/soundfile/audiostream.py | 15 ++++++++++++++-
 zounds/soundfile/byte_depth.py  | 11 +++++++++++
 zounds/soundfile/ogg_vorbis.py  | 26 +++++++++++++++++---------
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 96b598f..e63b112 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from os import SEEK_END
+from os import SEEK_END, SEEK_SET
 from soundfile import SoundFile
 from zounds.timeseries import audio_sample_rate, AudioSamples
 from .byte_depth import chunk_size_samples
@@ -103,9 +103,22 @@ class AudioStream(Node):
         if self._chunk_size_samples is None:
             self._chunk_size_samples = chunk_size_samples(self._sf, b)
 
+        if self._is_ogg:
+            return
+
         yield self._get_samples()
 
+    @property
+    def _is_ogg(self):
+        return 'OGG' in self._sf.format
+
     def _last_chunk(self):
+        if self._is_ogg:
+            # libsndfile decides how long an ogg file is at the moment it is
+            # opened, so it can only be opened once every byte has arrived
+            self._buf.seek(0, SEEK_SET)
+            self._sf = SoundFile(self._buf)
+
         samples = self._get_samples()
         while samples.size:
             yield samples
diff --git a/zounds/soundfile/byte_depth.py b/zounds/soundfile/byte_depth.py
index f6f784e..be10b39 100644
--- a/zounds/soundfile/byte_depth.py
+++ b/zounds/soundfile/byte_depth.py
@@ -31,3 +31,14 @@ def chunk_size_samples(sf, buf):
     secs = len(buf) / bytes_per_second
     secs = max(1, secs - 6)
     return int(secs * sf.samplerate)
+
+
+def reads_partial_data(sf):
+    """
+    True if samples can be read right up to the last byte that has arrived so
+    far, and reading can carry on once more bytes have arrived.  libsndfile only
+    manages this for uncompressed audio.
+    """
+    uncompressed = sf.subtype.startswith('PCM') \
+                   or sf.subtype in ('FLOAT', 'DOUBLE')
+    return uncompressed and sf.format != 'FLAC'
diff --git a/zounds/soundfile/ogg_vorbis.py b/zounds/soundfile/ogg_vorbis.py
index fa7c83d..0c2c958 100644
--- a/zounds/soundfile/ogg_vorbis.py
+++ b/zounds/soundfile/ogg_vorbis.py
@@ -1,9 +1,9 @@
 
-from featureflow import IdentityEncoder, Node, Decoder, Feature
+from featureflow import IdentityEncoder, Node, Decoder, Feature, NotEnoughData
 from .audiostream import MemoryBuffer
-from zounds.timeseries import audio_sample_rate, TimeSlice, AudioSamples
+from zounds.timeseries import audio_sample_rate, AudioSamples
 from soundfile import *
-from .byte_depth import chunk_size_samples
+from .byte_depth import chunk_size_samples, reads_partial_data
 from zounds.timeseries import Picoseconds, Seconds
 
 
@@ -39,18 +39,23 @@ class OggVorbisWrapper(object):
 
         start_sample = int(timeslice.start / self._freq)
         n_samples = self._n_samples(timeslice.duration)
+        return self._read(start_sample, n_samples)
 
+    def _read(self, start_sample, n_samples):
         self._sf.seek(start_sample)
+        sr = audio_sample_rate(self.samplerate)
         return AudioSamples(self._sf.read(n_samples), sr)
 
     def iter_chunks(self):
-        chunksize = Seconds(1)
-        ts = TimeSlice(chunksize)
-        sl = self[ts]
+        # count samples, since the picosecond frequency isn't exact, and time
+        # slices would eventually drift away from the samples
+        chunksize = self._n_samples(Seconds(1))
+        start_sample = 0
+        sl = self._read(start_sample, chunksize)
         yield sl
-        while len(sl) >= self._n_samples(chunksize):
-            ts += chunksize
-            sl = self[ts]
+        while len(sl) >= chunksize:
+            start_sample += chunksize
+            sl = self._read(start_sample, chunksize)
             yield sl
 
 
@@ -180,6 +185,9 @@ class OggVorbis(Node):
         if self._already_ogg:
             return super(OggVorbis, self)._dequeue()
 
+        if not self._finalized and not reads_partial_data(self._in_sf):
+            raise NotEnoughData()
+
         samples = self._in_sf.read(self._chunk_size_samples)
         factor = 20
         while samples.size:
-- 
2.43.0


From e331b1ef05d2e64f17ce581b19aaa70490fe39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 21/56] fix: resampling neither drops nor invents samples
 between chunks, and interleaves channels whatever the memory layout

---
 zounds/soundfile/resample.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/zounds/soundfile/resample.py b/zounds/soundfile/resample.py
index 26a7907..83076df 100644
--- a/zounds/soundfile/resample.py
+++ b/zounds/soundfile/resample.py
@@ -77,16 +77,34 @@ class Resample(object):
         libsamplerate.src_new.restype = POINTER(SRC_STATE)
         self._state = libsamplerate.src_new(
             self.c_int_converter_type, self.c_int_channels, self.error)
+        # input that the converter hasn't consumed yet, and the number of frames
+        # that have been received and generated so far
+        self._leftover = None
+        self._frames_received = 0
+        self._frames_generated = 0
 
     def _prepare_input(self, insamples):
-        # ensure that the input is float data
-        if np.float32 != insamples.dtype:
-            return insamples.astype(np.float32)
-        return insamples
+        # ensure that the input is float data, with interleaved channels
+        prepared = np.ascontiguousarray(insamples, dtype=np.float32)
+        self._frames_received += len(prepared)
+        if self._leftover is not None:
+            prepared = np.concatenate([self._leftover, prepared])
+        return prepared
 
     def _output_buffer(self, insamples):
-        outsize = (int(np.round(len(insamples) * self._ratio)), self.nchannels)
-        return np.zeros(outsize, dtype=np.float32).squeeze()
+        # round the total, and not each chunk, so that there are neither gaps
+        # nor dropped samples in between chunks
+        total_frames = int(np.round(self._frames_received * self._ratio))
+        n_frames = max(0, total_frames - self._frames_generated)
+        return np.zeros((n_frames,) + insamples.shape[1:], dtype=np.float32)
+
+    def prime(self, silence):
+        """
+        Process silence that won't be part of the output
+        """
+        self(silence)
+        self._frames_received = 0
+        self._frames_generated = 0
 
     def _check_for_error(self, return_code):
         if return_code:
@@ -118,7 +136,9 @@ class Resample(object):
         sd_ptr = pointer(sd)
         rv = libsamplerate.src_process(self._state, sd_ptr)
         self._check_for_error(rv)
-        return outsamples
+        self._leftover = normalized_insamples[sd.input_frames_used:]
+        self._frames_generated += sd.output_frames_gen
+        return outsamples[:sd.output_frames_gen]
 
 
 class Resampler(Node):
@@ -208,7 +228,7 @@ class Resampler(Node):
                 # output will come out click-free
                 silence = AudioSamples.silence(
                     self._samplerate, Seconds(1), channels=data.channels)
-                self._resample(silence)
+                self._resample.prime(silence)
             else:
                 self._rs = self._noop
 
-- 
2.43.0


From cd3777d5b94399f9ef1d4a004197e83d722f5a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:10 +0000
Subject: [PATCH 22/56] fix: decoding carries on past the ten megabytes a
 stream buffer keeps

---
 zounds/soundfile/audiostream.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index e63b112..0bd51dd 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -143,6 +143,8 @@ class MemoryBuffer(object):
         self._buf = BytesIO()
         self._max_size = max_size
         self.tell = self._tell
+        # the number of bytes that have been read, and then let go
+        self._discarded = 0
 
         self._total_bytes_written = 0
         self._total_bytes_read = 0
@@ -165,6 +167,7 @@ class MemoryBuffer(object):
             new_buf = BytesIO()
             new_buf.write(self._buf.read())
             self._buf = new_buf
+            self._discarded += read_pos
             read_pos = 0
         self._buf.seek(0, 2)
         self._buf.write(data)
@@ -172,7 +175,7 @@ class MemoryBuffer(object):
         return len(data)
 
     def _tell(self):
-        return self._buf.tell()
+        return self._discarded + self._buf.tell()
 
     def _tell_end(self):
         self.tell = self._tell
@@ -183,6 +186,10 @@ class MemoryBuffer(object):
             # KLUDGE: PySoundfile no longer supports __len__, which means that
             # this stateful garbage is required.
             self.tell = self._tell_end
+        elif whence == SEEK_SET:
+            # positions are relative to the beginning of the stream, and not
+            # to the bytes that are still here
+            offset -= self._discarded
         self._buf.seek(offset, whence)
 
     def flush(self):
-- 
2.43.0


From 19551a30d5eadba1fc11af68ab7f3ed7cabafce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 23/56] fix: metadata of open files can be stored, a requested
 range is left alone; resampling accepts a single column

---
 zounds/soundfile/audio_metadata.py | 5 ++---
 zounds/soundfile/resample.py       | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/soundfile/audio_metadata.py b/zounds/soundfile/audio_metadata.py
index da143cd..4181e2f 100644
--- a/zounds/soundfile/audio_metadata.py
+++ b/zounds/soundfile/audio_metadata.py
@@ -3,7 +3,6 @@ import os
 from soundfile import SoundFile
 import requests
 import json
-import io
 from urllib.parse import urlparse
 import featureflow as ff
 
@@ -87,7 +86,7 @@ class AudioMetaDataEncoder(Aggregator, Node):
     def _uri(self, uri):
         if isinstance(uri, requests.Request):
             return uri.url
-        elif isinstance(uri, io.BytesIO) or isinstance(uri, ff.ZipWrapper):
+        elif hasattr(uri, 'read') or isinstance(uri, ff.ZipWrapper):
             return None
         else:
             return uri
@@ -134,7 +133,7 @@ class MetaData(Node):
                 headers={'Range': 'bytes=0-'})
             yield AudioMetaData(uri=req)
         elif isinstance(data, requests.Request):
-            if 'range' not in data.headers:
+            if 'range' not in (name.lower() for name in data.headers):
                 data.headers['range'] = 'bytes=0-'
             yield AudioMetaData(uri=data)
         elif self._is_local_file(data) or self._is_file(data):
diff --git a/zounds/soundfile/resample.py b/zounds/soundfile/resample.py
index 83076df..c477df4 100644
--- a/zounds/soundfile/resample.py
+++ b/zounds/soundfile/resample.py
@@ -88,7 +88,8 @@ class Resample(object):
         prepared = np.ascontiguousarray(insamples, dtype=np.float32)
         self._frames_received += len(prepared)
         if self._leftover is not None:
-            prepared = np.concatenate([self._leftover, prepared])
+            leftover = self._leftover.reshape((-1,) + prepared.shape[1:])
+            prepared = np.concatenate([leftover, prepared])
         return prepared
 
     def _output_buffer(self, insamples):
-- 
2.43.0


From 5fdc8cc20b52891648c4429a54cd03a551681e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 24/56] fix: categorical coding of audio and its inverse, unit
 scaling of constants, inverse mu-law of integers

---
 zounds/loudness/loudness.py     |  5 ++---
 zounds/timeseries/functional.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index de167bf..855a588 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -24,7 +24,7 @@ def mu_law(x, mu=255):
 def inverse_mu_law(x, mu=255):
     s = np.sign(x)
     x = np.abs(x)
-    x *= np.log(1 + mu)
+    x = x * np.log(1 + mu)
     x = (np.exp(x) - 1) / mu
     return x * s
 
@@ -49,8 +49,7 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 def unit_scale(x, axis=None):
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
-    scaled = np.divide(scaled, mx, where=max != 0)
-    return scaled
+    return scaled / np.where(mx == 0, 1, mx)
 
 
 class MuLaw(Node):
diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 8f5b2cf..8ea57fe 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -12,17 +12,17 @@ def categorical(x, mu=255, normalize=True):
 
     if normalize:
         # normalize the signal
-        mx = x.max()
-        x = np.divide(x, mx, where=mx != 0)
+        mx = np.abs(x).max()
+        x = x / mx if mx != 0 else x
 
     # mu law compression
-    x = mu_law(x)
+    x = mu_law(x, mu=mu)
 
     # translate and scale to [0, 1]
-    x = (x - x.min()) * 0.5
+    x = (x + 1) * 0.5
 
     # convert to the range [0, 255]
-    x = (x * mu).astype(np.uint8)
+    x = np.clip(x * mu, 0, mu).astype(int)
 
     # create the array to house the categorical representation
     c = np.zeros((np.product(x.shape), mu + 1), dtype=np.uint8)
@@ -40,6 +40,6 @@ def inverse_categorical(x, mu=255):
     """
     flat = x.reshape((-1, x.shape[-1]))
     indices = np.argmax(flat, axis=1).astype(np.float32)
-    indices = (indices / mu) - 0.5
+    indices = (indices / mu) * 2 - 1
     inverted = inverse_mu_law(indices, mu=mu).reshape(x.shape[:-1])
-    return ArrayWithUnits(inverted, x.dimensions[:2])
+    return ArrayWithUnits(inverted, x.dimensions[:-1])
-- 
2.43.0


From 0e06a2ea91cc8fe9a2fa647b30f74b9abe549996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 25/56] fix: HammingDb searches for more results than are
 stored, empty databases, and concurrent use

---
 zounds/index/hammingdb.py | 59 +++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 4576b7f..5e4b268 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -5,6 +5,7 @@ from multiprocessing.dummy import Pool as ThreadPool
 from multiprocessing import cpu_count
 import os
 import binascii
+import threading
 
 
 class HammingDb(object):
@@ -49,6 +50,8 @@ class HammingDb(object):
         self._code_buffer = np.frombuffer(self._code_bytearray, dtype=np.uint64)
         self._codes = None
         self._ids = set()
+        # guards the in-memory mirror of the codes and its scratch buffers
+        self._lock = threading.RLock()
         self._catch_up_on_in_memory_store()
 
         self._thread_count = cpu_count()
@@ -139,31 +142,32 @@ class HammingDb(object):
         return binascii.hexlify(os.urandom(16))
 
     def append(self, code, data):
-        self._validate_code_size(code)
         self._initialize_in_memory_store()
 
-        with self.env.begin(write=True) as txn:
-            _id = self._new_id()
-            try:
-                code = code.encode()
-            except AttributeError:
-                pass
-            try:
-                data = data.encode()
-            except AttributeError:
-                pass
-            txn.put(_id, code + data, db=self.index)
+        _id = self._new_id()
+        try:
+            code = code.encode()
+        except AttributeError:
+            pass
+        try:
+            data = data.encode()
+        except AttributeError:
+            pass
+        self._validate_code_size(code)
+
+        with self._lock:
+            with self.env.begin(write=True) as txn:
+                txn.put(_id, code + data, db=self.index)
+            # only mirror the code in-memory once it's been committed
             self._add_code(_id, code)
 
     def _random_code(self):
         with self.env.begin() as txn:
             with txn.cursor(self.index) as cursor:
-                code = None
-                while not code:
-                    if cursor.set_range(self._new_id()):
-                        return txn.get(
-                            cursor.key(), db=self.index)[:self.code_size]
-                    continue
+                # wrap around when there's nothing at or beyond the random id
+                if not cursor.set_range(self._new_id()) and not cursor.first():
+                    raise ValueError('the database is empty')
+                return cursor.value()[:self.code_size]
 
     def random_search(self, n_results, multithreaded=False, sort=False):
         code = self._random_code()
@@ -176,10 +180,13 @@ class HammingDb(object):
             raise RuntimeError(error_msg)
 
         self._validate_code_size(code)
-        self._check_for_external_modifications()
-        query = self._np_code(code)
+        with self._lock:
+            self._check_for_external_modifications()
+            rows = self._codes.logical_data
 
-        codes = self._codes.logical_data['code']
+        # searches may run concurrently, so each needs its own query
+        query = np.frombuffer(bytes(code), dtype=np.uint64)
+        codes = rows['code']
 
         if codes.ndim == 1:
             codes = codes[..., None]
@@ -192,12 +199,16 @@ class HammingDb(object):
             scores = np.concatenate(self._pool.map(
                 lambda x: packed_hamming_distance(query, x),
                 (codes[i: i + chunksize] for i in
-                 range(0, n_codes, chunksize))))
+                 range(0, max(1, n_codes), chunksize))))
 
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-        partitioned_indices = np.argpartition(scores, n_results)[:n_results]
+        if n_results < len(scores):
+            partitioned_indices = np.argpartition(
+                scores, n_results)[:n_results]
+        else:
+            partitioned_indices = np.arange(len(scores))
 
         if sort:
             # since argpartition doesn't guarantee that the results are
@@ -211,7 +222,7 @@ class HammingDb(object):
             # particular order
             indices = partitioned_indices
 
-        nearest = self._codes.logical_data[indices]['id']
+        nearest = rows[indices]['id']
 
         with self.env.begin() as txn:
             for _id in nearest:
-- 
2.43.0


From 9bb988413f62625c27382885fc55f2c6a60187ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 26/56] fix: HammingIndex listening to live events and on an
 existing index, and its database size

---
 zounds/index/index.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9addb8d..916102c 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -52,7 +52,10 @@ class HammingIndex(object):
 
         try:
             self.hamming_db = HammingDb(
-                self.hamming_db_path, code_size=None, writeonly=self.writeonly)
+                self.hamming_db_path,
+                map_size=self.db_size_bytes,
+                code_size=None,
+                writeonly=self.writeonly)
         except ValueError:
             self.hamming_db = None
 
@@ -101,7 +104,10 @@ class HammingIndex(object):
             return
         code_size = len(code) if code else None
         self.hamming_db = HammingDb(
-            self.hamming_db_path, code_size=code_size, writeonly=self.writeonly)
+            self.hamming_db_path,
+            map_size=self.db_size_bytes,
+            code_size=code_size,
+            writeonly=self.writeonly)
 
     def _synchronously_process_events(self):
         self._listen(raise_when_empty=True)
@@ -138,14 +144,18 @@ class HammingIndex(object):
                 encoded_ts['extra_data'] = extra_data
             self._init_hamming_db(code)
             self.hamming_db.append(code, json.dumps(encoded_ts))
+
+        # events are only behind us once all of the document's segments have
+        # been added
+        if timestamp and self.hamming_db is not None:
             self.hamming_db.set_metadata(b'timestamp', timestamp)
 
     def _listen(self, raise_when_empty=False):
 
         if self.hamming_db is not None:
-            last_timestamp = self.hamming_db.get_metadata('timestamp') or ''
+            last_timestamp = self.hamming_db.get_metadata(b'timestamp') or b''
         else:
-            last_timestamp = ''
+            last_timestamp = b''
 
         if not self.event_log:
             raise ValueError(
@@ -165,6 +175,12 @@ class HammingIndex(object):
             if name != self.feature.key or version != self.feature.version:
                 continue
 
+            # timestamps are raw bytes when read from the log, but strings when
+            # they're pushed to subscribers
+            try:
+                timestamp = timestamp.encode()
+            except AttributeError:
+                pass
             self.add(_id, timestamp)
 
     def _parse_result(self, result):
-- 
2.43.0


From 2edf290c4c68b568c7efa0d4073a0d141b766b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 27/56] fix: processes creating one HammingDb at the same time

---
 zounds/index/hammingdb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 5e4b268..ec27604 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -14,8 +14,7 @@ class HammingDb(object):
 
         self.writeonly = writeonly
 
-        if not os.path.exists(path):
-            os.makedirs(path)
+        os.makedirs(path, exist_ok=True)
 
         self.path = path
         self.env = lmdb.open(
-- 
2.43.0


From 52256f8a514ae4211005a8a07ec43cab543b62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 28/56] fix: HammingIndex listening to an event log that is
 still empty

---
 zounds/index/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 916102c..5111716 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -157,7 +157,7 @@ class HammingIndex(object):
         else:
             last_timestamp = b''
 
-        if not self.event_log:
+        if self.event_log is None:
             raise ValueError(
                 '{self.document} must have an event log configured'
                     .format(**locals()))
-- 
2.43.0


From e78660552fee9fbbec0f0b270573508781c857a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 29/56] fix: normalizing constant or silent examples divides
 into uninitialized memory

np.divide(..., where=) leaves the other elements of its output as it found
them; divide those by one instead.
---
 zounds/learn/functional.py | 2 +-
 zounds/learn/preprocess.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 9cda320..263ca82 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -27,7 +27,7 @@ def example_wise_unit_norm(x, return_norms=False):
     # other axes as features
     x = x.reshape((len(x), -1))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
-    normed = np.divide(x, norms, where=norms != 0)
+    normed = np.divide(x, np.where(norms != 0, norms, 1))
     normed = normed.reshape(original_shape)
 
     if return_norms:
diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 576bb75..28a8fbd 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -426,7 +426,7 @@ class MeanStdNormalization(Preprocessor):
     def _forward_func(self):
         def x(d, mean=None, std=None):
             import numpy as np
-            return np.divide(d - mean, std, where=std != 0)
+            return np.divide(d - mean, np.where(std != 0, std, 1))
 
         return x
 
@@ -469,7 +469,7 @@ class InstanceScaling(Preprocessor):
             # TODO: it should be possible to hand this intermediate value off
             # to inversion data, and to ignore the extra
             m = np.max(np.abs(d), axis=axes, keepdims=True)
-            output = max_value * np.divide(d, m, where=m != 0)
+            output = max_value * np.divide(d, np.where(m != 0, m, 1))
             return ForwardResult(output, max=m, max_value=max_value)
 
         return x
-- 
2.43.0


From d29f2979e631a5dd61a09a1d629a52cceb99455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 30/56] fix: versions of operations depended on addresses of
 their parameters

Slices, models and networks were hashed as arrays of object pointers, so the
version of identical code and parameters differed each time, and a network's
when loaded; arrays of different shapes were confused.  Text versions of
parameters failed.
---
 zounds/learn/preprocess.py | 44 +++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 28a8fbd..b5c7e39 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -1,5 +1,8 @@
 from featureflow import Node, NotEnoughData
 import marshal
+import pickle
+import dill
+from io import BytesIO
 import types
 from collections import OrderedDict
 import hashlib
@@ -30,12 +33,43 @@ class Op(object):
     def _compute_version(self):
         h = hashlib.md5(self._func)
         for v in self._kwargs.values():
-            try:
-                h.update(v.version)
-            except AttributeError:
-                h.update(np.array(v))
+            self._update_version(h, v)
         return h.hexdigest()
 
+    def _update_version(self, h, v):
+        """
+        Update the hash with the value of a parameter, such that equal values
+        in different processes always result in the same version
+        """
+        if hasattr(v, 'version'):
+            h.update(str(v.version).encode())
+        elif hasattr(v, 'state_dict'):
+            # a neural network
+            h.update(str(v).encode())
+            for name, weights in v.state_dict().items():
+                h.update(name.encode())
+                self._update_version(h, weights.cpu().numpy())
+        else:
+            arr = np.array(v)
+            if arr.dtype.hasobject:
+                # the array holds nothing but the addresses of its objects
+                h.update(self._serialized(v))
+            else:
+                h.update(str((arr.dtype.str, arr.shape)).encode())
+                h.update(arr.tobytes())
+
+    def _serialized(self, v):
+        try:
+            # without memoization, the outcome doesn't depend on whether equal
+            # values happen to be the same object
+            buf = BytesIO()
+            pickler = pickle.Pickler(buf, protocol=2)
+            pickler.fast = True
+            pickler.dump(v)
+            return buf.getvalue()
+        except Exception:
+            return dill.dumps(v)
+
     def __getattr__(self, key):
         if key == '_kwargs':
             raise AttributeError()
@@ -213,7 +247,7 @@ class BasePreprocessor(Preprocessor):
     def __init__(self, forward=None, backward=None, name=None, needs=None):
         super(BasePreprocessor, self).__init__(needs=needs)
 
-        def not_implemented():
+        def not_implemented(*args, **kwargs):
             raise NotImplementedError()
 
         self.forward = forward
-- 
2.43.0


From 6e12eb6730e2cfc6fe54f98665ef171a1ec5143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 31/56] fix: loaded networks that cannot be inverted raised
 TypeError

---
 zounds/learn/pytorch_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index 23040b9..62bfeb4 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -32,6 +32,7 @@ class PyTorchPreprocessResult(PreprocessResult):
             op_kwargs=kwargs,
             inv_data_func=inv_data_func,
             backward_func=backward_func,
+            network_in_inversion_data='network' in self.inversion_data.kwargs,
             weights=weights,
             name=name,
             cls=cls,
@@ -62,7 +63,10 @@ class PyTorchPreprocessResult(PreprocessResult):
             network=network,
             **state['op_kwargs'])
 
-        self.inversion_data = Op(state['inv_data_func'], network=network)
+        inv_data_kwargs = dict()
+        if state.get('network_in_inversion_data', True):
+            inv_data_kwargs['network'] = network
+        self.inversion_data = Op(state['inv_data_func'], **inv_data_kwargs)
         self.inverse = Op(state['backward_func'])
         self.name = state['name']
 
-- 
2.43.0


From 7c29aa34a271b8b5f872c2ffde0a949b42675c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 32/56] fix: embedding of raw samples could not run

One-hot vectors have a category more than the linear layer accepted; zero lay
between two categories, and embeddings were laid out across samples.
---
 zounds/learn/sample_embedding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/learn/sample_embedding.py b/zounds/learn/sample_embedding.py
index 7f76677..d894282 100644
--- a/zounds/learn/sample_embedding.py
+++ b/zounds/learn/sample_embedding.py
@@ -16,7 +16,7 @@ class RawSampleEmbedding(nn.Module):
         self.n_categories = n_categories
         self.embedding_dim = embedding_dim
         self.linear = nn.Linear(
-            self.n_categories, self.embedding_dim)
+            self.n_categories + 1, self.embedding_dim)
 
     def _variable(self, x, *args, **kwargs):
         v = Variable(x, *args, **kwargs)
@@ -34,7 +34,7 @@ class RawSampleEmbedding(nn.Module):
 
     def _shift_and_scale(self, x):
         x = x + 1
-        x = x * ((self.n_categories + 1) / 2.)
+        x = x * (self.n_categories / 2.)
         return x
 
     def _one_hot(self, x):
@@ -63,5 +63,5 @@ class RawSampleEmbedding(nn.Module):
         # place all embeddings on the unit sphere
         norms = torch.norm(x, dim=-1)
         x = x / norms.view(-1, 1)
-        x = x.view(-1, self.embedding_dim, sample_size)
-        return x
+        x = x.view(-1, sample_size, self.embedding_dim)
+        return x.transpose(1, 2).contiguous()
-- 
2.43.0


From e6f222be683275151062f95fb406e6be5a1b1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 33/56] fix: indexing units with an empty list

---
 zounds/core/axis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index de99fa2..eaf9400 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -309,8 +309,7 @@ class ArrayWithUnits(np.ndarray):
             t = set([x.__class__ for x in a])
             if len(t) > 1:
                 raise ValueError('a must be homogeneous')
-            t = list(t)[0]
-            if t == slice:
+            if t == {slice}:
                 return a
             else:
                 return a,
-- 
2.43.0


From b052e7a2d58498c29b82a1989695422d1d3728a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 34/56] fix: reservoirs of streams, of several keys and of
 several threads

The chance of being kept depended on the chunk and on the position within it,
a refused addition left the keys of a multiplexed reservoir out of step, and
InfiniteSampler's threads could reset each other's reservoir or fail on
documents without any samples.
---
 zounds/learn/random_samples.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index fcf2e01..5dd1e80 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -3,6 +3,7 @@ from zounds.core import ArrayWithUnits, IdentityDimension
 import numpy as np
 from multiprocessing.pool import ThreadPool
 from os import cpu_count
+from threading import Lock
 
 
 class Reservoir(object):
@@ -109,11 +110,14 @@ class MultiplexedReservoir(object):
         self._init_dict(samples)
         self._check_sample_keys(samples)
 
-        indices = None
-        for k, v in samples.items():
-            if indices is None:
-                indices = np.random.randint(0, self.nsamples, len(v))
+        lengths = set(len(v) for v in samples.values())
+        if len(lengths) > 1:
+            raise ValueError(
+                'there must be the same number of samples for every key, but '
+                'there were {lengths}'.format(lengths=sorted(lengths)))
 
+        indices = np.random.randint(0, self.nsamples, lengths.pop())
+        for k, v in samples.items():
             self.reservoir[k].add(v, indices=indices)
 
     def get(self):
@@ -156,6 +160,7 @@ class InfiniteSampler(Node):
         self.multiplexed = multiplexed
         self.reservoir = MultiplexedReservoir(nsamples, dtype=dtype) \
             if multiplexed else Reservoir(nsamples, dtype=dtype)
+        self._lock = Lock()
 
     def _total_samples(self, cls, feature, _ids):
         pool = ThreadPool(cpu_count())
@@ -181,6 +186,8 @@ class InfiniteSampler(Node):
         # compute the contribution this sample makes to the dataset at
         # large
         feature_size = len(x)
+        if not feature_size:
+            return 0
         ratio = float(feature_size) / total_samples
 
         # determine the appropriate number of samples to contribute to
@@ -195,7 +202,10 @@ class InfiniteSampler(Node):
         # duration of the sound
         indices = np.random.randint(0, feature_size, nsamples)
 
-        self.reservoir.add(x[indices, ...])
+        samples = x[indices, ...]
+        # reservoirs aren't thread-safe
+        with self._lock:
+            self.reservoir.add(samples)
         return len(indices)
 
     def _process(self, data):
@@ -260,9 +270,12 @@ class ReservoirSampler(Node):
         remaining = len(data[diff:])
         if not remaining:
             return
-        indices = np.random.random_integers(0, self._index, size=remaining)
-        indices = indices[indices < self._nsamples]
-        self._r[indices, ...] = data[diff:][list(range(len(indices)))]
+        # the sample that is the nth one to be seen is kept with a probability of
+        # nsamples / n, replacing any of the samples kept so far
+        indices = np.random.randint(
+            0, np.arange(self._index, self._index + remaining) + 1)
+        kept = indices < self._nsamples
+        self._r[indices[kept]] = data[diff:][kept]
         self._index += remaining
 
     def _dequeue(self):
-- 
2.43.0


From 5da285ab01e642ae23c7d804ec5f00d3edc50965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 35/56] fix: trainers ran an epoch too many, and could not do
 without callbacks

Callbacks that come or go while training runs, as the monitoring app's do, no
longer end it, and bound methods can be unregistered.
---
 zounds/learn/embedding.py |  2 +-
 zounds/learn/trainer.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/embedding.py b/zounds/learn/embedding.py
index e3f44ee..fe56c10 100644
--- a/zounds/learn/embedding.py
+++ b/zounds/learn/embedding.py
@@ -61,7 +61,7 @@ class TripletEmbeddingTrainer(Trainer):
         start = self._current_epoch
         stop = self._current_epoch + self.checkpoint_epochs
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(batches_in_epoch):
diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index fea4b04..71b8d89 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -61,7 +61,7 @@ class Trainer(object):
         stop = self._current_epoch + self.checkpoint_epochs
 
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(0, len(data), self.batch_size):
@@ -74,15 +74,17 @@ class Trainer(object):
         return self.network
 
     def register_batch_complete_callback(self, callback):
-        self._batch_complete_callbacks[id(callback)] = callback
+        self._batch_complete_callbacks[callback] = callback
 
     def unregister_batch_complete_callback(self, callback):
         try:
-            del self._batch_complete_callbacks[id(callback)]
+            del self._batch_complete_callbacks[callback]
         except KeyError:
             # the callback was never registered
             pass
 
     def on_batch_complete(self, *args, **kwargs):
-        for callback in self._batch_complete_callbacks.values():
+        # callbacks may be registered or unregistered by other threads, or by
+        # the callbacks themselves
+        for callback in list(self._batch_complete_callbacks.values()):
             callback(*args, **kwargs)
-- 
2.43.0


From e93bb04db3f78061dd2254101c342af2707b3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 36/56] fix: held out examples took part in training, errors
 were mixed up

Examples that are held out updated batch normalization, training after the
first checkpoint went on in evaluation mode, training and test error were
reported as each other, and errors of the network were masked by an
AttributeError.
---
 zounds/learn/supervised.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index a5216ff..f08a7fe 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -1,5 +1,6 @@
 from .trainer import Trainer
 import numpy as np
+import torch
 import warnings
 
 
@@ -60,12 +61,16 @@ class SupervisedTrainer(Trainer):
         def batch(d, l, test=False):
             d = self.data_preprocessor(d)
             l = self.label_preprocessor(l)
-            inp_v = self._variable(d, volatile=test)
-            output = self.network(inp_v)
-
+            inp_v = self._variable(d)
             labels_v = self._variable(l)
 
-            error = self.loss(output, labels_v)
+            # examples that have been held out shouldn't influence the network
+            # in any way, e.g., via batch normalization statistics
+            self.network.train(not test)
+
+            with torch.set_grad_enabled(not test):
+                output = self.network(inp_v)
+                error = self.loss(output, labels_v)
 
             if not test:
                 error.backward()
@@ -94,9 +99,9 @@ class SupervisedTrainer(Trainer):
                 try:
                     inp, output, e = batch(
                         minibatch_data, minibatch_labels, test=False)
-                except RuntimeError as e:
-                    if 'Assert' in e.message:
-                        warnings.warn(e.message)
+                except RuntimeError as exc:
+                    if 'Assert' in str(exc):
+                        warnings.warn(str(exc))
                         continue
                     else:
                         raise
@@ -115,8 +120,8 @@ class SupervisedTrainer(Trainer):
                 self.on_batch_complete(
                     epoch=epoch,
                     batch=i,
-                    train_error=te,
-                    test_error=e,
+                    train_error=e,
+                    test_error=te,
                     samples=self.samples)
 
             self._current_epoch += 1
-- 
2.43.0


From 0163a46a7aa0d31c82ec090236b925b29346b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 37/56] fix: gradient penalty of samples with several axes,
 hashes and gradients in python 3

The penalty is on the norm of each sample's gradient, rather than on that of
each of its columns.
---
 zounds/learn/pytorch_model.py | 6 +++---
 zounds/learn/util.py          | 4 ++--
 zounds/learn/wgan.py          | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index 62bfeb4..f1ccefe 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -158,7 +158,7 @@ class PyTorchNetwork(Preprocessor):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(
             network=trained_network, chunk_size=self.trainer.batch_size)
@@ -231,7 +231,7 @@ class PyTorchGan(PyTorchNetwork):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(network=network, apply_network=self.apply_network)
         inv_data = self.inversion_data()
@@ -296,7 +296,7 @@ class PyTorchAutoEncoder(PyTorchNetwork):
                 processed_data = forward_func(inp, network=trained_network)
             except RuntimeError as e:
                 processed_data = None
-                warnings.warn(e.message)
+                warnings.warn(str(e))
                 # we've just experienced an out of memory exception.  Cut the
                 # size of the input data in half, so that downstream nodes that
                 # need some data to initialize themselves can do so
diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index c653614..c883403 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -54,7 +54,7 @@ def trainable_parameters(model):
 
 def model_hash(model):
     h = hashlib.md5()
-    h.update(str(model))
+    h.update(str(model).encode())
     for p in model.parameters():
         h.update(p.data.cpu().numpy())
     return h.hexdigest()
@@ -65,7 +65,7 @@ def gradients(network):
         g = p.grad
         if g is None:
             continue
-        yield n, g.min().data[0], g.max().data[0], g.mean().data[0]
+        yield n, g.min().item(), g.max().item(), g.mean().item()
 
 
 def to_var(x, volatile=False):
diff --git a/zounds/learn/wgan.py b/zounds/learn/wgan.py
index 97df186..0132955 100644
--- a/zounds/learn/wgan.py
+++ b/zounds/learn/wgan.py
@@ -96,6 +96,7 @@ class WassersteinGanTrainer(Trainer):
             create_graph=True,
             retain_graph=True,
             only_inputs=True)[0]
+        gradients = gradients.reshape((subset_size, -1))
         return ((gradients.norm(2, dim=1) - 1) ** 2).mean() * 10
 
     def freeze_generator(self):
@@ -121,7 +122,7 @@ class WassersteinGanTrainer(Trainer):
         for n, p in network.named_parameters():
             g = p.grad
             if g is not None:
-                print((n, g.min().data[0], g.max().data[0], g.mean().data[0]))
+                print((n, g.min().item(), g.max().item(), g.mean().item()))
 
     def zero_generator_gradients(self):
         self._debug_network_gradient(self.generator)
-- 
2.43.0


From 4b50c44f7c0b2b90c3027e36ccb7b36e07af1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 38/56] fix: infinite learning pipelines could not be built

---
 zounds/learn/gan_experiment.py | 4 +++-
 zounds/learn/graph.py          | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/gan_experiment.py b/zounds/learn/gan_experiment.py
index 634bcf3..1d13971 100644
--- a/zounds/learn/gan_experiment.py
+++ b/zounds/learn/gan_experiment.py
@@ -179,6 +179,8 @@ class GanExperiment(object):
                 dataset=(Sound, self.sound_feature),
                 trainer=trainer,
                 nsamples=self.n_samples,
-                dtype=np.float32)
+                dtype=np.float32,
+                feature_filter=lambda x: x,
+                parallel=True)
 
         self.app.start(self.app_port)
diff --git a/zounds/learn/graph.py b/zounds/learn/graph.py
index b554cde..04e83ad 100644
--- a/zounds/learn/graph.py
+++ b/zounds/learn/graph.py
@@ -52,7 +52,7 @@ def infinite_streaming_learning_pipeline(cls):
 
             raise RuntimeError('There is no network in the pipeline')
 
-    root.needs = InfiniteLearningPipeline.dataset
+    root.needs = dict(_=InfiniteLearningPipeline.dataset)
     InfiniteLearningPipeline.__name__ = cls.__name__
     InfiniteLearningPipeline.__module__ = cls.__module__
 
-- 
2.43.0


From 657dff7998369323284aa131827b241a6dc6697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 39/56] fix: SincLayer's filters weren't band-pass filters

Cutoff frequencies were the reciprocals of the scale's frequencies, and an odd
number of taps could produce NaN.
---
 zounds/learn/sinclayer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/sinclayer.py b/zounds/learn/sinclayer.py
index 28017d3..a117f92 100644
--- a/zounds/learn/sinclayer.py
+++ b/zounds/learn/sinclayer.py
@@ -46,14 +46,18 @@ class SincLayer(nn.Module):
         # each filter requires two parameters to define the filter bandwidth
         filter_parameters = torch.FloatTensor(len(scale), 2)
 
+        # the position of each tap relative to the center of the filter
+        half = (taps - 1) / 2.
         self.linear = nn.Parameter(
-            torch.linspace(-math.pi, math.pi, steps=taps), requires_grad=False)
+            torch.linspace(-half, half, steps=taps) * 2 * math.pi,
+            requires_grad=False)
         self.window = nn.Parameter(
             torch.hamming_window(self.taps), requires_grad=False)
 
         for i, band in enumerate(scale):
-            start = self.samplerate / band.start_hz
-            stop = self.samplerate / band.stop_hz
+            # frequencies are relative to the sampling rate
+            start = band.start_hz / self.samplerate
+            stop = band.stop_hz / self.samplerate
             filter_parameters[i, 0] = start
             filter_parameters[i, 1] = stop
 
@@ -61,6 +65,8 @@ class SincLayer(nn.Module):
 
     def _sinc(self, frequency):
         x = self.linear[None, :] * frequency[:, None]
+        # the limit at zero is one
+        x = torch.where(x == 0, torch.full_like(x, 1e-6), x)
         return torch.sin(x) / x
 
     def _start_frequencies(self):
-- 
2.43.0


From 74f3228e339974390e18f8a8bb91b8ba58825cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 40/56] fix: DctTransform was only invertible but for its first
 sample, and for the last axis

Windows of the same size were mistaken for each other, and short time
coefficients ended up in the wrong places.
---
 zounds/learn/dct_transform.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index 044108c..2e26d99 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -29,6 +29,9 @@ class DctTransform(object):
             return self._basis_cache[n]
         except KeyError:
             basis = torch.from_numpy(dct_basis(n)).float()
+            # all rows must have the same norm, otherwise the transform can't be
+            # inverted by transposing the basis
+            basis[0] *= 0.5 ** 0.5
             if self.use_cuda:
                 basis = basis.cuda()
             self._basis_cache[n] = basis
@@ -36,20 +39,20 @@ class DctTransform(object):
 
     def window(self, n, window):
         try:
-            return self._window_cache[n]
+            return self._window_cache[(n, window)]
         except KeyError:
             data = torch.from_numpy(window._wdata(n)).float()
             if self.use_cuda:
                 data = data.cuda()
-            self._window_cache[n] = data
+            self._window_cache[(n, window)] = data
             return data
 
     def _base_dct_transform(self, x, basis, axis=-1):
         n = torch.FloatTensor(1)
         n[:] = 2. / x.shape[axis]
         n = self._variable(n)
-        coeffs = torch.matmul(x, basis) * torch.sqrt(n)
-        return coeffs
+        coeffs = torch.matmul(x.transpose(axis, -1), basis) * torch.sqrt(n)
+        return coeffs.transpose(axis, -1)
 
     def dct(self, x, axis=-1):
         basis = self._variable(self.dct_basis(x.shape[axis]))
@@ -63,7 +66,7 @@ class DctTransform(object):
         # figure out how many samples our resampled signal will have
         n_samples = int(factor * x.shape[axis])
 
-        coeffs = self.dct(x)
+        coeffs = self.dct(x, axis=axis)
 
         # create the shape of our new coefficients
         new_coeffs_shape = list(coeffs.shape)
@@ -88,7 +91,7 @@ class DctTransform(object):
             slce = tuple(slce)
             new_coeffs[slce] = 0
 
-        return self.idct(new_coeffs)
+        return self.idct(new_coeffs, axis=axis)
 
     def frequency_decomposition(self, x, factors, axis=-1):
 
@@ -111,7 +114,7 @@ class DctTransform(object):
 
             new_coeffs[slce] = coeffs[slce]
 
-            resampled = self.idct(new_coeffs)
+            resampled = self.idct(new_coeffs, axis=axis)
             bands.append(resampled)
 
         return bands
@@ -122,5 +125,5 @@ class DctTransform(object):
         window = self._variable(self.window(x.shape[-1], window))
         x = x * window
         x = self.dct(x, axis=-1)
-        x = x.view((original_shape[0], size, x.shape[2]))
-        return x
+        x = x.reshape((original_shape[0], -1, size)).transpose(1, 2)
+        return x.contiguous()
-- 
2.43.0


From 9d3afc46a1e475cb8bd096322bc191b1ad8bebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:51 +0000
Subject: [PATCH 41/56] fix: per sample penalty, per sample norm, and map sizes
 of layers

The gradient penalty is on the norm of each sample's gradient, sample_norm
supports any number of dimensions, sizes of feature maps are integers, and
FilterBank.transform supports a single band.
---
 zounds/learn/loss.py     | 1 +
 zounds/learn/spectral.py | 2 +-
 zounds/learn/util.py     | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/loss.py b/zounds/learn/loss.py
index 6bd3c38..4b5c903 100644
--- a/zounds/learn/loss.py
+++ b/zounds/learn/loss.py
@@ -306,4 +306,5 @@ class WassersteinGradientPenaltyLoss(BaseLoss):
             create_graph=True,
             retain_graph=True,
             only_inputs=True)[0]
+        gradients = gradients.reshape((subset_size, -1))
         return ((gradients.norm(2, dim=1) - 1) ** 2).mean() * self.weight
diff --git a/zounds/learn/spectral.py b/zounds/learn/spectral.py
index 2d08dbf..1015d65 100644
--- a/zounds/learn/spectral.py
+++ b/zounds/learn/spectral.py
@@ -97,7 +97,7 @@ class FilterBank(nn.Module):
 
         # convert back to an ArrayWithUnits instance
         samplerate = samples.samplerate
-        time_frequency = pooled.data.cpu().numpy().squeeze().T
+        time_frequency = pooled.data.cpu().numpy().squeeze(axis=0).T
         time_frequency = ArrayWithUnits(time_frequency, [
             TimeDimension(
                 frequency=samplerate.frequency * pooling_stride,
diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index c883403..c9ce262 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -123,7 +123,7 @@ def sample_norm(x):
     x *= 1.0 / original.shape[1]
     x += 10e-8
     x = torch.sqrt(x)
-    return original / x.view(-1, 1, x.shape[-1])
+    return original / x.unsqueeze(1)
 
 
 def batchwise_unit_norm(x, epsilon=1e-8):
@@ -145,7 +145,7 @@ def batchwise_mean_std_normalization(x, epsilon=1e-8):
 
 
 def feature_map_size(inp, kernel, stride=1, padding=0):
-    return ((inp - kernel + (2 * padding)) / stride) + 1
+    return ((inp - kernel + (2 * padding)) // stride) + 1
 
 
 class ConvLayer(nn.Module):
-- 
2.43.0


From f9fa2961fe8bf23b6eeca2b68bbd689c6e8b44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 42/56] fix: range requests serve exactly the range,
 serializers serve whole features and search results

Range requests with an end of zero, ranges beyond the end of a resource or
with malformed bounds produced other data, wrong content ranges or errors,
long ogg ranges crashed libsndfile, times were truncated rather than rounded,
features other than bytes couldn't be requested as a whole, and search results
couldn't be serialized in python 3.
---
 zounds/ui/baseapp.py      | 18 +++++++--
 zounds/ui/contentrange.py | 44 +++++++++++----------
 zounds/ui/serializer.py   | 83 ++++++++++++++++++++++++++-------------
 3 files changed, 94 insertions(+), 51 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 296c804..5c0a3f2 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -6,7 +6,8 @@ import tornado.ioloop
 import tornado.web
 import http.client
 import urllib.request, urllib.parse, urllib.error
-from .contentrange import RangeRequest, UnsatisfiableRangeRequestException
+from .contentrange import RangeRequest, RangeUnitUnsupportedException, \
+    UnsatisfiableRangeRequestException
 from .serializer import DefaultSerializer, AudioSamplesSerializer, \
     NumpySerializer, OggVorbisSerializer, ConstantRateTimeSeriesSerializer, \
     OnsetsSerializer, SearchResultsSerializer
@@ -109,7 +110,16 @@ class BaseZoundsApp(object):
             raise NoMatchingSerializerException()
 
     def serialize(self, context):
-        serializer = self.find_serializer(context)
+        try:
+            serializer = self.find_serializer(context)
+        except NoMatchingSerializerException:
+            if context.feature is None or context.value is not None:
+                raise
+            # there's no serializer for features of this kind, but there might
+            # be one for the feature's value
+            context.value = context.feature(
+                _id=context.document._id, persistence=context.document)
+            serializer = self.find_serializer(context)
         return serializer.serialize(context)
 
     def feature_handler(self):
@@ -124,7 +134,8 @@ class BaseZoundsApp(object):
                 feature = document.features[feature]
                 try:
                     slce = RangeRequest(self.request.headers['Range']).range()
-                except KeyError:
+                except (KeyError, RangeUnitUnsupportedException):
+                    # serve the whole resource
                     slce = slice(None)
                 context = RequestContext(
                     document=doc, feature=feature, slce=slce)
@@ -133,6 +144,7 @@ class BaseZoundsApp(object):
                 except UnsatisfiableRangeRequestException:
                     self.set_status(http.client.REQUESTED_RANGE_NOT_SATISFIABLE)
                     self.finish()
+                    return
                 self.set_header('Content-Type', result.content_type)
                 self.set_header('Accept-Ranges', 'bytes')
                 self.write(result.data)
diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index e87b448..3be7fdb 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -25,22 +25,22 @@ class RangeRequest(object):
                 r'^(?P<unit>[^=]+)=(?P<start>[^-]+)-(?P<stop>.*?)$')
 
     def time_slice(self, start, stop):
-        start = float(start)
-        try:
-            stop = float(stop)
-        except ValueError:
-            stop = None
-        duration = \
-            None if stop is None else Picoseconds(int(1e12 * (stop - start)))
-        start = Picoseconds(int(1e12 * start))
-        return TimeSlice(duration, start=start)
+        # ranges ending where others start have to agree about that position,
+        # so round positions, and never durations
+        start = int(round(1e12 * float(start)))
+        duration = None
+        if stop:
+            stop = int(round(1e12 * float(stop)))
+            if stop < start:
+                raise ValueError('range stops before it starts')
+            duration = Picoseconds(stop - start)
+        return TimeSlice(duration, start=Picoseconds(start))
 
     def byte_slice(self, start, stop):
         start = int(start)
-        try:
-            stop = int(stop)
-        except ValueError:
-            stop = None
+        stop = int(stop) if stop else None
+        if stop is not None and stop < start:
+            raise ValueError('range stops before it starts')
         return slice(start, stop)
 
     def range(self):
@@ -56,12 +56,16 @@ class RangeRequest(object):
         start = m.groupdict()['start']
         stop = m.groupdict()['stop']
 
-        if units == 'bytes':
-            return self.byte_slice(start, stop)
-        elif units == 'seconds':
-            return self.time_slice(start, stop)
-        else:
-            raise RangeUnitUnsupportedException(units)
+        try:
+            if units == 'bytes':
+                return self.byte_slice(start, stop)
+            elif units == 'seconds':
+                return self.time_slice(start, stop)
+        except (ValueError, OverflowError):
+            # just like headers that don't match, malformed ranges are ignored
+            return slice(None)
+
+        raise RangeUnitUnsupportedException(units)
 
 
 class ContentRange(object):
@@ -91,6 +95,6 @@ class ContentRange(object):
     def __str__(self):
         unit = self.unit
         start = self.start
-        stop = self.stop or self.total
+        stop = self.total if self.stop is None else self.stop
         total = self.total
         return '{unit} {start}-{stop}/{total}'.format(**locals())
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 82f29fa..9f90c09 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -1,11 +1,12 @@
 import datetime
+import os
 from zounds.persistence import ArrayWithUnitsFeature
 from zounds.timeseries import Seconds, Picoseconds, TimeSlice, AudioSamples
 from zounds.segment import TimeSliceFeature
 from zounds.index import SearchResults
 from zounds.soundfile import OggVorbisFeature
 from soundfile import SoundFile
-from .contentrange import ContentRange
+from .contentrange import ContentRange, UnsatisfiableRangeRequestException
 import numpy as np
 from featureflow import Decoder
 import matplotlib
@@ -31,6 +32,21 @@ class TempResult(object):
         self.is_partial = is_partial
 
 
+def satisfiable_time_slice(slce, total):
+    """
+    Return the part of the requested slice that lies within a resource with the
+    given duration
+    """
+    if slce.start >= total:
+        raise UnsatisfiableRangeRequestException()
+    stop = total
+    if slce.duration is not None:
+        stop = min(slce.start + slce.duration, total)
+    if stop <= slce.start:
+        raise UnsatisfiableRangeRequestException()
+    return TimeSlice(stop - slce.start, start=slce.start)
+
+
 class DefaultSerializer(object):
     def __init__(self, content_type):
         super(DefaultSerializer, self).__init__()
@@ -50,20 +66,23 @@ class DefaultSerializer(object):
         feature = context.feature
         slce = context.slce
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
-        if slce.start:
-            flo.seek(slce.start)
-        if slce.stop:
-            value = flo.read(slce.stop - slce.start)
-        else:
-            value = flo.read()
-        key = document.key_builder.build(
-                document._id, feature.key, feature.version)
-        total = document.database.size(key)
+
+        if isinstance(slce, TimeSlice) or slce == slice(None):
+            # either the whole resource was requested, or a part of it in a
+            # unit that doesn't make sense for it
+            return TempResult(flo.read(), self.content_type)
+
+        total = flo.seek(0, os.SEEK_END)
+        stop = total if slce.stop is None else min(slce.stop, total)
+        if slce.start >= stop:
+            raise UnsatisfiableRangeRequestException()
+        flo.seek(slce.start)
         return TempResult(
-                value,
+                flo.read(stop - slce.start),
                 self.content_type,
-                is_partial=slce.start is not None or slce.stop is not None,
-                content_range=ContentRange.from_slice(slce, total))
+                is_partial=True,
+                content_range=ContentRange.from_slice(
+                    slice(slce.start, stop), total))
 
 
 class AudioSamplesSerializer(object):
@@ -115,8 +134,9 @@ class OggVorbisSerializer(object):
     def serialize(self, context):
         feature = context.feature
         document = context.document
-        slce = context.slce
         wrapper = feature(_id=document._id, persistence=document)
+        total = Picoseconds(int(1e12 * wrapper.duration_seconds))
+        slce = satisfiable_time_slice(context.slce, total)
         samples = wrapper[slce]
         bio = BytesIO()
         with SoundFile(
@@ -126,15 +146,15 @@ class OggVorbisSerializer(object):
                 channels=wrapper.channels,
                 format='OGG',
                 subtype='VORBIS') as sf:
-            sf.write(samples)
+            # libsndfile can't encode many samples at once
+            for i in range(0, len(samples), wrapper.samplerate):
+                sf.write(samples[i: i + wrapper.samplerate])
         bio.seek(0)
-        content_range = ContentRange.from_timeslice(
-                slce, Picoseconds(int(1e12 * wrapper.duration_seconds)))
         return TempResult(
                 bio.read(),
                 'audio/ogg',
-                is_partial=slce != TimeSlice(),
-                content_range=content_range)
+                is_partial=True,
+                content_range=ContentRange.from_timeslice(slce, total))
 
 
 def generate_image(data, is_partial=False, content_range=None):
@@ -182,10 +202,10 @@ class ConstantRateTimeSeriesSerializer(object):
         feature = context.feature
         document = context.document
         data = feature(_id=document._id, persistence=document)
-        sliced_data = data[context.slce]
         td = data.dimensions[0]
-        content_range = ContentRange.from_timeslice(
-                context.slce, td.end)
+        slce = satisfiable_time_slice(context.slce, td.end)
+        sliced_data = data[slce]
+        content_range = ContentRange.from_timeslice(slce, td.end)
         return generate_image(
                 sliced_data,
                 is_partial=True,
@@ -197,9 +217,10 @@ class NumpySerializer(object):
         super(NumpySerializer, self).__init__()
 
     def matches(self, context):
-        return \
-            isinstance(context.value, np.ndarray) \
-            and len(context.value.shape) in (1, 2, 3)
+        if not isinstance(context.value, np.ndarray):
+            return False
+        shape = context.value.shape
+        return len(shape) in (1, 2) or (len(shape) == 3 and shape[-1] in (3, 4))
 
     @property
     def content_type(self):
@@ -271,7 +292,11 @@ class OnsetsSerializer(AudioSliceSerializer):
         return isinstance(context.feature, TimeSliceFeature)
 
     def iter_results(self, context):
-        for ts in context.value.slices:
+        value = context.value
+        if value is None:
+            value = context.feature(
+                _id=context.document._id, persistence=context.document)
+        for ts in value.slices:
             yield ts, context.document._id
 
 
@@ -287,8 +312,10 @@ class SearchResultsSerializer(AudioSliceSerializer):
         return isinstance(context.value, SearchResults)
 
     def additional_data(self, context):
-        return {'query': base64.b64encode(context.value.query)}
+        return {'query': base64.b64encode(context.value.query).decode()}
 
     def iter_results(self, context):
-        for _id, ts in context.value:
+        # some indexes return additional data along with each time slice
+        for result in context.value:
+            _id, ts = result[:2]
             yield ts, _id
-- 
2.43.0


From 06c2d0eab6908d2e5f717e5dfa1f91ecce143580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 43/56] fix: monitored training survives clients that leave,
 the REPL shows what expressions print

Training messages were written to websockets from the training thread, which
isn't safe, and raised errors in the training loop once a client had left. Since
python 3 made print a function, its output was dropped by the in-browser REPL,
and indented expressions were evaluated and then reported as errors. Apps
couldn't be stopped right after they'd been started, and training monitors
built links that no route matches.
---
 zounds/ui/api.py              | 16 ++++++++++------
 zounds/ui/baseapp.py          | 11 +++++++++--
 zounds/ui/training_monitor.py | 20 ++++++++++++++++----
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/zounds/ui/api.py b/zounds/ui/api.py
index 581f219..5ee20e5 100644
--- a/zounds/ui/api.py
+++ b/zounds/ui/api.py
@@ -91,7 +91,7 @@ class ZoundsApp(BaseZoundsApp):
                     pass
 
             def post(self):
-                statement = self.request.body
+                statement = self.request.body.strip()
                 self.set_header('Content-Type', 'application/json')
                 output = dict()
 
@@ -99,13 +99,17 @@ class ZoundsApp(BaseZoundsApp):
                     orig_stdout = sys.stdout
                     sys.stdout = sio = StringIO()
                     try:
-                        value = eval(statement, globals, locals)
-                        output['result'] = str(value)
-                        self._add_url(statement, output, value)
+                        code = compile(statement, '<string>', 'eval')
                     except SyntaxError:
+                        # this isn't an expression
                         exec (statement, globals, locals)
-                        sio.seek(0)
-                        output['result'] = sio.read()
+                        output['result'] = sio.getvalue()
+                    else:
+                        value = eval(code, globals, locals)
+                        output['result'] = sio.getvalue()
+                        if value is not None or not output['result']:
+                            output['result'] += str(value)
+                        self._add_url(statement, output, value)
                     self.set_status(http.client.OK)
                 except:
                     output['error'] = traceback.format_exc()
diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 5c0a3f2..9dd5d38 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -79,6 +79,7 @@ class BaseZoundsApp(object):
         self._html_content = self._get_html(html)
         self.server = None
         self.thread = None
+        self._listening = threading.Event()
 
     SCRIPT_TAG = re.compile('<script\s+src="/(?P<filename>[^"]+)"></script>')
 
@@ -257,7 +258,10 @@ class BaseZoundsApp(object):
     def start_in_thread(self, port=8888):
         self.thread = threading.Thread(target=self._start, args=(port,))
         self.thread.daemon = True
+        self._listening.clear()
         self.thread.start()
+        # the app can't be stopped before there's a server
+        self._listening.wait()
         print('Interactive REPL at http://localhost:{port}'.format(port=port))
         return self
 
@@ -272,8 +276,11 @@ class BaseZoundsApp(object):
 
     def _start(self, port):
         asyncio.set_event_loop(asyncio.new_event_loop())
-        app = self._make_app()
-        self.server = app.listen(port)
+        try:
+            app = self._make_app()
+            self.server = app.listen(port)
+        finally:
+            self._listening.set()
         tornado.ioloop.IOLoop.instance().start()
 
     def start(self, port=8888):
diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 4327c55..0840704 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -1,6 +1,7 @@
 from io import BytesIO
 
 from .api import ZoundsApp
+import tornado.ioloop
 import tornado.websocket
 import tornado.web
 import json
@@ -92,11 +93,22 @@ class TrainingMonitorApp(ZoundsApp):
                         except KeyError:
                             # there's no data to report for this key
                             pass
-                    self.write_message(json.dumps(data))
+                    # training usually happens in another thread, but only the
+                    # server's own thread may write to the connection
+                    self.ioloop.add_callback(
+                        self._write_if_open, json.dumps(data))
 
                 return x
 
+            def _write_if_open(self, message):
+                try:
+                    self.write_message(message)
+                except tornado.websocket.WebSocketClosedError:
+                    # the client has left in the meantime
+                    pass
+
             def open(self):
+                self.ioloop = tornado.ioloop.IOLoop.current()
                 self.func = self._send_message()
                 app.trainer \
                     .register_batch_complete_callback(self.func)
@@ -142,7 +154,7 @@ class SupervisedTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -173,7 +185,7 @@ class GanTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -204,7 +216,7 @@ class TripletEmbeddingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
-- 
2.43.0


From 4a7e0b7a87d831e4c94faa507317c823641625da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 44/56] fix: datasets are ingested when mapping serially,
 downloads are complete or absent, searches end

---
 zounds/datasets/cache.py           |  9 +++++---
 zounds/datasets/freesound.py       | 10 ++++----
 zounds/datasets/ingest.py          | 37 +++++++++++++++++++-----------
 zounds/datasets/internetarchive.py |  6 ++++-
 zounds/datasets/musicnet.py        |  2 +-
 zounds/datasets/phatdrumloops.py   |  2 +-
 zounds/datasets/util.py            | 29 ++++++++++++++++++++---
 7 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/zounds/datasets/cache.py b/zounds/datasets/cache.py
index 7146af3..cd3d238 100644
--- a/zounds/datasets/cache.py
+++ b/zounds/datasets/cache.py
@@ -1,6 +1,7 @@
 import os
 import hashlib
 import requests
+from .util import complete_file
 
 
 class DataSetCache(object):
@@ -12,8 +13,10 @@ class DataSetCache(object):
             os.makedirs(path)
 
     def __iter__(self):
-        for request in self.dataset:
-            h = hashlib.md5(request.url).hexdigest()
+        for item in self.dataset:
+            # datasets produce AudioMetaData instances, which wrap the request
+            request = getattr(item, 'uri', item)
+            h = hashlib.md5(request.url.encode()).hexdigest()
             p = os.path.join(self.path, h)
 
             if not os.path.exists(p):
@@ -23,7 +26,7 @@ class DataSetCache(object):
 
                 resp.raise_for_status()
 
-                with open(p, 'wb') as f:
+                with complete_file(p) as f:
                     for chunk in resp.iter_content(1024):
                         f.write(chunk)
 
diff --git a/zounds/datasets/freesound.py b/zounds/datasets/freesound.py
index 20ceaf7..4845ad6 100644
--- a/zounds/datasets/freesound.py
+++ b/zounds/datasets/freesound.py
@@ -1,3 +1,4 @@
+from itertools import islice
 import requests
 import time
 from zounds.soundfile import AudioMetaData
@@ -94,11 +95,10 @@ class FreeSoundSearch(object):
             # prevent 429 "Too Many Requests" responses
             time.sleep(self.delay)
 
-        for r in self._iter_results(results['next']):
-            yield r
+        if results.get('next'):
+            for r in self._iter_results(results['next']):
+                yield r
 
     def __iter__(self):
-        for i, data in enumerate(self._iter_results()):
-            if i > self.n_results:
-                break
+        for data in islice(self._iter_results(), self.n_results):
             yield self._freesound_to_audio_metadata(data)
diff --git a/zounds/datasets/ingest.py b/zounds/datasets/ingest.py
index 8f01e32..79e94ea 100644
--- a/zounds/datasets/ingest.py
+++ b/zounds/datasets/ingest.py
@@ -5,14 +5,18 @@ from os import cpu_count
 
 def ingest_one(arg):
     metadata, cls, skip_if_exists = arg
-    request = metadata.request
-    url = request.url
-    if skip_if_exists and cls.exists(request.url):
-        print('already processed {request.url}'.format(**locals()))
-        return
 
     try:
-        print('processing {request.url}'.format(**locals()))
+        # items may be AudioMetaData instances, or anything that might be used
+        # as their uri, e.g., a path to a local file
+        uri = getattr(metadata, 'uri', metadata)
+        url = getattr(uri, 'url', uri)
+
+        if skip_if_exists and cls.exists(url):
+            print('already processed {url}'.format(**locals()))
+            return
+
+        print('processing {url}'.format(**locals()))
         cls.process(meta=metadata, _id=url)
     except Exception as e:
         print(e)
@@ -40,12 +44,17 @@ def ingest(
     cls_args = repeat(cls)
     skip_args = repeat(skip_if_exists)
 
-    map_func(ingest_one, zip(dataset, cls_args, skip_args))
-
-    if pool is not None:
-        # if we're ingesting using multiple processes or threads, the processing
-        # should be parallel, but this method should be synchronous from the
-        # caller's perspective
-        pool.close()
-        pool.join()
+    try:
+        # map() only processes items as its results are consumed, and failures
+        # outside of ingest_one, e.g., in the dataset itself, surface here
+        results = iter(map_func(ingest_one, zip(dataset, cls_args, skip_args)))
+        for _ in results:
+            pass
+    finally:
+        if pool is not None:
+            # if we're ingesting using multiple processes or threads, the
+            # processing should be parallel, but this method should be
+            # synchronous from the caller's perspective
+            pool.close()
+            pool.join()
 
diff --git a/zounds/datasets/internetarchive.py b/zounds/datasets/internetarchive.py
index c5b1312..41b5cb4 100644
--- a/zounds/datasets/internetarchive.py
+++ b/zounds/datasets/internetarchive.py
@@ -58,8 +58,12 @@ class InternetArchive(object):
 
         for k, v in all_files.items():
             if self.format_filter(v):
+                # file names may contain characters that would otherwise end
+                # the url's path
+                path = k.replace('%', '%25').replace('#', '%23') \
+                    .replace('?', '%3F')
                 sound_url = urllib.parse.urljoin(
-                    base_url, '/download/{archive_id}{k}'.format(**locals()))
+                    base_url, '/download/{archive_id}{path}'.format(**locals()))
                 request = requests.Request(method='GET', url=sound_url)
                 metadata = self._get_metadata(v, all_files)
                 metadata.update(self.attrs)
diff --git a/zounds/datasets/musicnet.py b/zounds/datasets/musicnet.py
index 8235208..a1c490f 100644
--- a/zounds/datasets/musicnet.py
+++ b/zounds/datasets/musicnet.py
@@ -29,7 +29,7 @@ class MusicNet(object):
         local_metadata = ensure_local_file(self._metadata, self.path)
 
         metadata = dict()
-        with open(local_metadata, 'rb') as f:
+        with open(local_metadata, 'r', newline='') as f:
             reader = csv.DictReader(f)
             for row in reader:
                 metadata[row['id']] = row
diff --git a/zounds/datasets/phatdrumloops.py b/zounds/datasets/phatdrumloops.py
index 80d3285..1e7bbf6 100644
--- a/zounds/datasets/phatdrumloops.py
+++ b/zounds/datasets/phatdrumloops.py
@@ -32,7 +32,7 @@ class PhatDrumLoops(object):
     def __iter__(self):
         resp = requests.get('http://phatdrumloops.com/beats.php')
         pattern = re.compile('href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
-        for m in pattern.finditer(resp.content):
+        for m in pattern.finditer(resp.text):
             url = urllib.parse.urljoin('http://phatdrumloops.com',
                                    m.groupdict()['uri'])
             request = requests.Request(
diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 09a63b0..01c34c7 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -1,6 +1,25 @@
+from contextlib import contextmanager
 import requests
 import urllib.parse
 import os
+import uuid
+
+
+@contextmanager
+def complete_file(path):
+    """
+    Open a file for writing that only appears at path once everything has been
+    written successfully, so that an interrupted download is never mistaken for
+    a finished one
+    """
+    partial = '{path}.{suffix}.part'.format(path=path, suffix=uuid.uuid4().hex)
+    try:
+        with open(partial, 'wb') as f:
+            yield f
+        os.replace(partial, path)
+    finally:
+        if os.path.exists(partial):
+            os.remove(partial)
 
 
 def ensure_local_file(remote_url, local_path, chunksize=4096):
@@ -9,11 +28,15 @@ def ensure_local_file(remote_url, local_path, chunksize=4096):
     local = os.path.join(local_path, filename)
 
     if not os.path.exists(local):
-        with open(local, 'wb') as f:
-            resp = requests.get(remote_url, stream=True)
-            total_bytes = int(resp.headers['Content-Length'])
+        resp = requests.get(remote_url, stream=True)
+        resp.raise_for_status()
+        # there's no such header when the response's encoding is chunked
+        total_bytes = int(resp.headers.get('Content-Length') or 0)
+        with complete_file(local) as f:
             for i, chunk in enumerate(resp.iter_content(chunk_size=chunksize)):
                 f.write(chunk)
+                if not total_bytes:
+                    continue
                 progress = ((i * chunksize) / float(total_bytes)) * 100
                 print('{remote_url} {progress:.2f}% complete'.format(**locals()))
 
-- 
2.43.0


From 6aac7a9e9802a757686b70bccb7bb01f056bba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 45/56] fix: synthesized signals of differing frequencies,
 whole lengths and tick spacings

---
 zounds/synthesize/synthesize.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index 43e183b..0b3ccd0 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -13,6 +13,17 @@ from zounds.timeseries import \
     nearest_audio_sample_rate, Seconds, AudioSamples, TimeDimension
 
 
+def whole_samples(duration, samplerate):
+    """
+    Return the number of samples that fit into duration, where durations that
+    are a whole number of samples, up to rounding, aren't truncated to one less
+    """
+    samples = (duration / Seconds(1)) * int(samplerate)
+    nearest = int(np.round(samples))
+    # the frequency of a samplerate is only precise up to a picosecond
+    return nearest if abs(nearest - samples) <= 1e-7 * samples else int(samples)
+
+
 class ShortTimeTransformSynthesizer(object):
     def __init__(self):
         super(ShortTimeTransformSynthesizer, self).__init__()
@@ -557,8 +568,8 @@ class SineSynthesizer(object):
         scaling = 1 / len(freqs)
         sr = int(self.samplerate)
         cps = freqs / sr
-        ts = (duration / Seconds(1)) * sr
-        ranges = np.array([np.arange(0, ts * c, c) for c in cps])
+        n_samples = whole_samples(duration, self.samplerate)
+        ranges = np.outer(cps, np.arange(n_samples))
         raw = (np.sin(ranges * (2 * np.pi)) * scaling).sum(axis=0)
         return AudioSamples(raw, self.samplerate)
 
@@ -605,10 +616,9 @@ class TickSynthesizer(object):
         tick = np.random.uniform(low=-1., high=1., size=int(sr * .1))
         tick *= np.linspace(1, 0, len(tick))
         # create silence
-        samples = np.zeros(int(sr * (duration / Seconds(1))))
-        ticks_per_second = Seconds(1) / tick_frequency
+        samples = np.zeros(whole_samples(duration, self.samplerate))
         # introduce periodic ticking sound
-        step = int(sr // ticks_per_second)
+        step = whole_samples(tick_frequency, self.samplerate)
         for i in range(0, len(samples), step):
             size = len(samples[i:i + len(tick)])
             samples[i:i + len(tick)] += tick[:size]
@@ -648,9 +658,8 @@ class NoiseSynthesizer(object):
         Args:
             duration (numpy.timedelta64): The duration of the synthesized sound
         """
-        sr = self.samplerate.samples_per_second
-        seconds = duration / Seconds(1)
-        samples = np.random.uniform(low=-1., high=1., size=int(sr * seconds))
+        n_samples = whole_samples(duration, self.samplerate)
+        samples = np.random.uniform(low=-1., high=1., size=n_samples)
         return AudioSamples(samples, self.samplerate)
 
 
-- 
2.43.0


From 65e85c76493a7330393c53f46b153579beabd5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 46/56] fix: sum node, features that depend on merged ones,
 pooling to single values

---
 zounds/basic/basic.py             | 15 ++++++---------
 zounds/timeseries/variablerate.py |  3 ++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/zounds/basic/basic.py b/zounds/basic/basic.py
index 31349d2..d48f877 100644
--- a/zounds/basic/basic.py
+++ b/zounds/basic/basic.py
@@ -15,7 +15,10 @@ class Merge(Node):
     def __init__(self, needs=None):
         super(Merge, self).__init__(needs=needs)
         exc_msg = 'you must supply two or more dependencies'
-        if len(needs) < 2:
+        # there are no dependencies when an instance is only created to compute
+        # the version of features that depend on this one
+        needs = {} if needs is None else needs
+        if len(needs) == 1:
             raise ValueError(exc_msg)
 
         self._cache = OrderedDict((id(n), None) for n in list(needs.values()))
@@ -87,15 +90,9 @@ class Sum(Node):
         self._axis = axis
 
     def _process(self, data):
-        # TODO: This should be generalized.  Sum will have this same problem
-        try:
-            # data = np.sum(data, axis=self._axis)
-            data = np.sum(axis=self._axis)
-        except ValueError:
-            print('ERROR')
-            data = data
+        # unlike the maximum, the sum of no frames at all wouldn't be an error
         if data.shape[0]:
-            yield data
+            yield data.sum(axis=self._axis)
 
 
 class Max(Node):
diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index cbc5de2..e8f836d 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -14,7 +14,8 @@ class VariableRateTimeSeries(object):
 
         data = sorted(list(data), key=lambda x: x[0])
         try:
-            example = data[0][1]
+            # reductions to a single value may be plain python numbers
+            example = np.asarray(data[0][1])
             shape = example.shape
             dtype = example.dtype
         except IndexError:
-- 
2.43.0


From 649deb0577914d803ac79ebdbe48dc1e879b9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 47/56] fix: the intersection of two time slices starts where
 the later of them starts

---
 zounds/timeseries/timeseries.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index 80c109f..afe6542 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -87,10 +87,9 @@ class TimeSlice(object):
             return self.start.__ge__(other)
 
     def __and__(self, other):
-        delta = max(
-            Picoseconds(0),
-            min(self.end, other.end) - max(self.start, other.start))
-        return TimeSlice(delta)
+        start = max(self.start, other.start)
+        delta = max(Picoseconds(0), min(self.end, other.end) - start)
+        return TimeSlice(delta, start=start)
 
     def __contains__(self, other):
         if isinstance(other, np.timedelta64):
-- 
2.43.0


From ca7d514ce725738243b7d8102a4cd57f742989fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:32 +0000
Subject: [PATCH 48/56] fix: packed bits don't keep the dimension of the axis
 they were packed along

---
 zounds/core/axis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index eaf9400..f67a66b 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -167,7 +167,13 @@ class ArrayWithUnits(np.ndarray):
 
     def packbits(self, axis=None):
         arr = np.packbits(self, axis=axis)
-        return ArrayWithUnits(arr, self.dimensions)
+        if axis is None:
+            # the array has been flattened
+            return ArrayWithUnits(arr, [IdentityDimension()])
+        # an axis whose bits have been packed no longer means the same thing
+        dimensions = list(self.dimensions)
+        dimensions[axis] = IdentityDimension()
+        return ArrayWithUnits(arr, dimensions)
 
     def __array_finalize__(self, obj):
         if obj is None:
-- 
2.43.0


From f26a1159c652f416411a0394ca10d0755bb25d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:09 +0000
Subject: [PATCH 49/56] fix: stereo, silence and padding of mono samples with
 two dimensions

---
 zounds/timeseries/audiosamples.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 6425d22..200d216 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -90,8 +90,12 @@ class AudioSamples(ArrayWithUnits):
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-        return self.__class__.silence(
+        silence = self.__class__.silence(
             self.samplerate, duration, self.dtype, self.channels)
+        # mono samples may also have a second dimension, with a size of one
+        shape = silence.shape[:1] + self.shape[1:]
+        return self.__class__(
+            np.asarray(silence).reshape(shape), self.samplerate)
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.silence_like(silence_duration)
@@ -159,7 +163,9 @@ class AudioSamples(ArrayWithUnits):
     def stereo(self):
         if self.channels == 2:
             return self
-        return AudioSamples(np.vstack([self, self]).T, self.samplerate)
+        # mono samples may also have a second dimension, with a size of one
+        mono = np.asarray(self)
+        return AudioSamples(np.column_stack([mono, mono]), self.samplerate)
 
     def __getitem__(self, item):
         sliced = super(AudioSamples, self).__getitem__(item)
-- 
2.43.0


From 93a301b90018c71b8cc5c94ae072080dc871a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 50/56] fix: transposed axes keep their own dimensions, and
 arrays without elements can be squeezed

---
 zounds/core/axis.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index f67a66b..598146d 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -73,6 +73,18 @@ class ArrayWithUnits(np.ndarray):
         arr = super(ArrayWithUnits, self).T
         return ArrayWithUnits(arr, self.dimensions[::-1])
 
+    def transpose(self, *axes):
+        arr = super(ArrayWithUnits, self).transpose(*axes)
+        order = axes[0] if len(axes) == 1 and np.ndim(axes[0]) else axes
+        if not len(order) or order[0] is None:
+            order = range(self.ndim)[::-1]
+        return ArrayWithUnits(arr, [self.dimensions[i] for i in order])
+
+    def swapaxes(self, axis1, axis2):
+        order = list(range(self.ndim))
+        order[axis1], order[axis2] = order[axis2], order[axis1]
+        return self.transpose(order)
+
     def kwargs(self):
         return self.__dict__
 
@@ -105,7 +117,7 @@ class ArrayWithUnits(np.ndarray):
             [IdentityDimension() for _ in shape])
 
     def squeeze(self):
-        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] > 1]
+        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
         return ArrayWithUnits(
             super().reshape([s for s, _ in zipped]),
             [d for _, d in zipped])
-- 
2.43.0


From 5ad1d29f203ce8c01aa41c75c22e3f55d9e006c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 51/56] fix: dot products, broadcasting and reductions don't
 keep dimensions that no longer describe their axes

---
 zounds/core/axis.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 598146d..e6d64f8 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -175,7 +175,15 @@ class ArrayWithUnits(np.ndarray):
 
     def dot(self, b):
         result = super(ArrayWithUnits, self).dot(b)
-        return self.__class__(result, self.dimensions[:result.ndim])
+        if np.ndim(b) == 0:
+            return ArrayWithUnits(result, self.dimensions)
+        # the last axis of this array, and the last but one (or only) axis of b
+        # have been summed over
+        dimensions = list(self.dimensions[:-1])
+        if np.ndim(b) > 1:
+            other = getattr(b, 'dimensions', [IdentityDimension()] * np.ndim(b))
+            dimensions += [*other[:-2], other[-1]]
+        return ArrayWithUnits(result, dimensions)
 
     def packbits(self, axis=None):
         arr = np.packbits(self, axis=axis)
@@ -190,14 +198,37 @@ class ArrayWithUnits(np.ndarray):
     def __array_finalize__(self, obj):
         if obj is None:
             return
-        self.dimensions = getattr(obj, 'dimensions', None)
+        dimensions = getattr(obj, 'dimensions', None)
+        if dimensions is not None and len(dimensions) != self.ndim:
+            dimensions = tuple(IdentityDimension() for _ in range(self.ndim))
+        self.dimensions = dimensions
 
     def __array_wrap__(self, obj, context=None):
         if len(self.dimensions) != obj.ndim:
             if obj.ndim == 0:
                 return obj.item()
             return np.asarray(obj)
-        return np.ndarray.__array_wrap__(self, obj, context)
+        result = np.ndarray.__array_wrap__(self, obj, context)
+        result.dimensions = tuple(self._resized_dimensions(obj.shape))
+        return result
+
+    def _resized_dimensions(self, shape):
+        """
+        Dimensions for the result of an operation that may have reduced some
+        axes to a size of one, or have broadcast others
+        """
+        for dim, old_size, new_size in zip(self.dimensions, self.shape, shape):
+            if new_size < old_size:
+                yield IdentityDimension()
+                continue
+            if new_size > old_size:
+                dim = dim.copy()
+                try:
+                    dim.size = new_size
+                    dim.validate(new_size)
+                except (AttributeError, ValueError):
+                    dim = IdentityDimension()
+            yield dim
 
     def sliding_window(self, windowsize, stepsize=None):
         ws = tuple(self._compute_span(windowsize))
-- 
2.43.0


From 1e31a877a5f35d4e0e0f8fb6a404c1c50572a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 52/56] fix: filter banks of bands that start at zero Hz can be
 built

---
 zounds/spectral/functional.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index a3764f2..a1707fd 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -285,8 +285,12 @@ def fir_filter_bank(scale, taps, samplerate, window):
         stop_hz = min(nyq, band.stop_hz)
         freqs = np.linspace(
             start_hz / nyq, stop_hz / nyq, len(win), endpoint=False)
-        freqs = [0] + list(freqs) + [1]
-        gains = [0] + list(win) + [0]
+        freqs = list(freqs) + [1]
+        gains = list(win) + [0]
+        if start_hz > 0:
+            # a band that starts at zero has nothing below it
+            freqs = [0] + freqs
+            gains = [0] + gains
         basis[i] = firwin2(taps, freqs, gains)
 
     return basis
-- 
2.43.0


From b4ad93bf22463b00991c02528a1ed1d6ac404c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 53/56] fix: integer samples are companded and scaled without
 overflowing

---
 zounds/loudness/loudness.py     | 10 +++++++---
 zounds/timeseries/functional.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index 855a588..0600f3b 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -4,10 +4,13 @@ from featureflow import Node
 
 
 def log_modulus(x):
+    # divide, so that the magnitudes of small integer types can't overflow
+    x = x / 1
     return np.sign(x) * np.log(np.abs(x) + 1)
 
 
 def inverse_log_modulus(x):
+    x = x / 1
     return (np.exp(np.abs(x)) - 1) * np.sign(x)
 
 
@@ -17,13 +20,13 @@ def decibel(x):
 
 def mu_law(x, mu=255):
     s = np.sign(x)
-    x = np.abs(x)
+    x = np.abs(x / 1)
     return s * (np.log(1 + (mu * x)) / np.log(1 + mu))
 
 
 def inverse_mu_law(x, mu=255):
     s = np.sign(x)
-    x = np.abs(x)
+    x = np.abs(x / 1)
     x = x * np.log(1 + mu)
     x = (np.exp(x) - 1) / mu
     return x * s
@@ -38,7 +41,7 @@ def inverse_one_hot(x, axis=-1):
 
 
 def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
-    mx = np.abs(x).max(axis=axis, keepdims=True)
+    mx = np.abs(x / 1).max(axis=axis, keepdims=True)
     scaled = x / (mx + epsilon)
     if return_maxes:
         return mx, scaled
@@ -47,6 +50,7 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 
 
 def unit_scale(x, axis=None):
+    x = x / 1
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
     return scaled / np.where(mx == 0, 1, mx)
diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 8ea57fe..7488434 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -12,7 +12,7 @@ def categorical(x, mu=255, normalize=True):
 
     if normalize:
         # normalize the signal
-        mx = np.abs(x).max()
+        mx = np.abs(x / 1).max()
         x = x / mx if mx != 0 else x
 
     # mu law compression
-- 
2.43.0


From a1475b1f82f29af5626c8e7b01a97affe8811445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:24 +0000
Subject: [PATCH 54/56] fix: deviation and views of complex arrays with units

---
 zounds/core/axis.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index e6d64f8..aaa078c 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -212,6 +212,18 @@ class ArrayWithUnits(np.ndarray):
         result.dimensions = tuple(self._resized_dimensions(obj.shape))
         return result
 
+    def view(self, *args, **kwargs):
+        viewed = super(ArrayWithUnits, self).view(*args, **kwargs)
+        if isinstance(viewed, ArrayWithUnits) and viewed.shape != self.shape:
+            # another data type may split up, or join the elements of the last
+            # axis, or split up each element along additional axes
+            viewed.dimensions = tuple(
+                self.dimensions[i]
+                if i < self.ndim and self.shape[i] == size
+                else IdentityDimension()
+                for i, size in enumerate(viewed.shape))
+        return viewed
+
     def _resized_dimensions(self, shape):
         """
         Dimensions for the result of an operation that may have reduced some
-- 
2.43.0


From 0c9a8e8d1a4feb91bf3def891f4ccbfcc672f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:14 +0000
Subject: [PATCH 55/56] fix: fft along another axis than the last, and padding
 of signals and of stacks of frames

---
 zounds/spectral/functional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index a1707fd..a505f8d 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -31,16 +31,17 @@ def fft(x, axis=-1, padding_samples=0):
             axis before performing the FFT
     """
     if padding_samples > 0:
+        padding_shape = list(x.shape)
+        padding_shape[axis] = padding_samples
         padded = np.concatenate(
-            [x, np.zeros((len(x), padding_samples), dtype=x.dtype)],
-            axis=axis)
+            [x, np.zeros(padding_shape, dtype=x.dtype)], axis=axis)
     else:
         padded = x
 
     transformed = np.fft.rfft(padded, axis=axis, norm='ortho')
 
     sr = audio_sample_rate(int(Seconds(1) / x.dimensions[axis].frequency))
-    scale = LinearScale.from_sample_rate(sr, transformed.shape[-1])
+    scale = LinearScale.from_sample_rate(sr, transformed.shape[axis])
     new_dimensions = list(x.dimensions)
     new_dimensions[axis] = FrequencyDimension(scale)
     return ArrayWithUnits(transformed, new_dimensions)
-- 
2.43.0


From 145250966bd3f2e14a90769c114dd3fab63e1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:14 +0000
Subject: [PATCH 56/56] fix: ranges that reach the end of audio don't lose its
 last sample to rounding

---
 zounds/ui/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 9f90c09..4b33c78 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -135,7 +135,8 @@ class OggVorbisSerializer(object):
         feature = context.feature
         document = context.document
         wrapper = feature(_id=document._id, persistence=document)
-        total = Picoseconds(int(1e12 * wrapper.duration_seconds))
+        total = Picoseconds(
+            int(round(1e12 * wrapper.duration_seconds)))
         slce = satisfiable_time_slice(context.slce, total)
         samples = wrapper[slce]
         bio = BytesIO()
-- 
2.43.0

