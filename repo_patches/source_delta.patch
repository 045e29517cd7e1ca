From 75d0257c84b20d7a99afbb325421caf2155dcc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 01/44] fix: accept an offset of zero in OnlineAverager

---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From 5ecf1703cbdf4e284fdf08a027f10dbaa4558c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 02/44] fix: recompute chunk offsets for every chunk in
 ChunkedTimeSeriesDataset

The offsets used to slice kernels were built once from the first chunk's
shape, so later chunks of a different length or channel count were read
across channel boundaries or out of range.
---
 ml4gw/dataloading/chunked_dataset.py | 52 +++++++++++++++-------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..b7f8216 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -65,30 +65,6 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         chunk = next(it)
         num_chunks, num_channels, chunk_size = chunk.shape
 
-        # if we're sampling coincidentally, we only need
-        # to sample indices on a per-batch-element basis.
-        # Otherwise, we'll need indices for both each
-        # batch sample _and_ each channel with each sample
-        if self.coincident:
-            sample_size = (self.batch_size,)
-        else:
-            sample_size = (self.batch_size, num_channels)
-
-        # slice kernels out a flattened chunk tensor
-        # index-for-index. We'll account for batch/
-        # channel indices by introducing offsets later on
-        idx = torch.arange(self.kernel_size, device=self.device)
-        idx = idx.view(1, 1, -1)
-        idx = idx.repeat(self.batch_size, num_channels, 1)
-
-        # this will just be a set of aranged channel indices
-        # repeated to offset the kernel indices in the
-        # flattened chunk tensor
-        channel_idx = torch.arange(num_channels, device=self.device)
-        channel_idx = channel_idx.view(1, -1, 1)
-        channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
-
         while True:
             # record the number of rows in the chunk, then
             # flatten it to make it easier to slice
@@ -99,6 +75,34 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 )
             chunk = chunk.reshape(-1)
 
+            # the indices depend on the shape of the current chunk,
+            # which isn't required to be the same for every chunk.
+            # if we're sampling coincidentally, we only need
+            # to sample indices on a per-batch-element basis.
+            # Otherwise, we'll need indices for both each
+            # batch sample _and_ each channel with each sample
+            if self.coincident:
+                sample_size = (self.batch_size,)
+            else:
+                sample_size = (self.batch_size, num_channels)
+
+            # slice kernels out a flattened chunk tensor
+            # index-for-index. We'll account for batch/
+            # channel indices by introducing offsets later on
+            idx = torch.arange(self.kernel_size, device=self.device)
+            idx = idx.view(1, 1, -1)
+            idx = idx.repeat(self.batch_size, num_channels, 1)
+
+            # this will just be a set of aranged channel indices
+            # repeated to offset the kernel indices in the
+            # flattened chunk tensor
+            channel_idx = torch.arange(num_channels, device=self.device)
+            channel_idx = channel_idx.view(1, -1, 1)
+            channel_idx = channel_idx.repeat(
+                self.batch_size, 1, self.kernel_size
+            )
+            idx += channel_idx * chunk_size
+
             # generate batches from the current chunk
             for _ in range(self.batches_per_chunk):
                 # first sample the indices of which chunk elements
-- 
2.43.0


From 52dc62ff258ed0c090b3370be2ff0cbe487f91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 03/44] fix: allow the last window of a chunk to be sampled

torch.randint excludes its upper end, so the final start was never drawn
and a chunk exactly as long as the kernel raised an error.
---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index b7f8216..6c30ec5 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -121,7 +121,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # element we're going to grab our time windows from
                 time_idx = torch.randint(
                     0,
-                    chunk_size - self.kernel_size,
+                    chunk_size - self.kernel_size + 1,
                     size=sample_size,
                     device=self.device,
                 )
-- 
2.43.0


From 05f50e4d248eaf899cdba32ea9ba37f440c2b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 04/44] fix: end iteration when the chunk iterator is empty

StopIteration raised inside the generator surfaced as a RuntimeError.
---
 ml4gw/dataloading/chunked_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 6c30ec5..6505a1d 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -62,7 +62,9 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
 
     def __iter__(self) -> WaveformTensor:
         it = iter(self.chunk_it)
-        chunk = next(it)
+        chunk = next(it, None)
+        if chunk is None:
+            return
         num_chunks, num_channels, chunk_size = chunk.shape
 
         while True:
-- 
2.43.0


From 181c91e3935e15124faedae4ddf18df99a2ab7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 05/44] fix: allow the last window of an HDF5 file to be
 sampled

np.random.randint excludes its upper end, so the final start was never
drawn and a file exactly as long as the kernel raised an error.
---
 ml4gw/dataloading/hdf5_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..2689b62 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -156,7 +156,7 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
             zip(unique_fnames, counts, strict=True)
         ):
             size = self.sizes[fname]
-            max_idx = size - self.kernel_size
+            max_idx = size - self.kernel_size + 1
 
             # figure out which batch indices should be
             # sampled from the current filename
-- 
2.43.0


From 6553628020629716d9e32e720155d6463e2ea9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 06/44] fix: don't mark a transform as built by a load that
 lacks its parameters

Loading a state dict without the transform's parameters (strict=False, or
a strict load that raises because of them) left the transform usable with
its uninitialised buffers.
---
 ml4gw/transforms/transform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..18e0ed5 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -30,11 +30,13 @@ class FittableTransform(torch.nn.Module):
         # keep track of number of error messages to see
         # if trying to load these weights causes another
         num_errs = len(args[-1])
+        num_missing = len(args[-3])
         ret = super()._load_from_state_dict(*args)
 
-        # if we didn't create any new errors, then
-        # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        # if we didn't create any new errors, and none of
+        # our parameters were missing, then assume that
+        # we built correctly
+        if len(args[-1]) == num_errs and len(args[-3]) == num_missing:
             self.built = True
         return ret
 
-- 
2.43.0


From 5d690d658b964e5d1f62383c2130a2a6ec0f5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 07/44] fix: honour an explicit overlap of zero when fitting on
 timeseries

---
 ml4gw/transforms/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index 18e0ed5..5fa526d 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -56,7 +56,7 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            overlap = fftlength / 2 if overlap is None else overlap
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(nperseg, dtype=torch.float64)
-- 
2.43.0


From eab79b49b178fd9e2e3b40b8de3df658cd13c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 08/44] fix: keep the fitted filter duration in double
 precision

---
 ml4gw/transforms/whitening.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/whitening.py b/ml4gw/transforms/whitening.py
index 25b8a0c..3421bc3 100644
--- a/ml4gw/transforms/whitening.py
+++ b/ml4gw/transforms/whitening.py
@@ -158,7 +158,7 @@ class FixedWhiten(FittableSpectralTransform):
         self.register_buffer("psd", psd)
 
         # save this as a parameter since it's decided at fit time
-        fduration = torch.zeros((1,))
+        fduration = torch.zeros((1,), dtype=torch.float64)
         self.register_buffer("fduration", fduration)
 
     def fit(
@@ -249,7 +249,7 @@ class FixedWhiten(FittableSpectralTransform):
             psds.append(psd[0, 0])
         psd = torch.stack(psds)
 
-        fduration = torch.Tensor([fduration])
+        fduration = torch.tensor([fduration], dtype=torch.float64)
         self.build(psd=psd, fduration=fduration)
 
     def forward(self, X: TimeSeries3d, crop: bool = True) -> TimeSeries3d:
-- 
2.43.0


From baca39914b34344188b607a633e67c6d601bcaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 09/44] fix: start every decimated segment at its own start
 time

---
 ml4gw/transforms/decimator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..9ef75ed 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -156,10 +156,7 @@ class Decimator(torch.nn.Module):
         idx = torch.tensor([], dtype=torch.long)
 
         for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
+            start = int(s[0] * self.sample_rate)
             stop = int(start + (s[1] - s[0]) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
-- 
2.43.0


From 062a0620c684ed50d7107bfbbf9969c1f101c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 10/44] fix: count decimated samples from the start of the
 schedule

---
 ml4gw/transforms/decimator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 9ef75ed..8601beb 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -156,7 +156,7 @@ class Decimator(torch.nn.Module):
         idx = torch.tensor([], dtype=torch.long)
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
+            start = int((s[0] - self.schedule[0, 0]) * self.sample_rate)
             stop = int(start + (s[1] - s[0]) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
@@ -184,8 +184,8 @@ class Decimator(torch.nn.Module):
         segments = []
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
+            start = int((s[0] - self.schedule[0, 0]) * self.sample_rate)
+            stop = int((s[1] - self.schedule[0, 0]) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             idx = torch.arange(
                 start,
-- 
2.43.0


From 087a462f90f0633f215b506e04cac413fba60359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 11/44] fix: leave sums that stay above the lower bound of
 LeakyIntegrator alone

---
 ml4gw/transforms/integrator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..f7603f9 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -111,8 +111,6 @@ class LeakyIntegrator(torch.nn.Module):
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        offset = torch.minimum(offset, torch.zeros_like(offset))
 
         return raw_sum - offset
-- 
2.43.0


From a263115c8691e9822b033f16493e351a8086160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 12/44] fix: keep the length of odd-length series in Heterodyne

---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..15f2252 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.shape[-1], dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From e3101770524990e993dcd1d6aabdec4d788da0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 13/44] fix: allow energy searches up to and beyond the highest
 Q-tile frequency

---
 ml4gw/transforms/qtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..98726ee 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -331,8 +331,8 @@ class SingleQTransform(torch.nn.Module):
             )
 
         if fsearch_range is not None:
-            start = min(torch.argwhere(self.freqs > fsearch_range[0]))
-            stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
+            start = torch.sum(self.freqs <= fsearch_range[0])
+            stop = torch.sum(self.freqs <= fsearch_range[1])
             qtiles = self.qtiles[start:stop]
         else:
             qtiles = self.qtiles
-- 
2.43.0


From 0fb35cf202ad645d9cb16452ea082dc4fd1e7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 14/44] fix: don't modify the frequency range passed to
 SingleQTransform

---
 ml4gw/transforms/qtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 98726ee..b7d70c1 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,7 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        self.frange = list(frange or [0, torch.inf])
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From d6170484120ebe90d5fd05659d88884b15675c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 15/44] fix: interpolate splines to the requested number of
 time bins

---
 ml4gw/transforms/qtransform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index b7d70c1..9cb8091 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -259,9 +259,8 @@ class SingleQTransform(torch.nn.Module):
         idx = torch.arange(len(ntiles))
         self.stack_idx = [idx[Tensor(ntiles) == n] for n in unique_ntiles]
 
-        t_out = torch.arange(
-            0, self.duration, self.duration / self.spectrogram_shape[1]
-        )
+        num_t_bins = self.spectrogram_shape[1]
+        t_out = torch.arange(num_t_bins) * (self.duration / num_t_bins)
         self.qtile_interpolators = torch.nn.ModuleList(
             [
                 SplineInterpolate1D(
-- 
2.43.0


From f8c4f46ea27a185e71582b3d05a88ef126f6d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 16/44] fix: keep batch and channel axes of length one in
 Q-transforms

---
 ml4gw/transforms/qtransform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 9cb8091..a6ad014 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -359,6 +359,7 @@ class SingleQTransform(torch.nn.Module):
         Take the FFT of the input timeseries and calculate the transform
         for each ``QTile``
         """
+        self.ndim = X.ndim
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
@@ -384,7 +385,8 @@ class SingleQTransform(torch.nn.Module):
                 dim=-2,
             )
             # Transpose because the final dimension gets interpolated
-            return self.interpolator(time_interped.mT).mT
+            resampled = self.interpolator(time_interped.mT).mT
+            return resampled[(0,) * (3 - self.ndim)]
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -400,7 +402,8 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return torch.squeeze(resampled)
+        # Remove only the axes that were added during Q-tile computation
+        return resampled[(0,) * (3 - self.ndim)]
 
     def forward(
         self,
-- 
2.43.0


From d71a06d6381aede589d68b20ec07ad596b63a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 17/44] fix: use output coordinates passed to a spline call for
 that call only

---
 ml4gw/transforms/spline_interpolation.py | 35 ++++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..c7b0776 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,19 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix of the output coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -310,12 +311,12 @@ class SplineInterpolate1D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +433,22 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self, C: Tensor, Bx_out: Tensor, By_out: Tensor
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix of the output x-coordinates.
+            By_out: Basis matrix of the output y-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -514,18 +519,18 @@ class SplineInterpolate2D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
+        else:
+            By_out = self.By_out
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From 614d42edc2c066e0888bbab4a829ce58bd0ed429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 18/44] fix: pair decoder outputs with the encoder states of
 their own level

---
 ml4gw/nn/autoencoder/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..7837797 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -64,7 +64,9 @@ class Autoencoder(torch.nn.Module):
                 )
 
             # Don't skip connect the output layer
-            states = states[::-1] + [None]
+            states = list(states)[::-1] + [None]
+        else:
+            states = [None] * len(self.blocks)
 
         for i, block in enumerate(self.blocks[::-1]):
             if isinstance(X, tuple):
@@ -72,7 +74,7 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
+            state = states[i]
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From a9cac75ebdde9e1cf238645ba09dc29f33bf9b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 19/44] fix: decode multiple encodings in autoencoders with
 skip connections

---
 ml4gw/nn/autoencoder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 7837797..4e58bd8 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -83,7 +83,7 @@ class Autoencoder(torch.nn.Module):
         return_states = self.skip_connection is not None
         X = self.encode(*X, return_states=return_states)
         if return_states:
-            *X, states = X
+            X, states = X
         else:
             states = None
 
-- 
2.43.0


From 534b349a9574e71c2064f67bdabb0a55459f9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 20/44] fix: instantiate the output activation of ConvBlock

---
 ml4gw/nn/autoencoder/convolutional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..ef1beb2 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -56,10 +56,11 @@ class ConvBlock(Autoencoder):
         )
 
         self.activation = activation()
-        if output_activation is not None:
-            self.output_activation = output_activation
-        else:
-            self.output_activation = activation
+        if output_activation is None:
+            output_activation = activation
+        if not isinstance(output_activation, torch.nn.Module):
+            output_activation = output_activation()
+        self.output_activation = output_activation
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
-- 
2.43.0


From ba4ab6da10df6bf44c347ce4d8ab9d89c259d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 21/44] fix: build the innermost decoder for inputs without a
 skip connection

---
 ml4gw/nn/autoencoder/convolutional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index ef1beb2..3d2188f 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -119,11 +119,10 @@ class ConvolutionalAutoencoder(Autoencoder):
             # case it will just be in_channels anyway)
             decode = in_channels if i else decode_channels
 
-            # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            # the input to the innermost decoder is the encoding
+            # itself, without anything skip connected to it
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From 6cbe4b28bed1e79e7119fc6bed56dbb53ea33ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 22/44] fix: crop to the requested size in match_size

---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From eff07e3421e5695d09fa8cab19566b909b872318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 23/44] fix: keep channel groups together in ConcatSkipConnect

---
 ml4gw/nn/autoencoder/skip_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..e7b55b2 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,7 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        X = torch.chunk(X, self.groups, dim=1)
+        state = torch.chunk(state, self.groups, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From dbe850fb155fd6e9dd12aab21b373c546f6c7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 24/44] fix: single-stage ResNets raised NameError for the
 undefined width of the final layer

---
 ml4gw/nn/resnet/resnet_1d.py | 2 +-
 ml4gw/nn/resnet/resnet_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..8d84d06 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -308,7 +308,7 @@ class ResNet1D(nn.Module):
 
         # use a fully connected layer to map from the
         # feature maps to the binary output that we need
-        self.fc = nn.Linear(block_size * self.block.expansion, classes)
+        self.fc = nn.Linear(self.inplanes, classes)
 
         for m in self.modules():
             if isinstance(m, nn.Conv1d):
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..82ba9be 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -308,7 +308,7 @@ class ResNet2D(nn.Module):
 
         # use a fully connected layer to map from the
         # feature maps to the binary output that we need
-        self.fc = nn.Linear(block_size * self.block.expansion, classes)
+        self.fc = nn.Linear(self.inplanes, classes)
 
         for m in self.modules():
             if isinstance(m, nn.Conv2d):
-- 
2.43.0


From c233e574ae216e2423795a48c16a8b9a5f7e4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 25/44] fix: Cosine and Sine log_prob left out the
 normalisation over [low, high]

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..ce6d562 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (self.norm * value.cos() * inside_range).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From 0debc8ff2e3c220dc5cd39d27bd2f8f25e1b1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 26/44] fix: UniformComovingVolume.log_prob was NaN next to a
 distance of zero

---
 ml4gw/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index ce6d562..f88af36 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -347,9 +347,11 @@ class UniformComovingVolume(dist.Distribution):
         return self._linear_interp_1d(self.cdf, self.distance_grid, u)
 
     def log_prob(self, value: Tensor) -> Tensor:
+        # interpolate the density rather than its logarithm,
+        # which is infinite at a distance of zero
         log_prob = self._linear_interp_1d(
-            self.distance_grid, self.log_pdf, value
-        )
+            self.distance_grid, self.pdf, value
+        ).log()
         inside_range = (value >= self.minimum) & (value <= self.maximum)
         log_prob[~inside_range] = torch.as_tensor(
             float("-inf"), device=self.minimum.device
-- 
2.43.0


From b944c9f3063e5dffc3d03b604d6e0273a7a232a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 27/44] fix: UniformComovingVolume missed the ends of its range
 and failed for ranges narrower than its grid

---
 ml4gw/distributions.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index f88af36..23554b5 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -235,20 +235,17 @@ class UniformComovingVolume(dist.Distribution):
         self.h0 = h0
         self.omega_m = omega_m
 
-        # Compute redshift range based on the given min and max distances
-        z_min, z_max = self._get_z_bounds()
+        # Compute maximum redshift based on the given max distance
+        _, z_max = self._get_z_bounds()
         if z_max > z_grid_max:
             raise ValueError(
                 f"Maximum {distance_type} {maximum} "
                 f"exceeds given z_max {z_grid_max}."
             )
 
-        # Restrict distance grids to the specified redshift range
-        mask = (self.z_grid >= z_min) & (self.z_grid <= z_max)
-        self.distance_grid = self.distance_grid[mask]
-        self.z_grid = self.z_grid[mask]
-        self.comoving_dist_grid = self.comoving_dist_grid[mask]
-        self.luminosity_dist_grid = self.luminosity_dist_grid[mask]
+        # Compute the probability over the whole grid, then restrict it and
+        # the distance grids to the specified range, ends included
+        self._restrict_grids(self._p_of_distance())
         # Compute probability arrays from those grids
         self._generate_probability_grids()
 
@@ -313,14 +310,32 @@ class UniformComovingVolume(dist.Distribution):
         jacobian = torch.gradient(self.distance_grid, spacing=self.dz)[0]
         return dV_dz / jacobian
 
+    def _restrict_grids(self, p_of_distance):
+        """
+        Restrict the grids to the points inside the distance range
+        and to its two ends, whatever the spacing of the grid.
+        """
+        grid = self.distance_grid
+        mask = (grid > self.minimum) & (grid < self.maximum)
+        ends = torch.stack([self.minimum, self.maximum]).to(grid)
+
+        def restrict(y):
+            y_ends = self._linear_interp_1d(grid, y, ends)
+            return torch.cat([y_ends[:1], y[mask], y_ends[1:]])
+
+        self.z_grid = restrict(self.z_grid)
+        self.comoving_dist_grid = restrict(self.comoving_dist_grid)
+        self.luminosity_dist_grid = restrict(self.luminosity_dist_grid)
+        self.p_of_distance = restrict(p_of_distance)
+        self.distance_grid = torch.cat([ends[:1], grid[mask], ends[1:]])
+
     def _generate_probability_grids(self):
         """
         Compute the pdf, cdf, and log pdf based on the
         comoving volume differential and distance grid.
         """
-        p_of_distance = self._p_of_distance()
-        self.pdf = p_of_distance / torch.trapz(
-            p_of_distance, self.distance_grid
+        self.pdf = self.p_of_distance / torch.trapz(
+            self.p_of_distance, self.distance_grid
         )
         cdf = torch.cumulative_trapezoid(self.pdf, self.distance_grid)
         zero_prefix = torch.zeros(
-- 
2.43.0


From ab5b3905f184f189fa740221c9820772b02b224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 28/44] fix: PowerLaw.log_prob was NaN at zero for negative
 indices

---
 ml4gw/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 23554b5..725dc39 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -159,6 +159,15 @@ class PowerLaw(dist.TransformedDistribution):
             transforms,
             validate_args=validate_args,
         )
+        self.minimum = minimum
+        self.maximum = maximum
+
+    def log_prob(self, value: Tensor) -> Tensor:
+        # the transforms of values outside of the range
+        # may be undefined, e.g. negative powers of 0
+        log_prob = super().log_prob(value)
+        inside_range = (value >= self.minimum) & (value <= self.maximum)
+        return torch.where(inside_range, log_prob, float("-inf"))
 
 
 class DeltaFunction(dist.Distribution):
-- 
2.43.0


From 6c2b950a83bfd0d6322ecb2911ba37b3415bbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 29/44] fix: bilby_spins_to_lalsim returned NaN for aligned or
 face-on systems through rounding

---
 ml4gw/waveforms/conversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/conversion.py b/ml4gw/waveforms/conversion.py
index e9efd36..5051d41 100644
--- a/ml4gw/waveforms/conversion.py
+++ b/ml4gw/waveforms/conversion.py
@@ -138,7 +138,7 @@ def bilby_spins_to_lalsim(
     Jhatx = Jx / Jnorm
     Jhaty = Jy / Jnorm
     Jhatz = Jz / Jnorm
-    theta0 = torch.acos(Jhatz)
+    theta0 = torch.acos(Jhatz.clamp(-1, 1))
     phi0 = torch.atan2(Jhaty, Jhatx)
 
     # Rotation 1: Rotate about z-axis by -phi0 to put Jhat in x-z plane
@@ -165,7 +165,8 @@ def bilby_spins_to_lalsim(
     Nx = 0.0
     Ny = torch.sin(theta_jn)
     Nz = torch.cos(theta_jn)
-    incl = torch.acos(Nx * lnh_x + Ny * lnh_y + Nz * lnh_z)
+    cos_incl = Nx * lnh_x + Ny * lnh_y + Nz * lnh_z
+    incl = torch.acos(cos_incl.clamp(-1, 1))
 
     # Rotation 4-5: Now J is along z and N in y-z plane, inclined from J
     # by thetaJN and with >ve component along y.
-- 
2.43.0


From fb23e4808b1b01c375dcff75ded02792e27f56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 30/44] fix: IMRPhenomPv2 returned NaN for nearly equal masses

---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5d457db..ad9eb0d 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -110,7 +110,7 @@ class IMRPhenomPv2(IMRPhenomD):
         chil = (1.0 + q) / q * chi_eff
         eta = m1 * m2 / (M * M)
         eta2 = eta * eta
-        Seta = torch.sqrt(1.0 - 4.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
         chi22 = chi2_l * chi2_l
         chi12 = chi1_l * chi1_l
@@ -213,7 +213,8 @@ class IMRPhenomPv2(IMRPhenomD):
         assert angcoeffs is not None
         assert Y2m is not None
         f = fHz * MTSUN_SI * M.unsqueeze(1)  # Frequency in geometric units
-        q = (1.0 + torch.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
+        q = (1.0 + Seta - 2.0 * eta) / (2.0 * eta)
         m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
         m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
         Sperp = chip * (
-- 
2.43.0


From b31d38fcb67ff439d69bba32e978ba1c109f4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 31/44] fix: IMRPhenomPv2 returned NaN for aligned spins
 through rounding

---
 ml4gw/waveforms/cbc/phenom_p.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index ad9eb0d..b62db54 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -508,7 +508,7 @@ class IMRPhenomPv2(IMRPhenomD):
         J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
         J0 = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-        thetaJ_sf = torch.arccos(J0z_sf / J0)
+        thetaJ_sf = torch.arccos((J0z_sf / J0).clamp(-1, 1))
 
         phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
 
@@ -544,7 +544,7 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
         Nx_Jf, Nz_Jf = tmp_x, tmp_z
-        thetaJN = torch.arccos(Nz_Jf)
+        thetaJN = torch.arccos(Nz_Jf.clamp(-1, 1))
 
         # Finally, we need to redefine the polarizations:
         # PhenomP's polarizations are defined following Arun et al
-- 
2.43.0


From 677d81e15b85175b51e6eb246132cde9f2aeda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 32/44] fix: IMRPhenomPv2 ignored the phase of coalescence for
 aligned spins

---
 ml4gw/waveforms/cbc/phenom_p.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index b62db54..523ac94 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -510,7 +510,12 @@ class IMRPhenomPv2(IMRPhenomD):
 
         thetaJ_sf = torch.arccos((J0z_sf / J0).clamp(-1, 1))
 
-        phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
+        # in the limit of aligned spins J is along z and its azimuth is
+        # undefined: as in LAL, use the reference phase instead
+        aligned = (J0x_sf.abs() < 1e-15) & (J0y_sf.abs() < 1e-15)
+        phiJ_sf = torch.where(
+            aligned, PI / 2.0 - phic, torch.arctan2(J0y_sf, J0x_sf)
+        )
 
         phi_aligned = -phiJ_sf
 
-- 
2.43.0


From 4fc81cf148b78d2026ea7fd819f5d82d5730d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 33/44] fix: IMRPhenomPv2 went wrong for spins within rounding
 of aligned

---
 ml4gw/waveforms/cbc/phenom_p.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 523ac94..040666f 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -506,9 +506,9 @@ class IMRPhenomPv2(IMRPhenomD):
         J0x_sf = m1_2 * s1x + m2_2 * s2x
         J0y_sf = m1_2 * s1y + m2_2 * s2y
         J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
-        J0 = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-        thetaJ_sf = torch.arccos((J0z_sf / J0).clamp(-1, 1))
+        # unlike the arccosine this is accurate for spins close to aligned
+        thetaJ_sf = torch.arctan2(torch.hypot(J0x_sf, J0y_sf), J0z_sf)
 
         # in the limit of aligned spins J is along z and its azimuth is
         # undefined: as in LAL, use the reference phase instead
-- 
2.43.0


From f3d0dd764fcad375fac3135a4da4507c6ad55e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 34/44] fix: generated waveforms were a sample too long for
 durations of a fraction of a sample

---
 ml4gw/waveforms/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 15e9d3b..0e0f932 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -355,7 +355,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         hc, hp = self.apply_td_condition_stage2(hc, hp, parameters)
 
         # pad waveforms on left up to requested duration
-        pad = int((self.duration * self.sample_rate) - hp.shape[-1])
+        pad = self.size - hp.shape[-1]
         hc = torch.nn.functional.pad(hc, (pad, 0))
         hp = torch.nn.functional.pad(hp, (pad, 0))
 
-- 
2.43.0


From b8a5ed4a8a9cc123c82115b7e233e1171aa5968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 35/44] fix: coalescence was misplaced when right_pad exceeds
 the chirp length

---
 ml4gw/waveforms/generator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 0e0f932..8435996 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -184,9 +184,18 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
             fstart, mass_1, mass_2, s1z, s2z
         )
 
-        # chirp length in samples
+        # chirp length in samples, making sure that the part of
+        # the waveform before coalescence does not wrap around
+        # when shifting the coalescence ``right_pad`` seconds
+        # from the right edge
         chirplen = torch.round(
-            (tchirp_fstart + tmerge + 2.0 * textra) * self.sample_rate
+            (
+                tchirp_fstart
+                + tmerge
+                + textra
+                + torch.clamp(textra, min=self.right_pad)
+            )
+            * self.sample_rate
         )
 
         # pad to next power of 2
-- 
2.43.0


From 02da83c5a74a9c71c4ebf5c280aa046da793f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 36/44] fix: IIRFilter was unstable for high orders and low
 cutoffs

---
 ml4gw/transforms/iirfilter.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ml4gw/transforms/iirfilter.py b/ml4gw/transforms/iirfilter.py
index 6b16bce..7cf18ef 100644
--- a/ml4gw/transforms/iirfilter.py
+++ b/ml4gw/transforms/iirfilter.py
@@ -1,6 +1,6 @@
 import torch
 from scipy.signal import iirfilter
-from torchaudio.functional import filtfilt
+from torchaudio.functional import lfilter
 
 
 class IIRFilter(torch.nn.Module):
@@ -70,7 +70,10 @@ class IIRFilter(torch.nn.Module):
         if isinstance(rp, torch.Tensor):
             rp = rp.numpy()
 
-        b, a = iirfilter(
+        # second-order sections are numerically stable for
+        # high orders and for cutoffs that are low compared
+        # to the sample rate, where a single section is not
+        sos = iirfilter(
             N,
             Wn,
             rs=rs,
@@ -78,11 +81,10 @@ class IIRFilter(torch.nn.Module):
             btype=btype,
             analog=analog,
             ftype=ftype,
-            output="ba",
+            output="sos",
             fs=fs,
         )
-        self.register_buffer("b", torch.tensor(b))
-        self.register_buffer("a", torch.tensor(a))
+        self.register_buffer("sos", torch.tensor(sos))
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         r"""
@@ -95,4 +97,10 @@ class IIRFilter(torch.nn.Module):
         Returns:
             The filtered signal.
         """
-        return filtfilt(x, self.a, self.b, clamp=False)
+        # filter forward and then backward
+        for _ in range(2):
+            for section in self.sos:
+                b, a = section[:3], section[3:]
+                x = lfilter(x, a, b, clamp=False)
+            x = x.flip(-1)
+        return x
-- 
2.43.0


From 78fb9e034fc663d25891c0a73c40904bf1f3a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:07 +0000
Subject: [PATCH 37/44] fix: waveforms were generated at the wrong sample rate
 when it is odd

---
 ml4gw/waveforms/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 8435996..015914f 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -38,7 +38,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         sample_rate:
             Rate at which returned time domain waveform will be
             sampled in Hz. This also specifies ``f_max`` for generating
-            waveforms via the nyquist frequency: ``f_max = sample_rate // 2``.
+            waveforms via the nyquist frequency: ``f_max = sample_rate / 2``.
         f_min:
             Lower frequency bound for waveforms
         duration:
@@ -78,7 +78,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
 
     @property
     def nyquist(self):
-        return int(self.sample_rate / 2)
+        return self.sample_rate / 2
 
     @property
     def size(self):
-- 
2.43.0


From ffb77373c8e5ac878ea163065225e1db2d92cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:07 +0000
Subject: [PATCH 38/44] fix: a frequency was lost for sample rates with a
 rounded resolution

---
 ml4gw/waveforms/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 015914f..71363fc 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -110,7 +110,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
 
     def get_frequencies(self, df: float):
         """Get the frequencies from 0 to nyquist for corresponding df"""
-        num_freqs = int(self.nyquist / df) + 1
+        num_freqs = round(float(self.nyquist / df)) + 1
         return torch.linspace(0, self.nyquist, num_freqs)
 
     def generate_conditioned_fd_waveform(
-- 
2.43.0


From dc8593b01cf8690784e15cf3ba988e061345be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:04 +0000
Subject: [PATCH 39/44] fix: group normalisation returned nan for data with a
 large mean

---
 ml4gw/nn/norm.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/ml4gw/nn/norm.py b/ml4gw/nn/norm.py
index 2606de1..8ed09f2 100644
--- a/ml4gw/nn/norm.py
+++ b/ml4gw/nn/norm.py
@@ -42,29 +42,22 @@ class GroupNorm1D(torch.nn.Module):
                 f"received {len(x.shape)} dimensional input"
             )
 
-        keepdims = self.num_groups == self.num_channels
-
-        # compute group variance via the E[x**2] - E**2[x] trick
-        mean = x.mean(-1, keepdims=keepdims)
-        sq_mean = (x**2).mean(-1, keepdims=keepdims)
-
-        # if we have groups, do some reshape magic
-        # to calculate group level stats then
-        # reshape back to full channel dimension
-        if self.num_groups != self.num_channels:
-            mean = torch.stack([mean, sq_mean], dim=1)
-            mean = mean.reshape(
-                -1, 2, self.num_groups, self.channels_per_group
-            )
-            mean = mean.mean(-1, keepdims=True)
-            mean = mean.expand(-1, -1, -1, self.channels_per_group)
-            mean = mean.reshape(-1, 2, self.num_channels, 1)
-            mean, sq_mean = mean[:, 0], mean[:, 1]
+        # compute the statistics of each group of channels. Note
+        # that E[x**2] - E**2[x] can't be used for the variance,
+        # since rounding may turn it negative when the mean of a
+        # group is large compared to its standard deviation
+        groups = x.reshape(len(x), self.num_groups, -1)
+        var, mean = torch.var_mean(groups, dim=-1, correction=0)
+
+        # expand back to full channel dimension
+        mean = mean.repeat_interleave(self.channels_per_group, dim=1)
+        var = var.repeat_interleave(self.channels_per_group, dim=1)
+        mean, var = mean[..., None], var[..., None]
 
         # roll the mean and variance into the
         # weight and bias so that we have to do
         # fewer computations along the full time axis
-        std = (sq_mean - mean**2 + self.eps) ** 0.5
+        std = (var + self.eps) ** 0.5
         scale = self.weight / std
         shift = self.bias - scale * mean
         return shift + x * scale
-- 
2.43.0


From 1a452f3401437b0fd2df4a8e3ad84f164133bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:35 +0000
Subject: [PATCH 40/44] fix: a refused Q-transform changed the shape of the
 tiles computed before

---
 ml4gw/transforms/qtransform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index a6ad014..e5a27ba 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -359,11 +359,13 @@ class SingleQTransform(torch.nn.Module):
         Take the FFT of the input timeseries and calculate the transform
         for each ``QTile``
         """
-        self.ndim = X.ndim
+        ndim = X.ndim
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
         self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
+        # Only once the tiles exist, so that tiles and shape always match
+        self.ndim = ndim
 
     def interpolate(self) -> TimeSeries3d:
         if self.qtiles is None:
-- 
2.43.0


From 3935d24f4fc26879e27b656ef143cf3a66f038da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:31 +0000
Subject: [PATCH 41/44] fix: split schedules in another order or containing one
 another could not be used

---
 ml4gw/transforms/decimator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 8601beb..a884000 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -110,8 +110,9 @@ class Decimator(torch.nn.Module):
         idx = self.build_variable_indices()
         self.register_buffer("idx", idx)
 
+        # Split entries may come in any order and contain one another
         self.expected_len = int(
-            (self.schedule[:, 1][-1] - self.schedule[:, 0][0])
+            (self.schedule[:, 1].max() - self.schedule[:, 0].min())
             * self.sample_rate
         )
 
@@ -154,9 +155,10 @@ class Decimator(torch.nn.Module):
                 1D tensor of indices used to decimate the input.
         """
         idx = torch.tensor([], dtype=torch.long)
+        first = self.schedule[:, 0].min()
 
         for s in self.schedule:
-            start = int((s[0] - self.schedule[0, 0]) * self.sample_rate)
+            start = int((s[0] - first) * self.sample_rate)
             stop = int(start + (s[1] - s[0]) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
@@ -182,10 +184,11 @@ class Decimator(torch.nn.Module):
                 the corresponding schedule row.
         """
         segments = []
+        first = self.schedule[:, 0].min()
 
         for s in self.schedule:
-            start = int((s[0] - self.schedule[0, 0]) * self.sample_rate)
-            stop = int((s[1] - self.schedule[0, 0]) * self.sample_rate)
+            start = int((s[0] - first) * self.sample_rate)
+            stop = int((s[1] - first) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             idx = torch.arange(
                 start,
-- 
2.43.0


From 036f3fbf06a3798d8e2bb2150449330720fff233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:19 +0000
Subject: [PATCH 42/44] fix: single precision IMRPhenomD of equal masses
 depended on the size of the batch

---
 ml4gw/waveforms/cbc/phenom_d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_d.py b/ml4gw/waveforms/cbc/phenom_d.py
index 482df88..a5c1c63 100644
--- a/ml4gw/waveforms/cbc/phenom_d.py
+++ b/ml4gw/waveforms/cbc/phenom_d.py
@@ -91,7 +91,8 @@ class IMRPhenomD(TaylorF2):
         total_mass = chirp_mass * (1 + mass_ratio) ** 1.2 / mass_ratio**0.6
         mass_1 = total_mass / (1 + mass_ratio)
         mass_2 = mass_1 * mass_ratio
-        eta = (chirp_mass / total_mass) ** (5 / 3)
+        # Exactly one quarter for equal masses, whatever the precision
+        eta = mass_ratio / (1 + mass_ratio) ** 2
         eta2 = eta * eta
         Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi1, chi2)
-- 
2.43.0


From 78cfd83f3117516672306db85f9844a8937e77bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:12 +0000
Subject: [PATCH 43/44] fix: shifted Pearson correlation of strain-sized data
 was infinite or nan in single precision

---
 ml4gw/transforms/pearson.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ml4gw/transforms/pearson.py b/ml4gw/transforms/pearson.py
index 8f75dd8..f768df9 100644
--- a/ml4gw/transforms/pearson.py
+++ b/ml4gw/transforms/pearson.py
@@ -66,6 +66,14 @@ class ShiftedPearsonCorrelation(torch.nn.Module):
         self, x: TimeSeries1to3d, y: TimeSeries1to3d
     ) -> Float[Tensor, "windows ..."]:
         self._shape_checks(x, y)
+
+        # the coefficient doesn't depend on the scale of the data, but
+        # products of sums of squares leave the range of single precision
+        # even for data well within it. Powers of two don't round.
+        x, y = (
+            z / 2.0 ** torch.floor(torch.log2(z.abs().amax(-1, keepdim=True)))
+            for z in (x, y)
+        )
         dim = x.size(-1)
 
         # pad x along time dimension so that it has shape
-- 
2.43.0


From 2927dcb444222860792a9c3c280a450ffaeb3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:05 +0000
Subject: [PATCH 44/44] fix: accept spectrogram kernels whose length is not a
 whole number of samples

---
 ml4gw/transforms/spectrogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index 12fc434..65dcb15 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -46,7 +46,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self, kernel_length: float, sample_rate: float, **kwargs
     ) -> None:
         super().__init__()
-        self.kernel_size = kernel_length * sample_rate
+        self.kernel_size = int(kernel_length * sample_rate)
         # This method of combination makes sense only when
         # the spectrograms are normalized, so enforce this
         if "normalized" in kwargs.keys():
@@ -64,7 +64,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
             [Spectrogram(**k) for k in self.kwargs]
         )
 
-        dummy_input = torch.ones(int(kernel_length * sample_rate))
+        dummy_input = torch.ones(self.kernel_size)
         self.shapes = torch.tensor(
             [t(dummy_input).shape for t in self.transforms]
         )
-- 
2.43.0

