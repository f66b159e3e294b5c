From 8e017c5ef9709d8532a7c91e0f25ca8a5ce85114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 001/112] fix: padsignal 'symmetric' returned wrong length for
 zero or long pads

---
 ssqueezepy/utils/common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index ea68fe6..e5227d2 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -143,10 +143,7 @@ def padsignal(x, padtype='reflect', padlength=None, get_params=False):
             xp = np.pad(x, pad_width, mode='wrap')
         elif padtype == 'symmetric':
             # [1,2,3,4] -> [4,3,2,1, 1,2,3,4, 4,3,2]
-            if x.ndim == 1:
-                xp = np.hstack([x[::-1][-n1:], x, x[::-1][:n2]])
-            elif x.ndim == 2:
-                xp = np.hstack([x[:, ::-1][:, -n1:], x, x[:, ::-1][:, :n2]])
+            xp = np.pad(x, pad_width, mode='symmetric')
     else:
         import torch
         mode = 'constant' if padtype == 'zero' else 'reflect'
-- 
2.43.0


From a59901e608fb1f9af367704743f60e2f5ff88bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 002/112] fix: Wavelet dropped non-negligible imaginary part
 whose sum was negative

---
 ssqueezepy/wavelets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 72564bb..0467c12 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -68,7 +68,7 @@ class Wavelet():
             https://github.com/jonathanlilly/jLab/issues/13
 
         If evaluated wavelet's imaginary component is less than `imag_th`*(sum of
-        real), will drop it; set to None to disable.
+        real) (in absolute values), will drop it; set to None to disable.
         """
         if w is not None:
             psih = self.fn(S.asarray(w, self.dtype))
@@ -79,7 +79,7 @@ class Wavelet():
             psih = self._halve_nyquist(psih)
         if (S.is_dtype(psih, ('complex64', 'complex128')) and
                 (imag_th is not None) and
-                (psih.imag.sum() / psih.real.sum() < imag_th)):
+                (abs(psih.imag).sum() < imag_th * abs(psih.real).sum())):
             psih = psih.real
         return psih
 
-- 
2.43.0


From f73de04fef681b220aa5cafaa1301d5b8c5bcfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 003/112] fix: higher-order cwt made scales from number of
 channels for batched input

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fc1a663..fd7de06 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -573,7 +573,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         scales = kw.get('scales', 'log-piecewise')
         if isinstance(scales, str):
             wav = Wavelet(('gmw', dict(order=0, **wavopts)))
-            scales = process_scales(scales, len(x), wavelet=wav,
+            scales = process_scales(scales, x.shape[-1], wavelet=wav,
                                     nv=kw.get('nv', 32))
             scales = S.asarray(scales, wav.dtype)
         kw['scales'] = scales
-- 
2.43.0


From bf6bb3ddb9d5a6a7fbb1337261963b629b05b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 004/112] fix: squeezing != 'sum' took phase of already
 transformed coefficients; 'lebesgue' normalized batches by batch size

---
 ssqueezepy/ssqueezing.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1dd7ce9..a4a8f90 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -2,6 +2,7 @@
 import numpy as np
 from types import FunctionType
 from .algos import indexed_sum_onfly, ssqueeze_fast
+from .algos import phase_cwt_cpu, phase_cwt_gpu, phase_stft_cpu, phase_stft_gpu
 from .utils import p2up, process_scales, infer_scaletype, _process_fs_and_t
 from .utils import NOTE, pi, logscale_transition_idx, assert_is_one_of
 from .utils.backend import Q
@@ -193,11 +194,13 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     else:
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
-    # transform `Wx` if needed
+    # transform `Wx` if needed; phase must be that of untransformed `Wx`
+    if w is None and squeezing != 'sum':
+        w = _phase_transform(Wx, dWx, Sfs, gamma, transform)
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / len(Wx)
+        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
@@ -225,6 +228,17 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
 
 #### `ssqueeze` utils ########################################################
+def _phase_transform(Wx, dWx, Sfs, gamma, transform):
+    if Wx.ndim == 3:
+        return [_phase_transform(_Wx, _dWx, Sfs, gamma, transform)
+                for _Wx, _dWx in zip(Wx, dWx)]
+    if transform == 'cwt':
+        fn = phase_cwt_gpu if S.is_tensor(Wx) else phase_cwt_cpu
+        return fn(Wx, dWx, gamma)
+    fn = phase_stft_gpu if S.is_tensor(Wx) else phase_stft_cpu
+    return fn(Wx, dWx, Sfs, gamma)
+
+
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
     if isinstance(maprange, tuple):
         fm, fM = maprange
-- 
2.43.0


From d57842d1522e77cdb7891839ffe08ebb7eca40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 005/112] fix: gamma=0 raised ZeroDivisionError with
 get_w=True, and |Wx|==gamma was squeezed only if get_w=True

---
 ssqueezepy/algos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 770589a..0abc291 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -721,7 +721,7 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
 def _phase_cwt(Wx, dWx, out, gamma):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -732,7 +732,7 @@ def _phase_cwt(Wx, dWx, out, gamma):
 def _phase_cwt_par(Wx, dWx, out, gamma):
     for i in prange(Wx.shape[0]):
         for j in prange(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -795,7 +795,7 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
 def _phase_stft(Wx, dWx, Sfs, out, gamma):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
@@ -807,7 +807,7 @@ def _phase_stft(Wx, dWx, Sfs, out, gamma):
 def _phase_stft_par(Wx, dWx, Sfs, out, gamma):
     for i in prange(Wx.shape[0]):
         for j in prange(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
                 A, B = dWx[i, j].real, dWx[i, j].imag
-- 
2.43.0


From 2a28a383e88fffd9bcd5135313c124091e32a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 006/112] fix: higher-order ssq_cwt cut batched input along
 scales, failed without padding, and dropped patience and nan_checks

---
 ssqueezepy/_cwt.py     | 2 +-
 ssqueezepy/_ssq_cwt.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fd7de06..c95eacc 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -239,7 +239,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
                   l1_norm=l1_norm, derivative=derivative, padtype=padtype,
                   rpadded=rpadded, vectorized=vectorized, patience=patience,
-                  cache_wavelet=cache_wavelet)
+                  cache_wavelet=cache_wavelet, nan_checks=nan_checks)
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 43cb021..824421f 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -230,13 +230,14 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, nv=nv,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
                   vectorized=vectorized, astensor=True,
-                  cache_wavelet=cache_wavelet, nan_checks=nan_checks)
-        _, n1, _ = p2up(N)
+                  cache_wavelet=cache_wavelet, nan_checks=nan_checks,
+                  patience=patience)
+        n1 = p2up(N)[1] if padtype is not None else 0
         average = isinstance(order, (tuple, list, range))
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[:, n1:n1 + N]
+        Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
-- 
2.43.0


From 0c1f75471873db3ef3348616f0b03e2ac066ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 007/112] fix: trigdiff returned padded length when it padded
 and N was not given

---
 ssqueezepy/utils/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index e5227d2..392d3e8 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -209,6 +209,8 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
     rpadded, padtype = _process_args(A, rpadded, padtype, N, transform, window)
 
     if padtype is not None:
+        if N is None:
+            N = A.shape[-1]
         A, _, n1, *_ = padsignal(A, padtype, get_params=True)
 
     if transform == 'cwt':
-- 
2.43.0


From 0b81ba5db14647b71c85731049f7a78fd06d1130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 008/112] fix: extract_ridges wrapped ridge indices when there
 were more frequencies than timeshifts

---
 ssqueezepy/ridge_extraction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 2fbbf93..c7232d3 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -161,8 +161,7 @@ def _accumulated_penalty_energy_fw(energy_to_track, penalty_matrix, parallel):
     fn = (__accumulated_penalty_energy_fwp if parallel else
           __accumulated_penalty_energy_fw)
     fn(penalized_energy, penalty_matrix)
-    ridge_idxs = np.unravel_index(np.argmin(penalized_energy, axis=0),
-                                  penalized_energy.shape)[1]
+    ridge_idxs = np.argmin(penalized_energy, axis=0)
     return penalized_energy, ridge_idxs
 
 
-- 
2.43.0


From 882113d962eaa90d56f8b6814da1f2404a24a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 009/112] fix: extract_ridges did not zero the band of ridges
 within `bw` of the first row

---
 ssqueezepy/ridge_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index c7232d3..fbd1b81 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -140,7 +140,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         for time_idx in range(n_timeshifts):
             ridx = ridge_idxs[time_idx, i]
-            energy[int(ridx - bw):int(ridx + bw), time_idx] = 0
+            energy[max(0, int(ridx - bw)):int(ridx + bw), time_idx] = 0
 
     return ((ridge_idxs, ridge_f, ridge_e) if get_params else
             ridge_idxs)
-- 
2.43.0


From 7fcbc9068db7a3414345866a9db775c1a48c6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 010/112] fix: extract_ridges made all ridges NaN-driven from
 the first silent timeshift onwards

---
 ssqueezepy/ridge_extraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index fbd1b81..8ffbb19 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -130,6 +130,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
     for i in range(n_ridges):
         energy_max = energy.max(axis=0)
+        energy_max[energy_max == 0] = 1  # avoid 0/0
         energy_neg_log_norm = -np.log(energy / energy_max + eps)
 
         ridge_idxs[:, i] = fw_bw_ridge_tracking(energy_neg_log_norm,
-- 
2.43.0


From a39c5047518624f48a1b8d5dd9287bfb932d2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 011/112] fix: extract_ridges backtracking raced between
 threads on ties and lost the optimal path to rounding

---
 ssqueezepy/ridge_extraction.py | 52 +++++++++-------------------------
 1 file changed, 13 insertions(+), 39 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 8ffbb19..3dde164 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -89,7 +89,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         dist_matrix = penalty * np.subtract.outer(scales, scales)**2
         return dist_matrix.squeeze()
 
-    def fw_bw_ridge_tracking(energy_to_track, penalty_matrix, eps):
+    def fw_bw_ridge_tracking(energy_to_track, penalty_matrix):
         """Calculates acummulated penalty in forward (t=end...0) followed by
         backward (t=end...0) direction
 
@@ -105,8 +105,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
                                             parallel)
         # backward calculation of frequency ridge (min log negative energy)
         ridge_idxs_fw_bw = _accumulated_penalty_energy_bw(
-            energy_to_track, penalty_matrix, penalized_energy_fw,
-            ridge_idxs_fw, eps, parallel)
+            penalty_matrix, penalized_energy_fw, ridge_idxs_fw)
 
         return ridge_idxs_fw_bw
 
@@ -134,7 +133,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         energy_neg_log_norm = -np.log(energy / energy_max + eps)
 
         ridge_idxs[:, i] = fw_bw_ridge_tracking(energy_neg_log_norm,
-                                                penalty_matrix, eps)
+                                                penalty_matrix)
         if get_params:
             ridge_f[:, i] = scales_orig[ridge_idxs[:, i]]
             ridge_e[:, i] = energy[     ridge_idxs[:, i], range(n_timeshifts)]
@@ -183,50 +182,25 @@ def __accumulated_penalty_energy_fwp(penalized_energy, penalty_matrix):
                                           penalty_matrix[idx_freq, :])
 
 
-def _accumulated_penalty_energy_bw(energy_to_track, penalty_matrix,
-                                   penalized_energy_fw, ridge_idxs_fw,
-                                   eps, parallel):
+def _accumulated_penalty_energy_bw(penalty_matrix, penalized_energy_fw,
+                                   ridge_idxs_fw):
     """Calculates acummulated penalty in backward direction (t=end...0)
 
-    `energy_to_track`: squared abs time-frequency transform
     `penalty_matrix`: pre calculated penalty for all potential jumps between
                       two frequencies
+    `penalized_energy_fw`: energy with added forward penalty
     `ridge_idxs_fw`: calculated forward ridge
 
     Returns: `ridge_idxs_fw`: new ridge with added backward penalty, int array
     """
-    pen_e = penalized_energy_fw
-    e = energy_to_track
-    fn = (__accumulated_penalty_energy_bwp if parallel else
-          __accumulated_penalty_energy_bw)
-    fn(e, penalty_matrix, pen_e, ridge_idxs_fw, eps)
+    __accumulated_penalty_energy_bw(penalty_matrix, penalized_energy_fw,
+                                    ridge_idxs_fw)
     return np.asarray(ridge_idxs_fw).astype(int)
 
 
 @jit(nopython=True, cache=True)
-def __accumulated_penalty_energy_bw(e, penalty_matrix, pen_e, ridge_idxs_fw, eps):
-    for idx_time in range(e.shape[1] - 2, -1, -1):
-        val = (pen_e[ridge_idxs_fw[idx_time + 1], idx_time + 1] -
-               e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
-        for idx_freq in range(e.shape[0]):
-            new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
-
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
-                ridge_idxs_fw[idx_time] = idx_freq
-
-@jit(nopython=True, cache=True, parallel=True)
-def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
-                                     eps):
-    # adding `prange` to `tidx` makes whole computation much faster (x3-4),
-    # but breaks it on *some* inputs (unpredictably)
-    for tidx in range(e.shape[1] - 1):
-        # `prange` only supports a step size of 1, so we use a trick
-        # actually can't `prange` `tidx`, not thread-safe
-        idx_time = (e.shape[1] - 2) - tidx
-        val = (pen_e[ridge_idxs_fw[idx_time + 1], idx_time + 1] -
-               e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
-        for idx_freq in prange(e.shape[0]):
-            new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
-
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
-                ridge_idxs_fw[idx_time] = idx_freq
+def __accumulated_penalty_energy_bw(penalty_matrix, pen_e, ridge_idxs_fw):
+    # predecessor that attains the minimum in forward pass
+    for idx_time in range(pen_e.shape[1] - 2, -1, -1):
+        ridge_idxs_fw[idx_time] = np.argmin(
+            pen_e[:, idx_time] + penalty_matrix[ridge_idxs_fw[idx_time + 1], :])
-- 
2.43.0


From 839324c562c0bb4bc2b60906d5329d45d44211f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 012/112] fix: GMW evaluation zeroed negative frequencies in
 the caller's array (and in Wavelet.xi)

---
 ssqueezepy/_gmw.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6997d77..5533864 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -205,7 +205,7 @@ def _gmw_l1(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
@@ -214,13 +214,13 @@ def _gmw_l1_par(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
 def _gmw_l1_gpu(w, gamma, beta, wc, wcl):
     w_nonneg = (w >= 0)
-    w *= w_nonneg
+    w = w * w_nonneg
     return 2 * torch.exp(- beta * wcl + wc**gamma
                          + beta * torch.log(w) - w**gamma) * w_nonneg
 
@@ -246,20 +246,20 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
                       ) * w**beta * torch.exp(-w**gamma) * w_nonneg
 
@@ -285,7 +285,7 @@ def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -296,7 +296,7 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -306,7 +306,7 @@ def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
@@ -336,7 +336,7 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -346,7 +346,7 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -355,7 +355,7 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
-- 
2.43.0


From 0438fedfefe1fb0623cb2d9ae8c821d3e92b94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 013/112] fix: ssq_freqs returned in reverse order of Tx rows
 for CWT with flipud=False

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index a4a8f90..0c0514b 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -216,8 +216,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
 
-    # `scales` go high -> low
-    if (transform == 'cwt' and not flipud) or flipud:
+    # rows of `Tx` go in order of `ssq_freqs` unless flipped
+    if flipud:
         if not isinstance(ssq_freqs, np.ndarray):
             import torch
             ssq_freqs = torch.flip(ssq_freqs, (0,))
-- 
2.43.0


From ae7d8cef90d76de1ca8c6f00bb74c003f7c2151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 014/112] fix: ssqueeze with len(ssq_freqs) != len(scales) made
 Tx of wrong number of rows, moving coefficients to wrong bins

---
 ssqueezepy/ssqueezing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 0c0514b..022e7be 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -205,7 +205,10 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         Wx = Q.abs(Wx)
 
     # synchrosqueeze
-    Tx = S.zeros(Wx.shape, dtype=Wx.dtype)
+    if S.is_tensor(Wx) and len(ssq_freqs) != Wx.shape[-2]:
+        raise NotImplementedError("GPU execution requires "
+                                  "`len(ssq_freqs) == Wx.shape[-2]`")
+    Tx = S.zeros((*Wx.shape[:-2], len(ssq_freqs), Wx.shape[-1]), dtype=Wx.dtype)
     args = (nv, ssq_freqs, scales, transform, ssq_scaletype,
             cwt_scaletype, flipud, gamma, Sfs)
     if Wx.ndim == 2:
-- 
2.43.0


From d4d728247918842ff6d9e5142739994509834ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 015/112] fix: ssq_cwt difftype='numeric' returned Wx, dWx of
 wrong timeshifts, and failed without padding or with short inputs

---
 ssqueezepy/_ssq_cwt.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 824421f..4fcb6c7 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -214,9 +214,11 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-            _, n1, _ = p2up(N)
-            Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
-            w = phase_cwt_num(Wx, dt, difforder, gamma)
+            n1, n2 = p2up(N)[1:] if Wx.shape[-1] != N else (0, 0)  # if padded
+            n4 = min(4, n1, n2)
+            w = phase_cwt_num(Wx[:, (n1 - n4):(n1 + N + n4)], dt, difforder,
+                              gamma)
+            Wx, w = Wx[:, n1:(n1 + N)], w[:, n4:(n4 + N)]
         return Wx, w
 
     N, dt, fs, difforder, nv = _process_args(x, scales, fs, t, nv, difftype,
@@ -290,10 +292,10 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                              flipud=flipud, dWx=_dWx, transform='cwt')
 
     # postprocessing & return
-    if difftype == 'numeric':
-        Wx = Wx[:, 4:-4]
-        Tx = Tx[:, 4:-4]
-        w  = w[:,  4:-4] if w is not None else None
+    if difftype == 'numeric' and Wx.shape[-1] != N:
+        n1 = p2up(N)[1]
+        Wx = Wx[:, n1:(n1 + N)]
+        dWx = dWx[:, n1:(n1 + N)] if dWx is not None else None
 
     if not astensor and S.is_tensor(Tx):
         Tx, Wx, w, dWx, scales, ssq_freqs = [
-- 
2.43.0


From 27968f49883a184b9e7b6a1d8ce96e078a0d5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 016/112] fix: ssq_cwt difftype='phase' did not scale
 instantaneous frequencies by sampling rate

---
 ssqueezepy/_ssq_cwt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 4fcb6c7..2298956 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -211,6 +211,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
             # !!! bad; yields negatives, and forcing abs(w) doesn't help
             # calculate inst. freq. from unwrapped phase of CWT
             w = phase_cwt(Wx, None, difftype, gamma)
+            w /= dt  # cycles/sample -> physical
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-- 
2.43.0


From 2651700a6388ad73d8da923d863b5269b3b1ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 017/112] fix: phase_cwt_num ignored gamma=0 and kept NaN
 frequencies of zero coefficients

---
 ssqueezepy/_ssq_cwt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 2298956..c99a5d8 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -585,8 +585,9 @@ def phase_cwt_num(Wx, dt, difforder=4, gamma=None):
 
     # epsilon from Daubechies, H-T Wu, et al.
     # gamma from Brevdo, H-T Wu, et al.
-    gamma = gamma or 10 * (EPS64 if Wx.dtype == np.complex128 else EPS32)
-    w[np.abs(Wx) < gamma] = np.inf
+    if gamma is None:
+        gamma = 10 * (EPS64 if Wx.dtype == np.complex128 else EPS32)
+    w[np.abs(Wx) <= gamma] = np.inf
 
     # see `phase_cwt`, though negatives may no longer be in minority
     w = np.abs(w)
-- 
2.43.0


From 1d8c7b438b512ce88cdb3013fb2762b0af2d7e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 018/112] fix: synchrosqueezed STFT (and its inversion) scaled
 with sampling rate

---
 ssqueezepy/_ssq_stft.py  | 2 +-
 ssqueezepy/ssqueezing.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 05b6fc9..b4974ca 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -118,7 +118,7 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
     if ssq_freqs is None:
         ssq_freqs = Sfs
     Tx, ssq_freqs = ssqueeze(_Sx, w, squeezing=squeezing, ssq_freqs=ssq_freqs,
-                             Sfs=Sfs, flipud=flipud, gamma=gamma, dWx=_dSx,
+                             Sfs=Sfs, fs=fs, flipud=flipud, gamma=gamma, dWx=_dSx,
                              maprange='maximal', transform='stft')
     # return
     if not astensor and S.is_tensor(Tx):
diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 022e7be..5317ebf 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -121,7 +121,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         synsq_squeeze.m
     """
     def _ssqueeze(Tx, w, Wx, dWx, nv, ssq_freqs, scales, transform, ssq_scaletype,
-                  cwt_scaletype, flipud, gamma, Sfs):
+                  cwt_scaletype, flipud, gamma, Sfs, dt):
         if transform == 'cwt':
             # Eq 14 [2]; Eq 2.3 [1]
             if cwt_scaletype.startswith('log'):
@@ -132,7 +132,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                 # omit /dw since it's cancelled by *dw in inversion anyway
                 const = ((scales[1] - scales[0]) / scales).squeeze()
         elif transform == 'stft':
-            const = (ssq_freqs[1] - ssq_freqs[0])  # 'alpha' from [3]
+            # 'alpha' from [3]; in cycles/sample so inversion is independent of `fs`
+            const = (ssq_freqs[1] - ssq_freqs[0]) * dt
 
         ssq_logscale = ssq_scaletype.startswith('log')
         # do squeezing by finding which frequency bin each phase transform point
@@ -210,7 +211,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                                   "`len(ssq_freqs) == Wx.shape[-2]`")
     Tx = S.zeros((*Wx.shape[:-2], len(ssq_freqs), Wx.shape[-1]), dtype=Wx.dtype)
     args = (nv, ssq_freqs, scales, transform, ssq_scaletype,
-            cwt_scaletype, flipud, gamma, Sfs)
+            cwt_scaletype, flipud, gamma, Sfs, dt)
     if Wx.ndim == 2:
         _ssqueeze(Tx, w, Wx, dWx, *args)
     elif Wx.ndim == 3:
-- 
2.43.0


From e53e49eeeda5bc32349b43a2ae0fd26aefa37447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 019/112] fix: phase_ssqueeze ignored Sfs and t, failed with
 default difftype, and didn't unpad as documented

---
 ssqueezepy/experimental.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index e6eec3b..b40b812 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -2,7 +2,7 @@
 import warnings
 import numpy as np
 from .wavelets import Wavelet, center_frequency
-from .utils import backend as S, cwt_scalebounds, p2up
+from .utils import backend as S, cwt_scalebounds, p2up, _process_fs_and_t
 from .utils.common import EPS32, EPS64, trigdiff
 from .ssqueezing import ssqueeze
 from ._ssq_cwt import phase_cwt, phase_cwt_num
@@ -174,9 +174,13 @@ def phase_ssqueeze(Wx, dWx=None, ssq_freqs=None, scales=None, Sfs=None, fs=1.,
     # Returns:
         Tx, Wx, ssq_freqs, scales, Sfs, w, dWx
     """
+    if t is not None:
+        _, fs, _ = _process_fs_and_t(None, t, len(t))
+        t = None
     w, Wx, dWx, Sfs, gamma = phase_transform(
-        Wx, dWx, difftype, difforder=difforder, gamma=gamma, rpadded=rpadded,
-        padtype=padtype, N=N, n1=n1, get_w=get_w, fs=fs, transform=transform)
+        Wx, dWx, difftype or 'trig', difforder=difforder or 4, gamma=gamma,
+        rpadded=rpadded, padtype=padtype, N=N, n1=n1, get_w=get_w, fs=fs, Sfs=Sfs,
+        transform=transform)
 
     if w is not None and not get_dWx:
         dWx = None
@@ -206,6 +210,11 @@ def phase_transform(Wx, dWx=None, difftype='trig', difforder=4, gamma=None,
         # compute `dWx` if not supplied
         if dWx is None:
             dWx = trigdiff(Wx, fs, padtype, rpadded, N=N, n1=n1, transform='cwt')
+        elif rpadded:
+            dWx = dWx[..., n1:(n1 + N)]
+        Wxp = Wx
+        if rpadded:
+            Wx = Wx[..., n1:(n1 + N)]
 
         if get_w:
             if difftype == 'trig':
@@ -216,12 +225,17 @@ def phase_transform(Wx, dWx=None, difftype='trig', difforder=4, gamma=None,
                 # !!! bad; yields negatives, and forcing abs(w) doesn't help
                 # calculate inst. freq. from unwrapped phase of CWT
                 w = phase_cwt(Wx, None, difftype, gamma)
+                w *= fs  # cycles/sample -> physical
             elif difftype == 'numeric':
                 # !!! tested to be very inaccurate for small scales
                 # calculate derivative numericly
-                Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
                 dt = 1 / fs
-                w = phase_cwt_num(Wx, dt, difforder, gamma)
+                if rpadded:
+                    n4 = min(4, n1, Wxp.shape[-1] - n1 - N)
+                    w = phase_cwt_num(Wxp[:, (n1 - n4):(n1 + N + n4)], dt,
+                                      difforder, gamma)[:, n4:(n4 + N)]
+                else:
+                    w = phase_cwt_num(Wx, dt, difforder, gamma)
         else:
             w = None
         return w, Wx, dWx
-- 
2.43.0


From 7a503c15d72cd9563725593a364268c0f5d69009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 020/112] fix: trigdiff failed to pad 3D (batched) input

---
 ssqueezepy/utils/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index 392d3e8..bcc588f 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -211,7 +211,10 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
     if padtype is not None:
         if N is None:
             N = A.shape[-1]
-        A, _, n1, *_ = padsignal(A, padtype, get_params=True)
+        shape = A.shape[:-1]
+        A, _, n1, *_ = padsignal(A.reshape(-1, A.shape[-1]), padtype,
+                                 get_params=True)
+        A = A.reshape(*shape, -1)
 
     if transform == 'cwt':
         xi = S.asarray(_xifn(1, A.shape[-1]), A.dtype)
-- 
2.43.0


From 62813b2c249d3b092aae16688afe886abbfb082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 021/112] fix: ssqueeze and ssq_stft with ssq_freqs='linear'
 (or None) failed for STFT

---
 ssqueezepy/ssqueezing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 5317ebf..884e55c 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -173,7 +173,14 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         cwt_scaletype, nv = None, None
 
     # handle `ssq_freqs` & `ssq_scaletype`
-    if not (isinstance(ssq_freqs, np.ndarray) or S.is_tensor(ssq_freqs)):
+    if transform == 'stft' and (ssq_freqs is None or isinstance(ssq_freqs, str)):
+        if ssq_freqs not in (None, 'linear'):
+            raise ValueError("`ssq_freqs` must be linearly distributed for STFT "
+                             "(got %s)" % ssq_freqs)
+        ssq_freqs = (Sfs if Sfs is not None else
+                     np.linspace(0, .5, Wx.shape[-2]) / dt)
+        ssq_scaletype = 'linear'
+    elif not (isinstance(ssq_freqs, np.ndarray) or S.is_tensor(ssq_freqs)):
         if isinstance(ssq_freqs, str):
             ssq_scaletype = ssq_freqs
         else:
-- 
2.43.0


From 963a1e95dc8b602ecd1fcb406529361d95842f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 022/112] fix: stft derivative was not in physical units with
 modulated=False

---
 ssqueezepy/_stft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 63728a0..c536144 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -132,7 +132,9 @@ def stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=None,
         if modulated:
             window = ifftshift(window, astensor=True)
             if derivative:
-                diff_window = ifftshift(diff_window, astensor=True) * fs
+                diff_window = ifftshift(diff_window, astensor=True)
+        if derivative:
+            diff_window = diff_window * fs
 
         reshape = (-1, 1) if xp.ndim == 1 else (1, -1, 1)
         Sx *= window.reshape(*reshape)
-- 
2.43.0


From 8a163e7189d8ba1c7142ec93a63fb008049d483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 023/112] fix: istft returned empty array for n_fft in (1, 2)

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index c536144..4a3961d 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -253,7 +253,7 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
         x /= wn
 
     # unpad
-    x = x[n_fft//2 : -((n_fft - 1)//2)]
+    x = x[n_fft//2 : n_fft//2 + N]
 
     return x
 
-- 
2.43.0


From a48a033ae1c633875f7e6d4405fc5a7c535d27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 024/112] fix: istft failed for array window shorter than n_fft
 that stft accepts

---
 ssqueezepy/_stft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 4a3961d..2869c7f 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -229,7 +229,8 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
     """
     ### process args #####################################
     n_fft = n_fft or (Sx.shape[0] - 1) * 2
-    win_len = win_len or n_fft
+    win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                          n_fft)
     N = N or hop_len * Sx.shape[1]  # assume largest possible N if not given
     dtype = 'float32' if str(Sx.dtype) == 'complex64' else 'float64'
 
-- 
2.43.0


From c27e92c4a29b73e18de50811c726ece8769f31e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 025/112] fix: issq_stft did not center array window shorter
 than n_fft

---
 ssqueezepy/_ssq_stft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index b4974ca..d592921 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -176,7 +176,8 @@ def issq_stft(Tx, window=None, cc=None, cw=None, n_fft=None, win_len=None,
         cc, cw, full_inverse = _process_component_inversion_args(cc, cw)
 
         n_fft = n_fft or (Tx.shape[0] - 1) * 2
-        win_len = win_len or n_fft
+        win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                              n_fft)
 
         window = get_window(window, win_len, n_fft=n_fft)
         _check_NOLA(window, hop_len)
-- 
2.43.0


From 11cfef8b8175f6eae435707595522d56bec5d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 026/112] fix: float32 stft and istft failed instead of warning
 when hop_len > n_fft

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 2869c7f..2c72a47 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -330,7 +330,7 @@ def _check_NOLA(window, hop_len, dtype=None, imprecision_strict=False):
     # is critically sampled (not more than needed), it creates an issue with
     # float32 and time-localized windows, which struggle to invert the last frame
     tol = 0.15 if imprecision_strict else 1e-3
-    if dtype == 'float32' and not sig.check_NOLA(
+    if dtype == 'float32' and hop_len <= len(window) and not sig.check_NOLA(
             window, len(window), len(window) - hop_len, tol=tol):
         # 1e-3 can still have imprecision detectable by eye, but only upon few
         # samples, so avoid paranoia. Use 1e-2 to be safe, and 0.15 for ~exact
-- 
2.43.0


From 30469b8a72ccf75d0cc67d790f615bc7a74543cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 027/112] fix: icwt with 'log-piecewise' scales doubled output
 when they have no transition, failed with short second piece, and added
 x_mean twice

---
 ssqueezepy/_cwt.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index c95eacc..879f153 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, process_scales, logscale_transition_idx
+from .utils import padsignal, process_scales, nv_from_scales
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -417,16 +417,13 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     assert (len(scales) == na), "%s != %s" % (len(scales), na)
 
     #### Handle piecewise scales case ########################################
-    # `nv` must be left unspecified so it's inferred automatically from `scales`
-    # in `process_scales` for each piecewise case
+    # weigh rows per their own `nv` relative to that of first row, then treat as
+    # 'log'. Note there's no transition if `scales` needed no downsampling, and
+    # that the second piece may consist of a single scale.
     if scaletype == 'log-piecewise':
-        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len, x_mean=x_mean,
-                  padtype=padtype, rpadded=rpadded, l1_norm=l1_norm)
-
-        idx = logscale_transition_idx(scales)
-        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
-        x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
-        return x
+        nvs = nv_from_scales(scales.astype('float64'))
+        nv, scaletype = float(nvs[0, 0]), 'log'
+        Wx = Wx * (nv / nvs).astype(Wx.real.dtype)
     ##########################################################################
 
     #### Invert ##############################################################
-- 
2.43.0


From 5212e92d2e79a351be2aa688992bfa96b6f085f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 028/112] fix: icwt failed (or mixed inputs) with batched input
 and 1D x_mean

---
 ssqueezepy/_cwt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 879f153..21018d6 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -446,7 +446,10 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
         # unclear why the `pi/4` here but it improves inversion
         x *= (2 / Cpsi) * np.pi / 4
 
-    x += x_mean  # CWT doesn't capture mean (infinite scale)
+    # CWT doesn't capture mean (infinite scale)
+    if Wx.ndim == 3 and np.ndim(x_mean) == 1:
+        x_mean = np.reshape(x_mean, (-1, 1))  # one per input
+    x += x_mean
     return x
 
 
-- 
2.43.0


From 9fbad06e6041a7692c1eb3cdde4b4491d428b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 029/112] fix: double-integral icwt failed with rpadded=True

---
 ssqueezepy/_cwt.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 21018d6..ea4841b 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 import numpy as np
-from .utils import fft, ifft, ifftshift, FFT_GLOBAL
+from .utils import fft, ifft, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
 from .utils import padsignal, process_scales, nv_from_scales
 from .utils import backend as S
@@ -459,17 +459,19 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
     # add CWT padding if it doesn't exist
     if not rpadded:
         Wx, n_up, n1, _ = padsignal(Wx, padtype=padtype, get_params=True)
+    else:
+        # left pad amount, see `padsignal`
+        n_up = Wx.shape[-1]
+        n1 = (n_up - x_len) - (n_up - x_len)//2
 
-    # see help(cwt) on `norm` and `pn`
+    # see help(cwt) on `norm`
     norm = _icwt_norm(scaletype, l1_norm)
-    pn = (-1)**np.arange(n_up)
     x = np.zeros(n_up)
 
     # TODO vectorize?
     for scale, Wx_scale in zip(scales, Wx):
-        # TODO remove `*pn` & `ifftshift`?
-        psih = wavelet(scale=scale, N=n_up) * pn
-        xa = ifftshift(ifft(fft(Wx_scale) * psih))
+        psih = wavelet(scale=scale, N=n_up)
+        xa = ifft(fft(Wx_scale) * psih)
         x += xa.real / norm(scale)
 
     x = x[n1:n1 + x_len]  # keep the unpadded part
-- 
2.43.0


From 6f8d82d37670d4c3b44082214d167e23c98faa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 030/112] fix: uniformity check of t depended on unit of time,
 accepted decreasing t, and rejected two samples

---
 ssqueezepy/utils/cwt_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index d005c0d..90db382 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -706,7 +706,12 @@ def _process_fs_and_t(fs, t, N):
             # not explicitly used anywhere but ensures wrong `t` wasn't supplied
             raise Exception("`t` must be of same length as `x` "
                             "(%s != %s)" % (len(t), N))
-        elif not np.mean(np.abs(np.diff(t, 2, axis=0))) < 1e-7:  # float32 thr.
+        _t = np.asarray(t, dtype='float64')
+        span = _t[-1] - _t[0]
+        # must increase, and match uniform grid up to float32 error; relative
+        # to `span` so that it works for any unit of time
+        if not (span > 0 and np.all(np.diff(_t) > 0) and
+                np.all(np.abs(_t - np.linspace(_t[0], _t[-1], N)) <= 1e-6*span)):
             raise Exception("Time vector `t` must be uniformly sampled.")
         fs = 1 / (t[1] - t[0])
     else:
-- 
2.43.0


From e840148333f3f32434e7bf7c536360ff481eeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 031/112] fix: layout of scales and ssq_freqs was misjudged
 depending on their units and float32 rounding

---
 ssqueezepy/utils/cwt_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 90db382..af34926 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -275,9 +275,11 @@ def infer_scaletype(scales):
                         "(got %s)" % scales.dtype)
 
     th_log = 4e-15 if scales.dtype == np.float64 else 8e-7
-    th_lin = th_log * 1e3  # less accurate for some reason
+    # difference error is relative to largest value (but log differences aren't)
+    th_lin = np.abs(scales).max() * (4e-12 if scales.dtype == np.float64 else 8e-7)
 
-    if np.mean(np.abs(np.diff(np.log(scales), 2, axis=0))) < th_log:
+    logscales = np.log(scales.astype('float64'))  # exclude rounding of `log`
+    if np.mean(np.abs(np.diff(logscales, 2, axis=0))) < th_log:
         scaletype = 'log'
         # ceil to avoid faulty float-int roundoffs
         nv = int(np.round(1 / np.diff(np.log2(scales), axis=0)[0].squeeze()))
@@ -376,7 +378,8 @@ def logscale_transition_idx(scales):
     """Returns `idx` that splits `scales` as `[scales[:idx], scales[idx:]]`.
     """
     scales = asnumpy(scales)
-    scales_diff2 = np.abs(np.diff(np.log(scales), 2, axis=0))
+    # exclude rounding of `log`
+    scales_diff2 = np.abs(np.diff(np.log(scales.astype('float64')), 2, axis=0))
     idx = np.argmax(scales_diff2) + 2
     diff2_max = scales_diff2.max()
     # every other value must be zero, assert it is so
-- 
2.43.0


From cd086396d4c98a78f3ca3866436f09a22682dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 032/112] fix: component inversion included first row in bands
 entirely below it

---
 ssqueezepy/_ssq_cwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index c99a5d8..859ba20 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -390,7 +390,8 @@ def _invert_components(Tx, cc, cw):
 
     for n in range(cc.shape[1]):
         TxMask = np.zeros(Tx.shape, dtype='complex128')
-        upper_cc = np.clip(cc[:, n] + cw[:, n], 0, len(Tx))
+        # -1 excludes first row for bands that lie entirely below it
+        upper_cc = np.clip(cc[:, n] + cw[:, n], -1, len(Tx))
         lower_cc = np.clip(cc[:, n] - cw[:, n], 0, len(Tx))
 
         # cc==-1 denotes no curve at that time,
-- 
2.43.0


From 4539adade3d0c81382a4cf0276a742e97108d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 033/112] fix: icwt with linear scales used a fixed step
 instead of that of scales

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index ea4841b..350647a 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -443,8 +443,8 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
         # ln(2**(1/nv)) == ln(2)/nv == diff(ln(scales))[0]
         x *= (2 / Cpsi) * np.log(2 ** (1 / nv))
     else:
-        # unclear why the `pi/4` here but it improves inversion
-        x *= (2 / Cpsi) * np.pi / 4
+        # `da`, which doesn't cancel out of `da/a` like with 'log'
+        x *= (2 / Cpsi) * float(scales.ravel()[1] - scales.ravel()[0])
 
     # CWT doesn't capture mean (infinite scale)
     if Wx.ndim == 3 and np.ndim(x_mean) == 1:
-- 
2.43.0


From e4a62949fed948666db2e7df22ae1bd2e521bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 034/112] fix: center_frequency of wavelets zero over all of
 [0, pi] was negative or NaN, crashing synchrosqueezing

---
 ssqueezepy/wavelets.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 0467c12..a4f63a1 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -704,8 +704,11 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
             scale = (4/pi) * wc_ct
 
         w, psih, apsih2 = _params(wavelet, scale, N)
-        wc = (integrate.trapezoid(apsih2 * w) /
-              integrate.trapezoid(apsih2))
+        if apsih2.any():
+            wc = (integrate.trapezoid(apsih2 * w) /
+                  integrate.trapezoid(apsih2))
+        else:
+            wc = _unresolved_wc(wavelet, scale, w)
 
         if use_formula:
             wc *= (scale / scale_orig)
@@ -713,9 +716,15 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
 
     def _peak_wc(wavelet, scale, N):
         w, psih, apsih2 = _params(wavelet, scale, N)
-        wc = w[np.argmax(apsih2)]
+        wc = (w[np.argmax(apsih2)] if apsih2.any() else
+              _unresolved_wc(wavelet, scale, w))
         return float(wc), (w, psih, apsih2)
 
+    def _unresolved_wc(wavelet, scale, w):
+        # wavelet is zero at all `w`, e.g. is entirely above Nyquist;
+        # take the nearest to its peak, among positive
+        wc, _ = find_maximum(wavelet.fn)
+        return np.clip(wc / float(scale), w[w > 0].min(), w.max())
     def _peak_ct_wc(wavelet, N):
         wc, _ = find_maximum(wavelet.fn)
         # need `scale` such that `wavelet` peaks at `scale * xi.max()/4`
-- 
2.43.0


From 6056bc021084ba24818a5f60d9f6c1efd669055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 035/112] fix: center_frequency ignored force_int=False

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index a4f63a1..b2e9593 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -747,7 +747,7 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
 
     wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if kind == 'energy':
-        force_int = force_int or True
+        force_int = True if force_int is None else force_int
         wc, params = _energy_wc(wavelet, scale, N, force_int)
     elif kind == 'peak':
         wc, params = _peak_wc(wavelet, scale, N)
-- 
2.43.0


From 231b94cbe7777102b49cefac2fc95f049fda87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 036/112] fix: center_frequency failed for non-Wavelet wavelet
 with scale=None

---
 ssqueezepy/wavelets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index b2e9593..7dcc65e 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -740,12 +740,11 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
     if kind == 'peak-ct' and scale is not None:
         NOTE("`scale` ignored with `peak = 'peak-ct'`")
 
+    wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if scale is None and kind != 'peak-ct':
         # see _peak_ct_wc
         wc, _ = find_maximum(wavelet.fn)
         scale = (4/pi) * wc
-
-    wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if kind == 'energy':
         force_int = True if force_int is None else force_int
         wc, params = _energy_wc(wavelet, scale, N, force_int)
-- 
2.43.0


From 0dd7e25302ef0f9d640215d939e677393ffac4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 037/112] fix: coefficients of undefined or infinite frequency
 corrupted memory in synchrosqueezing

---
 ssqueezepy/algos.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 0abc291..d4d9ec5 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -173,7 +173,7 @@ def indexed_sum_onfly(Wx, w, ssq_freqs, const=1, logscale=False, flipud=False,
 def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
             if flipud:
@@ -184,7 +184,7 @@ def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
 def _indexed_sum_log_par(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
             if flipud:
@@ -197,7 +197,7 @@ def _indexed_sum_log_piecewise(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1,
                                idx1, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
@@ -215,7 +215,7 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
@@ -231,7 +231,7 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
 def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
             if flipud:
@@ -242,7 +242,7 @@ def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
 def _indexed_sum_lin_par(Wx, w, out, const, vmin, dv, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
             if flipud:
@@ -865,6 +865,8 @@ def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 wl = np.log2(w_ij)
                 if wl > vlmin1:
@@ -884,6 +886,8 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 wl = np.log2(w_ij)
                 if wl > vlmin1:
@@ -903,6 +907,8 @@ def _ssq_cwt_log(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((np.log2(w_ij) - vlmin) / dvl, 0)), omax))
                 if flipud:
@@ -917,6 +923,8 @@ def _ssq_cwt_log_par(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False)
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((np.log2(w_ij) - vlmin) / dvl, 0)), omax))
                 if flipud:
@@ -932,6 +940,8 @@ def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
                 if flipud:
@@ -946,6 +956,8 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
                 if flipud:
@@ -962,6 +974,8 @@ def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
                 if flipud:
@@ -977,6 +991,8 @@ def _ssq_stft_par(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False)
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
                 if flipud:
-- 
2.43.0


From 1ba02d7d4de7bd9dd03160aeb9ed0fababd45db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 038/112] fix: synchrosqueezing failed for log-piecewise scales
 whose second piece is one scale

---
 ssqueezepy/ssqueezing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 884e55c..a1c9f1f 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -281,7 +281,7 @@ def _compute_associated_frequencies(scales, N, wavelet, ssq_scaletype, maprange,
 
     elif ssq_scaletype == 'log-piecewise':
         idx = logscale_transition_idx(scales)
-        if idx is None:
+        if idx is None or idx == na - 1:  # second piece is one scale, not layout
             ssq_freqs = fm * np.power(fM / fm, np.arange(na)/(na - 1))
         else:
             f0, f2 = fm, fM
-- 
2.43.0


From 26800277c24fcda3d4e770eeb466f272b416ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 039/112] fix: instantaneous frequency of small (or large)
 coefficients was NaN, inf, or raised ZeroDivisionError

---
 ssqueezepy/algos.py | 48 ++++++++++++---------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index d4d9ec5..6a193c6 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -724,9 +724,7 @@ def _phase_cwt(Wx, dWx, out, gamma):
             if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                out[i, j] = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                out[i, j] = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
 
 @jit(nopython=True, cache=True, parallel=True)
 def _phase_cwt_par(Wx, dWx, out, gamma):
@@ -735,9 +733,7 @@ def _phase_cwt_par(Wx, dWx, out, gamma):
             if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                out[i, j] = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                out[i, j] = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
 
 
 def phase_cwt_gpu(Wx, dWx, gamma):
@@ -798,10 +794,8 @@ def _phase_stft(Wx, dWx, Sfs, out, gamma):
             if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 out[i, j] = abs(
-                    Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                    Sfs[i] - (dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
 
 @jit(nopython=True, cache=True, parallel=True)
 def _phase_stft_par(Wx, dWx, Sfs, out, gamma):
@@ -810,10 +804,8 @@ def _phase_stft_par(Wx, dWx, Sfs, out, gamma):
             if abs(Wx[i, j]) <= gamma:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 out[i, j] = abs(
-                    Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                    Sfs[i] - (dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
 
 def phase_stft_gpu(Wx, dWx, Sfs, gamma):
     kernel = '''
@@ -862,9 +854,7 @@ def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                w_ij = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -883,9 +873,7 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                w_ij = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -904,9 +892,7 @@ def _ssq_cwt_log(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                w_ij = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -920,9 +906,7 @@ def _ssq_cwt_log_par(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False)
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                w_ij = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -937,9 +921,7 @@ def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                w_ij = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -953,9 +935,7 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
-                w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                w_ij = abs((dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -970,10 +950,8 @@ def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
-                    Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                    Sfs[i] - (dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
@@ -987,10 +965,8 @@ def _ssq_stft_par(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False)
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
             if abs(Wx[i, j]) > gamma:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
-                    Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                    Sfs[i] - (dWx[i, j] / Wx[i, j]).imag / 6.283185307179586)
                 if not np.isfinite(w_ij):
                     continue
 
-- 
2.43.0


From e9d0f057855b857fc95fc79c7dcf7d09b0c4b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 040/112] fix: cached FFT objects mixed up forward with
 inverse, ignored patience, and overwrote earlier outputs

---
 ssqueezepy/utils/fft_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 7ae6656..84c80c3 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -237,9 +237,16 @@ class FFT():
 
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
-        combo = (x.shape, x.dtype, axis, real, n)
+        effort = (patience if isinstance(patience, tuple) else
+                  (patience, self.planning_timelimit))
+        combo = (x.shape, x.dtype, axis, real, inverse, n, effort)
         if self.cache_fft_objects and combo in self._input_history:
             fft_object = self._input_history[combo]
+            # don't overwrite the output returned previously
+            out = fft_object.output_array
+            fft_object.update_arrays(
+                fft_object.input_array,
+                pyfftw.empty_aligned(out.shape, dtype=out.dtype))
         else:
             fft_object = self._get_fft_object(x, axis, patience, real, inverse, n)
             if self.cache_fft_objects:
-- 
2.43.0


From d2295e782e5e532e5e5f3c3c6278bf843049f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 041/112] fix: FFT with threads=-1 failed if patience != 0

---
 ssqueezepy/utils/fft_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 84c80c3..db6754c 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -137,6 +137,8 @@ class FFT():
         """Set dynamically if `threads` wasn't passed in __init__."""
         if self._user_threads is None:
             return (multiprocessing.cpu_count() if IS_PARALLEL() else 1)
+        elif self._user_threads == -1:
+            return multiprocessing.cpu_count()
         return self._user_threads
 
     @property
-- 
2.43.0


From d6c52f80982c00a9f0c104aa2293eeac1ef2f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 042/112] fix: FFT with wisdom_dir='' used the working
 directory

---
 ssqueezepy/utils/fft_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index db6754c..300d4b1 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -116,7 +116,7 @@ class FFT():
     def __init__(self, planning_timelimit=120, wisdom_dir=UTILS_DIR, threads=None,
                  patience=0, cache_fft_objects=False, verbose=1):
         self.planning_timelimit = planning_timelimit
-        self.wisdom_dir = wisdom_dir
+        self.wisdom_dir = wisdom_dir or UTILS_DIR
         self._user_threads = threads
         self._patience = patience  # default patience
         self._process_patience(patience)  # error if !=0 and pyfftw not installed
-- 
2.43.0


From b57f101cec1651cedbb844da58d4fae7ca134ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 043/112] fix: wisdom was lost if the process died while saving
 it

---
 ssqueezepy/utils/fft_utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 300d4b1..bc839bf 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -1,4 +1,6 @@
 # -*- coding: utf-8 -*-
+import os
+import threading
 import numpy as np
 import multiprocessing
 from scipy.fft import fftshift as sfftshift, ifftshift as sifftshift
@@ -332,12 +334,19 @@ class FFT():
         pyfftw.import_wisdom((self._wisdom64, self._wisdom32, b''))
 
     def save_wisdom(self):
-        """Will overwrite."""
+        """Will overwrite. Files are replaced only once written completely."""
         self._wisdom64, self._wisdom32, _ = pyfftw.export_wisdom()
         for name in ('wisdom32', 'wisdom64'):
             path = getattr(self, f"_{name}_path")
-            with open(path, 'wb') as f:
-                f.write(getattr(self, f"_{name}"))
+            tmp = f"{path}.{os.getpid()}-{threading.get_ident()}"
+            try:
+                with open(tmp, 'wb') as f:
+                    f.write(getattr(self, f"_{name}"))
+                os.replace(tmp, path)
+            except BaseException:
+                if Path(tmp).is_file():
+                    os.remove(tmp)
+                raise
 
     def _validate_input(self, x, axis, real, patience, inverse):
         """Assert is single/double precision and is 1D/2D."""
-- 
2.43.0


From 41cf2aa71675fd4b69ee41f62861347da839ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 044/112] fix: assert_is_one_of raised TypeError for non-string
 options

---
 ssqueezepy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index bcc588f..bd7198d 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -304,7 +304,7 @@ def mad(data, axis=None):
 def assert_is_one_of(x, name, supported, e=ValueError):
     if x not in supported:
         raise e("`{}` must be one of: {} (got {})".format(
-            name, ', '.join(supported), x))
+            name, ', '.join(map(str, supported)), x))
 
 
 def _textwrap(txt, wrap_len=50):
-- 
2.43.0


From 1bfb8a3362a19d1d81f079c96f7ab3f9e14911ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 045/112] fix: find_closest clipped indices by number of rows
 of a rather than length of v, and differed in parallel for inf

---
 ssqueezepy/algos.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 6a193c6..2ae6a54 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -376,7 +376,7 @@ def _get_params_find_closest_log(v):
 def find_closest_log(a, v, parallel=True):
     idx, params = _get_params_find_closest_log(v)
     out = np.zeros(a.shape, dtype=np.int32)
-    params['omax'] = len(out) - 1
+    params['omax'] = len(v) - 1
 
     if idx is None:
         fn = _find_closest_log_par if parallel else _find_closest_log
@@ -418,8 +418,6 @@ def _find_closest_log_piecewise_par(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            if np.isinf(a[i, j]):
-                continue
             al = np.log2(a[i, j])
             if al > vlmin1:
                 out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
@@ -433,7 +431,7 @@ def find_closest_lin(a, v, parallel=True):
     out = np.zeros(a.shape, dtype=np.int32)
 
     fn = _find_closest_lin_par if parallel else _find_closest_lin
-    fn(a, out, vmin, dv, omax=len(out) - 1)
+    fn(a, out, vmin, dv, omax=len(v) - 1)
     return out
 
 @jit(nopython=True, cache=True)
-- 
2.43.0


From 9a870c36d6518dea862bfdfcf072b24bc9f8eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 046/112] fix: zero_denormals did nothing for non-contiguous
 arrays

---
 ssqueezepy/algos.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 2ae6a54..7d1e736 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -596,7 +596,10 @@ def zero_denormals(x, parallel=None):
     parallel = parallel if parallel is not None else IS_PARALLEL()
     tiny = 1000 * np.finfo(x.dtype).tiny
     fn = _zero_denormals_par if parallel else _zero_denormals
-    fn(x.ravel(), tiny)
+    xr = x.ravel()
+    fn(xr, tiny)
+    if not x.flags.c_contiguous:  # `ravel` copied
+        x[...] = xr.reshape(x.shape)
 
 @jit(nopython=True, cache=True)
 def _zero_denormals(x, tiny):
-- 
2.43.0


From c6fe6ea2a0420b2a3b62b92ae864220db5c6cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 047/112] fix: replace_under_abs failed with default ref

---
 ssqueezepy/algos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 7d1e736..4f4909f 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -494,6 +494,8 @@ def replace_at_value(x, ref=None, value=0., replacement=0.):
     return x
 
 def replace_under_abs(x, ref=None, value=0., replacement=0., parallel=None):
+    if ref is None:
+        ref = x
     if S.is_tensor(x):
         _replace_under_abs_gpu(x, ref, value, replacement)
     elif parallel or (parallel is None and IS_PARALLEL()):
-- 
2.43.0


From 553635f264c0dd52a3606624341e9c4008c2ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 048/112] fix: large instantaneous frequencies overflowed index
 and corrupted memory in synchrosqueezing with linear ssq_freqs

---
 ssqueezepy/algos.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 4f4909f..155b36b 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -233,7 +233,7 @@ def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
         for j in range(Wx.shape[1]):
             if not np.isfinite(w[i, j]):
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -244,7 +244,7 @@ def _indexed_sum_lin_par(Wx, w, out, const, vmin, dv, omax, flipud=False):
         for i in range(Wx.shape[0]):
             if not np.isfinite(w[i, j]):
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -928,7 +928,7 @@ def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 if not np.isfinite(w_ij):
                     continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -942,7 +942,7 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 if not np.isfinite(w_ij):
                     continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -958,7 +958,7 @@ def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
                 if not np.isfinite(w_ij):
                     continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -973,7 +973,7 @@ def _ssq_stft_par(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False)
                 if not np.isfinite(w_ij):
                     continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
-- 
2.43.0


From 13839012061ca9f059efeb9255da91ef8849f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 049/112] fix: find_closest took infinite values as closest to
 the first rather than last

---
 ssqueezepy/algos.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 155b36b..98d5e72 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -391,13 +391,15 @@ def find_closest_log(a, v, parallel=True):
 def _find_closest_log(a, out, vlmin, dvl, omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
-            out[i, j] = min(round(max((np.log2(a[i, j]) - vlmin) / dvl, 0)), omax)
+            out[i, j] = round(
+                min(max((np.log2(a[i, j]) - vlmin) / dvl, 0), omax))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _find_closest_log_par(a, out, vlmin, dvl, omax):
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            out[i, j] = min(round(max((np.log2(a[i, j]) - vlmin) / dvl, 0)), omax)
+            out[i, j] = round(
+                min(max((np.log2(a[i, j]) - vlmin) / dvl, 0), omax))
 
 
 @jit(nopython=True, cache=True)
@@ -407,7 +409,8 @@ def _find_closest_log_piecewise(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
         for j in range(a.shape[1]):
             al = np.log2(a[i, j])
             if al > vlmin1:
-                out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
+                out[i, j] = min(
+                    round(min((al - vlmin1) / dvl1, omax)) + idx1, omax)
             else:
                 out[i, j] = round(max((al - vlmin0) / dvl0, 0))
 
@@ -420,7 +423,8 @@ def _find_closest_log_piecewise_par(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
         for j in prange(a.shape[1]):
             al = np.log2(a[i, j])
             if al > vlmin1:
-                out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
+                out[i, j] = min(
+                    round(min((al - vlmin1) / dvl1, omax)) + idx1, omax)
             else:
                 out[i, j] = round(max((al - vlmin0) / dvl0, 0))
 
@@ -438,13 +442,13 @@ def find_closest_lin(a, v, parallel=True):
 def _find_closest_lin(a, out, vmin, dv, omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
-            out[i, j] = min(round(max((a[i, j] - vmin) / dv, 0)), omax)
+            out[i, j] = round(min(max((a[i, j] - vmin) / dv, 0), omax))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _find_closest_lin_par(a, out, vmin, dv, omax):
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            out[i, j] = min(round(max((a[i, j] - vmin) / dv, 0)), omax)
+            out[i, j] = round(min(max((a[i, j] - vmin) / dv, 0), omax))
 
 #### Replacers ###############################################################
 def _process_replace_fn_args(x, ref):
-- 
2.43.0


From ce19b5be68d8bd49d433335e106e2967ddf4eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 050/112] fix: logscale_transition_idx failed for fewer than 3
 scales, and took rounding of few log scales for a transition

---
 ssqueezepy/utils/cwt_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index af34926..3ea4a8d 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -378,6 +378,8 @@ def logscale_transition_idx(scales):
     """Returns `idx` that splits `scales` as `[scales[:idx], scales[idx:]]`.
     """
     scales = asnumpy(scales)
+    if len(scales) < 3:
+        return None  # no second difference
     # exclude rounding of `log`
     scales_diff2 = np.abs(np.diff(np.log(scales.astype('float64')), 2, axis=0))
     idx = np.argmax(scales_diff2) + 2
@@ -387,7 +389,7 @@ def logscale_transition_idx(scales):
 
     th = 1e-14 if scales.dtype == np.float64 else 1e-6
 
-    if not np.any(diff2_max > 100*np.abs(scales_diff2).mean()):
+    if diff2_max < th or not np.any(diff2_max > 100*np.abs(scales_diff2).mean()):
         # everything's zero, i.e. no transition detected
         return None
     elif not np.all(np.abs(scales_diff2) < th):
-- 
2.43.0


From 223a94d856ce4f393562c5780dad1333c790e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 051/112] fix: cwt zeroed NaN and inf in the caller's array

---
 ssqueezepy/_cwt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 350647a..8d62865 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -212,7 +212,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                 raise ValueError("`nan_checks=True` requires NumPy input.")
             elif np.isnan(x.max()) or np.isinf(x.max()) or np.isinf(x.min()):
                 WARN("found NaN or inf values in `x`; will zero")
-                replace_at_inf_or_nan(x, replacement=0.)
+                x = replace_at_inf_or_nan(x.copy(), replacement=0.)
 
         if cache_wavelet:
             if isinstance(wavelet, (str, tuple)):
@@ -233,7 +233,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         N = x.shape[-1]
         dt, *_ = _process_fs_and_t(fs, t, N=N)
         is_2D = (x.ndim == 2)
-        return N, nv, dt, is_2D, cache_wavelet
+        return x, N, nv, dt, is_2D, cache_wavelet
 
     if isinstance(order, (tuple, list, range)) or order > 0:
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
@@ -243,7 +243,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-    (N, nv, dt, is_2D, cache_wavelet
+    (x, N, nv, dt, is_2D, cache_wavelet
      ) = _process_args(x, scales, nv, fs, t, nan_checks, wavelet, cache_wavelet)
 
     # process `wavelet`, get its `dtype`
-- 
2.43.0


From 1eca021be313ac4c6fae0609ccead031eba0539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 052/112] fix: cwt left wavelet.N and FFT patience changed when
 interrupted by an exception

---
 ssqueezepy/_cwt.py     | 23 ++++++++++++-----------
 ssqueezepy/wavelets.py |  2 +-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 8d62865..e61c3de 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -276,19 +276,20 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
 
     # temporarily adjust `wavelet.N` & `FFT_GLOBAL.patience`
     wavelet_N_orig = wavelet.N
-    wavelet.N = xp.shape[-1]
     patience_orig = (FFT_GLOBAL.patience, FFT_GLOBAL.planning_timelimit)
-    FFT_GLOBAL.patience = patience
+    try:
+        wavelet.N = xp.shape[-1]
+        FFT_GLOBAL.patience = patience
 
-    # take CWT
-    if vectorized:
-        Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
-    else:
-        Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
-
-    # restore
-    wavelet.N = wavelet_N_orig
-    FFT_GLOBAL.patience = patience_orig
+        # take CWT
+        if vectorized:
+            Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
+        else:
+            Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
+    finally:
+        # restore
+        wavelet.N = wavelet_N_orig
+        FFT_GLOBAL.patience = patience_orig
 
     # handle unpadding, normalization
     if not rpadded and padtype is not None:
diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 7dcc65e..f60d4f1 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -167,9 +167,9 @@ class Wavelet():
     @N.setter
     def N(self, value):
         """Ensure `xi` always matches `N`."""
-        self._N = value
         self._xi = S.asarray(_xifn(scale=1, N=value,
                                    dtype=getattr(np, self.dtype)))
+        self._N = value
 
     @property
     def xi(self):
-- 
2.43.0


From 9656412c9bbce5b5ed2b43d931b47ec6b1200e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 053/112] fix: cwt and icwt wrote into options dict of a GMW
 wavelet passed as tuple

---
 ssqueezepy/_cwt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index e61c3de..e800c2e 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -506,8 +506,7 @@ def _process_gmw_wavelet(wavelet, l1_norm):
 
     elif isinstance(wavelet, tuple) and wavelet[0].lower()[:3] == 'gmw':
         wavelet, wavopts = wavelet
-        wavopts['norm'] = wavopts.get('norm', norm)
-        wavelet = (wavelet, wavopts)
+        wavelet = (wavelet, {'norm': norm, **wavopts})
 
     elif isinstance(wavelet, Wavelet):
         if wavelet.name == 'GMW L2' and l1_norm:
-- 
2.43.0


From 26ee2ad0aa660054d24d84445fce68922f03f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 054/112] fix: Wavelet.Psih returned stale values for other
 nohalf, for nearby scales and after an exception, and rejected scalar scale

---
 ssqueezepy/wavelets.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index f60d4f1..4fddf09 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -140,23 +140,26 @@ class Wavelet():
 
         If both `scale` & `N` are None, will return previously computed `Psih`.
         """
-        pN = getattr(self, '_Psih_N', S.array([-1]))
-        ps = getattr(self, '_Psih_scale', S.array([-1]))
-        N_is_None = N is None
+        if scale is None and N is None:
+            return self._Psih
         N = N or self.N
-        if ((scale is None and N_is_None) or
-                (N == pN and (len(scale) == len(ps) and S.allclose(scale, ps)))):
+        scale = atleast_1d(1. if scale is None else scale)
+        if ((N, nohalf) == getattr(self, '_Psih_args', None) and
+                scale.shape == self._Psih_scale.shape and
+                bool((scale == self._Psih_scale).all())):
             return self._Psih
 
         # first empty existing to free memory
+        self._Psih_args = None
         if getattr(self, '_Psih', None) is not None:
             self._Psih = None
             gc.collect()
 
-        self._Psih = self(scale=scale, N=N, nohalf=nohalf)
-        self._Psih_N = N
+        Psih = self(scale=scale, N=N, nohalf=nohalf)
         # store independent of external copy
         self._Psih_scale = scale.clone() if S.is_tensor(scale) else scale.copy()
+        self._Psih = Psih
+        self._Psih_args = (N, nohalf)
         return self._Psih
 
     @property
-- 
2.43.0


From b19ca9079e8c35ad6efcd56edaf6aaf700243e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 055/112] fix: freq_resolution used center frequencies at
 N=1024 regardless of N

---
 ssqueezepy/wavelets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 4fddf09..f6d069e 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -803,7 +803,8 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
 
     w = aifftshift(_xifn(1, N))
     psih = asnumpy(wavelet(scale * w))
-    wce = center_frequency(wavelet, scale, force_int=force_int, kind='energy')
+    wce = center_frequency(wavelet, scale, N=N, force_int=force_int,
+                           kind='energy')
 
     apsih2 = np.abs(psih)**2
     var_w = (integrate.trapezoid((w - wce)**2 * apsih2, w) /
@@ -814,7 +815,7 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
         std_w *= (scale / scale_orig)
         scale = scale_orig
     if nondim:
-        wcp = center_frequency(wavelet, scale, kind='peak')
+        wcp = center_frequency(wavelet, scale, N=N, kind='peak')
         std_w /= wcp
     if viz:
         _viz()
-- 
2.43.0


From 102472994a5271d9c833b64fa1376b7d53ade5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 056/112] fix: TestSignals: honor seed=0 and snr=0, don't
 change DEFAULT_ARGS or passed in defaults

---
 ssqueezepy/_test_signals.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 4071b77..6d4330b 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -42,6 +42,7 @@ variety of localization characteristics.
                (non-configurable)
 """
 import inspect
+from copy import deepcopy
 import numpy as np
 import scipy.signal as sig
 from numpy.fft import rfft
@@ -141,17 +142,13 @@ class TestSignals():
     def __init__(self, N=None, snr=None, default_args=None, default_tkw=None,
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
-        self.snr = snr or DEFAULT_SNR
-        self.default_args = default_args or DEFAULT_ARGS
-        self.default_tkw  = default_tkw  or DEFAULT_TKW
+        self.snr = snr if snr is not None else DEFAULT_SNR
+        # set defaults on unspecified; copy so neither the module's defaults
+        # nor the passed in dictionaries are shared with or changed by `self`
+        self.default_args = deepcopy({**DEFAULT_ARGS, **(default_args or {})})
+        self.default_tkw  = {**DEFAULT_TKW, **(default_tkw or {})}
         self.warn_alias   = warn_alias
-        self.seed = seed or DEFAULT_SEED
-
-        # set defaults on unspecified
-        for k, v in DEFAULT_ARGS.items():
-            self.default_args[k] = self.default_args.get(k, v)
-        for k, v in DEFAULT_TKW.items():
-            self.default_tkw[k] = self.default_tkw.get(k, v)
+        self.seed = seed if seed is not None else DEFAULT_SEED
 
     #### test signals ########################################################
     def _maybe_warn_alias(self, phi, tol=.02):
-- 
2.43.0


From 717505456db16db04a1d8bb1660c7cd44d8bc29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 057/112] fix: TestSignals.make_signals: snr=0, don't mutate
 parameter dicts, allow tmin & tmax for modulator

---
 ssqueezepy/_test_signals.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 6d4330b..db16a86 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -565,11 +565,11 @@ class TestSignals():
             snr = fparams.pop('snr', self.snr)
 
             x, t = fn(N, **fparams)
-            x *= afn(len(x), **aparams, **tkw)[0]
+            x *= afn(len(x), **{**aparams, **tkw})[0]
 
             if name[0] == '#':
                 x += x[::-1]
-            if snr:
+            if snr is not None:
                 noise_var = x.var() / 10**(snr/10)
                 if self.seed is not None:
                     np.random.seed(self.seed)
@@ -592,7 +592,7 @@ class TestSignals():
         fparams = self._process_varname_alias(signal, N, fparams)
         snr = fparams.pop('snr', None)
 
-        if snr:
+        if snr is not None:
             snr = "{:.1f}dB".format(snr)
             fparams = dict(N=N, SNR=snr, **fparams)
         else:
@@ -728,6 +728,9 @@ class TestSignals():
                     fparams, aparams = params, {}
             else:
                 name, fparams, aparams = signal, {}, {}
+            # defaults & `snr` are written below and in `make_signals`; do so
+            # on copies to not change the passed in dictionaries
+            fparams, aparams = fparams.copy(), aparams.copy()
 
             if name[0] == '#':
                 add_reversed = True
-- 
2.43.0


From 9fb15b0dfde3c5abbf67b2357db0ddf3bba39b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 058/112] fix: extract_ridges failed for one frequency, and for
 column scales with get_params=True

---
 ssqueezepy/ridge_extraction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 3dde164..e24008a 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -87,7 +87,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         # subtract.outer(A, B) = [[A[0] - B[0], A[0] - B[1], ...],
         #                         [A[1] - B[0], A[1] - B[1], ...],]
         dist_matrix = penalty * np.subtract.outer(scales, scales)**2
-        return dist_matrix.squeeze()
+        return dist_matrix
 
     def fw_bw_ridge_tracking(energy_to_track, penalty_matrix):
         """Calculates acummulated penalty in forward (t=end...0) followed by
@@ -114,9 +114,10 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
     scales, eps, penalty = [np.asarray(x, dtype=dtype)
                             for x in (scales, eps, penalty)]
 
+    scales = scales.reshape(-1)  # may be (n_scales, 1)
     scales_orig = scales.copy()
     scales = (np.log(scales) if transform == 'cwt' else
-              scales).squeeze()
+              scales)
     energy = np.abs(Tf)**2
     n_timeshifts = Tf.shape[1]
 
-- 
2.43.0


From 4eae697cfb68b349688bb4a53dadd341030d14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 059/112] fix: parallel=False was ignored by ssqueeze_fast,
 indexed_sum_onfly, phase_cwt, phase_stft, and buffer

---
 ssqueezepy/algos.py            | 8 +++++---
 ssqueezepy/utils/stft_utils.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 98d5e72..ed7d4d5 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -45,7 +45,9 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
                         gamma, parallel, complex_out=True, Sfs=None):
     S.warn_if_tensor_and_par(Wx, parallel)
     gpu = S.is_tensor(Wx)
-    parallel = (parallel or IS_PARALLEL()) and not gpu
+    if parallel is None:
+        parallel = IS_PARALLEL()
+    parallel = parallel and not gpu
 
     # process `Wx`, `w_or_dWx`, `out`
     if out is None:
@@ -719,7 +721,7 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel if parallel is not None else IS_PARALLEL()
     fn = _phase_cwt_par if parallel else _phase_cwt
     fn(Wx, dWx, out, gamma)
     return out
@@ -789,7 +791,7 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    parallel = parallel if parallel is not None else IS_PARALLEL()
     fn = _phase_stft_par if parallel else _phase_stft
     fn(Wx, dWx, Sfs, out, gamma)
     return out
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 208d424..743e68f 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -52,7 +52,7 @@ def buffer(x, seg_len, n_overlap, modulated=False, parallel=None):
             for _x, _out in zip(x, out):
                 _buffer_gpu(_x,  *args, out=_out)
     else:
-        parallel = parallel or IS_PARALLEL()
+        parallel = parallel if parallel is not None else IS_PARALLEL()
         fn = _buffer_par if parallel else _buffer
 
         if x.ndim == 1:
-- 
2.43.0


From 5012e561d57e5c0bf6be1d5f22279e07491b7ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 060/112] fix: SSQ_PARALLEL=1 did not override parallel=0 in
 configs.ini as documented

---
 ssqueezepy/configs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/configs.py b/ssqueezepy/configs.py
index 8153ff6..2751b43 100644
--- a/ssqueezepy/configs.py
+++ b/ssqueezepy/configs.py
@@ -126,11 +126,12 @@ def _get_gdefaults():
 
 def IS_PARALLEL():
     """Returns False if 'SSQ_PARALLEL' environment flag was set to '0', or
-    if `parallel` in `configs.ini` is set to `0`; former overrides latter.
+    if `parallel` in `configs.ini` is set to `0`; former overrides latter
+    (i.e. `parallel` is used only if 'SSQ_PARALLEL' isn't set).
     """
-    not_par_env = (os.environ.get('SSQ_PARALLEL', '1') == '0')
-    if not_par_env:
-        return False
+    par_env = os.environ.get('SSQ_PARALLEL')
+    if par_env is not None:
+        return par_env != '0'
 
     not_par_config = (gdefaults('configs.IS_PARALLEL', parallel=None) == 0)
     if not_par_config:
-- 
2.43.0


From b9a9dbc2563a54093278217bc6fff38f946a6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 061/112] fix: gmw: order given in configs.ini, or as an
 integer-valued float, failed for order>0

---
 ssqueezepy/_gmw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 5533864..3516ffe 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -118,7 +118,7 @@ def gmw(gamma=None, beta=None, norm=None, order=None, centered_scale=None,
     _check_args(gamma=gamma, beta=beta, norm=norm, order=order)
     kw = gdefaults('_gmw.gmw', gamma=gamma, beta=beta, norm=norm, order=order,
                    centered_scale=centered_scale, dtype=dtype, as_dict=True)
-    norm, k = kw.pop('norm'), kw.pop('order')
+    norm, k = kw.pop('norm'), int(kw.pop('order'))
     if norm == 'energy'and dtype in ('float32', np.float32):
         raise ValueError("`norm='energy'` w/ `dtype='float32'` is unsupported; "
                          "use 'float64' instead.")
-- 
2.43.0


From ec24c62fdcdf391fc74d615c8ec8ef6c72bba70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 062/112] fix: ssqueeze_fast: parallel setting was ignored for
 STFT

---
 ssqueezepy/algos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index ed7d4d5..12155b8 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -132,8 +132,9 @@ def ssqueeze_fast(Wx, dWx, ssq_freqs, const, logscale=False, flipud=False,
     `help(algos.find_closest)` on how `k` is computed.
     """
     def fn_name(transform, ssq_scaletype):
-        return ('ssq_stft' if transform == 'stft' else
-                f'ssq_cwt_{ssq_scaletype}')
+        if transform == 'stft':
+            return 'ssq_stft' + ('_par' if ssq_scaletype.endswith('_par') else '')
+        return f'ssq_cwt_{ssq_scaletype}'
 
     outs = _process_ssq_params(Wx, dWx, ssq_freqs, const, logscale, flipud, out,
                                gamma, parallel, complex_out=True, Sfs=Sfs)
-- 
2.43.0


From 67a00f481f4aff6d5d57dbd9744f12bd622eac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 063/112] fix: TestSignals: par_*chirp discarded fmax2 if fmax1
 wasn't passed

---
 ssqueezepy/_test_signals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index db16a86..da84e8b 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -292,7 +292,7 @@ class TestSignals():
             fmin2 = fmin1 + fdiff_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = fmax2 if fmax2 is not None else N/2
                 fmax1 = fmax2 - fdiff_default
             else:
                 fmax2 = min(N/2, fmax1 + fdiff_default)
@@ -316,7 +316,7 @@ class TestSignals():
             fmin2 = fmin1 * fratio_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = fmax2 if fmax2 is not None else N/2
                 fmax1 = fmax2 / fratio_default
             else:
                 fmax2 = min(N/2, fmax1 * fratio_default)
@@ -340,7 +340,7 @@ class TestSignals():
             fmin2 = fmin1 * fratio_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = fmax2 if fmax2 is not None else N/2
                 fmax1 = fmax2 / fratio_default
             else:
                 fmax2 = min(N/2, fmax1 * fratio_default)
-- 
2.43.0


From 63d736ad320d3a8c0d98691c79d1b7a5c6d30df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 064/112] fix: TestSignals.jumps: wrong time step & frequencies
 for tmin!=0

---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index da84e8b..0bf7c76 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -393,7 +393,7 @@ class TestSignals():
         x_freqs = []
         endpoint = tkw.get('endpoint', self.default_tkw.get('endpoint', False))
 
-        t_all = _t(tmin, tdiff * len(freqs), M * len(freqs), endpoint)
+        t_all = _t(tmin, tmin + tdiff * len(freqs), M * len(freqs), endpoint)
         for i, f in enumerate(freqs):
             t = t_all[i*M : (i+1)*M]
             x_freqs.append(np.cos(2*pi * f * t))
-- 
2.43.0


From 1d1daab8aebeeeafe5903bd8a0d2ee2678ae299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 065/112] fix: TestSignals.make_signals: list output dropped
 all but one of same-named signals

---
 ssqueezepy/_test_signals.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 0bf7c76..0426555 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -559,7 +559,7 @@ class TestSignals():
 
         names, params_all = self._process_input(signals)
 
-        data = {}
+        data, xs = {}, []
         for name, (fparams, aparams) in zip(names, params_all):
             fn, afn, *_, tkw = _process_args(name, fparams, aparams)
             snr = fparams.pop('snr', self.snr)
@@ -580,11 +580,10 @@ class TestSignals():
                 x += noise
 
             data[name] = (x, t, (fparams, aparams))
+            xs.append(x)
 
         if not get_params:
-            data = [d[0] for d in data.values()]
-            if len(data) == 1:
-                data = data[0]
+            data = xs if len(xs) != 1 else xs[0]
         return data
 
     @classmethod
-- 
2.43.0


From 0376dfcfe25a90a1c21059fecc41b17ccd92bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 066/112] fix: phase_ssqueeze: reject time vector of wrong
 length

---
 ssqueezepy/experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index b40b812..7d7e555 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -175,7 +175,7 @@ def phase_ssqueeze(Wx, dWx=None, ssq_freqs=None, scales=None, Sfs=None, fs=1.,
         Tx, Wx, ssq_freqs, scales, Sfs, w, dWx
     """
     if t is not None:
-        _, fs, _ = _process_fs_and_t(None, t, len(t))
+        _, fs, _ = _process_fs_and_t(None, t, N if rpadded else Wx.shape[-1])
         t = None
     w, Wx, dWx, Sfs, gamma = phase_transform(
         Wx, dWx, difftype or 'trig', difforder=difforder or 4, gamma=gamma,
-- 
2.43.0


From 9fd7bea635be84e8f13114813e9e81b2c51f1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 067/112] fix: reject NaN and infinite sampling rate

---
 ssqueezepy/utils/cwt_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 3ea4a8d..328aff2 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -722,8 +722,8 @@ def _process_fs_and_t(fs, t, N):
     else:
         if fs is None:
             fs = 1
-        elif fs <= 0:
-            raise ValueError("`fs` must be > 0")
+        elif not (fs > 0 and np.isfinite(fs)):
+            raise ValueError("`fs` must be > 0, and finite")
     dt = 1 / fs
     return dt, fs, t
 
-- 
2.43.0


From 1595741fa56b9a9df159bd797eaa285f28b2e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 068/112] fix: find_downsampling_scale failed for few scales

---
 ssqueezepy/utils/cwt_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 328aff2..a6f538e 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -540,6 +540,8 @@ def find_downsampling_scale(wavelet, scales, span=5, tol=3, method='sum',
               "({}, {}, {})".format(i, distances, joint_peak), flush=True)
 
     assert_is_one_of(method, 'method', ('any', 'all', 'sum'))
+    if len(scales) <= span + 1:
+        return None  # too few to compare
     if not isinstance(wavelet, np.ndarray):
         wavelet = Wavelet._init_if_not_isinstance(wavelet)
 
-- 
2.43.0


From c2df1985dd373ed52fcd486efee44aa4efb0e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 069/112] fix: make_scales returned empty scales for max_scale
 <= min_scale

---
 ssqueezepy/utils/cwt_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index a6f538e..5ef14b8 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -335,6 +335,9 @@ def make_scales(N, min_scale=None, max_scale=None, nv=32, scaletype='log',
     else:
         min_scale = min_scale or 1
         max_scale = max_scale or N
+    if max_scale <= min_scale:
+        raise ValueError("must have `max_scale > min_scale` "
+                         "(got %s, %s)" % (max_scale, min_scale))
     downsample = int(gdefaults('utils.cwt_utils.make_scales',
                                downsample=downsample))
 
-- 
2.43.0


From 113d9c3f6147c89f2ea91e5b616bd7779e220ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 070/112] fix: find_max_scale_alt ignored max_cutoff

---
 ssqueezepy/utils/cwt_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 5ef14b8..266c655 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -679,8 +679,10 @@ def find_max_scale_alt(wavelet, N, min_cutoff=.1, max_cutoff=.8):
     # define all points of wavelet from cutoff to peak, left half
     w_cutoff, _ = find_first_occurrence(wavelet.fn, value=min_cutoff * peak,
                                         step_start=0, step_limit=w_peak)
+    w_cutoff_max, _ = find_first_occurrence(wavelet.fn, value=max_cutoff * peak,
+                                            step_start=0, step_limit=w_peak)
 
-    w_ltp = np.arange(w_cutoff, w_peak, step=1/N)  # left-to-peak
+    w_ltp = np.arange(w_cutoff, w_cutoff_max, step=1/N)  # left-to-peak
 
     # consider every point on wavelet(w_ltp) (except peak) as candidate cutoff
     # point, and pick earliest one that yields integer number of increments
-- 
2.43.0


From fd64f682c3c437bee0765d14a217a14fbd4a3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 071/112] fix: make_scales took max_scale=0, found for
 infeasible bounds, for unspecified

---
 ssqueezepy/utils/cwt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 266c655..66679ac 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -334,7 +334,7 @@ def make_scales(N, min_scale=None, max_scale=None, nv=32, scaletype='log',
         min_scale, max_scale = cwt_scalebounds(wavelet, N, use_padded_N=True)
     else:
         min_scale = min_scale or 1
-        max_scale = max_scale or N
+        max_scale = max_scale if max_scale is not None else N
     if max_scale <= min_scale:
         raise ValueError("must have `max_scale > min_scale` "
                          "(got %s, %s)" % (max_scale, min_scale))
-- 
2.43.0


From d028cd4500807119959e2112216c0f977527d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 072/112] fix: aifftshift, afftshift: wrong order for odd
 lengths, spoiling frequency resolution

---
 ssqueezepy/wavelets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index f6d069e..dd60474 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -948,7 +948,7 @@ def afftshift(xh):
     """
     if len(xh) % 2 == 0:
         return _afftshift_even(xh, np.zeros(len(xh), dtype=xh.dtype))
-    return fftshift(xh)
+    return ifftshift(xh)
 
 @jit(nopython=True, cache=True)
 def _afftshift_even(xh, xhs):
@@ -964,7 +964,7 @@ def aifftshift(xh):
     """Inversion also different; moves left N//2+1 bins to right."""
     if len(xh) % 2 == 0:
         return _aifftshift_even(xh, np.zeros(len(xh), dtype=xh.dtype))
-    return ifftshift(xh)
+    return fftshift(xh)
 
 @jit(nopython=True, cache=True)
 def _aifftshift_even(xh, xhs):
-- 
2.43.0


From 4dca160fbb2683fd3947855061dc8516ac24f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 073/112] fix: morsewave failed for negative frequencies

---
 ssqueezepy/_gmw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 3516ffe..d737691 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -473,8 +473,8 @@ def morsewave(N, freqs, gamma=3, beta=60, K=1, norm='bandpass'):
         psif[:, n:n+1, :], psi[:, n:n+1, :] = _morsewave1(N, abs(f), gamma, beta,
                                                           K, norm)
         if f < 0:
-            psi[:,   n:n+1, :] = psi[:, n, :].conj()
-            psif[1:, n:n+1, :] = np.flip(psif[1:, n, :], axis=0)
+            psi[:,   n, :] = psi[:, n, :].conj()
+            psif[1:, n, :] = np.flip(psif[1:, n, :], axis=0)
 
     psi = psi.squeeze()
     psif = psif.squeeze()
-- 
2.43.0


From f2a32a6f903aae461bec2477e7aab86c88b6c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 074/112] fix: gmw: norm='energy' gave NaN or zeros for greater
 beta or scale

---
 ssqueezepy/_gmw.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index d737691..113abf9 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -232,36 +232,32 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
     _check_args(gamma=gamma, beta=beta, allow_zerobeta=False)
     wc = morsefreq(gamma, beta)
     r = (2*beta + 1) / gamma
-    rgamma = gamma_fn(r)
-    (gamma, beta, wc, r, rgamma
-     ) = _process_params_dtype(gamma, beta, wc, r, rgamma, dtype=dtype)
+    # log of normalizing constant; not exponentiated alone, else overflows
+    lc = .5 * (np.log(2*pi * gamma) + r * np.log(2) - gammaln_fn(r))
+    gamma, beta, wc, lc = _process_params_dtype(gamma, beta, wc, lc, dtype=dtype)
 
     fn = _gmw_l2_gpu if USE_GPU() else (_gmw_l2_par if IS_PARALLEL() else _gmw_l2)
     if centered_scale:
-        return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc,
-                            r, rgamma)
+        return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc, lc)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, r, rgamma)
+        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, lc)
 
 @jit(nopython=True, cache=True)
-def _gmw_l2(w, gamma, beta, wc, r, rgamma):
+def _gmw_l2(w, gamma, beta, wc, lc):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
-    return np.sqrt(2.*pi * gamma * 2.**r / rgamma
-                   ) * w**beta * np.exp(-w**gamma) * w_nonneg
+    return np.exp(lc + beta * np.log(w) - w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
-def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
+def _gmw_l2_par(w, gamma, beta, wc, lc):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
-    return np.sqrt(2.*pi * gamma * 2.**r / rgamma
-                   ) * w**beta * np.exp(-w**gamma) * w_nonneg
+    return np.exp(lc + beta * np.log(w) - w**gamma) * w_nonneg
 
-def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
+def _gmw_l2_gpu(w, gamma, beta, wc, lc):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
-    return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
-                      ) * w**beta * torch.exp(-w**gamma) * w_nonneg
+    return torch.exp(lc + beta * torch.log(w) - w**gamma) * w_nonneg
 
 
 def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
@@ -377,8 +373,8 @@ def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
         coeff = np.sqrt(np.exp(gammaln_fn(r) + gammaln_fn(k + 1) -
                                gammaln_fn(k + r)))
     elif norm == 'energy':
-        coeff = np.sqrt(2*pi * gamma * (2**r) *
-                        np.exp(gammaln_fn(k + 1) - gammaln_fn(k + r)))
+        coeff = np.exp(.5 * (np.log(2*pi * gamma) + r * np.log(2) +
+                             gammaln_fn(k + 1) - gammaln_fn(k + r)))
 
     # compute Laguerre polynomial constants
     L_consts = np.zeros(k + 1, dtype=dtype)
-- 
2.43.0


From 84710588d36cb73561905fc63b909944bcbab9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 075/112] fix: morsefreq, morsewave: beta=0 did not yield
 half-power frequency as documented and failed

---
 ssqueezepy/_gmw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 113abf9..c82ab84 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -631,7 +631,8 @@ def morsefreq(gamma, beta, n_out=1):
         v1.6.9, http://www.jmlilly.net/jmlsoft.html
         https://github.com/jonathanlilly/jLab/blob/master/jWavelet/morsefreq.m
     """
-    wm = (beta / gamma)**(1 / gamma)
+    wm = ((beta / gamma)**(1 / gamma) if beta != 0 else
+          (np.log(2) / 2)**(1 / gamma))
 
     if n_out > 1:
         we = (1 / 2**(1 / gamma)) * (gamma_fn((2*beta + 2) / gamma) /
-- 
2.43.0


From 385aedccadb9e9be597b98bde525ea1a8db460aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 076/112] fix: gmw, compute_gmw: norm='energy' defaulted to
 unsupported float32, yielding zeros

---
 ssqueezepy/_gmw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index c82ab84..6283032 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -122,6 +122,8 @@ def gmw(gamma=None, beta=None, norm=None, order=None, centered_scale=None,
     if norm == 'energy'and dtype in ('float32', np.float32):
         raise ValueError("`norm='energy'` w/ `dtype='float32'` is unsupported; "
                          "use 'float64' instead.")
+    elif norm == 'energy' and dtype is None:
+        kw['dtype'] = 'float64'  # default may be unsupported
 
     l1_fn, l2_fn = ((gmw_l1, gmw_l2) if k == 0 else
                     (gmw_l1_k, gmw_l2_k))
-- 
2.43.0


From 8cd8cf6dc1e0ab7bb3180eb8d9a2a4756c1a433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 077/112] fix: adm_ssq, adm_cwt: integral had a gap next to 0.1

---
 ssqueezepy/utils/cwt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 66679ac..ec61ff2 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -598,7 +598,7 @@ def integrate_analytic(int_fn, nowarn=False):
     Integrates near zero separately in log space (useful for e.g. 1/x).
     """
     def _est_arr(mxlim, N):
-        t = np.linspace(mxlim, .1, N, endpoint=False)[::-1].copy()
+        t = np.linspace(.1, mxlim, N)  # include .1, where near-zero part ends
         arr = int_fn(t)
 
         max_idx = np.argmax(arr)
-- 
2.43.0


From 4a4ca9daa9307b19d8206b0b49ce395261d4949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 078/112] fix: gmw: order>3 gave NaN for large frequencies in
 single precision, e.g. cwt of long inputs

---
 ssqueezepy/_gmw.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6283032..a40def0 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -285,32 +285,41 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    psi = np.exp(- beta * np.log(wc) + wc**gamma
+                 + beta * np.log(w)  - w**gamma)
+    w = w * (psi > 0)  # avoid `inf * 0`
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(- beta * np.log(wc) + wc**gamma
-                      + beta * np.log(w)  - w**gamma) * w_nonneg
+    return C * psi * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    psi = np.exp(- beta * np.log(wc) + wc**gamma
+                 + beta * np.log(w)  - w**gamma)
+    w = w * (psi > 0)  # avoid `inf * 0`
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(- beta * np.log(wc) + wc**gamma
-                      + beta * np.log(w)  - w**gamma) * w_nonneg
+    return C * psi * w_nonneg
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    psi = torch.exp(- beta * torch.log(wc) + wc**gamma
+                    + beta * torch.log(w)  - w**gamma)
+    w = w * (psi > 0)  # avoid `inf * 0`
+
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * torch.exp(- beta * torch.log(wc) + wc**gamma
-                         + beta * torch.log(w)  - w**gamma) * w_nonneg
+    return C * psi * w_nonneg
 
 
 def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
@@ -336,29 +345,38 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    psi = np.exp(beta * np.log(w) - w**gamma)
+    w = w * (psi > 0)  # avoid `inf * 0`
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(beta * np.log(w) - w**gamma) * w_nonneg
+    return C * psi * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    psi = np.exp(beta * np.log(w) - w**gamma)
+    w = w * (psi > 0)  # avoid `inf * 0`
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(beta * np.log(w) - w**gamma) * w_nonneg
+    return C * psi * w_nonneg
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    psi = torch.exp(beta * torch.log(w) - w**gamma)
+    w = w * (psi > 0)  # avoid `inf * 0`
+
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * torch.exp(beta * torch.log(w) - w**gamma) * w_nonneg
+    return C * psi * w_nonneg
 
 
 def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
-- 
2.43.0


From ede48de22f54399b8dfe1f559e7423dac49cbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 079/112] fix: gmw, morsewave: norm='energy' gave NaN or zeros
 at greater beta for order>0

---
 ssqueezepy/_gmw.py | 68 +++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index a40def0..91b78cb 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -233,9 +233,7 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
     """
     _check_args(gamma=gamma, beta=beta, allow_zerobeta=False)
     wc = morsefreq(gamma, beta)
-    r = (2*beta + 1) / gamma
-    # log of normalizing constant; not exponentiated alone, else overflows
-    lc = .5 * (np.log(2*pi * gamma) + r * np.log(2) - gammaln_fn(r))
+    lc = _gmw_l2_log_constant(gamma, beta)
     gamma, beta, wc, lc = _process_params_dtype(gamma, beta, wc, lc, dtype=dtype)
 
     fn = _gmw_l2_gpu if USE_GPU() else (_gmw_l2_par if IS_PARALLEL() else _gmw_l2)
@@ -329,23 +327,23 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
     _check_args(gamma=gamma, beta=beta, allow_zerobeta=False)
 
     wc = morsefreq(gamma, beta)
-    k_consts = _gmw_k_constants(gamma, beta, k, norm='energy', dtype=dtype)
-    gamma, beta, wc = _process_params_dtype(gamma, beta, wc, dtype=dtype)
+    k_consts, lc = _gmw_k_constants(gamma, beta, k, norm='energy', dtype=dtype)
+    gamma, beta, wc, lc = _process_params_dtype(gamma, beta, wc, lc, dtype=dtype)
 
     fn = (_gmw_l2_k_gpu if USE_GPU() else
           (_gmw_l2_k_par if IS_PARALLEL() else _gmw_l2_k))
     if centered_scale:
-        return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc,
+        return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc, lc,
                             k_consts)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, k_consts)
+        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, lc, k_consts)
 
 @jit(nopython=True, cache=True)
-def _gmw_l2_k(w, gamma, beta, wc, k_consts):
+def _gmw_l2_k(w, gamma, beta, wc, lc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
-    psi = np.exp(beta * np.log(w) - w**gamma)
+    psi = np.exp(lc + beta * np.log(w) - w**gamma)
     w = w * (psi > 0)  # avoid `inf * 0`
 
     C = np.zeros(w.shape, dtype=w.dtype)
@@ -354,11 +352,11 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     return C * psi * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
-def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
+def _gmw_l2_k_par(w, gamma, beta, wc, lc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
-    psi = np.exp(beta * np.log(w) - w**gamma)
+    psi = np.exp(lc + beta * np.log(w) - w**gamma)
     w = w * (psi > 0)  # avoid `inf * 0`
 
     C = np.zeros(w.shape, dtype=w.dtype)
@@ -366,11 +364,11 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
         C += k_consts[m] * (2*w**gamma)**m
     return C * psi * w_nonneg
 
-def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
+def _gmw_l2_k_gpu(w, gamma, beta, wc, lc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
-    psi = torch.exp(beta * torch.log(w) - w**gamma)
+    psi = torch.exp(lc + beta * torch.log(w) - w**gamma)
     w = w * (psi > 0)  # avoid `inf * 0`
 
     C = w.new_zeros(w.shape)
@@ -388,13 +386,9 @@ def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
     r = (2 * beta + 1) / gamma
     c = r - 1
 
-    # compute `coeff`
-    if norm == 'bandpass':
-        coeff = np.sqrt(np.exp(gammaln_fn(r) + gammaln_fn(k + 1) -
-                               gammaln_fn(k + r)))
-    elif norm == 'energy':
-        coeff = np.exp(.5 * (np.log(2*pi * gamma) + r * np.log(2) +
-                             gammaln_fn(k + 1) - gammaln_fn(k + r)))
+    # compute `coeff`, relative to order 0
+    coeff = np.sqrt(np.exp(gammaln_fn(r) + gammaln_fn(k + 1) -
+                           gammaln_fn(k + r)))
 
     # compute Laguerre polynomial constants
     L_consts = np.zeros(k + 1, dtype=dtype)
@@ -407,9 +401,19 @@ def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
     if norm == 'bandpass':
         k_consts *= 2
     k_consts = k_consts.astype(dtype)
+    if norm == 'energy':
+        return k_consts, _gmw_l2_log_constant(gamma, beta)
     return k_consts
 
 
+def _gmw_l2_log_constant(gamma, beta):
+    """Logarithm of normalizing constant of order 0 with `norm='energy'`; the
+    constant alone can overflow.
+    """
+    r = (2*beta + 1) / gamma
+    return .5 * (np.log(2*pi * gamma) + r * np.log(2) - gammaln_fn(r))
+
+
 #### General order wavelets (any `K`) ########################################
 def morsewave(N, freqs, gamma=3, beta=60, K=1, norm='bandpass'):
     """Generalized Morse wavelets of Olhede and Walden (2002).
@@ -509,8 +513,9 @@ def _morsewave1(N, f, gamma, beta, K, norm):
             if beta == 0:
                 psizero = np.exp(-w**gamma)
             else:
-                # w**beta * exp(-w**gamma)
-                psizero = np.exp(beta * np.log(w) - w**gamma)
+                # A * w**beta * exp(-w**gamma)
+                psizero = np.exp(_gmw_l2_log_constant(gamma, beta)
+                                 + beta * np.log(w) - w**gamma)
         else:
             if beta == 0:
                 psizero = 2 * np.exp(-w**gamma)
@@ -554,15 +559,16 @@ def _morsewave_first_family(fact, N, K, gamma, beta, w, psizero, norm):
 
     for k in range(K):
         # Log of gamma function much better ... trick from Maltab's ``beta'`
-        if norm == 'energy':
+        if norm == 'energy' and beta == 0:
             A = morseafun(gamma, beta, k + 1, norm='energy')
             coeff = np.sqrt(1. / fact) * A
-        elif norm == 'bandpass':
-            if beta == 0:
-                coeff = 1.
-            else:
-                coeff = np.sqrt(np.exp(gammaln_fn(r) + gammaln_fn(k + 1) -
-                                       gammaln_fn(k + r)))
+        elif beta == 0:
+            coeff = 1.
+        else:
+            coeff = np.sqrt(np.exp(gammaln_fn(r) + gammaln_fn(k + 1) -
+                                   gammaln_fn(k + r)))
+            if norm == 'energy':
+                coeff = np.sqrt(1. / fact) * coeff
         L[:N//2 + 1] = laguerre(2 * w[:N//2 + 1]**gamma, k, c).reshape(-1, 1)
         psif[:, :, k] = coeff * psizero * L
     return psif
@@ -591,8 +597,8 @@ def morseafun(gamma, beta, k=1, norm='bandpass'):
     """
     if norm == 'energy':
         r = (2*beta + 1) / gamma
-        A = np.sqrt(2*pi * gamma * (2**r) *
-                    np.exp(gammaln_fn(k) - gammaln_fn(k + r - 1)))
+        A = np.exp(.5 * (np.log(2*pi * gamma) + r * np.log(2) +
+                         gammaln_fn(k) - gammaln_fn(k + r - 1)))
     elif norm == 'bandpass':
         if beta == 0:
             A = 2.
-- 
2.43.0


From 0a6f0a1a80690a2c66c5c2d0fdcaa5781143a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 080/112] fix: scale_to_freq failed for one scale, was wrong
 for complex or sign-changing wavelets and for scales all below or above range

---
 ssqueezepy/experimental.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index 7d7e555..f5c09bb 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -109,8 +109,9 @@ def scale_to_freq(scales, wavelet, N, fs=1, padtype='reflect'):
             1D arrays of frequencies.
     """
     # process args
-    if isinstance(scales, float):
-        scales = np.array([scales])
+    if not S.is_tensor(scales):
+        scales = np.asarray(scales)
+    scales = scales.reshape(-1, 1)  # ensure 2D `psis`, also for one scale
     wavelet = Wavelet._init_if_not_isinstance(wavelet)
 
     # evaluate wavelet at `scales`
@@ -118,18 +119,17 @@ def scale_to_freq(scales, wavelet, N, fs=1, padtype='reflect'):
     psis = wavelet(scale=scales, N=Npad)
     if hasattr(psis, 'cpu'):
         psis = psis.cpu().numpy()
-    # find peak indices
-    idxs = np.argmax(psis, axis=-1)
+    # find peak indices; `abs` for complex or sign-changing wavelets
+    idxs = np.argmax(np.abs(psis), axis=-1)
 
     # check
     # https://github.com/OverLordGoldDragon/ssqueezepy/issues/41
     if np.any(idxs > Npad//2) or 0 in idxs:
         warnings.warn("found potentially ill-behaved wavelets (peak indices at "
                       "negative freqs or at dc); will round idxs to 1 or N/2")
-        n_psis = len(psis)
         for i, ix in enumerate(idxs):
             if ix > Npad//2 or ix == 0:
-                if i > n_psis // 2:  # low freq
+                if wavelet.wc_ct / float(scales[i, 0]) < np.pi / 2:  # low freq
                     idxs[i] = 1
                 else:  # high freq
                     idxs[i] = Npad//2
-- 
2.43.0


From 6b1dd28ffe471941505cd543a8f12f2c2d99b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 081/112] fix: maprange passed as list was accepted but failed

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index a1c9f1f..ef4bd12 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -187,7 +187,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
             # default to same scheme used by `scales`
             ssq_scaletype = cwt_scaletype
 
-        if ((maprange == 'maximal' or isinstance(maprange, tuple)) and
+        if ((maprange == 'maximal' or isinstance(maprange, (tuple, list))) and
                 ssq_scaletype == 'log-piecewise'):
             raise ValueError("can't have `ssq_scaletype = log-piecewise` or "
                              "tuple with `maprange = 'maximal'` "
@@ -251,7 +251,7 @@ def _phase_transform(Wx, dWx, Sfs, gamma, transform):
 
 
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
-    if isinstance(maprange, tuple):
+    if isinstance(maprange, (tuple, list)):
         fm, fM = maprange
     elif maprange == 'maximal':
         dT = dt * N
-- 
2.43.0


From d2aa89d5041fbfec65bd23c15117c429fbf58eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 082/112] fix: unsupported string ssq_freqs was taken as
 linear, squeezed as log

---
 ssqueezepy/ssqueezing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index ef4bd12..23542b9 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -182,6 +182,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         ssq_scaletype = 'linear'
     elif not (isinstance(ssq_freqs, np.ndarray) or S.is_tensor(ssq_freqs)):
         if isinstance(ssq_freqs, str):
+            assert_is_one_of(ssq_freqs, 'ssq_freqs',
+                             ('log', 'log-piecewise', 'linear'))
             ssq_scaletype = ssq_freqs
         else:
             # default to same scheme used by `scales`
-- 
2.43.0


From 7b3147df218bf45d762e148ae0e3f6abb4741dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 083/112] fix: center_frequency: rounding of underflowed
 energies, e.g. lowest 'energy' frequency above next

---
 ssqueezepy/wavelets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index dd60474..1d36aac 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -695,7 +695,10 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
     def _params(wavelet, scale, N):
         w = S.asarray(aifftshift(_xifn(1, N)))
         psih = asnumpy(wavelet(S.asarray(scale) * w))
-        apsih2 = np.abs(psih)**2
+        apsih = np.abs(psih)
+        apsih2 = apsih**2
+        if apsih2.any():
+            apsih2 = (apsih / apsih.max())**2  # avoid rounding of underflow
         w = asnumpy(w)
         return w, psih, apsih2
 
@@ -728,6 +731,7 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
         # take the nearest to its peak, among positive
         wc, _ = find_maximum(wavelet.fn)
         return np.clip(wc / float(scale), w[w > 0].min(), w.max())
+
     def _peak_ct_wc(wavelet, N):
         wc, _ = find_maximum(wavelet.fn)
         # need `scale` such that `wavelet` peaks at `scale * xi.max()/4`
-- 
2.43.0


From 9b94ed207a7699177fae9c7882b08455418f6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 084/112] fix: scale_to_freq: wavelet between bins was mapped
 to lowest or highest frequency

---
 ssqueezepy/experimental.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index f5c09bb..88fd42a 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -126,13 +126,12 @@ def scale_to_freq(scales, wavelet, N, fs=1, padtype='reflect'):
     # https://github.com/OverLordGoldDragon/ssqueezepy/issues/41
     if np.any(idxs > Npad//2) or 0 in idxs:
         warnings.warn("found potentially ill-behaved wavelets (peak indices at "
-                      "negative freqs or at dc); will round idxs to 1 or N/2")
+                      "negative freqs or at dc); will use nearest positive to "
+                      "center frequency")
         for i, ix in enumerate(idxs):
             if ix > Npad//2 or ix == 0:
-                if wavelet.wc_ct / float(scales[i, 0]) < np.pi / 2:  # low freq
-                    idxs[i] = 1
-                else:  # high freq
-                    idxs[i] = Npad//2
+                wc = wavelet.wc_ct / float(scales[i, 0])
+                idxs[i] = np.clip(round(wc * Npad / (2*np.pi)), 1, Npad//2)
     # convert
     freqs = idxs / Npad  # [0, ..., .5]
     assert freqs.min() >= 0,   freqs.min()
-- 
2.43.0


From 0f940f79000ec85e9e8c0475c90da593e01f7d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 085/112] fix: icwt returned double precision for single
 precision input (two-integral, linear scales, or L2 norm)

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index e800c2e..ba20291 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -467,7 +467,7 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
 
     # see help(cwt) on `norm`
     norm = _icwt_norm(scaletype, l1_norm)
-    x = np.zeros(n_up)
+    x = np.zeros(n_up, dtype=Wx.real.dtype)
 
     # TODO vectorize?
     for scale, Wx_scale in zip(scales, Wx):
@@ -482,7 +482,7 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
 def _icwt_1int(Wx, scales, scaletype, l1_norm):
     """One-integral iCWT; assumes analytic wavelet."""
     norm = _icwt_norm(scaletype, l1_norm)
-    return (Wx.real / norm(scales)).sum(axis=-2)
+    return (Wx.real / norm(scales.astype(Wx.real.dtype))).sum(axis=-2)
 
 
 def _icwt_norm(scaletype, l1_norm):
-- 
2.43.0


From 002d61fc0950325cea02aa3c1195f19950f12b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 086/112] fix: issq_cwt, issq_stft: components were double
 precision for single precision input

---
 ssqueezepy/_ssq_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 859ba20..e1179c5 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -385,11 +385,11 @@ def issq_cwt(Tx, wavelet='gmw', cc=None, cw=None):
 def _invert_components(Tx, cc, cw):
     # Invert Tx around curve masks in the time-frequency plane to recover
     # individual components; last one is the remaining signal
-    x = np.zeros((cc.shape[1] + 1, cc.shape[0]))
+    x = np.zeros((cc.shape[1] + 1, cc.shape[0]), dtype=Tx.real.dtype)
     TxRemainder = Tx.copy()
 
     for n in range(cc.shape[1]):
-        TxMask = np.zeros(Tx.shape, dtype='complex128')
+        TxMask = np.zeros(Tx.shape, dtype=Tx.dtype)
         # -1 excludes first row for bands that lie entirely below it
         upper_cc = np.clip(cc[:, n] + cw[:, n], -1, len(Tx))
         lower_cc = np.clip(cc[:, n] - cw[:, n], 0, len(Tx))
-- 
2.43.0


From 198497f8981f7b949a8b83352c7033fa421a8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 087/112] fix: issq_cwt, issq_stft: batched input was summed
 over inputs instead of frequencies

---
 ssqueezepy/_ssq_cwt.py  | 5 ++++-
 ssqueezepy/_ssq_stft.py | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index e1179c5..cf271e5 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -371,7 +371,7 @@ def issq_cwt(Tx, wavelet='gmw', cc=None, cw=None):
 
     if full_inverse:
         # Integration over all frequencies recovers original signal
-        x = Tx.real.sum(axis=0)
+        x = Tx.real.sum(axis=-2)
     else:
         x = _invert_components(Tx, cc, cw)
 
@@ -385,6 +385,9 @@ def issq_cwt(Tx, wavelet='gmw', cc=None, cw=None):
 def _invert_components(Tx, cc, cw):
     # Invert Tx around curve masks in the time-frequency plane to recover
     # individual components; last one is the remaining signal
+    if Tx.ndim != 2:
+        raise NotImplementedError("component inversion unsupported with "
+                                  "batched `Tx`.")
     x = np.zeros((cc.shape[1] + 1, cc.shape[0]), dtype=Tx.real.dtype)
     TxRemainder = Tx.copy()
 
diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index d592921..6e1e50f 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -175,7 +175,7 @@ def issq_stft(Tx, window=None, cc=None, cw=None, n_fft=None, win_len=None,
 
         cc, cw, full_inverse = _process_component_inversion_args(cc, cw)
 
-        n_fft = n_fft or (Tx.shape[0] - 1) * 2
+        n_fft = n_fft or (Tx.shape[-2] - 1) * 2
         win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
                               n_fft)
 
@@ -191,7 +191,7 @@ def issq_stft(Tx, window=None, cc=None, cw=None, n_fft=None, win_len=None,
 
     if full_inverse:
         # Integration over all frequencies recovers original signal
-        x = Tx.real.sum(axis=0)
+        x = Tx.real.sum(axis=-2)
     else:
         x = _invert_components(Tx, cc, cw)
 
-- 
2.43.0


From ba354197b026dc6b582d213f3db21076e5a333dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:39 +0000
Subject: [PATCH 088/112] fix: issq_stft failed for integer window

---
 ssqueezepy/_ssq_stft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 6e1e50f..a115452 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -179,7 +179,8 @@ def issq_stft(Tx, window=None, cc=None, cw=None, n_fft=None, win_len=None,
         win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
                               n_fft)
 
-        window = get_window(window, win_len, n_fft=n_fft)
+        dtype = 'float32' if str(Tx.dtype) == 'complex64' else 'float64'
+        window = get_window(window, win_len, n_fft=n_fft, dtype=dtype)
         _check_NOLA(window, hop_len)
         if abs(np.argmax(window) - len(window)//2) > 1:
             WARN("`window` maximum not centered; results may be inaccurate.")
-- 
2.43.0


From ad257db8abac4b952ea51121adce453da74fd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 089/112] fix: ssqueeze_fast, indexed_sum_onfly, ssqueeze
 failed for a transform of one row

---
 ssqueezepy/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 12155b8..3b6b0b4 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -68,7 +68,7 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
     # process `const`
     len_const = (const.numel() if isinstance(const, torch.Tensor) else
                  (const.size if isinstance(const, np.ndarray) else 1))
-    if len_const != len(Wx):
+    if len_const != len(Wx) or not hasattr(const, 'shape'):
         if gpu:
             const_arr = torch.full((len(Wx),), fill_value=const,
                                    device=Wx.device, dtype=Wx.dtype)
@@ -78,7 +78,7 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
         const_arr = torch.as_tensor(const, dtype=Wx.dtype, device=Wx.device)
     else:
         const_arr = const
-    const_arr = const_arr.squeeze()
+    const_arr = const_arr.reshape(-1)
 
     # process other constants
     if logscale:
-- 
2.43.0


From 79eed83e34e601f17e95b75ef51bc2af047b54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 090/112] fix: mad failed, or took mean along wrong axis, for
 axis=1

---
 ssqueezepy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index bd7198d..6354c11 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -298,7 +298,7 @@ def find_closest_parallel_is_faster(shape, dtype='float32', trials=7, verbose=1)
 
 def mad(data, axis=None):
     """Mean absolute deviation"""
-    return np.mean(np.abs(data - np.mean(data, axis)), axis)
+    return np.mean(np.abs(data - np.mean(data, axis, keepdims=True)), axis)
 
 
 def assert_is_one_of(x, name, supported, e=ValueError):
-- 
2.43.0


From 15e83b325c46c577cb90b606d43e8a086d892de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 091/112] fix: visuals changed `title`'s dict passed by caller

---
 ssqueezepy/visuals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 885a996..03911ea 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -977,6 +977,7 @@ def _maybe_title(title, ax=None):
 
     title, kw = (title if isinstance(title, tuple) else
                  (title, {}))
+    kw = kw.copy()  # don't change external dict
     defaults = gdefaults('visuals._maybe_title', get_all=True, as_dict=True)
     for name in defaults:
         kw[name] = kw.get(name, defaults[name])
-- 
2.43.0


From 291bffca62a4d49a7d367177eecf70c37c442a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 092/112] fix: plot, scat, hist set labels and `dx1` ticks on
 current axes instead of `ax`

---
 ssqueezepy/visuals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 03911ea..a894e85 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -1009,13 +1009,13 @@ def _scale_plot(fig, ax, show=False, ax_equal=False, w=None, h=None,
     if ylims:
         ax.set_ylim(*ylims)
     if dx1:
-        plt.xticks(np.arange(dx1))
+        ax.set_xticks(np.arange(dx1))
     if w or h:
         fig.set_size_inches(14*(w or 1), 8*(h or 1))
     if xlabel is not None:
-        plt.xlabel(xlabel, weight='bold', fontsize=15)
+        ax.set_xlabel(xlabel, weight='bold', fontsize=15)
     if ylabel is not None:
-        plt.ylabel(ylabel, weight='bold', fontsize=15)
+        ax.set_ylabel(ylabel, weight='bold', fontsize=15)
     if show:
         plt.show()
 
-- 
2.43.0


From e5831fc6f80925045113b084b795f911b865cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 093/112] fix: plot, scat failed for `ax_equal` with `xlims` or
 without `auto_xlims`

---
 ssqueezepy/visuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index a894e85..d12633f 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -1000,7 +1000,7 @@ def _scale_plot(fig, ax, show=False, ax_equal=False, w=None, h=None,
 
     if ax_equal:
         yabsmax = max(np.abs([*ax.get_ylim()]))
-        mx = max(yabsmax, max(np.abs([xmin, xmax])))
+        mx = max(yabsmax, max(np.abs([*ax.get_xlim()])))
         ax.set_xlim(-mx, mx)
         ax.set_ylim(-mx, mx)
         fig.set_size_inches(8*(w or 1), 8*(h or 1))
-- 
2.43.0


From a83d0cd05dacc15447984767569d2e60bd7ca91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 094/112] fix: plot, scat failed for `vlines`, `hlines` given
 as array

---
 ssqueezepy/visuals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index d12633f..35a4aa4 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -768,9 +768,9 @@ def plot(x, y=None, title=None, show=0, ax_equal=False, complex=0, abs=0,
         ax.set_xticks(np.arange(len(x)))
 
     # styling
-    if vlines:
+    if isinstance(vlines, np.ndarray) or vlines:
         _vhlines(vlines, kind='v', ax=ax)
-    if hlines:
+    if isinstance(hlines, np.ndarray) or hlines:
         _vhlines(hlines, kind='h', ax=ax)
     if abs and ylims is None:
         ylims = (0, None)
@@ -883,9 +883,9 @@ def scat(x, y=None, title=None, show=0, ax_equal=False, s=18, w=None, h=None,
         ax.set_yticks([])
 
     _maybe_title(title, ax=ax)
-    if vlines:
+    if isinstance(vlines, np.ndarray) or vlines:
         _vhlines(vlines, kind='v', ax=ax)
-    if hlines:
+    if isinstance(hlines, np.ndarray) or hlines:
         _vhlines(hlines, kind='h', ax=ax)
     _scale_plot(fig, ax, show=show, ax_equal=ax_equal, w=w, h=h,
                 xlims=xlims, ylims=ylims, dx1=(len(x) if dx1 else 0),
@@ -928,7 +928,7 @@ def hist(x, bins=500, title=None, show=0, stats=0, ax=None, fig=None,
 def _vhlines(lines, kind='v', ax=None):
     lfn = getattr(plt if ax is None else ax, f'ax{kind}line')
 
-    if not isinstance(lines, (list, tuple)):
+    if not isinstance(lines, (list, tuple, np.ndarray)):
         lines, lkw = [lines], {}
     elif isinstance(lines, (list, np.ndarray)):
         lkw = {}
-- 
2.43.0


From 46c84e4ba4671fe99342f5a5d6d7c1ce233f8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 095/112] fix: plot with `vert` took `abs`, real & imaginary
 parts of `x` instead of `y`

---
 ssqueezepy/visuals.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 35a4aa4..7c5701a 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -749,13 +749,14 @@ def plot(x, y=None, title=None, show=0, ax_equal=False, complex=0, abs=0,
     x = x if isinstance(x, list) or not squeeze else x.squeeze()
     y = y if isinstance(y, list) or not squeeze else y.squeeze()
 
-    if vert:
-        x, y = y, x
+    def draw(x, y, **kw):
+        ax.plot(*((y, x) if vert else (x, y)), **kw)
+
     if complex:
-        ax.plot(x, y.real, color='tab:blue', **kw)
-        ax.plot(x, y.imag, color='tab:orange', **kw)
+        draw(x, y.real, color='tab:blue', **kw)
+        draw(x, y.imag, color='tab:orange', **kw)
         if complex == 2:
-            ax.plot(x, np.abs(y), color='k', linestyle='--', **kw)
+            draw(x, np.abs(y), color='k', linestyle='--', **kw)
         if c_annot:
             _kw = dict(fontsize=15, xycoords='axes fraction', weight='bold')
             ax.annotate("real", xy=(.93, .95), color='tab:blue', **_kw)
@@ -763,7 +764,7 @@ def plot(x, y=None, title=None, show=0, ax_equal=False, complex=0, abs=0,
     else:
         if abs:
             y = np.abs(y)
-        ax.plot(x, y, **kw)
+        draw(x, y, **kw)
     if dx1:
         ax.set_xticks(np.arange(len(x)))
 
@@ -772,7 +773,9 @@ def plot(x, y=None, title=None, show=0, ax_equal=False, complex=0, abs=0,
         _vhlines(vlines, kind='v', ax=ax)
     if isinstance(hlines, np.ndarray) or hlines:
         _vhlines(hlines, kind='h', ax=ax)
-    if abs and ylims is None:
+    if abs and vert and xlims is None:
+        xlims = (0, None)
+    elif abs and not vert and ylims is None:
         ylims = (0, None)
 
     ticks = ticks if isinstance(ticks, (list, tuple)) else (ticks, ticks)
-- 
2.43.0


From 8ca8427dd956b009ea3fc025774b0c2b3b7d5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 096/112] fix: imshow with `complex` failed for titles, ticks,
 labels, borders, ridge

---
 ssqueezepy/visuals.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 7c5701a..88a2a2a 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -693,24 +693,26 @@ def imshow(data, title=None, show=1, cmap=None, norm=None, complex=None, abs=0,
     if w or h:
         fig.set_size_inches(12 * (w or 1), 12 * (h or 1))
 
-    if ridge:
-        data_mx = np.where(np.abs(data) == np.abs(data).max(axis=0))
-        ax.scatter(data_mx[1], data_mx[0], color='r', s=4)
+    axes = list(ax) if complex else [ax]
+    for ax in axes:
+        if ridge:
+            data_mx = np.where(np.abs(data) == np.abs(data).max(axis=0))
+            ax.scatter(data_mx[1], data_mx[0], color='r', s=4)
 
-    if not ticks:
-        ax.set_xticks([])
-        ax.set_yticks([])
-    if xticks is not None or yticks is not None:
-        _ticks(xticks, yticks, ax)
-    if not borders:
-        for spine in ax.spines:
-            ax.spines[spine].set_visible(False)
-    if xlabel is not None:
-        ax.set_xlabel(xlabel, weight='bold', fontsize=15)
-    if ylabel is not None:
-        ax.set_ylabel(ylabel, weight='bold', fontsize=15)
-
-    _maybe_title(title, ax=ax)
+        if not ticks:
+            ax.set_xticks([])
+            ax.set_yticks([])
+        if xticks is not None or yticks is not None:
+            _ticks(xticks, yticks, ax)
+        if not borders:
+            for spine in ax.spines:
+                ax.spines[spine].set_visible(False)
+        if xlabel is not None:
+            ax.set_xlabel(xlabel, weight='bold', fontsize=15)
+        if ylabel is not None:
+            ax.set_ylabel(ylabel, weight='bold', fontsize=15)
+
+    _maybe_title(title, ax=axes[0])
     if show:
         plt.show()
 
-- 
2.43.0


From ea731c6ba68bce9eb4c094add41b84a89820608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 097/112] fix: plots dropped signals without `Y` or for uneven
 grids, failed for one

---
 ssqueezepy/visuals.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 88a2a2a..6001dd8 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -812,25 +812,21 @@ def plots(X, Y=None, nrows=None, ncols=None, tight=True, sharex=False,
     """
     def _process_args(X, Y, nrows, ncols, tight, skw, pkw, kw):
         X = X if isinstance(X, list) else [X]
-        Y = Y if isinstance(Y, list) else [Y]
+        Y = (Y if isinstance(Y, list) else
+             [Y] if Y is not None else [None] * len(X))
         skw = skw or {}
         pkw = pkw or [{}] * len(X)
 
         if nrows is None and ncols is None:
             nrows, ncols = len(X), 1
         elif nrows is None:
-            nrows = max(len(X) // ncols, 1)
+            nrows = max(-(-len(X) // ncols), 1)  # ceil
         elif ncols is None:
-            ncols = max(len(X) // nrows, 1)
+            ncols = max(-(-len(X) // nrows), 1)  # ceil
 
         default = dict(left=0, right=1, bottom=0, top=1, hspace=.1, wspace=.05)
         if tight:
-            if not isinstance(tight, dict):
-                tight = default.copy()
-            else:
-                for name in default:
-                    if name not in tight:
-                        tight[name] = default[name]
+            tight = {**default, **(tight if isinstance(tight, dict) else {})}
 
         kw['w'] = kw.get('w', .8)
         kw['h'] = kw.get('h', .8)  # default 'tight' enlarges plot
@@ -840,7 +836,7 @@ def plots(X, Y=None, nrows=None, ncols=None, tight=True, sharex=False,
         X, Y, nrows, ncols, tight, skw, pkw, kw)
 
     _, axes = plt.subplots(nrows, ncols, sharex=sharex, sharey=sharey, **skw)
-    for ax, x, y, _pkw in zip(axes.flat, X, Y, pkw):
+    for ax, x, y, _pkw in zip(np.ravel(axes), X, Y, pkw):
         if isinstance(x, list):
             for _x, _y, __pkw in zip(x, y, _pkw):
                 plot(_x, _y, ax=ax, **__pkw, **kw)
-- 
2.43.0


From 0cbacc22bbb719181f598ed341f80156a7ca0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 098/112] fix: wavelet_tf_anim failed if similarly named files
 existed at `savepath`

---
 ssqueezepy/visuals.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 6001dd8..646acab 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -260,13 +260,9 @@ def wavelet_tf_anim(wavelet, N=2048, scales=None, width=1.1, height=1,
         savename = sp.stem
 
         if sp.is_file():
-            paths = [str(p.stem) for p in Path(savepath).parent.iterdir()
-                     if savename in p.stem]
-            maxnum = 0
-            for p in paths:
-                num = p.replace(savename, '')
-                if num != '' and int(num) > maxnum:
-                    maxnum = int(num)
+            nums = [p.stem[len(savename):] for p in sp.parent.iterdir()
+                    if p.stem.startswith(savename)]
+            maxnum = max([int(num) for num in nums if num.isdigit()], default=0)
             sp = Path(sp.parent, savename + str(maxnum + 1) + sp.suffix)
         sp = str(sp)
         return sp
-- 
2.43.0


From f0ec17f696dd959143215a0dcd7f46f11f595af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 099/112] fix: viz_gmw_orders ignored `N` in sampling wavelets

---
 ssqueezepy/visuals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 646acab..b0271b3 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -607,12 +607,13 @@ def viz_gmw_orders(N=1024, n_orders=3, scale=5, gamma=3, beta=60,
                    norm='bandpass'):
     wavs = []
     for k in range(n_orders):
-        wav = Wavelet(('gmw', dict(gamma=gamma, beta=beta, norm=norm, order=k)))
+        wav = Wavelet(('gmw', dict(gamma=gamma, beta=beta, norm=norm, order=k)),
+                      N=N)
         wavs.append(wav)
 
     psihs = [wav(scale=scale)[:N//2 + 1] for wav in wavs]
     psis  = [wav.psifn(scale=scale)      for wav in wavs]
-    w = np.linspace(0, np.pi, N//2 + 1, endpoint=True)
+    w = _xifn(1, N)[:N//2 + 1]
 
     desc = wavs[0]._desc(show_N=False)
     orders_str = ','.join(map(str, range(n_orders)))
-- 
2.43.0


From 331a9c9bd3b5fe47a07bc7401a0b53c4163ab964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 100/112] fix: wavelet visuals showed wrong frequencies

---
 ssqueezepy/visuals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index b0271b3..a6db59d 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -320,7 +320,7 @@ def wavelet_heatmap(wavelet, scales='log', N=2048):
            title=title0 + " | Time-domain; abs-val", **kw)
 
     kw['xlabel'] = "radians"
-    imshow(Psih, abs=1, yticks=scales, xticks=np.linspace(0, np.pi, N//2),
+    imshow(Psih, abs=1, yticks=scales, xticks=w,
            title=title0 + " | Freq-domain; abs-val", **kw)
 
 
@@ -419,7 +419,7 @@ def wavelet_waveforms(wavelet, N, scale, zoom=True):
     w_peak, _ = find_maximum(wavelet.fn)
 
     w_ct = np.linspace(0, w_peak*2, max(4096, p2up(N)[0]))  # 'continuous-time'
-    w_dt = np.linspace(0, np.pi, N//2) * scale  # sampling pts at `scale`
+    w_dt = _xifn(scale, N)[:N//2 + 1]  # sampling pts at `scale`
     psih_ct = asnumpy(wavelet(w_ct))
     psih_dt = asnumpy(wavelet(w_dt))
 
@@ -441,7 +441,7 @@ def wavelet_waveforms(wavelet, N, scale, zoom=True):
         end = np.where(psih_dt[peak_idx:] < 1e-4*psih_dt.max())[0][0]
         end += peak_idx + 3  # +3: give few more indices for visual
 
-    w_dtn = w_dt * (np.pi / w_dt.max())  # norm to span true w
+    w_dtn = w_dt / scale  # norm to span true w
     plot(w_dtn[:end], psih_dt[:end], xlabel="radians",
          title="Freq-domain waveform (psih)" + ", zoomed" * (end is not None))
     scat(w_dtn[:end], psih_dt[:end], color='tab:red', show=1)
@@ -556,8 +556,8 @@ def wavelet_filterbank(wavelet, N=1024, scales='log', skips=0, title_append=None
         w = None
         xlims = (-N/100, N*1.01)
     else:
-        Psih_show = Psih_show[:N//2]
-        w = np.linspace(0, np.pi, N//2, endpoint=True)
+        Psih_show = Psih_show[:N//2 + 1]
+        w = _xifn(1, N)[:N//2 + 1]
         xlims = (-np.pi/100, np.pi*1.01)
 
     # plot
-- 
2.43.0


From 23f7fb7d1b3d994cbac228abfc36dd5f176c6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 101/112] fix: TestSignals.ridgecomp drew CWT ridges one row
 off the image

---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 0426555..c7031ba 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -952,7 +952,7 @@ class TestSignals():
         name, fparams, aparams = params
         if transform == 'cwt':
             Tf = np.flipud(Tf)
-            ridges = len(Tf) - ridges
+            ridges = len(Tf) - 1 - ridges
             title, title_s = "abs(CWT) w/ ridges", "abs(SSQ_CWT) w/ ridges"
         else:
             title, title_s = "abs(STFT) w/ ridges", "abs(SSQ_STFT) w/ ridges"
-- 
2.43.0


From b0e39264a133c96feb4a268af6196260104697dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 102/112] fix: TestSignals.ridgecomp ignored `w` and `h`

---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index c7031ba..dc5e85d 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -928,7 +928,7 @@ class TestSignals():
         See `help(ridge_extraction.extract_ridges)`.
         """
         fn = lambda x, t, params: self._ridgecomp_fn(
-            x, t, params, penalty, n_ridges, bw, transform,
+            x, t, params, penalty, n_ridges, bw, transform, w, h,
             **transform_kw)
         self.test_transforms(fn, signals=signals, N=N)
 
-- 
2.43.0


From a8f59a40d7a01349711296abc55453a887feaaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 103/112] fix: TestSignals.wavcomp, cwt_vs_stft failed for
 wavelets given by name

---
 ssqueezepy/_test_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index dc5e85d..b617b31 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -793,7 +793,7 @@ class TestSignals():
             wavs.append(Wavelet._init_if_not_isinstance(wavelet))
 
         fn = lambda x, t, params: self._wavcomp_fn(
-            x, t, params, wavelets, w=w, h=h, tight_kw=tight_kw)
+            x, t, params, wavs, w=w, h=h, tight_kw=tight_kw)
         self.test_transforms(fn, signals=signals, N=N)
 
     def _wavcomp_fn(self, x, t, params, wavelets, w=1.2, h=None, tight_kw=None):
@@ -841,6 +841,7 @@ class TestSignals():
         control plots' width & height. `tight_kw` is passed to
         `plt.subplots_adjust()`.
         """
+        wavelet = Wavelet._init_if_not_isinstance(wavelet)
         fn = lambda x, t, params: self._cwt_vs_stft_fn(
             x, t, params, wavelet, window, win_len, n_fft, window_name,
             config_str, w, h, tight_kw)
-- 
2.43.0


From 6a338023100734b8ddc91ccf5a469dc053c116c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 104/112] fix: TestSignals.wavcomp failed for one wavelet

---
 ssqueezepy/_test_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index b617b31..6aace2c 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -810,7 +810,8 @@ class TestSignals():
             return (.13 + .05*(max_rows - 2)) * (.9 / h)
 
         h = h or .45 * len(wavelets)
-        fig, axes = plt.subplots(len(wavelets), 2, figsize=(w * 12, h * 12))
+        fig, axes = plt.subplots(len(wavelets), 2, figsize=(w * 12, h * 12),
+                                 squeeze=False)
 
         for i, wavelet in enumerate(wavelets):
             Tx, Wx, *_ = ssq_cwt(x, wavelet, t=t, flipud=1, astensor=False)
-- 
2.43.0


From d34265c98c2a040a0cfbb90a16aea73e39684998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 105/112] fix: TestSignals.wavcomp, cwt_vs_stft ignored and
 overwrote `tight_kw`

---
 ssqueezepy/_test_signals.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 6aace2c..70879f6 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -823,13 +823,10 @@ class TestSignals():
             imshow(Wx, **pkw, ax=axes[i, 0], show=0, title=title1)
             imshow(Tx, **pkw, ax=axes[i, 1], show=0, title=title2)
 
-        tight_kw = tight_kw or {}
         default_hspace = _get_default_hspace()
         defaults = dict(left=0, right=1, bottom=0, top=1, wspace=.01,
                         hspace=default_hspace)
-        for k, v in defaults.items():
-            tight_kw[k] = v
-        plt.subplots_adjust(**tight_kw)
+        plt.subplots_adjust(**{**defaults, **(tight_kw or {})})
         plt.show()
 
     def cwt_vs_stft(self, wavelet, window, signals='all', N=None,
@@ -881,13 +878,10 @@ class TestSignals():
                 else norm)
         imshow(Tsx, **pkw, ax=axes[1, 1], show=0, title=stitle2, norm=norm)
 
-        tight_kw = tight_kw or {}
         default_hspace = _get_default_hspace()
         defaults = dict(left=0, right=1, bottom=0, top=1, wspace=.01,
                         hspace=default_hspace)
-        for k, v in defaults.items():
-            tight_kw[k] = v
-        plt.subplots_adjust(**tight_kw)
+        plt.subplots_adjust(**{**defaults, **(tight_kw or {})})
         plt.show()
 
     @staticmethod
-- 
2.43.0


From c6106e0b4337b22b3d98b31f0e73c66273db9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 106/112] fix: TestSignals.test_transforms wrote into `pkw`
 returned by `fn`, retitling later figures

---
 ssqueezepy/_test_signals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 70879f6..1beba42 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -516,8 +516,7 @@ class TestSignals():
             if out is not None:
                 out, pkw = out
                 default_pkw['title'] = self._title(name, len(x), fparams, aparams)
-                for k, v in default_pkw.items():
-                    pkw[k] = pkw.get(k, v)
+                pkw = {**default_pkw, **pkw}
 
                 if isinstance(out, (tuple, list)):
                     for o in out:
-- 
2.43.0


From b97bee1460a8327a4c5963f4b0d935d88d7b133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 107/112] fix: wavelet_heatmap failed with 1D `scales`

---
 ssqueezepy/visuals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index a6db59d..2575ddb 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -301,6 +301,7 @@ def wavelet_heatmap(wavelet, scales='log', N=2048):
     wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if not isinstance(scales, np.ndarray):
         scales = process_scales(scales, N, wavelet, use_padded_N=False)
+    scales = scales.reshape(-1, 1)
 
     #### Compute time- & freq-domain wavelets for all scales #################
     Psi = asnumpy(wavelet.psifn(scale=scales, N=N))
-- 
2.43.0


From 0a73d3abb5059403209fc48e045269da2438140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 108/112] fix: window_resolution, window_area wrong in
 frequency for even lengths (Nyquist out of order)

---
 ssqueezepy/utils/stft_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 743e68f..65ecfb9 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -197,12 +197,11 @@ def window_resolution(window):
 
     Returns std_w, std_t, harea. `window` must be np.ndarray and >=0.
     """
-    from ..wavelets import _xifn
     assert window.min() >= 0, "`window` must be >= 0 (got min=%s)" % window.min()
     N = len(window)
 
     t  = np.arange(-N/2, N/2, step=1)
-    ws = fftshift(_xifn(1, N))
+    ws = 2*np.pi * fftshift(np.fft.fftfreq(N))
 
     psihs   = fftshift(fft(window))
     apsi2   = np.abs(window)**2
@@ -220,7 +219,6 @@ def window_area(window, time=True, frequency=False):
     """Minimal function to compute a window's time or frequency 'area' as area
     under curve of `abs(window)**2`. `window` must be np.ndarray.
     """
-    from ..wavelets import _xifn
     if not time and not frequency:
         raise ValueError("must compute something")
 
@@ -228,7 +226,7 @@ def window_area(window, time=True, frequency=False):
         t = np.arange(-len(window)/2, len(window)/2, step=1)
         at = integrate.trapezoid(np.abs(window)**2, t)
     if frequency:
-        ws = fftshift(_xifn(1, len(window)))
+        ws = 2*np.pi * fftshift(np.fft.fftfreq(len(window)))
         apsih2s = np.abs(fftshift(fft(window)))**2
         aw = integrate.trapezoid(apsih2s, ws)
 
-- 
2.43.0


From 9a97740e8d7994a331b0048aff02c0c7e37df2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 109/112] fix: phase_cwt default `gamma` wasn't `10 * EPS` as
 documented and in ssq_cwt

---
 ssqueezepy/_ssq_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index cf271e5..9fa741b 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -494,7 +494,7 @@ def phase_cwt(Wx, dWx, difftype='trig', gamma=None, parallel=None):
                 raise ValueError("`difftype != 'trig'` unsupported with "
                                  "`parallel`.")
         if gamma is None:
-            gamma = np.sqrt(EPS64 if S.is_dtype(Wx, 'complex128') else EPS32)
+            gamma = 10 * (EPS64 if S.is_dtype(Wx, 'complex128') else EPS32)
         return gamma, gpu
 
     gamma, gpu = _process_input(Wx, parallel, gamma)
-- 
2.43.0


From 9f160e723d7729d378a9a5ed70d97cc46d700e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 110/112] fix: aliasing warning of TestSignals.sine, cosine
 named the caller instead of the signal

---
 ssqueezepy/_test_signals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 1beba42..3fe8574 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -156,8 +156,10 @@ class TestSignals():
         if self.warn_alias:
             fmax = np.diff(phi).max()
             if (fmax - np.pi) > tol:
+                names = [frame[3] for frame in inspect.stack()[1:3]]
+                name = names[1] if names[0] == '_generate' else names[0]
                 WARN("`%s` has aliased w/ max(diff(phi))=%.6f>%.6f" % (
-                    inspect.stack()[2][3], fmax, pi))
+                    name, fmax, pi))
 
     def sine(self, N=None, f=1, phi0=0, **tkw):
         """sin(2pi*f*t + phi)"""
-- 
2.43.0


From 4c986b073a2564dfe3b3600ec605931af1a18fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 111/112] fix: higher-order cwt with l1_norm=False used an L1
 wavelet or raised, by name

---
 ssqueezepy/_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index ba20291..de545df 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -551,6 +551,8 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         OlhedeWaldenGenMorse.pdf
     """
     def _process_wavelet(wavelet, order):
+        if not isinstance(wavelet, Wavelet):
+            wavelet = _process_gmw_wavelet(wavelet, kw.get('l1_norm', True))
         wavelet = Wavelet._init_if_not_isinstance(wavelet)
         if not wavelet.name.lower().startswith('gmw'):
             raise ValueError("`wavelet` must be GMW for higher-order transforms "
-- 
2.43.0


From 32a19bc0e397c24159ebeca4e7c5e4d2a4ef00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:46 +0000
Subject: [PATCH 112/112] fix: higher-order cwt returned `scales` as a column
 rather than vector

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index de545df..5929813 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -606,7 +606,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         if derivative:
             dWx_all = dWx_all[0]
 
-    scales = kw['scales']
+    scales = kw['scales'].squeeze()
     if not astensor and S.is_tensor(Wx_all):
         Wx_all, scales, dWx_all = [g.cpu().numpy() if S.is_tensor(g) else g
                                    for g in (Wx_all, scales, dWx_all)]
-- 
2.43.0

