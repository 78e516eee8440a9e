From 6277d497cb288164651d2d6ead58723961875de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 01/15] fix: apply minimal distortion principle in the whitened
 domain in FastIVA and FasterIVA

---
 ssspy/bss/iva.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index 35e12e2..f7dff7e 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -549,6 +549,25 @@ class FastIVABase(IVABase):
 
         self.output, self.demix_filter = Y_scaled, W_scaled
 
+    def apply_minimal_distortion_principle(self) -> None:
+        r"""Apply minimal distortion principle to estimated spectrograms."""
+        assert self.scale_restoration, "Set self.scale_restoration=True."
+
+        reference_id = self.reference_id
+
+        X, Z = self.input, self.whitened_input
+        W = self.demix_filter
+
+        Y = self.separate(Z, demix_filter=W, use_whitening=False)
+        Y_scaled = minimal_distortion_principle(Y, reference=X, reference_id=reference_id)
+
+        Z = Z.transpose(1, 0, 2)
+        Z_Hermite = Z.transpose(0, 2, 1).conj()
+        ZZ_Hermite = Z @ Z_Hermite
+        W_scaled = Y_scaled.transpose(1, 0, 2) @ Z_Hermite @ np.linalg.inv(ZZ_Hermite)
+
+        self.output, self.demix_filter = Y_scaled, W_scaled
+
 
 class AuxIVABase(IVABase):
     r"""Base class of auxiliary-function-based independent vector analysis (IVA).
-- 
2.43.0


From 2a7ad3f542e1315a68b715c2a1d5c8d118946d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 02/15] fix: use eigenvector instead of row of eigenvector
 matrix in singular case of lqpqm2

---
 ssspy/linalg/lqpqm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index e5cce69..fe0c841 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -83,7 +83,7 @@ def lqpqm2(
     z_singular = z[is_singular]
 
     phi_max_singular = phi_singular[:, -1]
-    sigma_max_singular = sigma_singular[:, -1]
+    sigma_max_singular = sigma_singular[:, :, -1]
     lamb_singular = np.maximum(z_singular, phi_max_singular)
     scale = (lamb_singular - z_singular) / phi_max_singular
     scale = np.maximum(scale, 0)
-- 
2.43.0


From e0802a548d4b1f8a214cdc995cef976d01098c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 03/15] fix: floor standard deviation of sequence in
 score_based_permutation_solver

---
 ssspy/algorithm/permutation_alignment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 5ed2eee..82296ed 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -195,6 +195,7 @@ def score_based_permutation_solver(
 
     sequence_mean = sequence.mean(axis=-1, keepdims=True)
     sequence_std = sequence.std(axis=-1, keepdims=True)
+    sequence_std = flooring_fn(sequence_std)
     sequence_normalized = (sequence - sequence_mean) / sequence_std
 
     for _ in range(global_iter):
-- 
2.43.0


From 0c3470ebbf1c3b2cb3568a391d3c6169fa7682f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 04/15] fix: overwrite sequence in
 score_based_permutation_solver when overwrite=True

---
 ssspy/algorithm/permutation_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index 82296ed..c882345 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -214,7 +214,7 @@ def score_based_permutation_solver(
         perm_max = np.argmax(scores, axis=1)
         perm_max = permutations[perm_max]
         sequence_normalized = _parallel_sort(sequence_normalized, perm_max)
-        sequence = _parallel_sort(sequence, perm_max)
+        sequence[:] = _parallel_sort(sequence, perm_max)
 
         for idx in range(len(permutable)):
             permutable[idx][:] = _parallel_sort(permutable[idx], perm_max)
-- 
2.43.0


From 0a772384566728359a6457333efe1a93bec45329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:17 +0000
Subject: [PATCH 05/15] fix: respect initial_call in IPSDTA

---
 ssspy/bss/ipsdta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/ipsdta.py b/ssspy/bss/ipsdta.py
index cdfcdf1..20a38f5 100644
--- a/ssspy/bss/ipsdta.py
+++ b/ssspy/bss/ipsdta.py
@@ -93,7 +93,9 @@ class IPSDTABase(IterativeMethodBase):
 
         self.rng = rng
 
-    def __call__(self, input: np.ndarray, n_iter: int = 100, **kwargs) -> np.ndarray:
+    def __call__(
+        self, input: np.ndarray, n_iter: int = 100, initial_call: bool = True, **kwargs
+    ) -> np.ndarray:
         r"""Separate a frequency-domain multichannel signal.
 
         Args:
@@ -103,6 +105,9 @@ class IPSDTABase(IterativeMethodBase):
             n_iter (int):
                 The number of iterations of demixing filter updates.
                 Default: ``100``.
+            initial_call (bool):
+                If ``True``, perform callbacks (and computation of loss if necessary)
+                before iterations.
 
         Returns:
             numpy.ndarray of the separated signal in frequency-domain.
@@ -112,7 +117,7 @@ class IPSDTABase(IterativeMethodBase):
 
         self._reset(**kwargs)
 
-        super().__call__(n_iter=n_iter)
+        super().__call__(n_iter=n_iter, initial_call=initial_call)
 
         if self.scale_restoration:
             self.restore_scale()
-- 
2.43.0


From 8f6782cd1b11072b30aaaa76c32520e8b758792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 06/15] fix: copy spatial given by keyword arguments in
 FastMNMF

---
 ssspy/bss/mnmf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssspy/bss/mnmf.py b/ssspy/bss/mnmf.py
index adf9dcf..0d18749 100644
--- a/ssspy/bss/mnmf.py
+++ b/ssspy/bss/mnmf.py
@@ -595,7 +595,8 @@ class FastMNMFBase(MNMFBase):
             D = rng.random((n_bins, n_sources, n_channels))
             D = flooring_fn(D)
         else:
-            D = self.spatial
+            # To avoid overwriting ``spatial`` given by keyword arguments.
+            D = self.spatial.copy()
 
         self.spatial = D
 
-- 
2.43.0


From a1768bcd78fa2cd9864c92b46bdea6a35f159887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 07/15] fix: determine record_loss before it is used in
 proximal BSS

---
 ssspy/bss/admmbss.py | 10 +++++-----
 ssspy/bss/pdsbss.py  | 10 +++++-----
 ssspy/bss/proxbss.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 70f0786..d96a046 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -294,11 +294,6 @@ class MaskingADMMBSS(ADMMBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -312,6 +307,11 @@ class MaskingADMMBSS(ADMMBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index eb89dc4..c0feeb7 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -272,11 +272,6 @@ class MaskingPDSBSS(PDSBSSBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super(ProxBSSBase, self).__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -290,6 +285,11 @@ class MaskingPDSBSS(PDSBSSBase):
             if record_loss is None:
                 record_loss = True
 
+        super(ProxBSSBase, self).__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if mask_fn is None:
             raise ValueError("Specify masking function.")
         else:
diff --git a/ssspy/bss/proxbss.py b/ssspy/bss/proxbss.py
index 1ebe7b4..64de0df 100644
--- a/ssspy/bss/proxbss.py
+++ b/ssspy/bss/proxbss.py
@@ -50,11 +50,6 @@ class ProxBSSBase(IterativeMethodBase):
         record_loss: Optional[bool] = None,
         reference_id: int = 0,
     ) -> None:
-        super().__init__(
-            callbacks=callbacks,
-            record_loss=record_loss,
-        )
-
         if penalty_fn is None:
             # Since penalty_fn is not necessarily written in closed form,
             # None is acceptable.
@@ -69,6 +64,11 @@ class ProxBSSBase(IterativeMethodBase):
             if record_loss is None:
                 record_loss = True
 
+        super().__init__(
+            callbacks=callbacks,
+            record_loss=record_loss,
+        )
+
         if prox_penalty is None:
             raise ValueError("Specify proximal operator of penalty function.")
         else:
-- 
2.43.0


From 43f5b8575175a000e3b008ebfeee51bbf2a7df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 08/15] fix: compute loss in masking-based BSS when penalty_fn
 is given

---
 ssspy/bss/admmbss.py | 2 ++
 ssspy/bss/pdsbss.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index d96a046..03e9c82 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -304,6 +304,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
diff --git a/ssspy/bss/pdsbss.py b/ssspy/bss/pdsbss.py
index c0feeb7..c179443 100644
--- a/ssspy/bss/pdsbss.py
+++ b/ssspy/bss/pdsbss.py
@@ -282,6 +282,8 @@ class MaskingPDSBSS(PDSBSSBase):
         else:
             assert callable(penalty_fn), "penalty_fn should be callable."
 
+            penalty_fn = [penalty_fn]
+
             if record_loss is None:
                 record_loss = True
 
-- 
2.43.0


From ba03dcf75918559a7a4b5dcc08e5f461c4bf4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 09/15] fix: saturate floating point samples in wavwrite
 instead of wrapping around

---
 ssspy/io/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssspy/io/__init__.py b/ssspy/io/__init__.py
index e8d3de8..e973390 100644
--- a/ssspy/io/__init__.py
+++ b/ssspy/io/__init__.py
@@ -81,7 +81,9 @@ def wavwrite(
         bits_per_sample = 16
 
         # float to int
-        _waveform = _waveform * 2 ** (bits_per_sample - 1)
+        vmax = 2 ** (bits_per_sample - 1)
+        _waveform = _waveform.astype("f8") * vmax
+        _waveform = np.clip(_waveform, -vmax, vmax - 1)
         _waveform = _waveform.astype("<i2")
     elif _waveform.dtype == "i1":
         bits_per_sample = 8
-- 
2.43.0


From 9744009c981aee84518480aa4883ebb321e7f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 10/15] fix: define __repr__ of MaskingADMMBSS

---
 ssspy/bss/admmbss.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 03e9c82..12e0ea6 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -356,6 +356,20 @@ class MaskingADMMBSS(ADMMBSSBase):
 
         return self.output
 
+    def __repr__(self) -> str:
+        s = "MaskingADMMBSS("
+        s += "rho={rho}"
+        s += ", relaxation={relaxation}"
+        s += ", scale_restoration={scale_restoration}"
+        s += ", record_loss={record_loss}"
+
+        if self.scale_restoration:
+            s += ", reference_id={reference_id}"
+
+        s += ")"
+
+        return s.format(**self.__dict__)
+
     def _reset(self, **kwargs) -> None:
         r"""Reset attributes by given keyword arguments.
 
-- 
2.43.0


From 76e6458dfbce0a45c8295ac5a407402c481dadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 11/15] fix: floor variance of Gaussian IVA so that silent
 frames do not produce NaN

---
 ssspy/bss/iva.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssspy/bss/iva.py b/ssspy/bss/iva.py
index f7dff7e..20fa871 100644
--- a/ssspy/bss/iva.py
+++ b/ssspy/bss/iva.py
@@ -2667,7 +2667,7 @@ class GradGaussIVA(GradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class NaturalGradLaplaceIVA(NaturalGradIVA):
@@ -2989,7 +2989,7 @@ class NaturalGradGaussIVA(NaturalGradIVA):
         X, W = self.input, self.demix_filter
         Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
 
 
 class AuxLaplaceIVA(AuxIVA):
@@ -3489,4 +3489,4 @@ class AuxGaussIVA(AuxIVA):
             X, W = self.input, self.demix_filter
             Y = self.separate(X, demix_filter=W)
 
-        self.variance = np.mean(np.abs(Y) ** 2, axis=1)
+        self.variance = self.flooring_fn(np.mean(np.abs(Y) ** 2, axis=1))
-- 
2.43.0


From 0cc183ba0b3067ce8f1c8182d042b7e23d1d6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 12/15] fix: solve ADMM filter update in source and channel
 axes consistently

---
 ssspy/bss/admmbss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssspy/bss/admmbss.py b/ssspy/bss/admmbss.py
index 12e0ea6..da722a6 100644
--- a/ssspy/bss/admmbss.py
+++ b/ssspy/bss/admmbss.py
@@ -233,7 +233,8 @@ class ADMMBSS(ADMMBSSBase):
         VY_tilde = np.sum(V_tilde - Y_tilde, axis=0)
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(n_penalties * XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(n_penalties * XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
@@ -443,7 +444,8 @@ class MaskingADMMBSS(ADMMBSSBase):
         VY_tilde = V_tilde - Y_tilde
         XVY_tilde = X.transpose(1, 0, 2).conj() @ VY_tilde.transpose(1, 2, 0)
 
-        W = solve(XX + E, VY + XVY_tilde.transpose(0, 2, 1))
+        W = solve(XX + E, VY.transpose(0, 2, 1) + XVY_tilde)
+        W = W.transpose(0, 2, 1)
         XW = self.separate(X, demix_filter=W)
 
         U = alpha * W + (1 - alpha) * V
-- 
2.43.0


From 8d29f7fa83e8057863afa8e96e7abc8558c48b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 13/15] fix: do not normalize linear term in lqpqm2's secular
 equation

---
 ssspy/linalg/lqpqm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ssspy/linalg/lqpqm.py b/ssspy/linalg/lqpqm.py
index fe0c841..16c52d6 100644
--- a/ssspy/linalg/lqpqm.py
+++ b/ssspy/linalg/lqpqm.py
@@ -176,8 +176,6 @@ def solve_equation(
     if normalization:
         phi_max_original = phi_max
         phi = phi / phi_max[:, np.newaxis]
-        v = v / phi_max[:, np.newaxis]
-        v_max = v_max / phi_max
         z = z / phi_max
         phi_max = phi_max / phi_max  # i.e. phi_max = 1
     else:
-- 
2.43.0


From 208cf4834d0e1d5d329ad134581234f161855587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 14/15] fix: dataset cache files carry the tag and the
 reverberation time they were made for

---
 ssspy/utils/dataset/mird.py      | 2 +-
 ssspy/utils/dataset/sisec2010.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssspy/utils/dataset/mird.py b/ssspy/utils/dataset/mird.py
index c6cd52e..5761aa8 100644
--- a/ssspy/utils/dataset/mird.py
+++ b/ssspy/utils/dataset/mird.py
@@ -50,7 +50,7 @@ def download(root: str = ".data/MIRD", n_sources: int = 3, reverb_duration: floa
     if not os.path.exists(rir_path):
         shutil.unpack_archive(zip_path, root)
 
-    npz_path = os.path.join(root, "MIRD-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "MIRD-{:.3f}s-{}ch.npz".format(reverb_duration, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
diff --git a/ssspy/utils/dataset/sisec2010.py b/ssspy/utils/dataset/sisec2010.py
index 44af6e8..389d8c8 100644
--- a/ssspy/utils/dataset/sisec2010.py
+++ b/ssspy/utils/dataset/sisec2010.py
@@ -33,7 +33,7 @@ def download(root: str = ".data/SiSEC2010", n_sources: int = 3, tag: str = "dev1
     channels = channels[:n_sources]
 
     n_channels = len(channels)
-    npz_path = os.path.join(root, "SiSEC2010-{}ch.npz".format(n_channels))
+    npz_path = os.path.join(root, "SiSEC2010-{}-{}ch.npz".format(tag, n_channels))
 
     assert n_channels == n_sources, "Mixing system should be determined."
 
-- 
2.43.0


From 622f3b3399b470ba21c1a34d8ea34ff30ca3aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 15/15] fix: divide permutation scores by the deviation of the
 sequence compared with

score_based_permutation_solver divided the correlation between source i of a
bin and centroid k by the deviation of centroid i, and in the local pass by
the deviation of the centroid instead of that of the neighbouring bin.
---
 ssspy/algorithm/permutation_alignment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssspy/algorithm/permutation_alignment.py b/ssspy/algorithm/permutation_alignment.py
index c882345..90ddec1 100644
--- a/ssspy/algorithm/permutation_alignment.py
+++ b/ssspy/algorithm/permutation_alignment.py
@@ -205,7 +205,7 @@ def score_based_permutation_solver(
 
         for perm in permutations:
             num = np.mean(sequence_normalized[:, perm, na] * centroid[na, :], axis=-1)
-            denom = flooring_fn(centroid_std)
+            denom = flooring_fn(centroid_std).transpose(1, 0)
             corr = num / denom
             score = np.sum(eye * corr - (1 - eye) * corr, axis=(1, 2))
             scores.append(score)
@@ -237,6 +237,7 @@ def score_based_permutation_solver(
             # deterministic
             covariant_indices = sorted(list(covariant_indices))
             covariant_sequence = sequence_normalized[covariant_indices]
+            covariant_std = covariant_sequence.std(axis=-1)
 
             scores = []
 
@@ -245,7 +246,7 @@ def score_based_permutation_solver(
                     sequence_normalized[bin_idx, perm, na] * covariant_sequence[:, na],
                     axis=-1,
                 )
-                denom = flooring_fn(centroid_std)
+                denom = flooring_fn(covariant_std)[:, na]
                 corr = num / denom
                 score = np.sum(eye * corr - (1 - eye) * corr, axis=(1, 2))
                 score = score.sum(axis=0)
-- 
2.43.0

