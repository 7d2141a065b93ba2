From 7ef4700cb2391763e96c9e7433a7ecc987b551c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 01/11] fix: j_max overestimates the maximum scale when L is an
 exact power of lam

np.log(27) / np.log(3) rounds to 3.0000000000000004, hence j_max(27, 3) was 4
and an additional, empty, wavelet scale was introduced.
---
 s2wav/samples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 771bd09..3576b34 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -573,7 +573,11 @@ def j_max(L: int, lam: float = 2.0) -> int:
     Returns:
         int: The maximum wavelet scale used.
     """
-    return int(np.ceil(np.log(L) / np.log(lam)))
+    J = int(np.ceil(np.log(L) / np.log(lam)))
+    # The ratio of logarithms may round up when L is an exact power of lam
+    if J > 0 and lam ** (J - 1) >= L:
+        J -= 1
+    return J
 
 
 def wavelet_shape_check(
-- 
2.43.0


From fa61da9439c5bfb74f90d6948b478206b1d82659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 02/11] fix: tiling integrand diverges when quadrature nodes
 round onto the interval limits

For e.g. lam = 5, 7 or 3.5 the final quadrature node rounds onto, or marginally
over, the limit of the support, such that filters contained nan/inf values.
---
 s2wav/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index fe8c457..f401da0 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -371,6 +371,10 @@ def tiling_integrand(t: float, lam: float = 2.0) -> float:
     """
     s_arg = (t - (1.0 / lam)) * (2.0 * lam / (lam - 1.0)) - 1.0
 
+    # Vanishes outside of the open interval, which may be reached through round-off
+    if s_arg**2.0 >= 1.0:
+        return 0.0
+
     integrand = np.exp(-2.0 / (1.0 - s_arg**2.0)) / t
 
     return integrand
-- 
2.43.0


From 287a602b8589908905986e4c81a3ea6934f83941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 03/11] fix: vectorised and JAX filters fail for spin-lowered
 wavelets (spin0 != 0)

The spin normalisation reshaped 2|s| factors into 2|s|+1, which always raises,
and multiplied rather than shifted the harmonic degrees.
---
 s2wav/filters.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index f401da0..862e6b7 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -664,9 +664,10 @@ def _spin_normalization_vectorised(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = np.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return np.sqrt(np.prod(factor, axis=1) ** (np.sign(spin)))
+    factor = np.arange(-abs(spin) + 1, abs(spin) + 1, dtype=np.float64)
+    factor = np.prod(el.reshape(len(el), 1) + factor, axis=1)
+    factor = np.where(el < abs(spin), 1.0, factor)
+    return np.sqrt(factor) if spin > 0 else np.sqrt(1.0 / factor)
 
 
 @partial(jit, static_argnums=(0, 1))
@@ -728,6 +729,7 @@ def _spin_normalization_jax(el: np.ndarray, spin: int = 0) -> float:
     Returns:
         float: Normalization factor for spin-lowered wavelets.
     """
-    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1).reshape(1, 2 * abs(spin) + 1)
-    factor = el.reshape(len(el), 1).dot(factor)
-    return jnp.sqrt(jnp.prod(factor, axis=1) ** (jnp.sign(spin)))
+    factor = jnp.arange(-abs(spin) + 1, abs(spin) + 1, dtype=jnp.float64)
+    factor = jnp.prod(el.reshape(len(el), 1) + factor, axis=1)
+    factor = jnp.where(el < abs(spin), 1.0, factor)
+    return jnp.sqrt(factor) if spin > 0 else jnp.sqrt(1.0 / factor)
-- 
2.43.0


From 167adee803af59245a7552d8db12a7773aa3eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 04/11] fix: vectorised and JAX filters populate wavelet scales
 below J_min

These scales are covered by the scaling kernel, and are zero for the looped
filters, such that the filter bank did not satisfy the admissibility condition.
---
 s2wav/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/s2wav/filters.py b/s2wav/filters.py
index 862e6b7..8d4c3e8 100644
--- a/s2wav/filters.py
+++ b/s2wav/filters.py
@@ -189,6 +189,7 @@ def filters_axisym_vectorised(
     k = k_lam(L, lam)
     diff = (np.roll(k, -1, axis=0) - k)[:-1]
     diff[diff < 0] = 0
+    diff[:J_min] = 0
     return np.sqrt(diff), np.sqrt(k[J_min])
 
 
@@ -287,6 +288,7 @@ def filters_axisym_jax(
     k = k_lam_jax(L, lam)
     diff = (jnp.roll(k, -1, axis=0) - k)[:-1]
     diff = jnp.where(diff < 0, jnp.zeros((J + 1, L)), diff)
+    diff = diff.at[:J_min].set(0)
     return jnp.sqrt(diff), jnp.sqrt(k[J_min])
 
 
-- 
2.43.0


From 1a1a8da87b2cbd29a448cd506323b9411c38a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 05/11] fix: scaling coefficients have the wrong shape when
 bandlimited at 1

When J_min = 0 analysis returned a single sample irrespective of the sampling
scheme, whereas mwss, dh and healpix require more than one sample.
---
 s2wav/transforms/wavelet.py                  | 3 ++-
 s2wav/transforms/wavelet_c.py                | 3 ++-
 s2wav/transforms/wavelet_precompute.py       | 3 ++-
 s2wav/transforms/wavelet_precompute_torch.py | 4 +++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index 9410e82..f86251f 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -204,7 +204,8 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = jnp.full(shape, temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = s2fft.inverse_jax(temp, Ls, spin, nside, sampling, reality)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index ad5238d..259b136 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -147,7 +147,8 @@ def analysis(
         )
 
     if Ls == 1:
-        f_scal = flm_scal * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, None, True)
+        f_scal = jnp.full(shape, flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = ssht_inverse(flm_scal, Ls, spin, reality, ssht_sampling)
     return f_wav, f_scal
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index a9d1487..33fb184 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -212,7 +212,8 @@ def analysis(
     temp = jnp.einsum("lm,l->lm", flm[:Ls, L - Ls : L - 1 + Ls], phi, optimize=True)
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * jnp.sqrt(1 / (4 * jnp.pi))
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = jnp.full(shape, temp[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
         f_scal = spherical.inverse_transform_jax(
             temp, precomps[1], Ls, sampling, reality, spin, nside
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index 9abeac0..a5c13d5 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -201,9 +201,11 @@ def analysis(
 
     # Handle edge case
     if Ls == 1:
-        f_scal = temp * torch.sqrt(
+        shape = samples.f_scal(L, J_min, lam, sampling, nside, True)
+        f_scal = temp[0, 0] * torch.sqrt(
             torch.tensor(1 / (4 * torch.pi), dtype=torch.float64)
         )
+        f_scal = f_scal.repeat(shape)
     else:
         f_scal = spherical.inverse_transform_torch(
             temp, precomps[1], Ls, sampling, reality, spin, nside
-- 
2.43.0


From 59ec9eccfda389e1299d7912385e36d9bc8e93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 06/11] fix: full precomputes ignore the spin of the input
 signal

The precompute transforms accept a spin, but the spherical kernels could only be
generated for spin 0, so that spin signals were silently transformed incorrectly.
---
 s2wav/transforms/construct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/construct.py b/s2wav/transforms/construct.py
index 42a2497..6cdf04a 100644
--- a/s2wav/transforms/construct.py
+++ b/s2wav/transforms/construct.py
@@ -21,6 +21,7 @@ def generate_full_precomputes(
     reality: bool = False,
     nospherical: bool = False,
     using_torch: bool = False,
+    spin: int = 0,
 ) -> List[jnp.ndarray]:
     r"""Generates a list of precompute arrays associated with the underlying Wigner
     transforms.
@@ -51,6 +52,8 @@ def generate_full_precomputes(
 
         using_torch (bool, optional): Desired frontend functionality. Defaults to False.
 
+        spin (int, optional): Spin (integer) of input signal. Defaults to 0.
+
     Returns:
         List[jnp.ndarray]: Precomputed recursion arrays for underlying Wigner transforms.
     """
@@ -66,10 +69,10 @@ def generate_full_precomputes(
     if nospherical:
         return [], [], precomps
     precompute_scaling = spin_spherical_kernel_jax(
-        Ls, 0, reality, sampling, nside, forward
+        Ls, spin, reality, sampling, nside, forward
     )
     precompute_full = spin_spherical_kernel_jax(
-        L, 0, reality, sampling, nside, not forward
+        L, spin, reality, sampling, nside, not forward
     )
 
     if using_torch:
-- 
2.43.0


From 88944dd56adfdbd30881b3569553af3a4c7ac9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 07/11] fix: flm_to_analysis applies the wrong precomputed
 kernel when J_max < J

Only the highest scale supported by L shares its kernel with the preceding scale,
which is not necessarily the highest scale which is requested.
---
 s2wav/transforms/wavelet_precompute.py       | 2 +-
 s2wav/transforms/wavelet_precompute_torch.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 33fb184..7f50101 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -304,7 +304,7 @@ def flm_to_analysis(
                 )
             )
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         shift = shift if _precomp_shift else 0
 
         f_wav.append(
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index a5c13d5..aec16d1 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -285,7 +285,7 @@ def flm_to_analysis(
             flm[L0j:Lj, L - Lj : L - 1 + Lj],
             wav_lm[j, L0j:Lj, L - Nj : L - 1 + Nj : 2],
         )
-        shift = 0 if j < J else -1
+        shift = 0 if j < samples.j_max(L, lam) else -1
         f_wav[j - J_min] = wigner.inverse_transform_torch(
             f_wav_lmn[j - J_min],
             precomps[2][j - J_min + shift],
-- 
2.43.0


From b657ed4ae513ebd5c376f7a35f5081a6ef19c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:29 +0000
Subject: [PATCH 08/11] fix: transforms fail when the optional filters are not
 provided

The documented usage s2wav.analysis(f, L, N) raised a TypeError, as the filters
default to None but were unconditionally indexed.
---
 s2wav/transforms/wavelet.py                  | 10 ++++++++++
 s2wav/transforms/wavelet_c.py                | 10 ++++++++++
 s2wav/transforms/wavelet_precompute.py       | 10 ++++++++++
 s2wav/transforms/wavelet_precompute_torch.py | 14 ++++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/s2wav/transforms/wavelet.py b/s2wav/transforms/wavelet.py
index f86251f..b83dea1 100644
--- a/s2wav/transforms/wavelet.py
+++ b/s2wav/transforms/wavelet.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 import s2fft
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 from s2wav.transforms import construct
 
 
@@ -71,6 +72,9 @@ def synthesis(
             L, N, J_min, lam, sampling, nside, True, reality
         )
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = jnp.zeros((L, 2 * L - 1), dtype=jnp.complex128)
@@ -155,6 +159,9 @@ def analysis(
         precomps = construct.generate_wigner_precomputes(
             L, N, J_min, lam, sampling, nside, False, reality
         )
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     wav_lm = jnp.einsum(
@@ -263,6 +270,9 @@ def flm_to_analysis(
             L, N, J_min, lam, sampling, nside, False, reality
         )
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     wav_lm = jnp.einsum(
         "jln, l->jln",
diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 259b136..9f26ce3 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -5,6 +5,7 @@ from functools import partial
 import s2fft
 from s2fft.transforms.c_backend_spherical import ssht_forward, ssht_inverse
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -64,6 +65,9 @@ def synthesis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -130,6 +134,9 @@ def analysis(
         raise ValueError("SSHT C backend does not support healpix sampling.")
     ssht_sampling = ["mw", "mwss", "dh", "gl"].index(sampling.lower())
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -192,6 +199,9 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     f_wav_lmn = _generate_and_apply_wavelets(flm, L, N, J_min, J, lam, filters)
 
diff --git a/s2wav/transforms/wavelet_precompute.py b/s2wav/transforms/wavelet_precompute.py
index 7f50101..f392e2c 100644
--- a/s2wav/transforms/wavelet_precompute.py
+++ b/s2wav/transforms/wavelet_precompute.py
@@ -4,6 +4,7 @@ from functools import partial
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 @partial(jit, static_argnums=(2, 3, 4, 5, 6, 7, 8, 9))
@@ -71,6 +72,9 @@ def synthesis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = jnp.zeros((L, 2 * L - 1), dtype=jnp.complex128)
@@ -164,6 +168,9 @@ def analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, spin)
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     wav_lm = jnp.einsum(
@@ -278,6 +285,9 @@ def flm_to_analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam)[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
     wav_lm = jnp.einsum(
         "jln, l->jln",
diff --git a/s2wav/transforms/wavelet_precompute_torch.py b/s2wav/transforms/wavelet_precompute_torch.py
index aec16d1..d4a17a0 100644
--- a/s2wav/transforms/wavelet_precompute_torch.py
+++ b/s2wav/transforms/wavelet_precompute_torch.py
@@ -2,6 +2,7 @@ import torch
 from typing import Tuple, List
 from s2fft.precompute_transforms import wigner, spherical
 from s2wav import samples
+from s2wav.filters import filters_directional_vectorised
 
 
 def synthesis(
@@ -68,6 +69,11 @@ def synthesis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filters_directional_vectorised(
+            L, N, J_min, lam, spin, using_torch=True
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
     flm = torch.zeros((L, 2 * L - 1), dtype=torch.complex128)
@@ -157,6 +163,11 @@ def analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filters_directional_vectorised(
+            L, N, J_min, lam, spin, using_torch=True
+        )
+
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
@@ -265,6 +276,9 @@ def flm_to_analysis(
     if precomps == None:
         raise ValueError("Must provide precomputed kernels for this transform!")
 
+    if filters is None:
+        filters = filters_directional_vectorised(L, N, J_min, lam, using_torch=True)[0]
+
     J = J_max if J_max is not None else samples.j_max(L, lam)
 
     f_wav_lmn = samples.construct_flmn_torch(L, N, J_min, J, lam, True)
-- 
2.43.0


From 0a273615b463e4d654e7d6cff4fc35e68caf0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 09/11] fix: C backend fails when the scaling bandlimit does
 not exceed the spin

Spin signals have no harmonic coefficients for el < |spin|, hence the scaling
coefficients are zero; SSHT raises an assertion for this (e.g. spin = 2, J_min = 0).
---
 s2wav/transforms/wavelet_c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 9f26ce3..37f227b 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -71,9 +71,13 @@ def synthesis(
     J = samples.j_max(L, lam)
     Ls = samples.scal_bandlimit(L, J_min, lam, True)
 
-    f_scal_lm = ssht_forward(
-        f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
-    )
+    # Harmonic coefficients are zero below the spin, where SSHT is not defined
+    if Ls <= abs(spin):
+        f_scal_lm = samples.construct_flm_jax(L, J_min, lam, True)
+    else:
+        f_scal_lm = ssht_forward(
+            f_scal.real if reality else f_scal, Ls, spin, reality, ssht_sampling
+        )
     f_wav_lmn = []
     for j in range(J_min, J + 1):
         Lj, Nj, L0j = samples.LN_j(L, j, N, lam, True)
@@ -153,7 +157,7 @@ def analysis(
             )
         )
 
-    if Ls == 1:
+    if Ls == 1 or Ls <= abs(spin):
         shape = samples.f_scal(L, J_min, lam, sampling, None, True)
         f_scal = jnp.full(shape, flm_scal[0, 0] * jnp.sqrt(1 / (4 * jnp.pi)))
     else:
-- 
2.43.0


From 3902e3097dd0ab79d849c6113833f0822d213d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:41 +0000
Subject: [PATCH 10/11] fix: transforms fail when the highest wavelet scale
 holds no degree below L

---
 s2wav/samples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/s2wav/samples.py b/s2wav/samples.py
index 3576b34..c319d70 100644
--- a/s2wav/samples.py
+++ b/s2wav/samples.py
@@ -122,7 +122,8 @@ def LN_j(
     if j == 0:
         j += 1
     Lj = wav_j_bandlimit(L, j, lam, multiresolution)
-    L0j = L0_j(j, lam) if multiresolution else 0
+    # The lower bound is itself a stored degree, even if the scale is empty below L
+    L0j = min(L0_j(j, lam), Lj - 1) if multiresolution else 0
     Nj = N
     if multiresolution:
         Nj = min(N, Lj)
-- 
2.43.0


From 8fa007ed0f2fdbc68d80d25a8baa7a41ba850447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:11 +0000
Subject: [PATCH 11/11] fix: C backend flm_to_analysis does not reject healpix
 sampling

---
 s2wav/transforms/wavelet_c.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/s2wav/transforms/wavelet_c.py b/s2wav/transforms/wavelet_c.py
index 37f227b..627ea95 100644
--- a/s2wav/transforms/wavelet_c.py
+++ b/s2wav/transforms/wavelet_c.py
@@ -203,6 +203,9 @@ def flm_to_analysis(
         f_wav (jnp.ndarray): Array of wavelet pixel-space coefficients
             with shape :math:`[n_{J}, 2N-1, n_{\theta}, n_{\phi}]`.
     """
+    if sampling.lower() == "healpix":
+        raise ValueError("SSHT C backend does not support healpix sampling.")
+
     if filters is None:
         filters = filters_directional_vectorised(L, N, J_min, lam)[0]
 
-- 
2.43.0

