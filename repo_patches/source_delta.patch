From b39891dcfd7f5eb2db9474d3d23be2603501ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/51] fix: apply each model's scale exactly once to the
 multivariate posterior variance

---
 src/MuyGPyS/gp/multivariate_muygps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 2cae149..d6f2867 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -220,10 +220,9 @@ class MultivariateMuyGPS:
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             Kcross = model.kernel(crosswise_diffs)
-            ss = model.scale()
             diagonal_variance = mm.assign(
                 diagonal_variance,
-                model.posterior_variance(Kin, Kcross).reshape(batch_count) * ss,
+                model.posterior_variance(Kin, Kcross).reshape(batch_count),
                 slice(None),
                 i,
             )
@@ -380,6 +379,7 @@ class MultivariateMuyGPS:
                 nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
             )
             model.scale._set(new_scale_val)
+            model._make()
         return self
 
     @mpi_chunk(return_count=3)
-- 
2.43.0


From e1d322d963b8059c050a2ebad087e66f63512dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 02/51] fix: return the computed multivariate fast posterior
 coefficients and means

---
 src/MuyGPyS/gp/multivariate_muygps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index d6f2867..9a7265d 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -275,10 +275,10 @@ class MultivariateMuyGPS:
 
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs_fast)
-            mm.assign(
+            coeffs_tensor = mm.assign(
                 coeffs_tensor,
                 model.fast_coefficients(
-                    model.noise.perturb(Kin),
+                    Kin,
                     train_nn_targets_fast[:, :, i],
                 ),
                 slice(None),
@@ -329,7 +329,7 @@ class MultivariateMuyGPS:
         """
         Kcross = mm.zeros(coeffs_tensor.shape)
         for i, model in enumerate(self.models):
-            mm.assign(
+            Kcross = mm.assign(
                 Kcross,
                 model.kernel(crosswise_diffs),
                 slice(None),
-- 
2.43.0


From c9212660214f240b8fcf24481340d886b5187bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 03/51] fix: keep the batch and neighbor dimensions of fast
 posterior mean tensors

---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 9 +++++++--
 src/MuyGPyS/_src/gp/muygps/torch.py | 6 +++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 93901d3..d1b7b8f 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -67,12 +67,17 @@ def _muygps_diagonal_variance(
     return Kout - Kpost.reshape(batch_shape + out_shape + out_shape)
 
 
+def _squeeze_response(tensor: np.ndarray) -> np.ndarray:
+    # drops the trailing response dimension of univariate responses only
+    return tensor[..., 0] if tensor.shape[-1] == 1 else tensor
+
+
 def _muygps_fast_posterior_mean(
     Kcross: np.ndarray,
     coeffs_tensor: np.ndarray,
     **kwargs,
 ) -> np.ndarray:
-    return np.squeeze(
+    return _squeeze_response(
         np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
     )
 
@@ -92,4 +97,4 @@ def _muygps_fast_posterior_mean_precompute(
 ) -> np.ndarray:
     if train_nn_targets_fast.ndim == 2:
         train_nn_targets_fast = train_nn_targets_fast[:, :, None]
-    return np.squeeze(np.linalg.solve(Kin, train_nn_targets_fast))
+    return _squeeze_response(np.linalg.solve(Kin, train_nn_targets_fast))
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index a43e4b9..c540479 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -72,9 +72,9 @@ def _muygps_fast_posterior_mean(
     Kcross: torch.ndarray,
     coeffs_tensor: torch.ndarray,
 ) -> torch.ndarray:
-    return torch.squeeze(
-        torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
-    )
+    ret = torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
+    # drops the trailing response dimension of univariate responses only
+    return ret[..., 0] if ret.shape[-1] == 1 else ret
 
 
 def _mmuygps_fast_posterior_mean(
-- 
2.43.0


From c2ffd29f4eb0ecb6b34a98ff1b937745c7fbc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 04/51] fix: match posterior mean targets by leading
 dimensions, not coincidental ones

---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 18 ++++++++++++++----
 src/MuyGPyS/_src/gp/muygps/torch.py | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index d1b7b8f..2867092 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -8,10 +8,20 @@ import MuyGPyS._src.math.numpy as np
 
 def _find_matching_ndim(nn_targets: np.ndarray, Kin: np.ndarray):
     # assumes that nntargets.ndim <= Kin.ndim
-    nshape = np.array(nn_targets.shape)
-    Kshape = np.array(Kin.shape)
-    shared_shape = np.equal(nshape, Kshape[: nn_targets.ndim])
-    return np.count_nonzero(shared_shape)
+    # The shared dimensions are a prefix (batch_shape + in_shape) of both
+    # shapes, where Kin has shape batch_shape + in_shape + in_shape. Response
+    # dimensions might coincide with trailing dimensions of Kin.
+    for ndim in range(min(nn_targets.ndim, Kin.ndim - 1), 0, -1):
+        in_shape = Kin.shape[ndim:]
+        if (
+            nn_targets.shape[:ndim] == Kin.shape[:ndim]
+            and Kin.shape[:ndim][-len(in_shape) :] == in_shape
+        ):
+            return ndim
+    raise ValueError(
+        f"target tensor of shape {nn_targets.shape} does not match covariance "
+        f"tensor of shape {Kin.shape}"
+    )
 
 
 def _muygps_posterior_mean(
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index c540479..387e801 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -8,10 +8,20 @@ import MuyGPyS._src.math.torch as torch
 
 def _find_matching_ndim(nn_targets: torch.ndarray, Kin: torch.ndarray):
     # assumes that nntargets.ndim <= Kin.ndim
-    nshape = torch.array(nn_targets.shape)
-    Kshape = torch.array(Kin.shape)
-    shared_shape = torch.eq(nshape, Kshape[: nn_targets.ndim])
-    return torch.count_nonzero(shared_shape)
+    # The shared dimensions are a prefix (batch_shape + in_shape) of both
+    # shapes, where Kin has shape batch_shape + in_shape + in_shape. Response
+    # dimensions might coincide with trailing dimensions of Kin.
+    for ndim in range(min(nn_targets.ndim, Kin.ndim - 1), 0, -1):
+        in_shape = Kin.shape[ndim:]
+        if (
+            nn_targets.shape[:ndim] == Kin.shape[:ndim]
+            and Kin.shape[:ndim][-len(in_shape) :] == in_shape
+        ):
+            return ndim
+    raise ValueError(
+        f"target tensor of shape {nn_targets.shape} does not match covariance "
+        f"tensor of shape {Kin.shape}"
+    )
 
 
 def _muygps_posterior_mean(
-- 
2.43.0


From b26ab3ae5e23c16e47d924982d559e9932dbc342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 05/51] fix: order vector hyperparameters by index, not by
 keyword order

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index 17262d2..aec7729 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -107,7 +107,7 @@ class NamedVectorParameter(VectorParameter):
             The current value of the hyperparameter.
         """
         params, kwargs = self.filter_kwargs(**kwargs)
-        return mm.array([param for _, param in params.items()])
+        return mm.array([params[p.name()] for p in self._params])
 
     def apply_fn(self, fn: Callable) -> Callable:
         def applied_fn(*args, **kwargs):
-- 
2.43.0


From b01ac75e5eb953d84805f861b595e8be939b9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 06/51] fix: report a vector hyperparameter as fixed only if
 all of its elements are

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index aec7729..bac9a51 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -70,7 +70,7 @@ class VectorParameter:
         Returns:
             `True` if fixed, `False` otherwise.
         """
-        return mm.all(param._fixed for param in self._params)
+        return all(param.fixed() for param in self._params)
 
 
 class NamedVectorParameter(VectorParameter):
-- 
2.43.0


From 7f71426a168ebf6f369f05fb3bc613a942b267b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 07/51] fix: let models with null noise report their parameters
 and be optimized

---
 src/MuyGPyS/gp/noise/null.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/noise/null.py b/src/MuyGPyS/gp/noise/null.py
index 87addd2..d171bae 100644
--- a/src/MuyGPyS/gp/noise/null.py
+++ b/src/MuyGPyS/gp/noise/null.py
@@ -9,7 +9,7 @@ Noise modeling
 Defines data structures and functors that handle noise priors for MuyGPs models.
 """
 
-from typing import Callable
+from typing import Callable, List, Tuple
 
 import MuyGPyS._src.math as mm
 
@@ -23,8 +23,7 @@ class NullNoise(ScalarParam, NoiseFn):
     """
 
     def __init__(self, *args, **kwargs):
-        self.val = 0.0
-        self.bounds = "fixed"
+        super(NullNoise, self).__init__(0.0, "fixed")
 
     def __call__(self, *args, **kwargs):
         return 0.0
@@ -48,3 +47,14 @@ class NullNoise(ScalarParam, NoiseFn):
 
     def perturb_fn(self, fn: Callable) -> Callable:
         return fn
+
+    def append_lists(
+        self,
+        names: List[str],
+        params: List[float],
+        bounds: List[Tuple[float, float]],
+    ):
+        """
+        Null noise has no hyperparameters to optimize, so nothing is appended.
+        """
+        pass
-- 
2.43.0


From 64730470c81e5e7a72e9719a1d944f96efecff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 08/51] fix: exclude batch elements from their own neighbors
 among duplicated features

---
 src/MuyGPyS/neighbors.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/neighbors.py b/src/MuyGPyS/neighbors.py
index 8e9baf8..b81b07d 100644
--- a/src/MuyGPyS/neighbors.py
+++ b/src/MuyGPyS/neighbors.py
@@ -208,7 +208,20 @@ class NN_Wrapper:
             self.train[batch_indices, :],
             self.nn_count + 1,
         )
-        return batch_nn_indices[:, 1:], batch_nn_dists[:, 1:]
+        # A batch element is not necessarily the first of its own neighbors if
+        # its features are duplicated in the training data. If it is not among
+        # them at all, drop the farthest neighbor instead.
+        is_self = np.iarray(batch_nn_indices) == np.iarray(batch_indices)[:, None]
+        keep = np.where(
+            np.any(is_self, axis=1)[:, None],
+            ~is_self,
+            np.arange(self.nn_count + 1)[None, :] < self.nn_count,
+        )
+        shape = (len(batch_nn_indices), self.nn_count)
+        return (
+            batch_nn_indices[keep].reshape(shape),
+            batch_nn_dists[keep].reshape(shape),
+        )
 
     def _get_nns(
         self,
-- 
2.43.0


From 0108c5dc0bba8a5b6d42e5f3b83af2df7301cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 09/51] fix: evaluate the kernel at the smoothness assigned by
 set_params

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 9ecc869..8bc0cef 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -84,6 +84,7 @@ class KernelFn:
         """
         for name in kwargs:
             self._hyperparameters[name]._set(kwargs[name])
+        self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
         raise NotImplementedError(
-- 
2.43.0


From ab686440e272a5578c020eba3da783a5562014b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 10/51] fix: do not share default hyperparameters among
 independent models

---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 14 +++++++-------
 src/MuyGPyS/gp/kernels/matern.py             |  9 +++++----
 src/MuyGPyS/gp/kernels/rbf.py                | 11 ++++++-----
 src/MuyGPyS/gp/muygps.py                     | 12 ++++++++----
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 98737db..a1028b0 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -39,7 +39,7 @@ Note that the :class:`~MuyGPyS.gp.kernels.experimental.shear.ShearKernel`
 functor
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels.shear import (
@@ -77,13 +77,13 @@ class ShearKernel(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
@@ -187,15 +187,15 @@ class ShearKernel2in3out(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_Kin_fn: Callable = _shear_Kin23_fn,
         _backend_Kcross_fn: Callable = _shear_Kcross23_fn,
         _backend_Kout_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
diff --git a/src/MuyGPyS/gp/kernels/matern.py b/src/MuyGPyS/gp/kernels/matern.py
index 7143df4..20af223 100644
--- a/src/MuyGPyS/gp/kernels/matern.py
+++ b/src/MuyGPyS/gp/kernels/matern.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import (
@@ -115,19 +115,20 @@ class Matern(KernelFn):
         deformation:
             The deformation functor to be used. Includes length_scale
             hyperparameter information via the `MuyGPyS.gp.deformation` module.
+            Defaults to an l2 isotropy with a unit length scale.
     """
 
     def __init__(
         self,
         smoothness: ScalarParam = ScalarParam(0.5),
-        deformation: DeformationFn = Isotropy(
-            l2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
         **_backend_fns,
     ):
+        if deformation is None:
+            deformation = Isotropy(l2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self.smoothness = NamedParam("smoothness", smoothness)
         self._backend_ones = _backend_ones
diff --git a/src/MuyGPyS/gp/kernels/rbf.py b/src/MuyGPyS/gp/kernels/rbf.py
index 761ad74..23cf98f 100644
--- a/src/MuyGPyS/gp/kernels/rbf.py
+++ b/src/MuyGPyS/gp/kernels/rbf.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kernel_fn(crosswise_diffs)
 """
 
-from typing import Callable
+from typing import Callable, Optional
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import _rbf_fn
@@ -66,19 +66,20 @@ class RBF(KernelFn):
     Args:
         deformation:
             The deformation functor to be used. Includes length_scale
-            hyperparameter information via the `MuyGPyS.gp.deformation` module
+            hyperparameter information via the `MuyGPyS.gp.deformation` module.
+            Defaults to an F2 isotropy with a unit length scale.
     """
 
     def __init__(
         self,
-        deformation: DeformationFn = Isotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_fn: Callable = _rbf_fn,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = Isotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self._backend_ones = _backend_ones
         self._backend_zeros = _backend_zeros
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index d1bf8f4..e4df04f 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -84,22 +84,26 @@ class MuyGPS:
             as referenced in `MuyGPS` functions.
         noise:
             A noise model. Defines :math:`\\varepsilon` as referenced in
-            `MuyGPS` functions.
+            `MuyGPS` functions. Defaults to fixed zero noise.
         scale:
             A variance scale parameter. Defines :math:`\\sigma^2` as referenced
-            in `MuyGPS` functions.
+            in `MuyGPS` functions. Defaults to a fixed unit scale.
     """
 
     def __init__(
         self,
         kernel: KernelFn,
-        noise: NoiseFn = HomoscedasticNoise(0.0, "fixed"),
-        scale: ScaleFn = FixedScale(response_count=1),
+        noise: Optional[NoiseFn] = None,
+        scale: Optional[ScaleFn] = None,
         _backend_mean_fn: Callable = _muygps_posterior_mean,
         _backend_var_fn: Callable = _muygps_diagonal_variance,
         _backend_fast_mean_fn: Callable = _muygps_fast_posterior_mean,
         _backend_fast_precompute_fn: Callable = _muygps_fast_posterior_mean_precompute,
     ):
+        if noise is None:
+            noise = HomoscedasticNoise(0.0, "fixed")
+        if scale is None:
+            scale = FixedScale(response_count=1)
         self.kernel = kernel
         self.scale = scale
         self.noise = noise
-- 
2.43.0


From 490cffc555ac8782058f63c1378be15d53329f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 11/51] fix: use the log-determinant of full covariances in the
 LOOL loss

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 2 +-
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 2fe9a5f..90c130c 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -82,7 +82,7 @@ def _lool_fn_unscaled(
         quad_form = jnp.squeeze(
             residual.swapaxes(-2, -1) @ jnp.linalg.solve(variances, residual)
         )
-        logdet = jnp.linalg.slogdet(variances)
+        logdet = jnp.linalg.slogdet(variances)[1]
         return jnp.sum(quad_form + logdet)
     else:
         return jnp.sum(
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index bc198db..ee46ace 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -47,7 +47,7 @@ def _lool_fn_unscaled(
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
-        logdet = np.linalg.slogdet(variances)
+        logdet = np.linalg.slogdet(variances)[1]
         return np.sum(quad_form + logdet)
 
 
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index cbb7fb0..c78b97d 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -56,7 +56,7 @@ def _lool_fn_unscaled(
         quad_form = torch.squeeze(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
-        logdet = torch.linalg.slogdet(variances)
+        logdet = torch.linalg.slogdet(variances)[1]
         return torch.sum(quad_form + logdet)
     else:
         return torch.sum(
-- 
2.43.0


From 568023d17a926101469a5ac691b4106b7e4ec6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 12/51] fix: pair each batch element's variance with its own
 responses in variance-weighted losses

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 11 +++++++++++
 src/MuyGPyS/_src/optimize/loss/numpy.py | 23 +++++++++++++++++------
 src/MuyGPyS/_src/optimize/loss/torch.py | 11 +++++++++++
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 90c130c..083e3a3 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -59,6 +59,15 @@ def _mse_fn(predictions: jnp.ndarray, targets: jnp.ndarray, **kwargs) -> float:
     )
 
 
+def _match_response_dim(
+    variances: jnp.ndarray, predictions: jnp.ndarray
+) -> jnp.ndarray:
+    # a variance vector applies to every response of its batch element
+    if variances.ndim == 1 and predictions.ndim == 2:
+        return variances[:, None]
+    return variances
+
+
 @jit
 def _lool_fn(
     predictions: jnp.ndarray,
@@ -85,6 +94,7 @@ def _lool_fn_unscaled(
         logdet = jnp.linalg.slogdet(variances)[1]
         return jnp.sum(quad_form + logdet)
     else:
+        variances = _match_response_dim(variances, predictions)
         return jnp.sum(
             jnp.divide((predictions - targets) ** 2, variances)
             + jnp.log(variances)
@@ -113,6 +123,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     if variances.ndim == 1:
+        variances = _match_response_dim(variances, predictions)
         return jnp.sum(
             2
             * boundary_scale_sq
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index ee46ace..6c21253 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -31,24 +31,34 @@ def _mse_fn(predictions: np.ndarray, targets: np.ndarray, **kwargs) -> float:
     )
 
 
+def _match_response_dim(
+    variances: np.ndarray, predictions: np.ndarray
+) -> np.ndarray:
+    # a variance vector applies to every response of its batch element
+    if variances.ndim == 1 and predictions.ndim == 2:
+        return variances[:, None]
+    return variances
+
+
 def _lool_fn_unscaled(
     predictions: np.ndarray,
     targets: np.ndarray,
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    if variances.ndim == 1:
-        return np.sum(
-            np.divide((predictions - targets) ** 2, variances)
-            + np.log(variances)
-        )
-    else:
+    if variances.ndim == 3:
         residual = np.atleast_3d(predictions - targets)
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
         logdet = np.linalg.slogdet(variances)[1]
         return np.sum(quad_form + logdet)
+    else:
+        variances = _match_response_dim(variances, predictions)
+        return np.sum(
+            np.divide((predictions - targets) ** 2, variances)
+            + np.log(variances)
+        )
 
 
 def _lool_fn(
@@ -81,6 +91,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     if variances.ndim == 1:
+        variances = _match_response_dim(variances, predictions)
         return np.sum(
             2
             * boundary_scale_sq
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index c78b97d..5e65ce8 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -35,6 +35,15 @@ def _mse_fn(
     )
 
 
+def _match_response_dim(
+    variances: torch.ndarray, predictions: torch.ndarray
+) -> torch.ndarray:
+    # a variance vector applies to every response of its batch element
+    if variances.ndim == 1 and predictions.ndim == 2:
+        return variances[:, None]
+    return variances
+
+
 def _lool_fn(
     predictions: torch.ndarray,
     targets: torch.ndarray,
@@ -59,6 +68,7 @@ def _lool_fn_unscaled(
         logdet = torch.linalg.slogdet(variances)[1]
         return torch.sum(quad_form + logdet)
     else:
+        variances = _match_response_dim(variances, predictions)
         return torch.sum(
             torch.divide((predictions - targets) ** 2, variances)
             + torch.log(variances)
@@ -85,6 +95,7 @@ def _looph_fn_unscaled(
     **kwargs
 ) -> float:
     boundary_scale_sq = boundary_scale**2
+    variances = _match_response_dim(variances, predictions)
     return torch.sum(
         2
         * boundary_scale_sq
-- 
2.43.0


From 596a0085b683df7eb89cf059de59127e2c7c7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 13/51] fix: do not recurse endlessly in the MPI unscaled LOOL
 loss

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1abe25b..1bda80d 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -11,6 +11,7 @@ from MuyGPyS._src.optimize.loss.numpy import (
     _mse_fn_unnormalized,
     _cross_entropy_fn as _cross_entropy_fn_n,
     _lool_fn as _lool_fn_n,
+    _lool_fn_unscaled as _lool_fn_unscaled_n,
     _pseudo_huber_fn as _pseudo_huber_fn_n,
     _looph_fn as _looph_fn_n,
 )
@@ -64,7 +65,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    local_likelihoods = _lool_fn_unscaled(
+    local_likelihoods = _lool_fn_unscaled_n(
         predictions, targets, variances, **kwargs
     )
     global_likelihood = world.allreduce(local_likelihoods, op=MPI.SUM)
-- 
2.43.0


From 3e8b4843556397af0dc4816ba44c5d384a113a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 14/51] fix: pair fast posterior coefficients with the
 neighbors they were computed for

---
 src/MuyGPyS/examples/fast_posterior_mean.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index e46f89a..9db84c1 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -370,7 +370,6 @@ def fast_posterior_mean_any(
     time_precomp = perf_counter()
 
     time_agree = perf_counter()
-    nn_indices = fast_nn_update(nn_indices)
 
     test_neighbors, _ = nbrs_lookup.get_nns(test_features)
     time_nn = perf_counter()
-- 
2.43.0


From 28760bbc97436ff8dc904220fe02eab134f9c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 15/51] fix: optimize the variance scale at the candidate noise

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 49ace1f..f303449 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -203,16 +203,15 @@ class AnalyticScale(ScaleFn):
         """
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
-            scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
+            pK = muygps.noise.perturb(Kin, **kwargs)
+            scale = self._fn(pK, nn_targets, **kwargs)
             if np.array(self.val).size != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
                     scale
-                    + self._fn(
-                        scale * muygps.noise.perturb(Kin), nn_targets, **kwargs
-                    )
+                    + self._fn(scale * pK, nn_targets, **kwargs)
                 )
             return scale
 
@@ -273,7 +272,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
-            pK = muygps.noise.perturb(Kin)
+            pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
                 sampled_indices = np.random.choice(
-- 
2.43.0


From c221325bfc55447bff82cf2bf3f43ccb2e4b391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 16/51] fix: compute the torch cross-entropy over all classes
 from log-probabilities

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 5e65ce8..3ad4802 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -10,15 +10,7 @@ def _cross_entropy_fn(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> torch.ndarray:
     one_hot_targets = torch.where(targets > 0.0, 1.0, 0.0)
-    softmax_predictions = predictions.softmax(dim=1)
-
-    return (
-        -torch.mean(
-            one_hot_targets * torch.log(softmax_predictions)
-            + (1 - one_hot_targets) * torch.log(1 - softmax_predictions)
-        )
-        * one_hot_targets.shape[0]
-    )
+    return -(one_hot_targets * predictions.log_softmax(dim=1)).sum()
 
 
 def _mse_fn_unnormalized(
-- 
2.43.0


From 5d07c5b200f36ac80ed2c5aca2d7c823d03c5b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 17/51] fix: let mini-batch optimization run with anisotropic
 models and default settings

---
 src/MuyGPyS/optimize/experimental/chassis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index c1cbdb5..4ea525f 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -199,6 +199,8 @@ def optimize_from_tensors_mini_batch(
         verbose=verbose,
         **kwargs,
     )
+    maximize_kwargs.setdefault("init_points", 5)
+    maximize_kwargs.setdefault("n_iter", 20)
     total_pts_probed = num_epochs * maximize_kwargs["init_points"]
     total_opt_steps = num_epochs * maximize_kwargs["n_iter"]
 
@@ -285,8 +287,7 @@ def optimize_from_tensors_mini_batch(
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
-            length_scales = muygps.kernel.deformation._length_scale_array(
-                train_features.shape,
+            length_scales = muygps.kernel.deformation.length_scale(
                 **optimizer.max["params"],
             )
             train_features_scaled = train_features / length_scales
-- 
2.43.0


From ddf4c080d5290fbd9dc039a85262ca7ed22c24d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 18/51] fix: consider every class when deciding whether
 neighbors agree on a label

---
 src/MuyGPyS/examples/classify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/examples/classify.py b/src/MuyGPyS/examples/classify.py
index cc05ba2..59522a3 100644
--- a/src/MuyGPyS/examples/classify.py
+++ b/src/MuyGPyS/examples/classify.py
@@ -577,8 +577,8 @@ def classify_any(
     nn_labels = train_labels[test_nn_indices, :]
 
     predictions = np.full((nn_labels.shape[0], class_count), one_hot_false)
-    nonconstant_mask = np.max(nn_labels[:, :, 0], axis=-1) != np.min(
-        nn_labels[:, :, 0], axis=-1
+    nonconstant_mask = np.any(
+        np.max(nn_labels, axis=1) != np.min(nn_labels, axis=1), axis=-1
     )
 
     predictions[np.invert(nonconstant_mask), :] = nn_labels[
-- 
2.43.0


From 13fca2e04f57c52a67cb348556eecdc5f093faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 19/51] fix: build UQ masks from the same confidence intervals
 that the cutoffs were trained on

---
 src/MuyGPyS/examples/two_class_classify_uq.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/MuyGPyS/examples/two_class_classify_uq.py b/src/MuyGPyS/examples/two_class_classify_uq.py
index 7674555..986b7e4 100644
--- a/src/MuyGPyS/examples/two_class_classify_uq.py
+++ b/src/MuyGPyS/examples/two_class_classify_uq.py
@@ -279,12 +279,12 @@ def make_masks(
         `mid_value` within the associated prediction's confidence interval.
     """
     batch_count, _ = predictions.shape
-    variances = variances.reshape((batch_count,))
+    stddevs = np.sqrt(variances.reshape((batch_count,)))
     return np.array(
         [
             np.logical_and(
-                predictions[:, 1] - cut * variances < mid_value,
-                predictions[:, 1] + cut * variances > mid_value,
+                predictions[:, 1] - cut * stddevs < mid_value,
+                predictions[:, 1] + cut * stddevs > mid_value,
             )
             for cut in cutoffs
         ]
@@ -475,6 +475,7 @@ def train_two_class_interval(
         train_responses,
     )
     predicted_labels = 2 * np.argmax(mean, axis=1) - 1
+    mid_value = (np.min(train_responses[0]) + np.max(train_responses[0])) / 2
 
     correct_mask = predicted_labels == targets
     incorrect_mask = np.invert(correct_mask)
@@ -490,12 +491,12 @@ def train_two_class_interval(
                     mean[incorrect_mask, 1]
                     - cutv[i] * np.sqrt(variance[incorrect_mask])
                 )
-                < 0.0,
+                < mid_value,
                 (
                     mean[incorrect_mask, 1]
                     + cutv[i] * np.sqrt(variance[incorrect_mask])
                 )
-                > 0.0,
+                > mid_value,
             )
         )
         _beta[i] = np.mean(
@@ -504,12 +505,12 @@ def train_two_class_interval(
                     mean[correct_mask, 1]
                     - cutv[i] * np.sqrt(variance[correct_mask])
                 )
-                < 0.0,
+                < mid_value,
                 (
                     mean[correct_mask, 1]
                     + cutv[i] * np.sqrt(variance[correct_mask])
                 )
-                > 0.0,
+                > mid_value,
             )
         )
 
-- 
2.43.0


From 3a8efe9db4620dd10ca62d54684c164e32e7a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 20/51] fix: sum torch losses over every response dimension

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 3ad4802..c443e79 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -6,6 +6,11 @@
 import MuyGPyS._src.math.torch as torch
 
 
+def _sum(x: torch.ndarray) -> torch.ndarray:
+    # torch.sum, like the other wrapped reductions, defaults to the first axis
+    return x.sum()
+
+
 def _cross_entropy_fn(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> torch.ndarray:
@@ -16,7 +21,7 @@ def _cross_entropy_fn(
 def _mse_fn_unnormalized(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> float:
-    return torch.sum((predictions - targets) ** 2)
+    return _sum((predictions - targets) ** 2)
 
 
 def _mse_fn(
@@ -58,10 +63,10 @@ def _lool_fn_unscaled(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
         logdet = torch.linalg.slogdet(variances)[1]
-        return torch.sum(quad_form + logdet)
+        return _sum(quad_form + logdet)
     else:
         variances = _match_response_dim(variances, predictions)
-        return torch.sum(
+        return _sum(
             torch.divide((predictions - targets) ** 2, variances)
             + torch.log(variances)
         )
@@ -73,7 +78,7 @@ def _pseudo_huber_fn(
     boundary_scale: float = 1.5,
     **kwargs
 ) -> float:
-    return boundary_scale**2 * torch.sum(
+    return boundary_scale**2 * _sum(
         torch.sqrt(1 + torch.divide(targets - predictions, boundary_scale) ** 2)
         - 1
     )
@@ -88,7 +93,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     variances = _match_response_dim(variances, predictions)
-    return torch.sum(
+    return _sum(
         2
         * boundary_scale_sq
         * (
-- 
2.43.0


From 78a0ec0678eba649ac3fe9f266f064b1f49f94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 21/51] fix: let models be optimized with the unscaled LOOL
 loss

---
 src/MuyGPyS/optimize/loss.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 052b40b..d556f22 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -178,6 +178,22 @@ def make_var_predict_and_loss_fn(
     return predict_and_loss_fn
 
 
+def make_unscaled_var_predict_and_loss_fn(
+    loss_fn: Callable, *args, **kwargs
+) -> Callable:
+    """
+    Make a predict_and_loss function that depends on the posterior mean and
+    unscaled variance, for loss functions that do not accept a `scale` argument.
+
+    See :func:`~MuyGPyS.optimize.loss.make_var_predict_and_loss_fn`.
+    """
+
+    def unscaled_loss_fn(predictions, targets, variances, scale, **loss_kwargs):
+        return loss_fn(predictions, targets, variances, **loss_kwargs)
+
+    return make_var_predict_and_loss_fn(unscaled_loss_fn, *args, **kwargs)
+
+
 class LossFn:
     """
     Loss functor class.
@@ -296,7 +312,9 @@ Returns:
     The LOOL loss of the prediction.
 """
 
-lool_fn_unscaled = LossFn(_lool_fn_unscaled, make_var_predict_and_loss_fn)
+lool_fn_unscaled = LossFn(
+    _lool_fn_unscaled, make_unscaled_var_predict_and_loss_fn
+)
 """
 Unscaled version of the leave-one-out likelihood function.
 
-- 
2.43.0


From 54d4659bc6db982a2bb3bf7958ed1d64a2647419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 22/51] fix: let named hierarchical parameters report whether
 they are fixed

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 84579f8..67e28aa 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -101,6 +101,9 @@ class NamedHierarchicalParameter(HierarchicalParameter):
         self._noise = rhs._noise
         self._name = name
 
+    def fixed(self) -> bool:
+        return self._params.fixed()
+
     def name(self) -> str:
         return self._name
 
-- 
2.43.0


From d146e7e8b461595a6ab4f34c67a2e4858be3d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 23/51] fix: keep unit batch and neighbor dimensions of shear
 kernel tensors

---
 src/MuyGPyS/_src/gp/kernels/shear/numpy.py   | 6 +++---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
index 341901b..169a66c 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
@@ -159,7 +159,7 @@ def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the full covariance matrix for shear1 and shear2 only
@@ -202,7 +202,7 @@ def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 1)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the crosscovariance matrix relating shear1 and shear2 only
@@ -257,4 +257,4 @@ def _shear_Kcross23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 2)
 
-    return np.squeeze(full_m)
+    return full_m
diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index a1028b0..e6aa4b6 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -127,10 +127,11 @@ class ShearKernel(KernelFn):
             # this is probably a crosswise differences tensor
             # reshape to insert a unitary dimension
             diffs = diffs[..., None, :]
+            return self._fn(diffs, **kwargs)[..., 0]
         return self._fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self.__call__(self._backend_zeros((1, 1, 2)))
+        return self._fn(self._backend_zeros((1, 1, 2)), **kwargs)[:, 0, :, 0]
 
     def get_opt_params(
         self,
@@ -261,11 +262,13 @@ class ShearKernel2in3out(KernelFn):
             # this is probably a crosswise differences tensor
             # reshape to insert a unitary dimension
             diffs = diffs[..., None, :]
-            return self._Kcross_fn(diffs, **kwargs)
+            return self._Kcross_fn(diffs, **kwargs)[..., 0]
         return self._Kin_fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        return self._Kout_fn(self._backend_zeros((1, 1, 2)), **kwargs)[
+            :, 0, :, 0
+        ]
 
     def get_opt_params(
         self,
-- 
2.43.0


From f58072371fd53e05d3c32fbcdde429918b9a9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 24/51] fix: evaluate the prior covariance at the
 hyperparameters in use

---
 src/MuyGPyS/gp/muygps.py   | 6 ++++--
 src/MuyGPyS/gp/variance.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index e4df04f..4b15fe8 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -118,9 +118,11 @@ class MuyGPS:
         self._mean_fn = PosteriorMean(
             self.noise, _backend_fn=self._backend_mean_fn
         )
-        Kout = self.kernel.Kout()
         self._var_fn = PosteriorVariance(
-            Kout, self.noise, self.scale, _backend_fn=self._backend_var_fn
+            self.kernel.Kout,
+            self.noise,
+            self.scale,
+            _backend_fn=self._backend_var_fn,
         )
         self._fast_posterior_mean_fn = FastPosteriorMean(
             _backend_fn=self._backend_fast_mean_fn
diff --git a/src/MuyGPyS/gp/variance.py b/src/MuyGPyS/gp/variance.py
index d3de219..1e6e8dc 100644
--- a/src/MuyGPyS/gp/variance.py
+++ b/src/MuyGPyS/gp/variance.py
@@ -22,7 +22,7 @@ from MuyGPyS.gp.noise import NoiseFn
 class PosteriorVariance:
     def __init__(
         self,
-        Kout: mm.ndarray,
+        Kout_fn: Callable,
         noise: NoiseFn,
         scale: ScaleFn,
         _backend_fn: Callable = _muygps_diagonal_variance,
@@ -32,7 +32,8 @@ class PosteriorVariance:
 
         def fix_Kout_fn(fn: Callable) -> Callable:
             def fixed_Kout_fn(Kin, Kcross, *args, **kwargs):
-                return fn(Kin, Kcross, Kout, *args, **kwargs)
+                # the prior covariance can depend on kernel hyperparameters
+                return fn(Kin, Kcross, Kout_fn(**kwargs), *args, **kwargs)
 
             return fixed_Kout_fn
 
-- 
2.43.0


From 426f8467cead5a4eecd5787f7d288fb7d70831dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 25/51] fix: bind copied models to their own hyperparameters

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 10 ++++++++++
 src/MuyGPyS/gp/muygps.py            | 12 +++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 8bc0cef..e97c76c 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -39,6 +39,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
+from copy import deepcopy
 from typing import Callable, Dict, List, Tuple
 
 import MuyGPyS._src.math as mm
@@ -74,6 +75,15 @@ class KernelFn:
     def _make(self):
         raise NotImplementedError("_make is not implemented for base KernelFn")
 
+    def __deepcopy__(self, memo: Dict):
+        ret = self.__class__.__new__(self.__class__)
+        memo[id(self)] = ret
+        for name, value in self.__dict__.items():
+            setattr(ret, name, deepcopy(value, memo))
+        # bind the kernel function to the copied hyperparameters
+        ret._make()
+        return ret
+
     def set_params(self, **kwargs) -> None:
         """
         Reset hyperparameters using hyperparameter dict(s).
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index 4b15fe8..4a3a5c6 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -7,7 +7,8 @@
 MuyGPs implementation
 """
 
-from typing import Callable, List, Optional, Tuple
+from copy import deepcopy
+from typing import Callable, Dict, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.util import auto_str
@@ -131,6 +132,15 @@ class MuyGPS:
             self.noise, _backend_fn=self._backend_fast_precompute_fn
         )
 
+    def __deepcopy__(self, memo: Dict):
+        ret = self.__class__.__new__(self.__class__)
+        memo[id(self)] = ret
+        for name, value in self.__dict__.items():
+            setattr(ret, name, deepcopy(value, memo))
+        # bind the posterior functions to the copied components
+        ret._make()
+        return ret
+
     def fixed(self) -> bool:
         """
         Checks whether all kernel and model parameters are fixed.
-- 
2.43.0


From 1cc4620876d39730576f0453df14f6526ac1ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 26/51] fix: match hierarchical length scales to the batch in
 difference isotropy

---
 src/MuyGPyS/gp/deformation/isotropy.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/deformation/isotropy.py b/src/MuyGPyS/gp/deformation/isotropy.py
index 15e5753..fdab2b0 100644
--- a/src/MuyGPyS/gp/deformation/isotropy.py
+++ b/src/MuyGPyS/gp/deformation/isotropy.py
@@ -81,12 +81,18 @@ class Isotropy(DeformationFn):
         """
         if length_scale is None:
             length_scale = self.length_scale(**kwargs)
+        length_scale = self._align_length_scale(dists, length_scale)
+        return self.metric.apply_length_scale(dists, length_scale)
+
+    def _align_length_scale(
+        self, dists: mm.ndarray, length_scale: Union[float, mm.ndarray]
+    ) -> Union[float, mm.ndarray]:
         # This is brittle and I hate it. I'm not sure where to put this logic.
         if isinstance(length_scale, mm.ndarray) and len(length_scale.shape) > 0:
             shape = [None] * dists.ndim
             shape[0] = slice(None)
             length_scale = length_scale[tuple(shape)]
-        return self.metric.apply_length_scale(dists, length_scale)
+        return length_scale
 
     @mpi_chunk(return_count=1)
     def pairwise_tensor(
@@ -203,7 +209,8 @@ class DifferenceIsotropy(Isotropy):
             the final dimension.
         """
         if length_scale is None:
-            length_scale = self.length_scale()
+            length_scale = self.length_scale(**kwargs)
+        length_scale = self._align_length_scale(dists, length_scale)
         return self.metric(dists / length_scale)
 
     @mpi_chunk(return_count=1)
-- 
2.43.0


From 0ea856866fda2cd9073d813d2cf45a3e2d6511f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 27/51] fix: train deep kernels on the updated neighborhoods,
 without the batch elements themselves

---
 src/MuyGPyS/examples/muygps_torch.py | 32 +++++++++++-----------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/MuyGPyS/examples/muygps_torch.py b/src/MuyGPyS/examples/muygps_torch.py
index 22f8df9..a7cd657 100644
--- a/src/MuyGPyS/examples/muygps_torch.py
+++ b/src/MuyGPyS/examples/muygps_torch.py
@@ -294,6 +294,12 @@ def predict_model(
         )
 
 
+def _set_neighbors(model, batch_nn_indices, batch_nn_targets):
+    for module in (model, model.GP_layer):
+        module.batch_nn_indices = batch_nn_indices
+        module.batch_nn_targets = batch_nn_targets
+
+
 def train_deep_kernel_muygps(
     model,
     train_features: torch.Tensor,
@@ -404,7 +410,6 @@ def train_deep_kernel_muygps(
     )
     scheduler = ExponentialLR(optimizer, gamma=scheduler_decay)
     nn_count = nbrs_lookup.nn_count
-    batch_features = train_features[batch_indices]
     batch_responses = train_responses[batch_indices]
 
     loss_function = loss_function.lower()
@@ -449,14 +454,10 @@ def train_deep_kernel_muygps(
                 nn_count,
                 **nn_kwargs,
             )
-            batch_nn_indices, _ = nbrs_lookup._get_nns(
-                model.embedding(batch_features).detach().numpy(),
-                nn_count=nn_count,
-            )
+            batch_nn_indices, _ = nbrs_lookup.get_batch_nns(batch_indices)
             batch_nn_targets = train_responses[batch_nn_indices]
 
-            model.batch_nn_indices = batch_nn_indices
-            model.batch_nn_targets = batch_nn_targets
+            _set_neighbors(model, batch_nn_indices, batch_nn_targets)
 
         torch.cuda.empty_cache()
     nbrs_lookup = NN_Wrapper(
@@ -464,13 +465,9 @@ def train_deep_kernel_muygps(
         nn_count,
         **nn_kwargs,
     )
-    batch_nn_indices, _ = nbrs_lookup._get_nns(
-        model.embedding(batch_features).detach().numpy(),
-        nn_count=nn_count,
-    )
+    batch_nn_indices, _ = nbrs_lookup.get_batch_nns(batch_indices)
     batch_nn_targets = train_responses[batch_nn_indices]
-    model.batch_nn_indices = batch_nn_indices
-    model.batch_nn_targets = batch_nn_targets
+    _set_neighbors(model, batch_nn_indices, batch_nn_targets)
     return nbrs_lookup, model
 
 
@@ -539,17 +536,12 @@ def update_nearest_neighbors(
     """
     if model.embedding is None:
         raise NotImplementedError("MuyGPs PyTorch model requires embedding.")
-    batch_features = train_features[batch_indices]
     nbrs_lookup = NN_Wrapper(
         model.embedding(train_features).detach().numpy(),
         nn_count,
         **nn_kwargs,
     )
-    batch_nn_indices, _ = nbrs_lookup._get_nns(
-        model.embedding(batch_features).detach().numpy(),
-        nn_count=nn_count,
-    )
+    batch_nn_indices, _ = nbrs_lookup.get_batch_nns(batch_indices)
     batch_nn_targets = train_responses[batch_nn_indices]
-    model.batch_nn_indices = batch_nn_indices
-    model.batch_nn_targets = batch_nn_targets
+    _set_neighbors(model, batch_nn_indices, batch_nn_targets)
     return nbrs_lookup, model
-- 
2.43.0


From 9d5b935bee9173cd928138c44b3933d359e8a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 28/51] fix: index the deterministic embedding of a trained
 deep kernel

---
 src/MuyGPyS/examples/muygps_torch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/examples/muygps_torch.py b/src/MuyGPyS/examples/muygps_torch.py
index a7cd657..feb5368 100644
--- a/src/MuyGPyS/examples/muygps_torch.py
+++ b/src/MuyGPyS/examples/muygps_torch.py
@@ -460,6 +460,7 @@ def train_deep_kernel_muygps(
             _set_neighbors(model, batch_nn_indices, batch_nn_targets)
 
         torch.cuda.empty_cache()
+    model.eval()
     nbrs_lookup = NN_Wrapper(
         model.embedding(train_features).detach().numpy(),
         nn_count,
-- 
2.43.0


From bdf7079ed41bec2ad71b83bd5970742aa60ea855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 29/51] fix: accept the documented l1 loss for deep kernels

---
 src/MuyGPyS/examples/muygps_torch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MuyGPyS/examples/muygps_torch.py b/src/MuyGPyS/examples/muygps_torch.py
index feb5368..c00cab4 100644
--- a/src/MuyGPyS/examples/muygps_torch.py
+++ b/src/MuyGPyS/examples/muygps_torch.py
@@ -416,6 +416,8 @@ def train_deep_kernel_muygps(
 
     if loss_function == "mse":
         loss_func = mse_loss
+    elif loss_function == "l1":
+        loss_func = l1_loss
     elif loss_function == "bce":
         loss_func = bce_loss
     elif loss_function == "ce":
-- 
2.43.0


From c47b452bf97c16fdf72f3d1af63c9e27c4f26d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 30/51] fix: keep torch hyperparameters at the configured
 precision

---
 src/MuyGPyS/_src/math/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/math/torch.py b/src/MuyGPyS/_src/math/torch.py
index 610a89b..99744bb 100644
--- a/src/MuyGPyS/_src/math/torch.py
+++ b/src/MuyGPyS/_src/math/torch.py
@@ -103,4 +103,4 @@ diagonal, eye, full, linspace, ones, zeros = fix_function_types(
 
 
 def parameter(x):
-    return nn.Parameter(_array(x))
+    return nn.Parameter(array(x))
-- 
2.43.0


From a21e456ce039d7a929945d844ca28a100d99eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 31/51] fix: estimate a torch scale parameter more than once

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index f303449..2787294 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -8,6 +8,7 @@ Variance scale hyperparameter
 """
 
 from collections.abc import Sequence
+from math import prod
 from typing import Callable
 
 import MuyGPyS._src.math as mm
@@ -205,7 +206,7 @@ class AnalyticScale(ScaleFn):
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
             pK = muygps.noise.perturb(Kin, **kwargs)
             scale = self._fn(pK, nn_targets, **kwargs)
-            if np.array(self.val).size != 1:
+            if prod(getattr(self.val, "shape", ())) != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
-- 
2.43.0


From 35ea603555d8a698f20102feeb87dd28ddd1c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 32/51] fix: run the fast posterior mean workflow on torch
 tensors

---
 src/MuyGPyS/examples/fast_posterior_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index 9db84c1..e0e081b 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -375,7 +375,7 @@ def fast_posterior_mean_any(
     time_nn = perf_counter()
 
     closest_neighbor = test_neighbors[:, 0]
-    closest_set_new = nn_indices[closest_neighbor, :].astype(int)
+    closest_set_new = nn_indices[closest_neighbor, :]
     num_test_samples, _ = test_features.shape
 
     posterior_mean = fast_posterior_mean_from_indices(
-- 
2.43.0


From 2e856ad3b7da34373ba939ff90716b3aacaa04aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 33/51] fix: distribute distance tensors over MPI ranks only
 once

---
 src/MuyGPyS/_src/gp/tensors/mpi.py | 33 +++++-------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/mpi.py b/src/MuyGPyS/_src/gp/tensors/mpi.py
index 31e0028..8439080 100644
--- a/src/MuyGPyS/_src/gp/tensors/mpi.py
+++ b/src/MuyGPyS/_src/gp/tensors/mpi.py
@@ -10,9 +10,12 @@ import MuyGPyS._src.math.numpy as np
 from MuyGPyS._src.mpi_utils import (
     _chunk_function_tensor,
 )
+
+# The deformation functions distribute these tensors (see `mpi_chunk`), and so
+# the metric functions that they use must not distribute them a second time.
 from MuyGPyS._src.gp.tensors.numpy import (
-    _crosswise_tensor as _crosswise_tensor_n,
-    _pairwise_tensor as _pairwise_tensor_n,
+    _crosswise_tensor,
+    _pairwise_tensor,
     _batch_features_tensor as _batch_features_tensor_n,
     _make_heteroscedastic_tensor as _make_heteroscedatic_tensor_n,
     _F2,
@@ -53,21 +56,6 @@ def _batch_features_tensor(
     )
 
 
-def _crosswise_tensor(
-    data: np.ndarray,
-    nn_data: np.ndarray,
-    data_indices: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _crosswise_tensor_n,
-        data,
-        nn_data,
-        data_indices,
-        nn_indices,
-    )
-
-
 def _crosswise_differences(
     locations: np.ndarray, points: np.ndarray
 ) -> np.ndarray:
@@ -76,17 +64,6 @@ def _crosswise_differences(
     )
 
 
-def _pairwise_tensor(
-    data: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _pairwise_tensor_n,
-        data,
-        nn_indices,
-    )
-
-
 def _pairwise_differences(points: np.ndarray) -> np.ndarray:
     raise NotImplementedError(
         'Function "muygps_pairwise_differences" does not support mpi!'
-- 
2.43.0


From 821afbb275725d9af007b06b63ae9374a1f36a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 34/51] fix: cross entropy of ranks without batch elements

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1bda80d..884c165 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -40,7 +40,12 @@ def _cross_entropy_fn(
     targets: np.ndarray,
     **kwargs,
 ) -> float:
-    local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
+    # there can be more ranks than batch elements
+    local_log_loss = (
+        _cross_entropy_fn_n(predictions, targets, **kwargs)
+        if len(predictions) > 0
+        else 0.0
+    )
     global_log_loss = world.allreduce(local_log_loss, op=MPI.SUM)
     return global_log_loss
 
-- 
2.43.0


From b0cca8f02ac6c61eb46f193dc379b3e428da9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 35/51] fix: classify on several MPI ranks

---
 src/MuyGPyS/examples/classify.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/MuyGPyS/examples/classify.py b/src/MuyGPyS/examples/classify.py
index 59522a3..b056f5c 100644
--- a/src/MuyGPyS/examples/classify.py
+++ b/src/MuyGPyS/examples/classify.py
@@ -25,6 +25,10 @@ import numpy as np
 from time import perf_counter
 from typing import Dict, List, Tuple, Union
 
+from MuyGPyS._src.mpi_utils import (
+    _consistent_chunk_tensor,
+    _consistent_unchunk_tensor,
+)
 from MuyGPyS.examples.from_indices import posterior_mean_from_indices
 from MuyGPyS.gp import MuyGPS, MultivariateMuyGPS as MMuyGPS
 from MuyGPyS.neighbors import NN_Wrapper
@@ -589,14 +593,17 @@ def classify_any(
     if np.sum(nonconstant_mask) > 0:
         nonconstant_indices = np.where(nonconstant_mask)[0]
         nonconstant_nn_indices = test_nn_indices[nonconstant_mask, :]
-        predictions[nonconstant_mask] = posterior_mean_from_indices(
-            surrogate,
-            nonconstant_indices,
-            nonconstant_nn_indices,
-            test_features,
-            train_features,
-            train_labels,
+        predictions[nonconstant_mask] = _consistent_unchunk_tensor(
+            posterior_mean_from_indices(
+                surrogate,
+                nonconstant_indices,
+                nonconstant_nn_indices,
+                test_features,
+                train_features,
+                train_labels,
+            )
         )
+    predictions = _consistent_chunk_tensor(predictions)
     time_pred = perf_counter()
 
     timing = {
-- 
2.43.0


From d266cf0a01ccec533e5953a26df8fa20f07df527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 36/51] fix: hierarchical parameters on several MPI ranks

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 67e28aa..f92f5bd 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -51,7 +51,9 @@ class HierarchicalParameter:
         self._kernel = kernel
         self._Kin_higher = self._kernel(
             self._kernel.deformation.pairwise_tensor(
-                self._knot_features, mm.arange(knot_features.shape[0])
+                self._knot_features,
+                mm.arange(knot_features.shape[0]),
+                disable_mpi=True,  # every rank holds all of the knots
             )
         )
         self._noise = noise
@@ -122,6 +124,7 @@ class NamedHierarchicalParameter(HierarchicalParameter):
                 self._knot_features,
                 mm.arange(batch_features.shape[0]),
                 mm.arange(self._knot_features.shape[0]),
+                disable_mpi=True,  # the batch features are already distributed
             )
         )
         return mm.squeeze(lower_Kcross @ solve)
-- 
2.43.0


From d7285add63e52fb92edbf0de2612e75958754443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 37/51] fix: evaluate the Matern kernel at coincident points
 for every smoothness

---
 src/MuyGPyS/_src/gp/kernels/numpy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/numpy.py b/src/MuyGPyS/_src/gp/kernels/numpy.py
index 9bb1914..f57027b 100644
--- a/src/MuyGPyS/_src/gp/kernels/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/numpy.py
@@ -35,9 +35,14 @@ def _matern_gen_fn(
     dists: np.ndarray, smoothness: float, **kwargs
 ) -> np.ndarray:
     K = dists
-    K[K == 0.0] += np.finfo(float).eps
+    coincident = K == 0.0
+    K[coincident] += np.finfo(float).eps
     tmp = np.sqrt(2 * smoothness) * K
+    bessel = kv(smoothness, tmp)
     K.fill((2 ** (1.0 - smoothness)) / gamma(smoothness))
     K *= tmp**smoothness
-    K *= kv(smoothness, tmp)
+    K *= bessel
+    # The Bessel function overflows for (nearly) coincident points and a large
+    # smoothness.
+    K[np.logical_or(coincident, bessel == np.inf)] = 1.0
     return K
-- 
2.43.0


From 41cea4d7949f2eeddeeec32e95fffe4cc8fcc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 38/51] Revert "fix: classify on several MPI ranks"

This reverts commit b0cca8f02ac6c61eb46f193dc379b3e428da9af5.
---
 src/MuyGPyS/examples/classify.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/MuyGPyS/examples/classify.py b/src/MuyGPyS/examples/classify.py
index b056f5c..59522a3 100644
--- a/src/MuyGPyS/examples/classify.py
+++ b/src/MuyGPyS/examples/classify.py
@@ -25,10 +25,6 @@ import numpy as np
 from time import perf_counter
 from typing import Dict, List, Tuple, Union
 
-from MuyGPyS._src.mpi_utils import (
-    _consistent_chunk_tensor,
-    _consistent_unchunk_tensor,
-)
 from MuyGPyS.examples.from_indices import posterior_mean_from_indices
 from MuyGPyS.gp import MuyGPS, MultivariateMuyGPS as MMuyGPS
 from MuyGPyS.neighbors import NN_Wrapper
@@ -593,17 +589,14 @@ def classify_any(
     if np.sum(nonconstant_mask) > 0:
         nonconstant_indices = np.where(nonconstant_mask)[0]
         nonconstant_nn_indices = test_nn_indices[nonconstant_mask, :]
-        predictions[nonconstant_mask] = _consistent_unchunk_tensor(
-            posterior_mean_from_indices(
-                surrogate,
-                nonconstant_indices,
-                nonconstant_nn_indices,
-                test_features,
-                train_features,
-                train_labels,
-            )
+        predictions[nonconstant_mask] = posterior_mean_from_indices(
+            surrogate,
+            nonconstant_indices,
+            nonconstant_nn_indices,
+            test_features,
+            train_features,
+            train_labels,
         )
-    predictions = _consistent_chunk_tensor(predictions)
     time_pred = perf_counter()
 
     timing = {
-- 
2.43.0


From 1c2e6574114325f7544632afa30449a188e14522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 39/51] Revert "fix: run the fast posterior mean workflow on
 torch tensors"

This reverts commit 35ea603555d8a698f20102feeb87dd28ddd1c9ea.
---
 src/MuyGPyS/examples/fast_posterior_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index e0e081b..9db84c1 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -375,7 +375,7 @@ def fast_posterior_mean_any(
     time_nn = perf_counter()
 
     closest_neighbor = test_neighbors[:, 0]
-    closest_set_new = nn_indices[closest_neighbor, :]
+    closest_set_new = nn_indices[closest_neighbor, :].astype(int)
     num_test_samples, _ = test_features.shape
 
     posterior_mean = fast_posterior_mean_from_indices(
-- 
2.43.0


From 787f4bf3d27b11e2661d9521c5d18f919c98a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 40/51] Revert "fix: accept the documented l1 loss for deep
 kernels"

This reverts commit bdf7079ed41bec2ad71b83bd5970742aa60ea855.
---
 src/MuyGPyS/examples/muygps_torch.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/MuyGPyS/examples/muygps_torch.py b/src/MuyGPyS/examples/muygps_torch.py
index c00cab4..feb5368 100644
--- a/src/MuyGPyS/examples/muygps_torch.py
+++ b/src/MuyGPyS/examples/muygps_torch.py
@@ -416,8 +416,6 @@ def train_deep_kernel_muygps(
 
     if loss_function == "mse":
         loss_func = mse_loss
-    elif loss_function == "l1":
-        loss_func = l1_loss
     elif loss_function == "bce":
         loss_func = bce_loss
     elif loss_function == "ce":
-- 
2.43.0


From 6d89c65bcd99e55f9430bba5bc04d14bdab0be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 41/51] Revert "fix: index the deterministic embedding of a
 trained deep kernel"

This reverts commit 9d5b935bee9173cd928138c44b3933d359e8a61e.
---
 src/MuyGPyS/examples/muygps_torch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/MuyGPyS/examples/muygps_torch.py b/src/MuyGPyS/examples/muygps_torch.py
index feb5368..a7cd657 100644
--- a/src/MuyGPyS/examples/muygps_torch.py
+++ b/src/MuyGPyS/examples/muygps_torch.py
@@ -460,7 +460,6 @@ def train_deep_kernel_muygps(
             _set_neighbors(model, batch_nn_indices, batch_nn_targets)
 
         torch.cuda.empty_cache()
-    model.eval()
     nbrs_lookup = NN_Wrapper(
         model.embedding(train_features).detach().numpy(),
         nn_count,
-- 
2.43.0


From d1b6590f3fa81dd32fccf05a4c795f57d57e16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 42/51] Revert "fix: train deep kernels on the updated
 neighborhoods, without the batch elements themselves"

This reverts commit 0ea856866fda2cd9073d813d2cf45a3e2d6511f4.
---
 src/MuyGPyS/examples/muygps_torch.py | 32 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/MuyGPyS/examples/muygps_torch.py b/src/MuyGPyS/examples/muygps_torch.py
index a7cd657..22f8df9 100644
--- a/src/MuyGPyS/examples/muygps_torch.py
+++ b/src/MuyGPyS/examples/muygps_torch.py
@@ -294,12 +294,6 @@ def predict_model(
         )
 
 
-def _set_neighbors(model, batch_nn_indices, batch_nn_targets):
-    for module in (model, model.GP_layer):
-        module.batch_nn_indices = batch_nn_indices
-        module.batch_nn_targets = batch_nn_targets
-
-
 def train_deep_kernel_muygps(
     model,
     train_features: torch.Tensor,
@@ -410,6 +404,7 @@ def train_deep_kernel_muygps(
     )
     scheduler = ExponentialLR(optimizer, gamma=scheduler_decay)
     nn_count = nbrs_lookup.nn_count
+    batch_features = train_features[batch_indices]
     batch_responses = train_responses[batch_indices]
 
     loss_function = loss_function.lower()
@@ -454,10 +449,14 @@ def train_deep_kernel_muygps(
                 nn_count,
                 **nn_kwargs,
             )
-            batch_nn_indices, _ = nbrs_lookup.get_batch_nns(batch_indices)
+            batch_nn_indices, _ = nbrs_lookup._get_nns(
+                model.embedding(batch_features).detach().numpy(),
+                nn_count=nn_count,
+            )
             batch_nn_targets = train_responses[batch_nn_indices]
 
-            _set_neighbors(model, batch_nn_indices, batch_nn_targets)
+            model.batch_nn_indices = batch_nn_indices
+            model.batch_nn_targets = batch_nn_targets
 
         torch.cuda.empty_cache()
     nbrs_lookup = NN_Wrapper(
@@ -465,9 +464,13 @@ def train_deep_kernel_muygps(
         nn_count,
         **nn_kwargs,
     )
-    batch_nn_indices, _ = nbrs_lookup.get_batch_nns(batch_indices)
+    batch_nn_indices, _ = nbrs_lookup._get_nns(
+        model.embedding(batch_features).detach().numpy(),
+        nn_count=nn_count,
+    )
     batch_nn_targets = train_responses[batch_nn_indices]
-    _set_neighbors(model, batch_nn_indices, batch_nn_targets)
+    model.batch_nn_indices = batch_nn_indices
+    model.batch_nn_targets = batch_nn_targets
     return nbrs_lookup, model
 
 
@@ -536,12 +539,17 @@ def update_nearest_neighbors(
     """
     if model.embedding is None:
         raise NotImplementedError("MuyGPs PyTorch model requires embedding.")
+    batch_features = train_features[batch_indices]
     nbrs_lookup = NN_Wrapper(
         model.embedding(train_features).detach().numpy(),
         nn_count,
         **nn_kwargs,
     )
-    batch_nn_indices, _ = nbrs_lookup.get_batch_nns(batch_indices)
+    batch_nn_indices, _ = nbrs_lookup._get_nns(
+        model.embedding(batch_features).detach().numpy(),
+        nn_count=nn_count,
+    )
     batch_nn_targets = train_responses[batch_nn_indices]
-    _set_neighbors(model, batch_nn_indices, batch_nn_targets)
+    model.batch_nn_indices = batch_nn_indices
+    model.batch_nn_targets = batch_nn_targets
     return nbrs_lookup, model
-- 
2.43.0


From 89cb1d10bd73cbdec7011dd70030093e9258a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 43/51] Revert "fix: build UQ masks from the same confidence
 intervals that the cutoffs were trained on"

This reverts commit 13fca2e04f57c52a67cb348556eecdc5f093faaa.
---
 src/MuyGPyS/examples/two_class_classify_uq.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/examples/two_class_classify_uq.py b/src/MuyGPyS/examples/two_class_classify_uq.py
index 986b7e4..7674555 100644
--- a/src/MuyGPyS/examples/two_class_classify_uq.py
+++ b/src/MuyGPyS/examples/two_class_classify_uq.py
@@ -279,12 +279,12 @@ def make_masks(
         `mid_value` within the associated prediction's confidence interval.
     """
     batch_count, _ = predictions.shape
-    stddevs = np.sqrt(variances.reshape((batch_count,)))
+    variances = variances.reshape((batch_count,))
     return np.array(
         [
             np.logical_and(
-                predictions[:, 1] - cut * stddevs < mid_value,
-                predictions[:, 1] + cut * stddevs > mid_value,
+                predictions[:, 1] - cut * variances < mid_value,
+                predictions[:, 1] + cut * variances > mid_value,
             )
             for cut in cutoffs
         ]
@@ -475,7 +475,6 @@ def train_two_class_interval(
         train_responses,
     )
     predicted_labels = 2 * np.argmax(mean, axis=1) - 1
-    mid_value = (np.min(train_responses[0]) + np.max(train_responses[0])) / 2
 
     correct_mask = predicted_labels == targets
     incorrect_mask = np.invert(correct_mask)
@@ -491,12 +490,12 @@ def train_two_class_interval(
                     mean[incorrect_mask, 1]
                     - cutv[i] * np.sqrt(variance[incorrect_mask])
                 )
-                < mid_value,
+                < 0.0,
                 (
                     mean[incorrect_mask, 1]
                     + cutv[i] * np.sqrt(variance[incorrect_mask])
                 )
-                > mid_value,
+                > 0.0,
             )
         )
         _beta[i] = np.mean(
@@ -505,12 +504,12 @@ def train_two_class_interval(
                     mean[correct_mask, 1]
                     - cutv[i] * np.sqrt(variance[correct_mask])
                 )
-                < mid_value,
+                < 0.0,
                 (
                     mean[correct_mask, 1]
                     + cutv[i] * np.sqrt(variance[correct_mask])
                 )
-                > mid_value,
+                > 0.0,
             )
         )
 
-- 
2.43.0


From bf546f96bf5eda1eaa0e0a9fd7c258c7dce3d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 44/51] Revert "fix: consider every class when deciding whether
 neighbors agree on a label"

This reverts commit ddf4c080d5290fbd9dc039a85262ca7ed22c24d7.
---
 src/MuyGPyS/examples/classify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/examples/classify.py b/src/MuyGPyS/examples/classify.py
index 59522a3..cc05ba2 100644
--- a/src/MuyGPyS/examples/classify.py
+++ b/src/MuyGPyS/examples/classify.py
@@ -577,8 +577,8 @@ def classify_any(
     nn_labels = train_labels[test_nn_indices, :]
 
     predictions = np.full((nn_labels.shape[0], class_count), one_hot_false)
-    nonconstant_mask = np.any(
-        np.max(nn_labels, axis=1) != np.min(nn_labels, axis=1), axis=-1
+    nonconstant_mask = np.max(nn_labels[:, :, 0], axis=-1) != np.min(
+        nn_labels[:, :, 0], axis=-1
     )
 
     predictions[np.invert(nonconstant_mask), :] = nn_labels[
-- 
2.43.0


From b1d9aeda8ba40ed7d1e21ccb6c82de111434d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 45/51] Revert "fix: pair fast posterior coefficients with the
 neighbors they were computed for"

This reverts commit 3e8b4843556397af0dc4816ba44c5d384a113a69.
---
 src/MuyGPyS/examples/fast_posterior_mean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index 9db84c1..e46f89a 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -370,6 +370,7 @@ def fast_posterior_mean_any(
     time_precomp = perf_counter()
 
     time_agree = perf_counter()
+    nn_indices = fast_nn_update(nn_indices)
 
     test_neighbors, _ = nbrs_lookup.get_nns(test_features)
     time_nn = perf_counter()
-- 
2.43.0


From 2112375fff0eb682c39a2da10c09c7afec456311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 46/51] fix: do not insert a point twice into its own fast
 neighborhood

---
 src/MuyGPyS/_src/gp/tensors/jax.py   | 21 +++++++++------------
 src/MuyGPyS/_src/gp/tensors/numpy.py | 21 +++++++++------------
 src/MuyGPyS/_src/gp/tensors/torch.py | 21 +++++++++------------
 src/MuyGPyS/gp/tensors.py            |  3 ++-
 4 files changed, 29 insertions(+), 37 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/jax.py b/src/MuyGPyS/_src/gp/tensors/jax.py
index 870f9ef..1c7e632 100644
--- a/src/MuyGPyS/_src/gp/tensors/jax.py
+++ b/src/MuyGPyS/_src/gp/tensors/jax.py
@@ -25,14 +25,7 @@ def _make_fast_predict_tensors(
     train_features: jnp.ndarray,
     train_targets: jnp.ndarray,
 ) -> Tuple[jnp.ndarray, jnp.ndarray]:
-    num_train = train_features.shape[0]
-    batch_nn_indices_fast = jnp.concatenate(
-        (
-            jnp.expand_dims(jnp.arange(0, num_train), axis=1),
-            batch_nn_indices[:, :-1],
-        ),
-        axis=1,
-    )
+    batch_nn_indices_fast = _fast_nn_update(batch_nn_indices)
 
     pairwise_diffs_fast = _pairwise_tensor(
         train_features, batch_nn_indices_fast
@@ -102,11 +95,15 @@ def _fast_nn_update(
     train_nn_indices: jnp.ndarray,
 ) -> jnp.ndarray:
     train_count = train_nn_indices.shape[0]
+    self_indices = jnp.expand_dims(jnp.arange(0, train_count), axis=1)
     new_nn_indices = jnp.concatenate(
-        (
-            jnp.expand_dims(jnp.arange(0, train_count), axis=1),
-            train_nn_indices[:, :-1],
-        ),
+        (self_indices, train_nn_indices[:, :-1]),
         axis=1,
     )
+    # observations already leading their own neighbors are not inserted twice
+    new_nn_indices = jnp.where(
+        train_nn_indices[:, :1] == self_indices,
+        train_nn_indices,
+        new_nn_indices,
+    )
     return new_nn_indices
diff --git a/src/MuyGPyS/_src/gp/tensors/numpy.py b/src/MuyGPyS/_src/gp/tensors/numpy.py
index d573b33..9ae4483 100644
--- a/src/MuyGPyS/_src/gp/tensors/numpy.py
+++ b/src/MuyGPyS/_src/gp/tensors/numpy.py
@@ -20,14 +20,7 @@ def _make_fast_predict_tensors(
     train_features: np.ndarray,
     train_targets: np.ndarray,
 ) -> Tuple[np.ndarray, np.ndarray]:
-    num_train = train_features.shape[0]
-    batch_nn_indices_fast = np.concatenate(
-        (
-            np.expand_dims(np.arange(0, num_train), axis=1),
-            batch_nn_indices[:, :-1],
-        ),
-        axis=1,
-    )
+    batch_nn_indices_fast = _fast_nn_update(batch_nn_indices)
 
     pairwise_diffs_fast = _pairwise_tensor(
         train_features, batch_nn_indices_fast
@@ -98,11 +91,15 @@ def _fast_nn_update(
     train_nn_indices: np.ndarray,
 ) -> np.ndarray:
     train_count = train_nn_indices.shape[0]
+    self_indices = np.expand_dims(np.arange(0, train_count), axis=1)
     new_nn_indices = np.concatenate(
-        (
-            np.expand_dims(np.arange(0, train_count), axis=1),
-            train_nn_indices[:, :-1],
-        ),
+        (self_indices, train_nn_indices[:, :-1]),
         axis=1,
     )
+    # observations already leading their own neighbors are not inserted twice
+    new_nn_indices = np.where(
+        train_nn_indices[:, :1] == self_indices,
+        train_nn_indices,
+        new_nn_indices,
+    )
     return new_nn_indices
diff --git a/src/MuyGPyS/_src/gp/tensors/torch.py b/src/MuyGPyS/_src/gp/tensors/torch.py
index f9a51df..8d81052 100644
--- a/src/MuyGPyS/_src/gp/tensors/torch.py
+++ b/src/MuyGPyS/_src/gp/tensors/torch.py
@@ -20,14 +20,7 @@ def _make_fast_predict_tensors(
     train_features: torch.ndarray,
     train_targets: torch.ndarray,
 ) -> Tuple[torch.ndarray, torch.ndarray]:
-    num_train = train_features.shape[0]
-    batch_nn_indices_fast = torch.cat(
-        (
-            torch.unsqueeze(torch.arange(0, num_train), dim=1),
-            batch_nn_indices[:, :-1],
-        ),
-        dim=1,
-    )
+    batch_nn_indices_fast = _fast_nn_update(batch_nn_indices)
 
     pairwise_dists_fast = _pairwise_tensor(
         train_features, batch_nn_indices_fast
@@ -90,11 +83,15 @@ def _fast_nn_update(
     train_nn_indices: torch.ndarray,
 ) -> torch.ndarray:
     train_count = train_nn_indices.shape[0]
+    self_indices = torch.unsqueeze(torch.arange(0, train_count), dim=1)
     new_nn_indices = torch.cat(
-        (
-            torch.unsqueeze(torch.arange(0, train_count), dim=1),
-            train_nn_indices[:, :-1],
-        ),
+        (self_indices, train_nn_indices[:, :-1]),
         dim=1,
     )
+    # observations already leading their own neighbors are not inserted twice
+    new_nn_indices = torch.where(
+        train_nn_indices[:, :1] == self_indices,
+        train_nn_indices,
+        new_nn_indices,
+    )
     return new_nn_indices
diff --git a/src/MuyGPyS/gp/tensors.py b/src/MuyGPyS/gp/tensors.py
index 767e540..a33a53b 100644
--- a/src/MuyGPyS/gp/tensors.py
+++ b/src/MuyGPyS/gp/tensors.py
@@ -85,7 +85,8 @@ def fast_nn_update(
     Returns:
         An integral matrix of shape `(train_count, nn_count)` that is similar
         to the input, but the most distant neighbor index is removed and the
-        index reference to self has been inserted.
+        index reference to self has been inserted. Rows that already begin with
+        the reference to self are left as they are.
     """
     return _fast_nn_update(train_nn_indices)
 
-- 
2.43.0


From 2ce4e3cfc288c0ac79b49fe3ca8e234ec2600744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:47 +0000
Subject: [PATCH 47/51] fix: take the median of down-sampled scale estimates
 under torch

numpy's median refuses tensors that require gradients, as every estimate
under the torch backend does.
---
 src/MuyGPyS/gp/hyperparameter/scale.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 2787294..17cedad 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -288,6 +288,8 @@ class DownSampleScale(ScaleFn):
                 nn_targets_down = nn_targets[:, sampled_indices]
                 scales.append(self._fn(pK_down, nn_targets_down))
 
-            return np.median(scales, axis=0) / (self._down_count * batch_count)
+            return np.median([float(scale) for scale in scales]) / (
+                self._down_count * batch_count
+            )
 
         return downsample_analytic_scale_opt_fn
-- 
2.43.0


From c2fb6fc38ab897062b9b7497b4ea3bae67f808df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:14 +0000
Subject: [PATCH 48/51] fix: estimate down-sampled scales from the whole batch
 under MPI

Every rank sampled its own neighbors and estimated a scale from its own
rows only, so that the ranks' models differed.
---
 src/MuyGPyS/_src/mpi_utils.py          |  7 +++++++
 src/MuyGPyS/gp/hyperparameter/scale.py | 21 ++++++++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/mpi_utils.py b/src/MuyGPyS/_src/mpi_utils.py
index 633bdcf..c49c898 100644
--- a/src/MuyGPyS/_src/mpi_utils.py
+++ b/src/MuyGPyS/_src/mpi_utils.py
@@ -159,5 +159,12 @@ def _consistent_reduce_scalar(scalar):
         return scalar
 
 
+def _consistent_broadcast(value):
+    if _is_mpi_mode() is True:
+        return world.bcast(value, root=0)
+    else:
+        return value
+
+
 def _is_mpi_mode() -> bool:
     return config.state.backend == "mpi"
diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 17cedad..994fd8f 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -13,6 +13,10 @@ from typing import Callable
 
 import MuyGPyS._src.math as mm
 import MuyGPyS._src.math.numpy as np
+from MuyGPyS._src.mpi_utils import (
+    _consistent_broadcast,
+    _consistent_reduce_scalar,
+)
 from MuyGPyS._src.optimize.scale import (
     _analytic_scale_optim,
     _analytic_scale_optim_unnormalized,
@@ -274,19 +278,26 @@ class DownSampleScale(ScaleFn):
                     f"from a set of only {nn_count} options"
                 )
             pK = muygps.noise.perturb(Kin, **kwargs)
+            batch_count = _consistent_reduce_scalar(batch_count)
             scales = []
             for _ in range(self._iteration_count):
-                sampled_indices = np.random.choice(
-                    np.arange(nn_count),
-                    size=self._down_count,
-                    replace=False,
+                sampled_indices = _consistent_broadcast(
+                    np.random.choice(
+                        np.arange(nn_count),
+                        size=self._down_count,
+                        replace=False,
+                    )
                 )
                 sampled_indices.sort()
 
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(self._fn(pK_down, nn_targets_down))
+                scales.append(
+                    _consistent_reduce_scalar(
+                        self._fn(pK_down, nn_targets_down)
+                    )
+                )
 
             return np.median([float(scale) for scale in scales]) / (
                 self._down_count * batch_count
-- 
2.43.0


From a47a9b7ea5adb6a363a7d3f4ec23f3fd062d23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 49/51] fix: evaluate the general Matern kernel in double
 precision

At 32 bits the factors of the kernel overflow for smoothness above about
ten and distances of hundreds of length scales, making it NaN.
---
 src/MuyGPyS/_src/gp/kernels/numpy.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/numpy.py b/src/MuyGPyS/_src/gp/kernels/numpy.py
index f57027b..3d082f6 100644
--- a/src/MuyGPyS/_src/gp/kernels/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/numpy.py
@@ -37,12 +37,14 @@ def _matern_gen_fn(
     K = dists
     coincident = K == 0.0
     K[coincident] += np.finfo(float).eps
-    tmp = np.sqrt(2 * smoothness) * K
+    # The factors can exceed the range of single precision where K does not.
+    tmp = np.sqrt(2 * smoothness) * K.astype(np.float64)
     bessel = kv(smoothness, tmp)
-    K.fill((2 ** (1.0 - smoothness)) / gamma(smoothness))
-    K *= tmp**smoothness
-    K *= bessel
+    K[...] = (2 ** (1.0 - smoothness)) / gamma(smoothness) * (
+        tmp**smoothness
+    ) * bessel
     # The Bessel function overflows for (nearly) coincident points and a large
-    # smoothness.
+    # smoothness, and vanishes for distant ones.
     K[np.logical_or(coincident, bessel == np.inf)] = 1.0
+    K[bessel == 0.0] = 0.0
     return K
-- 
2.43.0


From be213520e14a95d4ad701291b05c0683276a1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:16 +0000
Subject: [PATCH 50/51] fix: MPI-distributed tensor functions accept keyword
 arguments

The chunked wrapper took positional arguments only, so a program that names
the arguments of make_train_tensors, make_predict_tensors or the deformation
tensors ran serially and was refused under MPI.
---
 src/MuyGPyS/_src/mpi_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MuyGPyS/_src/mpi_utils.py b/src/MuyGPyS/_src/mpi_utils.py
index c49c898..6313548 100644
--- a/src/MuyGPyS/_src/mpi_utils.py
+++ b/src/MuyGPyS/_src/mpi_utils.py
@@ -88,9 +88,9 @@ def _chunk_tensor(tensors, return_count=1):
     return local_chunks
 
 
-def _chunk_function_tensor(func: Callable, *args, return_count=1):
+def _chunk_function_tensor(func: Callable, *args, return_count=1, **kwargs):
     if rank == 0:
-        tensors = func(*args)
+        tensors = func(*args, **kwargs)
     else:
         tensors = None
     return _chunk_tensor(tensors, return_count=return_count)
@@ -102,12 +102,12 @@ def mpi_chunk(return_count):
             return func
 
         @wraps(func)
-        def chunked_wrapper(*args, disable_mpi=False):
+        def chunked_wrapper(*args, disable_mpi=False, **kwargs):
             if disable_mpi is True:
-                return func(*args)
+                return func(*args, **kwargs)
             else:
                 return _chunk_function_tensor(
-                    func, *args, return_count=return_count
+                    func, *args, return_count=return_count, **kwargs
                 )
 
         return chunked_wrapper
-- 
2.43.0


From 95d2177075b383c451cffb3c9710fedac449d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:15 +0000
Subject: [PATCH 51/51] fix: differences of integer features neither wrap
 around nor overflow

---
 src/MuyGPyS/_src/gp/tensors/numpy.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/numpy.py b/src/MuyGPyS/_src/gp/tensors/numpy.py
index 9ae4483..f6cc49c 100644
--- a/src/MuyGPyS/_src/gp/tensors/numpy.py
+++ b/src/MuyGPyS/_src/gp/tensors/numpy.py
@@ -37,14 +37,21 @@ def _batch_features_tensor(
     return features[batch_indices]
 
 
+def _float_features(features: np.ndarray) -> np.ndarray:
+    # differences and squares of integers wrap around
+    if features.dtype.kind in "iu":
+        return np.farray(features)
+    return features
+
+
 def _crosswise_tensor(
     data: np.ndarray,
     nn_data: np.ndarray,
     data_indices: np.ndarray,
     nn_indices: np.ndarray,
 ) -> np.ndarray:
-    locations = data[data_indices]
-    points = nn_data[nn_indices]
+    locations = _float_features(data[data_indices])
+    points = _float_features(nn_data[nn_indices])
     if data.ndim == 1:
         return locations[..., :, None, None] - points[..., None]
     else:
@@ -55,7 +62,7 @@ def _pairwise_tensor(
     data: np.ndarray,
     nn_indices: np.ndarray,
 ) -> np.ndarray:
-    points = data[nn_indices]
+    points = _float_features(data[nn_indices])
     if data.ndim == 1:
         return points[..., :, None, None] - points[..., None, :, None]
     else:
-- 
2.43.0

