"""Lazy access to MuyGPyS, so that registering checks does not import it."""

import importlib
import os

_WHERE = {
    "MuyGPyS.gp": ["MuyGPS", "MultivariateMuyGPS"],
    "MuyGPyS.gp.kernels": ["Matern", "RBF"],
    "MuyGPyS.gp.kernels.experimental": ["ShearKernel", "ShearKernel2in3out"],
    "MuyGPyS.gp.deformation": ["Isotropy", "DifferenceIsotropy", "Anisotropy",
                               "l2", "F2"],
    "MuyGPyS.gp.hyperparameter": ["ScalarParam", "VectorParam", "FixedScale",
                                  "AnalyticScale", "DownSampleScale",
                                  "NamedParam", "NamedVectorParam"],
    "MuyGPyS.gp.hyperparameter.experimental": [
        "HierarchicalParam", "NamedHierarchicalParam", "sample_knots",
        "NamedHierarchicalVectorParam", "HierarchicalVectorParam"],
    "MuyGPyS.gp.noise": ["HomoscedasticNoise", "HeteroscedasticNoise",
                         "NullNoise", "ShearNoise33"],
    "MuyGPyS.gp.tensors": ["make_heteroscedastic_tensor", "fast_nn_update",
                           "make_fast_predict_tensors",
                           "batch_features_tensor"],
    "MuyGPyS.neighbors": ["NN_Wrapper"],
    "MuyGPyS.optimize": ["Bayes_optimize", "L_BFGS_B_optimize"],
    "MuyGPyS.optimize.loss": ["cross_entropy_fn", "mse_fn", "lool_fn",
                              "lool_fn_unscaled", "pseudo_huber_fn",
                              "looph_fn"],
    "MuyGPyS.optimize.objective": ["make_loo_crossval_fn"],
    "MuyGPyS.optimize.batch": ["get_balanced_batch", "full_filtered_batch",
                               "sample_balanced_batch", "sample_batch"],
    "MuyGPyS.optimize.experimental.chassis": [
        "optimize_from_tensors_mini_batch"],
    "MuyGPyS.examples.regress": ["make_regressor", "do_regress", "regress_any",
                                 "make_multivariate_regressor"],
    "MuyGPyS.examples.classify": ["make_classifier", "do_classify",
                                  "classify_any",
                                  "make_multivariate_classifier"],
    "MuyGPyS.examples.two_class_classify_uq": [
        "example_lambdas", "do_classify_uq", "make_masks", "do_uq",
        "classify_two_class_uq", "train_two_class_interval"],
    "MuyGPyS.examples.fast_posterior_mean": [
        "make_fast_regressor", "make_fast_multivariate_regressor",
        "do_fast_posterior_mean", "fast_posterior_mean_any"],
    "MuyGPyS.torch": ["MuyGPs_layer", "MultivariateMuyGPs_layer"],
    "MuyGPyS.examples.muygps_torch": [
        "train_deep_kernel_muygps", "predict_model",
        "update_nearest_neighbors"],
    "MuyGPyS.examples.from_indices": [
        "tensors_from_indices", "posterior_mean_from_indices",
        "posterior_variance_from_indices", "regress_from_indices",
        "fast_posterior_mean_from_indices", "optimize_from_indices"],
}
_INDEX = {n: m for m, names in _WHERE.items() for n in names}


def __getattr__(name):
    if name not in _INDEX:
        raise AttributeError(name)
    val = getattr(importlib.import_module(_INDEX[name]), name)
    globals()[name] = val
    return val


def backend():
    from MuyGPyS import config

    return config.state.backend


def f32():
    from MuyGPyS import config

    return config.state.ftype == "32"


def layout(x):
    """The same values in one of several memory layouts, picked by them."""
    import zlib

    import numpy as np

    if os.environ.get("VERIF_PLAIN") or x.ndim == 0 or x.size == 0:
        return x
    k = zlib.crc32(np.ascontiguousarray(x).tobytes()) % 8
    if k == 0:
        return np.asfortranarray(x)
    if k == 1:
        wide = np.full(x.shape[:-1] + (2 * x.shape[-1],), -77, dtype=x.dtype)
        wide[..., ::2] = x
        return wide[..., ::2]
    if k == 2:
        tall = np.full((x.shape[0] + 3,) + x.shape[1:], -77, dtype=x.dtype)
        tall[2:-1] = x
        return tall[2:-1]
    if k == 3 and backend() != "torch":
        return x[::-1].copy()[::-1]
    if k == 4 and backend() != "torch":
        x.setflags(write=False)
    return x


def A(x):
    """numpy float array -> array of the active backend."""
    import numpy as np

    x = np.array(x, dtype=np.float32 if f32() else np.float64)
    if whole(x):
        x = x.astype(np.int32 if np.abs(x).max() < 2 ** 30
                     and x.flat[0] % 2 else np.int64)
    x = layout(x)
    if backend() == "torch":
        import torch

        return torch.from_numpy(x)
    return x


def whole(x):
    """Whether to hand over whole numbers as integers: half of the time."""
    import zlib

    import numpy as np

    return (backend() == "numpy" and not f32() and x.size > 1
            and not os.environ.get("VERIF_PLAIN")
            and bool(np.all(x == np.round(x))) and np.abs(x).max() < 2 ** 40
            and zlib.crc32(x.tobytes()) // 8 % 2 == 0)


def AI(x):
    """numpy integer array -> index array of the active backend."""
    import numpy as np

    x = layout(np.array(x, dtype=np.int64))
    if backend() == "numpy" and not os.environ.get("VERIF_PLAIN") \
            and x.size > 2 and int(x.flat[0]) % 3 == 1:
        x = x.astype(np.int32)
    if backend() == "torch":
        import torch

        return torch.from_numpy(x)
    return x


def N(x):
    """array or scalar of the active backend -> numpy float64 array."""
    import numpy as np

    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x, dtype=np.float64)


def tol():
    """(rtol, atol) relative to the natural size of the compared values."""
    return (2e-3, 2e-3) if f32() else (1e-6, 1e-8)
