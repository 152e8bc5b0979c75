"""Model specs -> MuyGPyS objects."""

import zlib

import numpy as np

from harness import api as M


def number(v):
    """The same number as a Python or numpy one, picked by its value."""
    k = zlib.crc32(repr(float(v)).encode()) % 5
    if k == 0:
        return np.float64(v)
    if k in (1, 2) and float(v).is_integer() and abs(v) < 1e9:
        return int(v) if k == 1 else np.int64(v)
    if k == 3 and float(np.float32(v)) == float(v):
        return np.float32(v)
    return v


def pair(bounds):
    """Bounds as a tuple, list or array."""
    lo, hi = bounds
    k = zlib.crc32(repr((float(lo), float(hi))).encode()) % 4
    if k == 0:
        return [lo, hi]
    return np.array([lo, hi]) if k == 1 else (number(lo), number(hi))


def scalar(v, bounds=None):
    return M.ScalarParam(number(v)) if bounds is None else M.ScalarParam(
        number(v), pair(bounds))


def deformation(spec, metric=None):
    if metric is None:
        metric = M.F2 if spec["kernel"] == "rbf" and spec.get(
            "metric") != "l2" else M.l2
    bounds = spec.get("ls_bounds") or [None] * len(spec["ls"])
    if spec["def"] == "aniso":
        return M.Anisotropy(metric, length_scale=M.VectorParam(
            *[scalar(v, b) for v, b in zip(spec["ls"], bounds)]))
    cls = M.Isotropy if spec["def"] == "iso" else M.DifferenceIsotropy
    return cls(metric, length_scale=scalar(spec["ls"][0], bounds[0]))


def kernel(spec):
    dfm = deformation(spec)
    if spec["kernel"] == "rbf":
        return M.RBF(deformation=dfm)
    nu = np.inf if spec["nu"] == "inf" else spec["nu"]
    return M.Matern(smoothness=scalar(nu, spec.get("nu_bounds")),
                    deformation=dfm)


def noise(spec, diag):
    if spec["kind"] == "null":
        return M.NullNoise()
    if spec["kind"] == "hetero":
        return M.HeteroscedasticNoise(M.A(diag))
    if spec.get("bounds"):
        return M.HomoscedasticNoise(number(spec["v"]), pair(spec["bounds"]))
    return M.HomoscedasticNoise(number(spec["v"]))


def scale(spec):
    if isinstance(spec, (int, float)):
        return M.FixedScale(val=number(spec))
    kw = dict(spec)
    if "val" in kw:
        kw["val"] = number(kw["val"])
    return {"fixed": M.FixedScale, "analytic": M.AnalyticScale,
            "down": M.DownSampleScale}[kw.pop("kind")](**kw)


def model(c, diag):
    """The MuyGPS model of a problem case."""
    return M.MuyGPS(kernel=kernel(c["model"]), noise=noise(c["noise"], diag),
                    scale=scale(c.get("scale", 1.0)))
