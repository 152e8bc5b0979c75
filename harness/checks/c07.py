"""C07: loss functions take their documented values."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import gens, ref
from harness.core import check, close, register, same_shape

RAW = ["mse", "pseudo_huber", "cross_entropy"]
VAR = ["lool", "lool_unscaled", "looph"]


def library(name):
    return {"mse": M.mse_fn, "pseudo_huber": M.pseudo_huber_fn,
            "cross_entropy": M.cross_entropy_fn, "lool": M.lool_fn,
            "lool_unscaled": M.lool_fn_unscaled, "looph": M.looph_fn}[name]


REF = {"mse": ref.mse, "pseudo_huber": ref.pseudo_huber,
       "cross_entropy": ref.cross_entropy, "lool": ref.lool,
       "looph": ref.looph}


@st.composite
def cases(draw, losses=tuple(RAW + VAR), b_max=12, r_max=5, huge=False):
    loss = draw(st.sampled_from(losses))
    c = {"loss": loss, "b": draw(st.integers(1, b_max)), "seed": draw(gens.SEEDS),
         "r": draw(st.integers(0, r_max)),
         "spread": draw(st.one_of(st.sampled_from([0.01, 1.0, 5.0]),
                                  gens.log_uniform(-4, 8))),
         "scale": draw(st.one_of(st.sampled_from([0.1, 1.0, 2.5, 30.0]),
                                 gens.log_uniform(-6, 6))),
         "width": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e5])),
         "perfect": draw(st.integers(0, 4)) == 4, "seed2": draw(gens.SEEDS),
         "c": draw(st.integers(1, b_max - 1))}
    if huge:
        c["b"] = draw(st.one_of(st.sampled_from(gens.ROUND),
                                st.integers(500, 20000)))
        c["r"] = min(c["r"], 4)
    if loss == "cross_entropy":
        c["r"] = draw(st.integers(2, r_max + 1))
        c["labels"] = draw(st.sampled_from([[0.0, 1.0], [-1.0, 1.0],
                                            [-0.5, 0.5]]))
    if loss in ("pseudo_huber", "looph"):
        c["boundary"] = draw(st.one_of(
            st.sampled_from([None, None, 0.3, 1.0, 1.5, 3.0, 20.0]),
            gens.log_uniform(-3, 4)))
    if loss in ("lool", "lool_unscaled"):
        c["var"] = draw(st.sampled_from(["row", "full", "each"]))
        if c["r"] == 0:
            c["var"] = "row"
    return c


def arrays(c, seed, b):
    """Predictions, targets and variances, exact in the precision in use."""
    out = _arrays(c, seed, b)
    if M.f32():
        out = [None if a is None else a.astype("f4").astype("f8") for a in out]
    return tuple(out)


def _arrays(c, seed, b):
    rng = np.random.default_rng([seed, b, c["r"]])
    r = c["r"]
    if c["loss"] == "cross_entropy":
        lo, hi = c["labels"]
        t = np.full((b, r), lo)
        t[np.arange(b), rng.integers(0, r, b)] = hi
        # beyond a spread of about 30 probabilities saturate (and are clipped)
        return min(c["spread"], 5.0) * rng.normal(size=(b, r)), t, None
    shape = (b,) if r == 0 else (b, r)
    t = rng.normal(size=shape) * 3
    p = t + c["spread"] * rng.normal(size=shape)
    if c["perfect"]:
        p = t.copy()
    if c["loss"] in RAW:
        return p, t, None
    kind = c.get("var", "row")
    if kind == "full":
        L = rng.normal(size=(b, r, r))
        v = L @ L.swapaxes(1, 2) + 0.2 * np.eye(r)
    else:
        v = rng.uniform(0.05, 3.0, (b, r) if kind == "each" else (b,))
    return p, t, v * c["width"]


def kwargs(c):
    bd = c.get("boundary")
    return {} if bd is None else {"boundary_scale": bd}


def evaluate(c, p, t, v):
    fn = library(c["loss"])
    args = [M.A(p), M.A(t)]
    if c["loss"] in VAR:
        args.append(M.A(v))
    if c["loss"] in ("lool", "looph"):
        args.append(c["scale"])
    keep = [M.N(a).copy() for a in args]
    got = M.N(fn(*args, **kwargs(c)))
    check(got.size == 1, "%s is not a single number: shape %s", c["loss"],
          got.shape)
    for a, k in zip(args, keep):
        close("loss input afterwards", M.N(a), k, 0, 0)
    return float(got.reshape(()))


def expected(c, p, t, v):
    if c["loss"] in RAW:
        return REF[c["loss"]](p, t, **kwargs(c))
    if c["loss"] == "lool_unscaled":
        return ref.lool(p, t, v)
    return REF[c["loss"]](p, t, v, c["scale"], **kwargs(c))


def eps(c):
    """(relative, absolute per element) tolerance"""
    b2 = (c.get("boundary") or 1.0) ** 2  # times the rounding of sqrt(1 + x)
    return (2e-4, 2e-3 + 1e-5 * b2) if M.f32() else (1e-8, 1e-9 + 1e-13 * b2)


def labels(c):
    out = [c["loss"], "r=%d" % c["r"], "var:" + str(c.get("var"))]
    if c["b"] > 1 and not c["perfect"]:
        out.append("nt")
    return out


def run_values(c):
    p, t, v = arrays(c, c["seed"], c["b"])
    want = expected(c, p, t, v)
    rt, at = eps(c)
    if c["loss"] == "cross_entropy" and c["spread"] > 5.0:
        # scores far apart: a probability may be clipped, but not below e^-15
        # (single precision) or e^-30
        p = p * min(c["spread"], 1e4) / 5.0
        if M.f32():
            p = p.astype("f4").astype("f8")
        high = ref.cross_entropy_terms(p, t)
        low = np.minimum(high, 15.0 if M.f32() else 30.0)
        got = evaluate(c, p, t, v)
        at = at * (1 + c["b"]) * c["r"]
        check(low.sum() * (1 - rt) - at <= got <= high.sum() * (1 + rt) + at,
              "cross-entropy %s of scores far apart is not in [%s, %s]", got,
              low.sum(), high.sum())
        return labels(c) + ["saturated"]
    close(c["loss"], evaluate(c, p, t, v), want, rt, at * (1 + c["b"]) * max(1, c["r"]))
    return labels(c)


def run_relations(c):
    p, t, v = arrays(c, c["seed"], c["b"])
    p2, t2, v2 = arrays(c, c["seed2"], c["c"])
    rt, at = eps(c)
    rt, at = 10 * rt, at * 10 * (1 + c["b"] + c["c"]) * max(1, c["r"])
    one, two = evaluate(c, p, t, v), evaluate(c, p2, t2, v2)
    order = np.random.default_rng(c["seed2"]).permutation(c["b"])
    close("loss of a reordered batch", evaluate(
        c, p[order], t[order], None if v is None else v[order]), one, rt, at)
    both = evaluate(c, np.concatenate([p, p2]), np.concatenate([t, t2]),
                    None if v is None else np.concatenate([v, v2]))
    if c["loss"] == "mse":
        want = (one * c["b"] + two * c["c"]) / (c["b"] + c["c"])
    else:
        want = one + two
    close("loss of a concatenated batch", both, want, rt, at)
    if c["loss"] in ("mse", "pseudo_huber"):
        check(one >= 0, "negative loss %s", one)
        close("loss of a perfect prediction", evaluate(c, t, t, v), 0.0, 0, at)
        close("loss with roles exchanged", evaluate(c, t, p, v), one, rt, at)
    if c["loss"] in ("lool", "looph"):
        # scaling the variance and the scale inversely changes nothing
        k = dict(c, scale=c["scale"] / 2.0)
        close("loss with variance doubled and scale halved",
              evaluate(k, p, t, 2.0 * v), one, rt, at)
    if c["loss"] == "cross_entropy":
        hot = np.where(t > 0, 1.0, 0.0)
        close("loss under another label encoding",
              evaluate(c, p, hot, v), one, rt, at)
        for shift in (2.5, 1000.0, -1000.0):
            close("loss of shifted scores", evaluate(c, p + shift, t, v), one,
                  rt, at)
        check(one >= 0, "negative cross-entropy %s", one)
    return labels(c)


R = ("all losses with (b,), (b,1), (b,r) responses and per-row, per-response "
     "or full variances; non-trivial = several elements, imperfect prediction")
register("C07", "values", cases(), R, 8000, shards=4)(run_values)
register("C07", "relations", cases(), R, 5000, shards=3)(run_relations)
register("C07", "values_large", cases(b_max=500, r_max=15), R + "; up to 500 "
         "batch elements and 15 responses", 600, shards=2)(run_values)
register("C07", "relations_large", cases(b_max=500, r_max=15), R + "; up to 500 "
         "batch elements and 15 responses", 400, shards=1)(run_relations)
register("C07", "values_huge", cases(huge=True, r_max=4), R + "; up to 20000 "
         "batch elements", 60, shards=1, weight=10)(run_values)
register("C07", "relations_huge", cases(huge=True, r_max=4), R + "; up to "
         "20000 batch elements", 40, shards=1, weight=10)(run_relations)
