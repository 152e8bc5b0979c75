"""C04: difference tensors and length scales mean what they say."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens
from harness.core import check, close, raises, register, same_shape


def make(kind, metric, ls):
    mt = M.l2 if metric == "l2" else M.F2
    if kind == "aniso":
        return M.Anisotropy(mt, length_scale=M.VectorParam(
            *[M.ScalarParam(v, (1e-4, 1e4)) for v in ls]))
    cls = M.Isotropy if kind == "iso" else M.DifferenceIsotropy
    return cls(mt, length_scale=M.ScalarParam(ls[0], (1e-4, 1e4)))


def dist(metric, diff, ls):
    d2 = ((diff / np.asarray(ls)) ** 2).sum(axis=-1)
    return d2 if metric == "F2" else np.sqrt(d2)


@st.composite
def cases(draw, d_max=13, nn_max=7, b_max=6, n_max=14):
    d = draw(st.integers(1, d_max))
    nn = draw(st.integers(1, nn_max))
    return {
        "d": d, "nn": nn, "b": draw(st.integers(1, b_max)),
        "n": draw(st.integers(nn + 1, n_max)), "t": draw(st.integers(1, b_max + 2)),
        "x": draw(st.sampled_from(gens.FEATURE_KINDS)),
        "seed": draw(gens.SEEDS),
        "metric": draw(st.sampled_from(["l2", "F2"])),
        "ls": draw(st.lists(gens.LS, min_size=d, max_size=d)),
        "new": draw(st.lists(gens.LS, min_size=d, max_size=d)),
        "which": draw(st.integers(0, 2 ** d_max - 1)),
        "order": draw(gens.SEEDS), "one_d": draw(st.booleans()),
    }


def setup(c):
    X = gens.features(c["x"], c["n"] + c["t"], c["d"], c["seed"])
    Xtr, Xte = X[:c["n"]], X[c["n"]:]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    idx = np.random.default_rng(c["seed"]).integers(0, c["t"], c["b"])
    return Xtr, Xte, nn, idx


def eps():
    return (1e-4, 1e-4) if M.f32() else (1e-9, 1e-10)


def run_tensors(c):
    Xtr, Xte, nn, idx = setup(c)
    cross = Xte[idx][:, None, :] - Xtr[nn]
    P = Xtr[nn]
    pair = P[:, :, None, :] - P[:, None, :, :]
    rt, at = eps()
    at = at * max(1.0, np.abs(Xtr).max() ** 2)
    flat = c["d"] == 1 and c["one_d"] and M.backend() == "numpy"
    f = (lambda Z: Z[:, 0]) if flat else (lambda Z: Z)
    for kind in ("iso", "diff", "aniso"):
        dfm = make(kind, c["metric"], c["ls"])
        gc = dfm.crosswise_tensor(M.A(f(Xte)), M.A(f(Xtr)), M.AI(idx),
                                  M.AI(nn))
        gp = dfm.pairwise_tensor(M.A(f(Xtr)), M.AI(nn))
        if kind == "iso":
            close("crosswise distances", M.N(gc), dist(c["metric"], cross, 1),
                  rt, at)
            close("pairwise distances", M.N(gp), dist(c["metric"], pair, 1),
                  rt, at)
        else:
            close("crosswise differences", M.N(gc), cross, rt, at)
            close("pairwise differences", M.N(gp), pair, rt, at)
        ls = c["ls"] if kind == "aniso" else [c["ls"][0]] * c["d"]
        keep = M.N(gc).copy(), M.N(gp).copy()
        wc, wp = dist(c["metric"], cross, ls), dist(c["metric"], pair, ls)
        big = max(1.0, wc.max(), wp.max())
        got_c, got_p = M.N(dfm(gc)), M.N(dfm(gp))
        close(f"{kind} deformed crosswise", got_c, wc, 10 * rt, at * big)
        close(f"{kind} deformed pairwise", got_p, wp, 10 * rt, at * big)
        close("tensor after deformation", M.N(gc), keep[0], 0, 0)
        close("tensor after deformation", M.N(gp), keep[1], 0, 0)
    return ["nt"] if c["nn"] > 1 or c["b"] > 1 else []


def run_keywords(c):
    """Length scales given by name apply to their own dimension only."""
    Xtr, Xte, nn, idx = setup(c)
    cross = Xte[idx][:, None, :] - Xtr[nn]
    rt, at = eps()
    at = at * max(1.0, np.abs(Xtr).max() ** 2)
    ls = list(c["ls"])
    kw = {}
    for i in range(c["d"]):
        if c["which"] >> i & 1:
            ls[i] = c["new"][i]
            kw["length_scale%d" % i] = c["new"][i]
    order = np.random.default_rng(c["order"]).permutation(len(kw))
    items = list(kw.items())
    kw = dict(items[j] for j in order)
    dfm = make("aniso", c["metric"], c["ls"])
    gc = dfm.crosswise_tensor(M.A(Xte), M.A(Xtr), M.AI(idx), M.AI(nn))
    want = dist(c["metric"], cross, ls)
    big = max(1.0, want.max())
    close("anisotropy at named length scales", M.N(dfm(gc, **kw)), want,
          10 * rt, at * big)
    close("named length scale vector", M.N(dfm.length_scale(**kw)), ls, 1e-6,
          0)
    close("stored length scale vector", M.N(dfm.length_scale()), c["ls"],
          1e-6, 0)
    for kind in ("iso", "diff"):
        dfm = make(kind, c["metric"], c["ls"])
        gc = dfm.crosswise_tensor(M.A(Xte), M.A(Xtr), M.AI(idx), M.AI(nn))
        want = dist(c["metric"], cross, c["new"][0])
        big = max(1.0, want.max())
        close(f"{kind} at a given length scale",
              M.N(dfm(gc, length_scale=c["new"][0])), want, 10 * rt, at * big)
        # equal anisotropic length scales are isotropic
        ani = make("aniso", c["metric"], [c["new"][0]] * c["d"])
        ga = ani.crosswise_tensor(M.A(Xte), M.A(Xtr), M.AI(idx), M.AI(nn))
        close("isotropy vs equal anisotropy",
              M.N(dfm(gc, length_scale=c["new"][0])), M.N(ani(ga)), 10 * rt,
              at * big)
    bad = make("aniso", c["metric"], c["ls"] + [1.0])
    raises("anisotropy with the wrong number of length scales", ValueError,
           bad, M.A(cross))
    return ["nt"] if len(set(kw.values())) > 1 else []


@st.composite
def many_cases(draw):
    c = draw(cases(3, 5, 4))
    c["t"] = draw(st.sampled_from(gens.WIDE_COUNTS))
    c["n"] = draw(st.sampled_from(gens.WIDE_COUNTS))
    return c


def run_many(c):
    return run_tensors(c) + ["n>2^%d" % (int(c["n"]).bit_length() - 1)]


INTEGERS = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "int64"]


@st.composite
def integer_cases(draw):
    c = draw(cases(6, 6, 5))
    c["dtype"] = draw(st.sampled_from(INTEGERS))
    c["test"] = draw(st.sampled_from([c["dtype"], "float64"] + INTEGERS))
    c["span"] = draw(st.sampled_from(["small", "wide", "ends"]))
    return c


def integers(rng, dtype, span, shape):
    info = np.iinfo(dtype)
    lo, hi = max(info.min, -2 ** 40), min(info.max, 2 ** 40)
    if span == "small":
        return rng.integers(max(lo, -4), 8, shape).astype(dtype)
    if span == "wide":
        return rng.integers(lo, hi + 1, shape).astype(dtype)
    return rng.choice([lo, lo + 1, hi - 1, hi, max(lo, 0)],
                      shape).astype(dtype)


def run_integers(c):
    """Integer features of any width mean the numbers they hold."""
    if M.backend() == "torch":
        return []  # torch features are documented as floating point tensors
    rng = np.random.default_rng(c["seed"])
    Xtr = integers(rng, c["dtype"], c["span"], (c["n"], c["d"]))
    Xte = (rng.normal(size=(c["t"], c["d"])) if c["test"] == "float64" else
           integers(rng, c["test"], c["span"], (c["t"], c["d"])))
    _, _, nn, idx = setup(c)
    Ftr, Fte = Xtr.astype(np.float64), Xte.astype(np.float64)
    cross = Fte[idx][:, None, :] - Ftr[nn]
    P = Ftr[nn]
    pair = P[:, :, None, :] - P[:, None, :, :]
    rt = eps()[0]
    size = max(1.0, np.abs(Ftr).max(), np.abs(Fte).max())
    power = 2 if c["metric"] == "F2" else 1
    flat = c["d"] == 1 and c["one_d"]
    f = (lambda Z: Z[:, 0]) if flat else (lambda Z: Z)
    for kind in ("iso", "diff", "aniso"):
        dfm = make(kind, c["metric"], c["ls"])
        ls = c["ls"] if kind == "aniso" else [c["ls"][0]] * c["d"]
        for what, want, got in (
                ("crosswise", cross, dfm.crosswise_tensor(
                    f(Xte), f(Xtr), M.AI(idx), M.AI(nn))),
                ("pairwise", pair, dfm.pairwise_tensor(f(Xtr), M.AI(nn)))):
            low = rt * size ** (power if kind == "iso" else 1)
            close(f"{kind} {what} tensor of integer features", M.N(got),
                  dist(c["metric"], want, 1) if kind == "iso" else want, rt,
                  low)
            want = dist(c["metric"], want, ls)
            close(f"{kind} deformed {what} tensor of integer features",
                  M.N(dfm(got)), want, 10 * rt, 10 * rt * (
                      size / min(1.0, *ls)) ** power)
    return ["nt"] if c["nn"] > 1 or c["b"] > 1 else []


register("C04", "tensors_many", many_cases(), "the same with 32769 to 140000 "
         "training and test points", 120, shards=1, weight=40)(run_many)
register("C04", "tensors", cases(), "random features and indices, both "
         "metrics, all deformations; non-trivial = more than one difference "
         "vector", 4000, shards=4)(run_tensors)
register("C04", "tensors_large", cases(40, 30, 60, 150), "the same with up to "
         "40 features, 30 neighbors and 60 batch elements", 200, shards=2,
         weight=10)(run_tensors)
register("C04", "keywords", cases(), "random subsets of named length scales "
         "in random keyword order; non-trivial = at least two distinct named "
         "values", 4000, shards=3)(run_keywords)
register("C04", "integers", integer_cases(), "integer training and test "
         "features of every width and signedness, up to the ends of their "
         "range, one-dimensional ones included", 1500,
         shards=1)(run_integers)
