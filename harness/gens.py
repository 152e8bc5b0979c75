"""Strategies of JSON-able cases and their deterministic expansion to arrays."""

import numpy as np
from hypothesis import strategies as st

SEEDS = st.integers(0, 2 ** 31 - 1)
FEATURE_KINDS = ["normal", "uniform", "lattice", "cluster", "dup", "scaled",
                 "line", "far"]


def features(kind, n, d, seed):
    """(n, d) feature matrix."""
    rng = np.random.default_rng([seed, n, d])
    if kind == "uniform":
        return rng.uniform(0, 1, (n, d))
    if kind == "lattice":  # many exactly tied distances
        return rng.integers(-2, 3, (n, d)).astype(float)
    if kind == "cluster":
        centers = rng.normal(size=(3, d)) * 3
        return centers[rng.integers(0, 3, n)] + 0.05 * rng.normal(size=(n, d))
    if kind == "dup":  # repeated rows
        base = rng.normal(size=(max(1, (n + 1) // 2), d))
        return base[rng.integers(0, len(base), n)]
    if kind == "scaled":
        return rng.normal(size=(n, d)) * 10.0 ** rng.integers(-2, 3, d)
    if kind == "line":  # one informative column
        X = np.zeros((n, d))
        X[:, rng.integers(0, d)] = rng.permutation(n) * 0.37
        return X
    if kind == "far":
        return rng.normal(size=(n, d)) + 100.0
    return rng.normal(size=(n, d))


def distinct_features(kind, n, d, seed):
    """No two rows closer than about 1e-3."""
    X = features(kind, n, d, seed)
    rng = np.random.default_rng([seed, 7])
    if n > 6000:  # too many to compare them all
        return X + 1e-3 * rng.normal(size=X.shape)
    for i in range(1, n):
        while ((X[:i] - X[i]) ** 2).sum(axis=1).min() < 1e-6:
            X[i] = X[i] + 0.1 * rng.normal(size=d)
    return X


def responses(kind, n, r, seed):
    """(n,) if r == 0 else (n, r)."""
    rng = np.random.default_rng([seed, n, r, 1])
    shape = (n,) if r == 0 else (n, r)
    Y = rng.normal(size=shape)
    if kind == "large":
        Y = Y * 100.0
    elif kind == "offset":
        Y = Y + 10.0
    elif kind == "constant":
        Y = np.zeros(shape) + 1.5
    elif kind == "counts":  # handed over as integers, half of the time
        Y = np.sign(Y) * np.ceil(3.0 * np.abs(Y))
    return Y


def neighbor_indices(n, b, nn, seed, exclude=None):
    """Arbitrary (b, nn) neighborhoods without repeats within a row."""
    rng = np.random.default_rng([seed, n, b, nn, 2])
    rows = []
    if b * n > 1e6 and n > 50 * nn:  # rejection: repeats are rare
        while len(rows) < b:
            new = rng.integers(0, n, (b, nn))
            ok = (np.diff(np.sort(new, axis=1), axis=1) > 0).all(axis=1)
            rows += list(new[ok])
        out = np.array(rows[:b], dtype=int).reshape(b, nn)
        if exclude is not None:
            ex = np.asarray(exclude)
            for i in np.where((out == ex[:, None]).any(axis=1))[0]:
                pool = np.setdiff1d(np.arange(n), ex[i])
                out[i] = rng.permutation(pool)[:nn]
        return out
    for i in range(b):
        pool = np.arange(n)
        if exclude is not None:
            pool = pool[pool != exclude[i]]
        rows.append(rng.permutation(pool)[:nn])
    return np.array(rows, dtype=int).reshape(b, nn)


def log_uniform(lo, hi):
    """Six-digit values between 10^lo and 10^hi."""
    return st.floats(lo, hi).map(lambda e: float("%.6g" % 10.0 ** e))


_LS = st.sampled_from([0.05, 0.3, 0.7, 1.0, 1.6, 4.0, 20.0])
LS = st.one_of(_LS, _LS, log_uniform(-1.5, 1.5))
# generic smoothness values and the closed-form ones
NUS = [0.5, 1.5, 2.5, "inf"]
GENERIC_NUS = [0.35, 0.8, 1.0, 1.3, 2.0, 3.2, 3.5, 4.6]
# close to, but not, a closed form
NEAR_NUS = [a + s * b for a in (0.5, 1.5, 2.5) for s in (-1, 1)
            for b in (1e-9, 1e-6, 1e-4, 3e-3, 0.012, 0.04)]
GENERIC = st.one_of(
    st.sampled_from(GENERIC_NUS), st.sampled_from(NEAR_NUS),
    st.floats(0.3, 5.0).map(lambda v: round(v, 4)))


def nus(generic=True):
    closed = st.sampled_from(NUS)
    return st.one_of(closed, GENERIC) if generic else closed


@st.composite
def kernel_spec(draw, d, generic=True, defs=("iso", "diff", "aniso"),
                kernels=("matern", "rbf"), metrics=False):
    kernel = draw(st.sampled_from(kernels))
    spec = {"kernel": kernel, "def": draw(st.sampled_from(defs))}
    if metrics and kernel == "rbf" and draw(st.integers(0, 2)) == 0:
        spec["metric"] = "l2"  # exp(-distance / 2)
    if kernel == "matern":
        spec["nu"] = draw(nus(generic))
    spec["ls"] = draw(st.lists(LS, min_size=d, max_size=d)) \
        if spec["def"] == "aniso" else [draw(LS)]
    return spec


NOISE = st.sampled_from([1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0])


# far from the prior variance: ill-conditioned, or data all but ignored
NOISE_EXTREMES = st.sampled_from(
    [1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 30.0, 1e3, 1e6])


@st.composite
def noise_spec(draw, kinds=("homo", "hetero"), values=NOISE):
    kind = draw(st.sampled_from(kinds))
    if kind == "null":
        return {"kind": "null"}
    if kind == "hetero":
        return {"kind": "hetero", "seed": draw(SEEDS),
                "level": draw(values)}
    return {"kind": "homo", "v": draw(values)}


def noise_diag(spec, b, nn):
    """(b, nn) noise variances of the spec."""
    if spec["kind"] == "null":
        return np.zeros((b, nn))
    if spec["kind"] == "homo":
        return np.full((b, nn), float(spec["v"]))
    rng = np.random.default_rng([spec["seed"], b, nn])
    return spec["level"] * rng.uniform(0.2, 5.0, (b, nn))


SCALES = st.sampled_from([0.01, 0.5, 1.0, 3.0, 250.0])


@st.composite
def problem(draw, generic=True, n_max=14, d_max=4, b_max=6, nn_max=7, r_max=4,
            noise=("homo", "hetero"), kinds=FEATURE_KINDS, r_min=0,
            defs=("iso", "diff", "aniso"), kernels=("matern", "rbf"),
            metrics=False, noises=NOISE):
    """A prediction problem: features, responses, neighborhoods, a model."""
    d = draw(st.integers(1, d_max))
    nn = draw(st.integers(1, nn_max))
    n = draw(st.integers(nn + 1, max(n_max, nn + 2)))
    b = draw(st.integers(1, b_max))
    return {
        "d": d, "nn": nn, "n": n, "b": b,
        "r": draw(st.integers(r_min, r_max)),
        "x": draw(st.sampled_from(kinds)),
        "y": draw(st.sampled_from(["normal", "large", "offset", "constant",
                                   "counts"])),
        "seed": draw(SEEDS),
        "model": draw(kernel_spec(d, generic=generic, defs=defs,
                                  kernels=kernels, metrics=metrics)),
        "noise": draw(noise_spec(noise, noises)),
        "scale": draw(SCALES),
    }


def expand(c):
    """(train features, test features, responses, neighbor indices, noise)."""
    X = features(c["x"], c["n"] + c["b"], c["d"], c["seed"])
    rng = np.random.default_rng([c["seed"], 3])
    X = X[rng.permutation(len(X))]
    Xtrain, Xtest = X[:c["n"]], X[c["n"]:]
    Y = responses(c["y"], c["n"], c["r"], c["seed"])
    nn = neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    return Xtrain, Xtest, Y, nn, noise_diag(c["noise"], c["b"], c["nn"])


# ---- training problems ------------------------------------------------------

@st.composite
def free_params(draw, model, noise, at_least=1):
    """Which hyperparameters are free, with bounds around their values.

    Adds ls_bounds / nu_bounds / noise bounds in place; returns the names.
    """
    names = []
    aniso = model["def"] == "aniso"
    cand = [("length_scale%d" % i if aniso else "length_scale", i)
            for i in range(len(model["ls"]))]
    if model["kernel"] == "matern" and model["nu"] != "inf":
        cand.append(("smoothness", None))
    if noise["kind"] == "homo":
        cand.append(("noise", None))
    k = draw(st.integers(min(at_least, len(cand)), len(cand)))
    chosen = draw(st.permutations(cand))[:k]
    model["ls_bounds"] = [None] * len(model["ls"])
    for name, i in sorted(chosen):
        lo = draw(st.sampled_from([0.3, 0.6, 1.0]))
        hi = draw(st.sampled_from([1.0, 1.5, 3.0])) + (0.5 if lo == 1.0 else 0)
        if name.startswith("length_scale"):
            v = model["ls"][i]
            model["ls_bounds"][i] = [lo * v, hi * v]
        elif name == "smoothness":
            model["nu_bounds"] = [max(0.3, lo * model["nu"]),
                                  min(6.0, hi * model["nu"])]
        else:
            noise["bounds"] = [0.1 * lo * noise["v"], 10 * hi * noise["v"]]
        names.append(name)
    return names


@st.composite
def train_problem(draw, generic=True, n_max=16, d_max=3, b_max=8, nn_max=6,
                  r_max=3, r_min=0, noise=("homo", "hetero", "null"),
                  kinds=("normal", "uniform", "cluster", "scaled"),
                  defs=("iso", "diff", "aniso"), kernels=("matern", "rbf"),
                  at_least=1, nn_min=1, free=True, noises=NOISE):
    """A training problem: data, batch, neighborhoods, a model with bounds."""
    d = draw(st.integers(1, d_max))
    nn = draw(st.integers(nn_min, nn_max))
    n = draw(st.integers(nn + 2, max(n_max, nn + 3)))
    c = {"d": d, "nn": nn, "n": n, "b": draw(st.integers(1, min(b_max, n))),
         "r": draw(st.integers(r_min, r_max)),
         "x": draw(st.sampled_from(kinds)),
         "y": draw(st.sampled_from(["normal", "large", "offset",
                                    "counts"])),
         "seed": draw(SEEDS),
         "model": draw(kernel_spec(d, generic=generic, defs=defs,
                                   kernels=kernels)),
         "noise": draw(noise_spec(noise, noises)),
         "scale": draw(SCALES)}
    c["free"] = draw(free_params(c["model"], c["noise"], at_least)) \
        if free else []
    return c


def expand_train(c):
    """(features, responses, batch indices, neighbor indices, noise)."""
    X = distinct_features(c["x"], c["n"], c["d"], c["seed"])
    Y = responses(c["y"], c["n"], c["r"], c["seed"])
    rng = np.random.default_rng([c["seed"], 4])
    batch = rng.permutation(c["n"])[:c["b"]]
    nn = neighbor_indices(c["n"], c["b"], c["nn"], c["seed"], exclude=batch)
    return X, Y, batch, nn, noise_diag(c["noise"], c["b"], c["nn"])


def bounds_of(c):
    """{free parameter name: (lower, upper)}"""
    m, out = c["model"], {}
    for name in c["free"]:
        if name == "noise":
            out[name] = tuple(c["noise"]["bounds"])
        elif name == "smoothness":
            out[name] = tuple(m["nu_bounds"])
        else:
            i = int(name[len("length_scale"):] or 0)
            out[name] = tuple(m["ls_bounds"][i])
    return out


def with_params(c, params):
    """The case whose model has the given hyperparameter values."""
    c = dict(c, model=dict(c["model"]), noise=dict(c["noise"]))
    c["model"]["ls"] = list(c["model"]["ls"])
    for name, v in params.items():
        v = float(v)
        if name == "noise":
            c["noise"]["v"] = v
        elif name == "smoothness":
            c["model"]["nu"] = v
        else:
            c["model"]["ls"][int(name[len("length_scale"):] or 0)] = v
    return c


# ---- unusually large problems -----------------------------------------------

ROUND = [255, 256, 257, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024,
         1025, 2000, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 5000]


# beyond the range of 15- and 16-bit indices
WIDE_COUNTS = [32769, 33000, 40000, 65536, 65537, 70000, 140000]


@st.composite
def huge(draw, base, kinds=("long", "long", "wide", "deep", "many")):
    """A problem case with one of its dimensions made large."""
    c = draw(base)
    kind = draw(st.sampled_from(kinds))
    some = st.integers(100, 5000)
    if kind == "long":  # many predictions
        c["b"] = draw(st.one_of(st.sampled_from(ROUND), some))
        c["nn"] = min(c["nn"], 4)
        c["d"] = min(c["d"], 3)
        c["n"] = max(c["n"], draw(st.one_of(st.just(0), some)))
    elif kind == "wide":  # many neighbors
        c["nn"] = draw(st.one_of(
            st.sampled_from([50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129,
                             200, 255, 256, 257]), st.integers(30, 260)))
        c["b"], c["d"] = min(c["b"], 3), min(c["d"], 4)
        c["n"] = c["nn"] + draw(st.integers(2, 100))
    elif kind == "deep":  # many features
        c["d"] = draw(st.one_of(
            st.sampled_from([31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257,
                             784]), st.integers(20, 800)))
        c["b"], c["nn"] = min(c["b"], 5), min(c["nn"], 5)
    else:  # many training points, sparsely used
        c["n"] = draw(st.one_of(st.sampled_from(ROUND),
                                st.integers(1000, 30000),
                                st.sampled_from(WIDE_COUNTS)))
        c["d"] = min(c["d"], 3)
    c["huge"] = kind
    for p in (c.get("parts") or [c]):
        m, d = p["model"], c["d"]
        grow = float(np.sqrt(d)) if kind == "deep" else 1.0
        k = d if m["def"] == "aniso" else 1
        m["ls"] = [grow * m["ls"][i % len(m["ls"])] for i in range(k)]
        if m.get("ls_bounds"):
            old = m["ls_bounds"]
            m["ls_bounds"] = [b and [grow * v for v in b] for b in
                              old + [None] * (k - len(old))]
    return c


@st.composite
def huge_train(draw, base, **kw):
    """The same for training problems, whose batch is part of the data."""
    c = draw(huge(base, **kw))
    c["n"] = max(c["n"], c["b"], c["nn"] + 2)
    return c
