"""C06: training batches are valid samples with their own neighborhoods."""

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

from harness import api as M
from harness import gens
from harness.checks.c05 import verify
from harness.core import check, close, register, same_shape


@st.composite
def cases(draw, n_max=40, nn_max=6, k_max=4):
    nn = draw(st.integers(1, nn_max))
    n = draw(st.integers(nn + 1, n_max))
    return {"n": n, "nn": nn, "d": draw(st.integers(1, 4)),
            "x": draw(st.sampled_from(gens.FEATURE_KINDS)),
            "seed": draw(gens.SEEDS),
            "b": draw(st.one_of(st.integers(1, n_max + 5), st.sampled_from(
                [n - 1, n, n + 1]).map(lambda v: max(1, v)))),
            "classes": draw(st.lists(st.integers(-3, 2 * k_max + 1), min_size=2,
                                     max_size=k_max, unique=True)),
            "spatial": draw(st.booleans()), "kw": {}}


@st.composite
def huge_cases(draw):
    c = draw(cases())
    c["d"] = draw(st.integers(2, 3))
    if c["x"] in ("lattice", "dup", "line"):
        c["x"] = "normal"
    c["n"] = draw(st.one_of(
        st.sampled_from(gens.ROUND), st.integers(1000, 9000),
        st.sampled_from(gens.WIDE_COUNTS[:5])))
    n = c["n"]
    c["b"] = draw(st.one_of(
        st.sampled_from(gens.ROUND), st.integers(1, n + 5),
        st.sampled_from([n - 1, n, n + 1])))
    if draw(st.booleans()):  # a class that is nearly absent
        c["rare"] = draw(st.integers(1, 3))
    return c


def setup(c):
    X = gens.distinct_features(c["x"], c["n"], c["d"], c["seed"])
    rng = np.random.default_rng([c["seed"], 11])
    # break ties so that neighborhoods are unique
    X = X + 1e-4 * rng.normal(size=X.shape)
    if c["spatial"]:
        order = np.argsort(X[:, 0])
        lab = np.empty(c["n"], dtype=int)
        parts = np.array_split(order, len(c["classes"]))
        for k, ix in zip(c["classes"], parts):
            lab[ix] = k
    else:
        lab = np.array(c["classes"])[rng.integers(0, len(c["classes"]), c["n"])]
    if c.get("rare"):
        lab[:] = np.where(rng.uniform(size=c["n"]) < 0.5, c["classes"][0],
                          c["classes"][-1])
        if len(c["classes"]) > 2:
            lab[rng.integers(0, c["n"], c["rare"])] = c["classes"][1]
    return X, lab


def brute(X, nn):
    """(n, nn) neighbor sets excluding self, from the definition."""
    if len(X) > 2000:
        out = cKDTree(X).query(X, nn + 1)[1]
        own = out == np.arange(len(X))[:, None]
        own[~own.any(axis=1), -1] = True
        return out[~own].reshape(len(X), nn)
    d2 = ((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2)
    np.fill_diagonal(d2, np.inf)
    return np.argsort(d2, axis=1)[:, :nn]


def verify_batch(c, X, bi, bn):
    bi, bn = np.asarray(bi), np.asarray(bn)
    same_shape("batch indices", bi, (len(bi),))
    same_shape("batch neighbors", bn, (len(bi), c["nn"]))
    check(len(set(bi.tolist())) == len(bi), "repeated batch elements %s", bi)
    check(np.all((bi >= 0) & (bi < c["n"])), "batch index out of range %s", bi)
    some = range(len(bi))
    if len(bi) * c["n"] > 1e6:
        some = np.random.default_rng(c["seed"]).permutation(len(bi))[:60]
    for j, row in zip(bi[some], bn[some]):
        d = ((X[row] - X[j]) ** 2).sum(axis=1)
        verify(c, "batch neighborhood", X, X[j], row, d, j, True)


def run_sample(c):
    X, _ = setup(c)
    nbrs = M.NN_Wrapper(M.A(X), c["nn"])
    bi, bn = M.sample_batch(nbrs, c["b"], c["n"])
    verify_batch(c, X, bi, bn)
    check(len(bi) == min(c["b"], c["n"]), "asked for %s of %s elements, got "
          "%s", c["b"], c["n"], len(bi))
    if c["b"] >= c["n"]:
        check(sorted(np.asarray(bi).tolist()) == list(range(c["n"])),
              "full batch is missing elements: %s", bi)
    return ["nt"] if 1 < c["b"] < c["n"] else ["full"]


def run_reach(c):
    """Every training element can be drawn (60 draws of half the data)."""
    c = dict(c, n=min(c["n"], 12), nn=1, b=None)
    c["n"] = max(4, c["n"])
    c["b"] = (c["n"] + 1) // 2
    X, _ = setup(c)
    nbrs = M.NN_Wrapper(M.A(X), 1, n_jobs=1)
    seen = set()
    for _ in range(60):
        bi, _ = M.sample_batch(nbrs, c["b"], c["n"])
        seen |= set(np.asarray(bi).tolist())
    check(len(seen) == c["n"], "elements %s are never sampled",
          sorted(set(range(c["n"])) - seen))
    return ["nt"]


def run_filtered(c):
    X, lab = setup(c)
    nbrs = M.NN_Wrapper(M.A(X), c["nn"])
    truth = brute(X, c["nn"])
    mixed = np.array([len(set(lab[r].tolist())) > 1 for r in truth])
    bi, bn = M.full_filtered_batch(nbrs, M.AI(lab))
    verify_batch(c, X, bi, bn)
    check(sorted(np.asarray(bi).tolist()) == np.where(mixed)[0].tolist(),
          "filtered batch %s, expected the elements with disagreeing "
          "neighbors %s", sorted(np.asarray(bi).tolist()), np.where(mixed)[0])
    bi2, _ = M.get_balanced_batch(nbrs, M.AI(lab), c["n"] + c["b"] % 5)
    check(sorted(np.asarray(bi2).tolist()) == np.where(mixed)[0].tolist(),
          "balanced batch of everything differs from the filtered batch")
    return ["nt"] if 0 < mixed.sum() < len(mixed) else []


def run_balanced(c):
    X, lab = setup(c)
    nbrs = M.NN_Wrapper(M.A(X), c["nn"])
    truth = brute(X, c["nn"])
    mixed = np.array([len(set(lab[r].tolist())) > 1 for r in truth])
    present = sorted(set(lab.tolist()))
    b = max(len(present), min(c["b"], c["n"] - 1))
    if b >= c["n"]:
        return []
    fn = M.sample_balanced_batch if c["seed"] % 2 else M.get_balanced_batch
    bi, bn = fn(nbrs, M.AI(lab), b)
    verify_batch(c, X, bi, bn)
    bi = np.asarray(bi)
    check(np.all(mixed[bi]), "batch elements %s have constant neighborhoods",
          bi[~mixed[bi]])
    each = b // len(present)
    for k in present:
        avail = int(np.sum(mixed & (lab == k)))
        got = int(np.sum(lab[bi] == k))
        check(got == min(avail, each), "class %s: %s batch elements, expected "
              "min(%s available, %s)", k, got, avail, each)
    return ["nt"] if len(bi) > 1 and len(present) > 1 else []


R = "random training sets, labelings and batch sizes; "
register("C06", "sample", cases(), R + "non-trivial = proper subsample", 1500,
         weight=2)(run_sample)
register("C06", "reach", cases(), R + "repeated draws", 60,
         weight=10)(run_reach)
register("C06", "filtered", cases(), R + "non-trivial = some but not all "
         "elements filtered", 1500, weight=2)(run_filtered)
register("C06", "balanced", cases(), R + "non-trivial = several classes and "
         "elements", 1500, weight=2)(run_balanced)
LARGE = cases(n_max=400, nn_max=25, k_max=12)
for _name, _run in (("sample", run_sample), ("filtered", run_filtered),
                    ("balanced", run_balanced)):
    register("C06", _name + "_large", LARGE, "the same with up to 400 points, "
             "25 neighbors and 12 classes", 150, shards=1, weight=15)(_run)
for _name, _run in (("sample", run_sample), ("filtered", run_filtered),
                    ("balanced", run_balanced)):
    register("C06", _name + "_huge", huge_cases(), "the same with up to 65537 "
             "points and nearly absent classes (60 rows of the batch checked "
             "against the definition)", 16, shards=2, weight=90)(_run)
