"""C19: uncertainty-quantified classification masks match their intervals."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import gens, ref
from harness.checks import c08
from harness.checks.c09 import reported
from harness.checks.c17 import NN_KWARGS, k_args, opt_args
from harness.checks.c18 import ENCODINGS, setup
from harness.core import Skip, Violation, check, close, register


@st.composite
def cases(draw, train=False, n_max=28, nn_max=6, q_max=12):
    d, nn = draw(st.integers(1, 3)), draw(st.integers(2, nn_max))
    p = {"model": draw(gens.kernel_spec(d)),
         "noise": draw(gens.noise_spec(("homo",))),
         "scale": draw(gens.SCALES), "scale_fn": "fixed"}
    p["free"] = draw(gens.free_params(p["model"], p["noise"], 0)) \
        if train else []
    return {"k": 2, "d": d, "nn": nn, "n": draw(st.integers(nn + 4, n_max)),
            "q": draw(st.integers(1, q_max)), "seed": draw(gens.SEEDS),
            "layout": draw(st.sampled_from(["clusters", "random", "rare"])),
            "spread": draw(st.sampled_from([0.0, 1.0, 2.0])),
            "flip": draw(st.sampled_from([0.0, 0.1, 0.3])),
            "enc": draw(st.sampled_from(ENCODINGS)), "parts": [p],
            "multi": False, "opt": draw(st.sampled_from(["scipy", "bayes"])),
            "loss": draw(st.sampled_from(["cross_entropy", "mse"])),
            "uq_batch": draw(st.sampled_from(["full", "more", "part"])),
            "nn_kwargs": draw(st.sampled_from(NN_KWARGS)),
            "weights": draw(st.lists(st.tuples(
                st.sampled_from([1.0, 2.0, 10.0, 0.1]),
                st.sampled_from([1.0, 0.5, 4.0])), min_size=1, max_size=3)),
            "batch": draw(st.integers(0, 2 ** 31 - 1))}


def mid(c):
    return (c["enc"][0] + c["enc"][1]) / 2


def tolerance(cond):
    if cond > 1e8:
        raise Skip("ill-conditioned")
    return 1e-7 + 1e-13 * cond


def moments(c, p, X, Xtr, Y, nn):
    """(means (q, 2), scaled variances (q,), condition)"""
    diag = np.full(nn.shape, float(p["noise"]["v"]))
    mu, v, cond = ref.posteriors(p["model"], diag, X, Xtr, Y, nn)
    return mu, p["scale"] * v, cond


def uq_scores(c, p, Xtr, Xte, Y, nn_test):
    """Unanimous neighborhoods get their label and no variance."""
    mixed = np.array([len(np.unique(Y[ix, 0])) > 1 for ix in nn_test])
    mean, var, cond = Y[nn_test[:, 0]].astype(float), np.zeros(c["q"]), 1.0
    if mixed.any():
        mean[mixed], var[mixed], cond = moments(
            c, p, Xte[mixed], Xtr, Y, nn_test[mixed])
    return mean, var, cond, mixed


def intervals(mean, var, m, cut, slack, root=True):
    """(ambiguous?, too close to the boundary to tell)"""
    gap = np.abs(mean[:, 1] - m)
    half = cut * (np.sqrt(np.maximum(var, 0.0)) if root else var)
    return gap < half, np.abs(gap - half) <= slack * (1 + half)


def judge_mask(got, pred, var, m, cut, slack, decided):
    """Known finding: masks are made from intervals of `cut` variances, not
    standard deviations."""
    amb, near = intervals(pred, var, m, cut, slack)
    bad = (~near | decided) & (got != amb)
    if not bad.any():
        return []
    amb, near = intervals(pred, var, m, cut, slack, root=False)
    worse = np.where(bad & ~near & (got != amb))[0]
    check(len(worse) == 0, "point %s: score %s, midpoint %s, cutoff %s, "
          "variance %s marked %s", worse[:1], pred[worse[:1], 1], m, cut,
          var[worse[:1]], got[worse[:1]])
    return ["known:uq-masks-variance"]


class Recorder:
    """Objective functions that remember what they were given."""

    def __init__(self, weights):
        self.calls = []
        self.fns = [self.make(a, b) for a, b in weights]

    def make(self, wa, wb):
        def fn(alpha, beta, correct, incorrect):
            alpha, beta = np.array(alpha), np.array(beta)
            i = int(np.argmin(wa * alpha + wb * beta))
            self.calls.append((alpha, beta, int(correct), int(incorrect), i))
            return i
        return fn


def rates(mean, var, right, m, cuts, slack):
    """Reference alpha, beta over the cutoffs, with a mask of safe cutoffs."""
    alpha, beta = np.empty(len(cuts)), np.empty(len(cuts))
    safe = np.ones(len(cuts), dtype=bool)
    for i, cut in enumerate(cuts):
        amb, near = intervals(mean, var, m, cut, slack)
        safe[i] = not near.any()
        alpha[i] = 1 - amb[~right].mean()
        beta[i] = amb[right].mean()
    return alpha, beta, safe


def verify_rates(rec, mean, var, lab, m, cuts, tol, n_fns):
    check(len(rec.calls) == n_fns, "%s objective evaluations for %s "
          "objectives", len(rec.calls), n_fns)
    guess = np.argmax(mean, axis=1)
    if np.abs(mean[:, 0] - mean[:, 1]).min() < 10 * tol:
        raise Skip("undecided predictions")
    right = guess == lab
    if right.all() or not right.any():
        raise Skip("every prediction right, or none")
    if var.min() < 100 * tol * max(1.0, var.max()):
        raise Skip("vanishing variance")
    slack = 1e3 * tol * (1 + 1 / np.sqrt(var.min()))
    alpha, beta, safe = rates(mean, var, right, m, cuts, slack)
    # known finding: the intervals are compared with zero, not the midpoint
    zalpha, zbeta, zsafe = rates(mean, var, right, 0.0, cuts, slack)
    known = []
    for a, b, cc, ic, _ in rec.calls:
        check(len(a) == len(b) == len(cuts), "rates of %s, %s for %s cutoffs",
              len(a), len(b), len(cuts))
        check((cc, ic) == (right.sum(), (~right).sum()), "counts %s, %s "
              "instead of %s, %s", cc, ic, right.sum(), (~right).sum())
        try:
            close("rate of confident mistakes", a[safe], alpha[safe], 1e-9,
                  1e-9)
            close("rate of ambiguous successes", b[safe], beta[safe], 1e-9,
                  1e-9)
        except Violation:
            if m == 0 or np.abs(a - zalpha)[zsafe].max(initial=0) > 1e-9 \
                    or np.abs(b - zbeta)[zsafe].max(initial=0) > 1e-9:
                raise
            known = ["known:uq-zero-midpoint"]
    return known


def grid(m, c, batch, bnn, Xtr, Y, pm):
    """The candidate cutoffs, revealed by constant objectives."""
    rec = Recorder([(1.0, 1.0)])
    train_interval(m, batch, bnn, Xtr, Y, pm, rec.fns)
    n = len(rec.calls[0][0])
    cuts = np.asarray(train_interval(
        m, batch, bnn, Xtr, Y, pm,
        [lambda a, b, cc, ic, i=i: i for i in range(n)]))
    check(cuts.shape == (n,), "cutoffs of shape %s for %s objectives",
          cuts.shape, n)
    check(n > 1 and np.all(np.diff(cuts) > 0) and cuts[0] > 0,
          "candidate cutoffs are not increasing positive numbers")
    return cuts


def train_interval(m, batch, bnn, Xtr, Y, pm, fns):
    return M.train_two_class_interval(m, batch, bnn, Xtr, Y, pm, fns)


def run_interval(c):
    Xtr, Xte, Y, lab, nn_test, nn_train = setup(c)
    p = c["parts"][0]
    rng = np.random.default_rng(c["batch"])
    batch = rng.permutation(c["n"])[:rng.integers(2, c["n"] + 1)]
    bnn = nn_train[batch]
    pm = 2 * lab - 1
    mean, var, cond = moments(c, p, Xtr[batch], Xtr, Y, bnn)
    tol = tolerance(cond)
    m = M.MuyGPS(**k_args(p))
    cuts = grid(m, c, batch, bnn, Xtr, Y, pm)
    rec = Recorder(c["weights"])
    fns = rec.fns + list(M.example_lambdas)
    keep = Xtr.copy(), Y.copy(), pm.copy(), batch.copy(), bnn.copy()
    out = np.asarray(train_interval(m, batch, bnn, Xtr, Y, pm, fns))
    for a, b in zip((Xtr, Y, pm, batch, bnn), keep):
        close("inputs afterwards", a, b, 0, 0)
    check(out.shape == (len(fns),), "cutoffs of shape %s for %s objectives",
          out.shape, len(fns))
    found = verify_rates(rec, mean, var, lab[batch], mid(c), cuts, tol,
                         len(rec.fns))
    a, b, cc, ic, _ = rec.calls[0]
    for i, call in enumerate(rec.calls):
        check(out[i] == cuts[call[4]], "cutoff %s for the objective choosing "
              "%s", out[i], cuts[call[4]])
    known = [a + b, 2 * a + b, 4 * a + b, 10 * a + b, ic * a + cc * b]
    for i, val in enumerate(known):
        at = np.where(cuts == out[len(rec.fns) + i])[0]
        check(len(at) == 1, "cutoff %s is not a candidate",
              out[len(rec.fns) + i])
        check(val[at[0]] <= val.min() + 1e-12 * (1 + abs(val.min())),
              "example objective %s is %s at the chosen cutoff, %s at best",
              i, val[at[0]], val.min())
    return ["enc:%g" % c["enc"][0], "nt"] + found


def run_scores(c):
    """classify_two_class_uq with a given surrogate."""
    Xtr, Xte, Y, lab, nn_test, _ = setup(c)
    p = c["parts"][0]
    mean, var, cond, mixed = uq_scores(c, p, Xtr, Xte, Y, nn_test)
    tol = tolerance(cond)
    m = M.MuyGPS(**k_args(p))
    lookup = M.NN_Wrapper(Xtr, c["nn"])
    keep = Xte.copy(), Xtr.copy(), Y.copy()
    got, v, _ = M.classify_two_class_uq(m, Xte, Xtr, lookup, Y)
    close("class scores", got, mean, tol, tol)
    close("variances", v, var, tol, tol * p["scale"])
    close("scores of unanimous points", got[~mixed], mean[~mixed], 0, 0)
    close("variances of unanimous points", v[~mixed], var[~mixed], 0, 0)
    for a, b in zip((Xte, Xtr, Y), keep):
        close("inputs afterwards", a, b, 0, 0)
    return ["enc:%g" % c["enc"][0]] + (
        ["mixed and unanimous"] if 0 < mixed.sum() < c["q"] else []) + (
        ["nt"] if mixed.any() and c["q"] > 1 else [])


@st.composite
def mask_cases(draw):
    return {"q": draw(st.integers(1, 20)), "seed": draw(gens.SEEDS),
            "enc": draw(st.sampled_from(ENCODINGS)),
            "cuts": draw(st.lists(st.sampled_from(
                [0.01, 0.5, 1.0, 1.96, 3.0, 20.0]), min_size=1, max_size=5)),
            "column": draw(st.booleans()),
            "level": draw(st.sampled_from([1e-3, 0.1, 1.0, 10.0])),
            "mask": draw(st.sampled_from(["random", "random", "none",
                                          "all"]))}


def run_masks(c):
    rng = np.random.default_rng(c["seed"])
    q, m = c["q"], mid(c)
    pred = m + 0.5 * rng.normal(size=(q, 2))
    var = c["level"] * rng.uniform(0, 1, q)
    var[rng.uniform(size=q) < 0.2] = 0.0
    cuts = np.array(c["cuts"])
    keep = pred.copy(), var.copy(), cuts.copy()
    got = np.asarray(M.make_masks(
        pred, cuts, var[:, None] if c["column"] else var, m))
    check(got.shape == (len(cuts), q), "masks of shape %s for %s cutoffs and "
          "%s points", got.shape, len(cuts), q)
    check(got.dtype == bool, "masks of type %s", got.dtype)
    found = []
    for i, cut in enumerate(cuts):
        found += judge_mask(got[i], pred, var, m, cut, 1e-9, var == 0)
    # statistics of arbitrary masks
    masks = rng.uniform(size=(len(cuts), q)) < 0.4
    if c["mask"] != "random":
        masks[rng.integers(0, len(cuts))] = c["mask"] == "all"
    truth = np.zeros((q, 2)) + c["enc"][0]
    truth[np.arange(q), rng.integers(0, 2, q)] = c["enc"][1]
    right = np.argmax(pred, axis=1) == np.argmax(truth, axis=1)
    acc, uq = M.do_uq(pred, truth, masks)
    close("accuracy", acc, right.mean(), 1e-12, 0)
    check(np.shape(uq) == (len(cuts), 3), "statistics of shape %s",
          np.shape(uq))
    for i, mask in enumerate(masks):
        close("masked count", uq[i, 0], mask.sum(), 0, 0)
        close("masked accuracy", uq[i, 1],
              right[mask].mean() if mask.any() else 0.0, 1e-12, 0)
        if not mask.all():
            close("unmasked accuracy", uq[i, 2], right[~mask].mean(), 1e-12,
                  0)
    for a, b in zip((pred, var, cuts), keep):
        close("inputs afterwards", a, b, 0, 0)
    return ["masks:" + c["mask"]] + found + (["nt"] if q > 2 else [])


def run_workflow(c):
    Xtr, Xte, Y, lab, nn_test, nn_train = setup(c)
    n, p = c["n"], c["parts"][0]
    batch = np.where([len(np.unique(lab[ix])) > 1 for ix in nn_train])[0]
    if len(batch) < 2:
        raise Skip("no informative training batch")
    rec = Recorder(c["weights"])
    uq = {"full": n, "more": n + 3, "part": max(2, n // 2)}[c["uq_batch"]]
    keep = Xte.copy(), Xtr.copy(), Y.copy()
    m, lookup, mean, masks = M.do_classify_uq(
        Xte, Xtr, Y, nn_count=c["nn"], opt_batch_count=n, uq_batch_count=uq,
        loss_fn=c08.loss_fn(c["loss"]), uq_objectives=rec.fns,
        k_kwargs=k_args(p), nn_kwargs=dict(c["nn_kwargs"]), **opt_args(c))
    for a, b in zip((Xte, Xtr, Y), keep):
        close("inputs afterwards", a, b, 0, 0)
    rep = reported(m)
    bounds = gens.bounds_of(p)
    check(sorted(rep) == sorted(bounds), "model is free in %s, expected %s",
          sorted(rep), sorted(bounds))
    p = gens.with_params(p, {k: v for k, (v, _) in rep.items()})
    want, var, cond, mixed = uq_scores(c, p, Xtr, Xte, Y, nn_test)
    bmean, bvar, cb = moments(c, p, Xtr[batch], Xtr, Y, nn_train[batch])
    tol = tolerance(max(cond, cb))
    close("workflow class scores", mean, want, tol, tol)
    masks = np.asarray(masks)
    check(masks.shape == (len(rec.fns), c["q"]), "masks of shape %s for %s "
          "objectives and %s points", masks.shape, len(rec.fns), c["q"])
    check(len(rec.calls) == len(rec.fns), "%s objective evaluations for %s "
          "objectives", len(rec.calls), len(rec.fns))
    calls, found = list(rec.calls), []
    cuts = grid(m, c, batch, nn_train[batch], Xtr, Y, 2 * lab - 1)
    for i, call in enumerate(calls):
        check(call[2] + call[3] <= uq, "uncertainty batch of %s, %s "
              "requested", call[2] + call[3], uq)
        found += judge_mask(masks[i], want, var, mid(c), cuts[call[4]],
                            1e3 * tol * (1 + p["scale"]), ~mixed)
    labels = ["uq:" + c["uq_batch"], c["opt"]]
    if masks.any() and not masks.all():
        labels.append("both masked and not")
    if uq >= n:
        found += verify_rates(rec, bmean, bvar, lab[batch], mid(c), cuts, tol,
                              len(rec.fns))
        labels.append("rates compared")
    return labels + found + (["nt"] if mixed.any() else [])


R = ("random two-class layouts, four label encodings, random models; ")
register("C19", "masks", mask_cases(), "random scores, variances (some zero), "
         "cutoffs and masks; non-trivial = more than two points", 2000,
         shards=1)(run_masks)
register("C19", "scores", cases(), R + "non-trivial = a mixed neighborhood "
         "among several test points", 1200, shards=2)(run_scores)
register("C19", "intervals", cases(), R + "cutoff objectives record what they "
         "are given; non-trivial = right and wrong predictions with "
         "variance", 400, shards=3, weight=8)(run_interval)
register("C19", "workflow", cases(train=True), R + "trained; non-trivial = "
         "some mixed neighborhood", 300, shards=3, weight=12)(run_workflow)
BIG = {"n_max": 150, "nn_max": 25, "q_max": 80}
register("C19", "scores_large", cases(**BIG), R + "up to 150 training and 80 "
         "test points, 25 neighbors", 150, shards=1, weight=15)(run_scores)
register("C19", "intervals_large", cases(**BIG), R + "the same; cutoff "
         "objectives record what they are given", 60, shards=2,
         weight=40)(run_interval)
