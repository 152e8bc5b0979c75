"""C18: the classification workflow returns its surrogate's predictions."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.checks import c08
from harness.checks.c09 import reported
from harness.checks.c17 import NN_KWARGS, k_args, opt_args
from harness.core import Skip, check, close, raises, register

ENCODINGS = [(0.0, 1.0), (-1.0, 1.0), (-0.5, 0.5), (-0.1, 0.9)]


def label_problem(c, count):
    """(features, integer labels) of `count` points in c["k"] classes."""
    rng = np.random.default_rng([c["seed"], 21])
    k = c["k"]
    if c["layout"] == "random":
        X = gens.distinct_features("normal", count, c["d"], c["seed"])
        return X, rng.integers(0, k, count)
    lab = rng.integers(0, k, count)
    if c["layout"] == "rare" and count > 2:  # mostly one class
        lab = np.where(rng.uniform(size=count) < 0.8, k - 1, lab)
    centers = rng.normal(size=(k, c["d"])) * c["spread"]
    X = centers[lab] + rng.normal(size=(count, c["d"]))
    flip = rng.uniform(size=count) < c["flip"]
    lab = np.where(flip, rng.integers(0, k, count), lab)
    return X, lab


def encode(lab, k, enc):
    hot = np.full((len(lab), k), enc[0])
    hot[np.arange(len(lab)), lab] = enc[1]
    return hot


@st.composite
def label_cases(draw, k_max=4, q_max=12):
    return {"k": draw(st.integers(2, k_max)), "q": draw(st.integers(1, q_max)),
            "layout": draw(st.sampled_from(["clusters", "clusters", "rare",
                                            "random"])),
            "spread": draw(st.sampled_from([0.0, 1.0, 3.0])),
            "flip": draw(st.sampled_from([0.0, 0.1, 0.3])),
            "enc": draw(st.sampled_from(ENCODINGS))}


@st.composite
def cases(draw, multi=False, generic=True, train=True, n_max=26, nn_max=6,
          q_max=12, k_max=4):
    d, nn = draw(st.integers(1, 4)), draw(st.integers(1, nn_max))
    c = draw(label_cases(k_max=k_max, q_max=q_max))
    defs = ("iso",) if multi else ("iso", "diff", "aniso")
    c.update(d=d, nn=nn, n=draw(st.integers(nn + 2, n_max)),
             seed=draw(gens.SEEDS), opt="scipy", loss="mse")
    c["parts"] = []
    kern = (draw(st.sampled_from(["matern", "rbf"])),)
    for _ in range(c["k"] if multi else 1):
        p = {"model": draw(gens.kernel_spec(d, generic=generic, defs=defs,
                                            kernels=kern)),
             "noise": draw(gens.noise_spec(("homo",))),
             "scale": draw(gens.SCALES), "scale_fn": "fixed"}
        p["free"] = draw(gens.free_params(p["model"], p["noise"], 0)) \
            if train else []
        c["parts"].append(p)
    if train:
        c["loss"] = draw(st.sampled_from(
            ["mse", "pseudo_huber", "lool"] if multi else
            ["mse", "lool", "cross_entropy", "cross_entropy", "default"]))
        c["opt"] = draw(st.sampled_from(["scipy", "scipy", "bayes",
                                         "default"]))
        c["batch"] = draw(st.sampled_from(["full", "more", "part"]))
        c["nn_kwargs"] = draw(st.sampled_from(NN_KWARGS))
        c["route"] = draw(st.sampled_from(["do", "steps"]))
    c["multi"] = multi
    return c


def setup(c):
    X, lab = label_problem(c, c["n"] + c["q"])
    rng = np.random.default_rng([c["seed"], 22])
    far = rng.uniform(size=c["q"]) < 0.2  # away from every class
    X[c["n"]:][far] += 4.0
    Xtr, Xte = X[:c["n"]].copy(), X[c["n"]:].copy()
    Y = encode(lab[:c["n"]], c["k"], c["enc"])
    nn_test = ref.all_neighbors(Xtr, Xte, c["nn"])
    nn_train = ref.all_neighbors(Xtr, Xtr, c["nn"], np.arange(c["n"]))
    if nn_test is None or nn_train is None:
        raise Skip("tied distances")
    return Xtr, Xte, Y, lab[:c["n"]], nn_test, nn_train


def scores(c, parts, Xtr, Xte, Y, nn_test):
    """(expected class scores, condition, mask of mixed neighborhoods)"""
    mixed = np.array([len(np.unique(Y[ix], axis=0)) > 1 for ix in nn_test])
    out, cond = np.empty((len(Xte), c["k"])), 1.0
    for i in np.where(~mixed)[0]:
        out[i] = Y[nn_test[i, 0]]
    if mixed.any():
        for j, p in enumerate(parts):
            diag = np.full((mixed.sum(), c["nn"]), float(p["noise"]["v"]))
            y = Y[:, j] if c["multi"] else Y
            mu, _, cd = ref.posteriors(p["model"], diag, Xte[mixed], Xtr, y,
                                       nn_test[mixed])
            cond = max(cond, cd)
            if c["multi"]:
                out[mixed, j] = mu
            else:
                out[mixed] = mu
    return out, cond, mixed


def judge(name, got, want, mixed, near, tol):
    """Scores against the reference.

    Known finding: points whose neighbors agree on belonging to the first class
    or not are given the label of the nearest one, though they disagree on the
    others. `near` holds the labels of the neighbors, (points, neighbors, k).
    """
    got = np.asarray(got)
    close(name + " (unanimous)", got[~mixed], want[~mixed], 0, 0) \
        if got.shape == want.shape else close(name, got, want)
    odd = mixed & np.all(near[:, :, 0] == near[:, :1, 0], axis=1)
    close(name, got[~odd], want[~odd], tol, tol)
    out = []
    for i in np.where(odd)[0]:
        if np.abs(got[i] - want[i]).max() <= tol * (1 + np.abs(want[i]).max()):
            continue
        check(np.array_equal(got[i], near[i, 0]), "%s: point %s got %s, "
              "expected %s", name, i, got[i], want[i])
        out = ["known:classify-first-class"]
    return out


def labels_of(c, mixed):
    out = ["k=%d" % c["k"], "enc:%g" % c["enc"][0], c["layout"]]
    if mixed.any() and not mixed.all():
        out.append("mixed and unanimous")
    if mixed.all():
        out.append("all mixed")
    if not mixed.any():
        out.append("all unanimous")
    if c["nn"] > 1 and mixed.any() and c["q"] > 1:
        out.append("nt")
    return out


def run_predict(c):
    """classify_any with a given surrogate."""
    Xtr, Xte, Y, _, nn_test, _ = setup(c)
    want, cond, mixed = scores(c, c["parts"], Xtr, Xte, Y, nn_test)
    if cond > 1e9:
        raise Skip("ill-conditioned")
    args = [k_args(p) for p in c["parts"]]
    m = M.MultivariateMuyGPS(*args) if c["multi"] else M.MuyGPS(**args[0])
    lookup = M.NN_Wrapper(Xtr, c["nn"])
    keep = Xte.copy(), Xtr.copy(), Y.copy()
    tol = 1e-6 + 1e-13 * cond
    known, near = [], Y[nn_test]
    for _ in range(2):
        got, timing = M.classify_any(m, Xte, Xtr, lookup, Y)
        known += judge("class scores", got, want, mixed, near, tol)
    for a, b in zip((Xte, Xtr, Y), keep):
        close("inputs afterwards", a, b, 0, 0)
    # one by one
    for i in range(min(3, c["q"])):
        one, _ = M.classify_any(m, Xte[i:i + 1], Xtr, lookup, Y)
        at = slice(i, i + 1)
        known += judge("scores of a single test point", one, want[at],
                       mixed[at], near[at], tol)
    return labels_of(c, mixed) + known


def run(c):
    Xtr, Xte, Y, lab, nn_test, nn_train = setup(c)
    n = c["n"]
    batch = np.where([len(np.unique(lab[ix])) > 1 for ix in nn_train])[0]
    anyfree = any(p["free"] for p in c["parts"])
    if anyfree and len(batch) == 0:
        raise Skip("no informative training batch")
    bc = {"full": n, "more": n + 5, "part": max(4, n // 2)}[c["batch"]]
    if bc < n and anyfree and bc < 2 * c["k"]:
        raise Skip("batch smaller than two per class")
    args = [k_args(p) for p in c["parts"]]
    kk = args if c["multi"] else args[0]
    keep = Xte.copy(), Xtr.copy(), Y.copy()
    kw = dict(nn_count=c["nn"], batch_count=bc,
              nn_kwargs=dict(c["nn_kwargs"]), **opt_args(c))
    loss = "cross_entropy" if c["loss"] == "default" else c["loss"]
    if c["loss"] != "default":
        kw["loss_fn"] = c08.loss_fn(loss)
    if c["route"] == "do":
        m, lookup, got = M.do_classify(Xte, Xtr, Y, k_kwargs=kk, **kw)
    else:
        if c["multi"]:
            m, lookup = M.make_multivariate_classifier(Xtr, Y, k_args=kk, **kw)
        else:
            m, lookup = M.make_classifier(Xtr, Y, k_kwargs=kk, **kw)
        got, _ = M.classify_any(m, Xte, Xtr, lookup, Y)
    for a, b in zip((Xte, Xtr, Y), keep):
        close("inputs afterwards", a, b, 0, 0)
    close("returned neighbor lookup", np.asarray(lookup.get_nns(Xte)[0]),
          nn_test, 0, 0)
    models = m.models if c["multi"] else [m]
    check(len(models) == len(c["parts"]), "%s models", len(models))
    now_parts, moved = [], False
    for i, (one, p) in enumerate(zip(models, c["parts"])):
        rep, bounds = reported(one), gens.bounds_of(p)
        check(sorted(rep) == sorted(bounds), "model is free in %s, expected "
              "%s", sorted(rep), sorted(bounds))
        vals = {k: v for k, (v, _) in rep.items()}
        for k, v in vals.items():
            lo, hi = bounds[k]
            check(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9),
                  "%s = %s outside of [%s, %s]", k, v, lo, hi)
        now_parts.append(gens.with_params(p, vals))
        close("scale", float(M.N(one.scale()).reshape(())), p["scale"],
              1e-12, 0)
        if p["free"] and bc >= n:
            full = dict(p, loss=loss, b=len(batch), nn=c["nn"])
            a = (Xtr, Y[:, i] if c["multi"] else Y, batch, nn_train[batch])
            was = c08.expected(full, {}, *a)
            now = c08.expected(full, vals, *a)
            if max(was[1], now[1]) < 1e8 and min(was[2], now[2]) > 1e-6:
                check(now[0] >= was[0] - 1e-5 * (1 + abs(was[0])), "training "
                      "made the objective worse: %s -> %s", was[0], now[0])
                moved = moved or now[0] > was[0]
    want, cond, mixed = scores(c, now_parts, Xtr, Xte, Y, nn_test)
    if cond > 1e10:
        raise Skip("ill-conditioned")
    tol = 1e-6 + 1e-13 * cond
    known = judge("workflow class scores", got, want, mixed, Y[nn_test], tol)
    return labels_of(c, mixed) + known + [c["opt"], c["loss"], "batch:" + c["batch"],
                                  "moved" if moved else "stayed"]


@st.composite
def bad_cases(draw):
    return {"k": draw(st.integers(2, 4)), "m": draw(st.integers(0, 5)),
            "seed": draw(gens.SEEDS),
            "what": draw(st.sampled_from(["count", "type"]))}


def run_bad(c):
    X = gens.features("normal", 8, 2, c["seed"])
    Y = encode(np.arange(8) % c["k"], c["k"], (0.0, 1.0))
    one = {"kernel": M.Matern(), "noise": M.HomoscedasticNoise(0.1)}
    if c["what"] == "type":
        raises("k_kwargs of another type", (ValueError,), M.do_classify,
               X[:2], X, Y, nn_count=3, k_kwargs="matern")
        return ["nt", "type"]
    if c["k"] == c["m"]:
        return []
    raises("%d models for %d classes" % (c["m"], c["k"]), (ValueError,),
           M.make_multivariate_classifier, X, Y, nn_count=3,
           k_args=[dict(one) for _ in range(c["m"])])
    return ["nt", "count"]


R = ("random features in 2-4 classes (separated, overlapping, flipped labels, "
     "rare classes), four label encodings, random models; neighbors by brute "
     "force; non-trivial = some mixed neighborhood, several test points and "
     "neighbors")
register("C18", "predict", cases(train=False), R, 1500, shards=2)(run_predict)
register("C18", "predict_multi", cases(multi=True, train=False), R +
         "; one model per class", 1000, shards=2)(run_predict)
register("C18", "workflow", cases(), R + "; trained", 500, shards=4,
         weight=10)(run)
register("C18", "workflow_multi", cases(multi=True), R + "; trained, one "
         "model per class", 300, shards=4, weight=20)(run)
register("C18", "refusals", bad_cases(), "mismatched model lists; non-trivial"
         " = mismatched", 100, shards=1)(run_bad)
BIG = {"n_max": 150, "nn_max": 25, "q_max": 80, "k_max": 9}
register("C18", "predict_large", cases(train=False, **BIG), R + "; up to 150 "
         "training and 80 test points, 25 neighbors, 9 classes", 150,
         shards=1, weight=15)(run_predict)
register("C18", "predict_multi_large", cases(multi=True, train=False, **BIG),
         R + "; the same, one model per class", 100, shards=2,
         weight=20)(run_predict)
register("C18", "workflow_large", cases(**BIG), R + "; the same, trained", 40,
         shards=2, weight=60)(run)
