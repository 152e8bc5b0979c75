"""C16: the MPI backend computes what a single process computes.

Every case runs on 1-5 ranks that share nothing but MPI; each rank reports what
it holds.  The oracles are the serial references: the ranks' chunks, in rank
order, must make up the whole tensor, and reduced quantities must agree on all
ranks.
"""

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import api as M  # noqa: F401
from harness import gens, mpi, ref
from harness.checks import c07, c08, c09, c17, c18, c20, c21
from harness.core import Skip, check, close, register

PROCS = st.sampled_from([2, 3, 4, 1, 5])


def joined(outs, key, want, rtol, atol, what=None):
    what = what or key
    chunks = [o[key] for o in outs]
    whole = np.concatenate(chunks)
    sizes = [len(x) for x in chunks]
    check(sum(sizes) == len(want), "%s: ranks hold %s rows of %s", what,
          sizes, len(want))
    close("%s joined from %s rows per rank" % (what, sizes), whole, want,
          rtol, atol)
    return sizes


def everywhere(outs, key, what):
    """The value, which every rank must report."""
    vals = [np.asarray(o[key], dtype=float) for o in outs]
    for i, v in enumerate(vals):
        close("%s on rank %d, against rank 0" % (what, i), v, vals[0],
              1e-12, 1e-12)
    return vals[0]


def tensors_of(c, P, X, nn):
    """(crosswise, pairwise) as documented for the model's deformation."""
    D = P[:, None, :] - X[nn]
    E = X[nn][:, :, None, :] - X[nn][:, None, :, :]
    if c["model"]["def"] != "iso":
        return D, E
    D, E = (D ** 2).sum(-1), (E ** 2).sum(-1)
    return (D, E) if c["model"]["kernel"] == "rbf" else (D ** 0.5, E ** 0.5)


@st.composite
def predict_cases(draw):
    c = draw(gens.train_problem(at_least=0, free=False,
                                noise=("homo", "null"), b_max=12))
    c.update(loss="mse", procs=draw(PROCS), predict=draw(st.booleans()),
             scale_fn=draw(st.sampled_from(["fixed", "analytic"])),
             named=draw(st.integers(0, 3)) == 3)
    return c


def run_predict(c):
    X, Y, batch, nn, diag = c08.data(c)
    from harness.mpi_ops import test_points

    P = test_points(c) if c["predict"] else X[batch]
    mean, var, cond = ref.posteriors(c["model"], diag, P, X, Y, nn)
    if cond > 1e10:
        raise Skip("ill-conditioned")
    outs = mpi.run(c["procs"], "predict", c)
    cross, pair = tensors_of(c, P, X, nn)
    far = 1e-6 * max(1.0, np.abs(X).max())
    sizes = joined(outs, "cross", cross, 1e-9, far, "crosswise tensor")
    check(max(sizes) - min(sizes) <= 1, "unbalanced rows per rank: %s", sizes)
    others = [joined(outs, "pair", pair, 1e-9, far, "pairwise tensor"),
              joined(outs, "bnnt", Y[nn], 0, 0, "neighbor responses")]
    if not c["predict"]:
        others.append(joined(outs, "bt", Y[batch], 0, 0, "responses"))
    K = np.array([ref.cov(c["model"], X[ix], X[ix]) for ix in nn])
    k = np.array([ref.cov(c["model"], X[ix], P[i][None])[:, 0]
                  for i, ix in enumerate(nn)])
    rt = 1e-6 + 1e-13 * cond
    others += [joined(outs, "Kin", K, 1e-6, 1e-6),
               joined(outs, "Kc", k, 1e-6, 1e-6)]
    top = rt * max(1.0, np.abs(Y).max())
    s = c["scale"]
    for n, w in (("mean", mean), ("imean", mean), ("rmean", mean)):
        if n in outs[0]:
            others.append(joined(outs, n, w, rt, top, "posterior mean"))
    for n in ("var", "ivar", "rvar"):
        if n in outs[0]:
            others.append(joined(outs, n, s * var, rt, rt * s, "variance"))
    for o in others:
        check(o == sizes, "rows per rank differ between tensors: %s, %s",
              sizes, o)
    if "scale" in outs[0]:
        s = ref.analytic_scale(c["model"], diag, X, Y, nn)
        got = everywhere(outs, "scale", "estimated scale")
        close("estimated scale", got.reshape(()), s, 1e-6 + 1e-13 * cond, 0)
        joined(outs, "var_after", s * var, 10 * rt, 10 * rt * s,
               "variance at the estimated scale")
    return tags(c, c["predict"] and "test" or "train")


@st.composite
def down_cases(draw):
    c = draw(gens.train_problem(r_max=0, nn_min=2, free=False, b_max=12,
                                noise=("homo", "null")))
    c["down"] = draw(st.integers(1, c["nn"] - 1))
    c["iters"] = draw(st.sampled_from([1, 3, 2, 8]))
    c.update(procs=draw(PROCS), loss="mse")
    return c


def run_down(c):
    """All ranks hold one estimate from the neighbors of the whole batch."""
    X, Y, batch, nn, diag = c08.data(c)
    _, var, cond = ref.posteriors(c["model"], diag, X[batch], X, Y, nn)
    rt = (1e-6 + 1e-13 * cond) * ref.wobble(c["model"])
    values = []
    for keep in itertools.combinations(range(c["nn"]), c["down"]):
        keep = list(keep)
        values.append(ref.analytic_scale(c["model"], diag[:, keep], X, Y,
                                         nn[:, keep]))
    values = np.array(values)
    if rt > 1e-3 or not np.all(values > 0):
        raise Skip("ill-conditioned")
    outs = mpi.run(c["procs"], "downsample", c)
    got = float(everywhere(outs, "scale", "down-sampled scale").reshape(()))
    check(values.min() * (1 - 10 * rt) <= got <= values.max() * (1 + 10 * rt),
          "down-sampled scale %s outside of [%s, %s]", got, values.min(),
          values.max())
    if c["iters"] % 2:
        check(np.min(np.abs(values / got - 1)) < 10 * rt, "down-sampled "
              "scale %s is not the estimate of any subset of %s neighbors of "
              "the whole batch: %s", got, c["down"], sorted(values))
    joined(outs, "var", got * var, 10 * rt, 10 * rt * got,
           "variance at the estimated scale")
    return tags(c, "iters=%d" % c["iters"])


def tags(c, *more):
    out = list(more) + ["procs=%d" % c["procs"]]
    b = c["b"]
    out.append("idle ranks" if b < c["procs"] else "uneven" if
               b % c["procs"] else "even")
    return out + (["nt"] if c["procs"] > 1 and b > 1 else [])


@st.composite
def loss_cases(draw):
    c = draw(c07.cases())
    c["procs"] = draw(PROCS)
    c["perfect"] = False
    c["cuts"] = draw(st.lists(st.integers(0, c["b"]), min_size=4, max_size=4))
    return c


def run_losses(c):
    outs = mpi.run(c["procs"], "losses", c)
    got = everywhere(outs, "value", c["loss"])
    want = c07.expected(c, *c07.arrays(c, c["seed"], c["b"]))
    close(c["loss"], got, want, 1e-8, 1e-9 * (1 + c["b"]))
    return tags(c, c["loss"])


@st.composite
def objective_cases(draw):
    c = draw(c08.cases(noise=("homo", "null"), b_max=12))
    c["procs"] = draw(PROCS)
    return c


def run_objective(c):
    data = c08.data(c)
    X, Y, batch, nn, diag = data
    tame = []
    for p in c08.points(c):
        want, cond, vmin, size = c08.expected(c, p, X, Y, batch, nn)
        eps = 1e-14 * cond
        if want is not None and vmin >= 1e3 * eps and eps < 1e-3:
            tame.append((p, want, 1e-6 + 1e3 * eps / vmin, size))
    if not tame:
        raise Skip("ill-conditioned")
    outs = mpi.run(c["procs"], "objective",
                   dict(c, at=[p for p, *_ in tame]))
    vals = everywhere(outs, "values", "objective")
    check(len(vals) == len(tame), "%d values", len(vals))
    for (p, want, rt, size), got in zip(tame, vals):
        close("objective at %s" % p, got, want, rt,
              rt * c["b"] * max(1, c["r"]) * max(1.0, size) ** 2)
    return tags(c, c["loss"], "scale:" + c["scale_fn"])


@st.composite
def optimize_cases(draw):
    c = draw(c09.cases().filter(lambda c: c["noise"]["kind"] == "homo"))
    c["procs"] = draw(PROCS)
    return c


def run_optimize(c):
    X, Y, batch, nn, diag = data = c08.data(c)
    outs = mpi.run(c["procs"], "optimize", c)
    for o in outs[1:]:
        check(o["names"] == outs[0]["names"], "free parameters differ")
    names = outs[0]["names"]
    bounds = gens.bounds_of(c)
    check(sorted(names) == sorted(bounds), "free parameters %s", names)
    check(sorted(outs[0]["free"]) == sorted(bounds), "start is free in %s",
          outs[0]["free"])
    vals = np.atleast_1d(everywhere(outs, "vals", "optimized parameters"))
    rep = dict(zip(names, vals.ravel()))
    start = gens.with_params(c, {})
    for n, v in rep.items():
        lo, hi = bounds[n]
        check(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9), "%s = %s outside of "
              "[%s, %s]", n, v, lo, hi)
    was = c08.expected(start, {}, *data[:4])
    k = gens.with_params(c, rep)
    now = c08.expected(k, {}, *data[:4])
    if max(was[1], now[1]) < 1e8 and min(was[2], now[2]) > 1e-6:
        check(now[0] >= was[0] - 1e-5 * (1 + abs(was[0])), "objective %s at "
              "%s, worse than %s at the start", now[0], rep, was[0])
    close("start", np.sort(np.ravel(outs[0]["start"])), np.sort([
        {"noise": c["noise"].get("v"), "smoothness": c["model"].get("nu")}.get(
            n) or c["model"]["ls"][int(n[len("length_scale"):] or 0)]
        for n in bounds]), 1e-12, 0)
    d2 = gens.noise_diag(k["noise"], c["b"], c["nn"])
    mean, var, cond = ref.posteriors(k["model"], d2, X[batch], X, Y, nn)
    rt = 1e-6 + 1e-13 * cond
    joined(outs, "mean", mean, rt, rt * max(1.0, np.abs(Y).max()),
           "mean of the result")
    s = float(everywhere(outs, "scale", "scale").reshape(()))
    close("scale of the result", s, c["scale"], 1e-9, 0)
    joined(outs, "var", s * var, rt, rt * s, "variance of the result")
    first = dict(zip(outs[0]["free"], np.ravel(outs[0]["start"])))
    moved = any(abs(rep[n] - first[n]) > 1e-8 for n in rep)
    return [t for t in tags(c, c["loss"], c["opt"]) if t != "nt"] + (
        ["nt"] if moved and c["procs"] > 1 and c["b"] > 1 else [])


@st.composite
def sample_cases(draw):
    lo = draw(st.sampled_from([1e-3, 0.1, 2.0]))
    return {"procs": draw(PROCS), "seed": draw(st.integers(0, 10 ** 6)),
            "how": draw(st.sampled_from(["sample", "log_sample"])),
            "bounds": [lo, lo * draw(st.sampled_from([1.5, 10.0, 1e3]))]}


def run_sample(c):
    outs = mpi.run(c["procs"], "sample", c)
    v = float(everywhere(outs, "value", "sampled hyperparameter"))
    check(c["bounds"][0] <= v <= c["bounds"][1], "%s outside of %s", v,
          c["bounds"])
    return [c["how"]] + (["nt"] if c["procs"] > 1 else [])


@st.composite
def regress_cases(draw):
    c = draw(c17.cases(multi=draw(st.booleans())))
    c["procs"] = draw(PROCS)
    c["b"] = c["q"]
    return c


def run_regress(c):
    multi = "listed" in c
    X = gens.distinct_features(c["x"], c["n"] + c["q"], c["d"], c["seed"])
    Xtr, Xte = X[:c["n"]], X[c["n"]:]
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    nn_test = ref.all_neighbors(Xtr, Xte, c["nn"])
    nn_train = ref.all_neighbors(Xtr, Xtr, c["nn"], np.arange(c["n"]))
    if nn_test is None or nn_train is None:
        raise Skip("tied distances")
    outs = mpi.run(c["procs"], "regress", c)
    scales = everywhere(outs, "scales", "scale of the regressor")
    means, varis, cond, top = [], [], 1.0, 1e-3
    anyfree = any(p["free"] for p in c["parts"])
    for i, p in enumerate(c["parts"]):
        bounds = gens.bounds_of(p)
        for o in outs:
            check(o["params"][i] == outs[0]["params"][i] or np.allclose(
                [v for _, v, _ in o["params"][i]],
                [v for _, v, _ in outs[0]["params"][i]], rtol=1e-12),
                "trained parameters differ between ranks: %s, %s",
                o["params"][i], outs[0]["params"][i])
        rep = {n: v for n, v, _ in outs[0]["params"][i]}
        check(sorted(rep) == sorted(bounds), "free in %s", sorted(rep))
        for n, v in rep.items():
            check(bounds[n][0] * (1 - 1e-9) <= v <= bounds[n][1] * (1 + 1e-9),
                  "%s = %s outside of %s", n, v, bounds[n])
        k = gens.with_params(p, rep)
        y = Y[:, i] if multi else Y
        diag = np.full((c["n"], c["nn"]), float(k["noise"]["v"]))
        if p["scale_fn"] == "fixed" or not anyfree:
            close("fixed scale", scales[i], p["scale"], 1e-12, 0)
        elif c["batch"] != "part" and ref.wobble(k["model"]) == 1.0:
            close("estimated scale", scales[i], ref.analytic_scale(
                k["model"], diag, Xtr, y, nn_train), 1e-5, 0)
        mu, v, cd = ref.posteriors(
            k["model"], np.full((c["q"], c["nn"]), float(k["noise"]["v"])),
            Xte, Xtr, y, nn_test)
        means.append(mu)
        varis.append(scales[i] * v)
        top = max(top, scales[i])
        cond = max(cond, cd)
    tol = 1e-6 + 1e-13 * cond
    if multi:
        means, varis = np.stack(means, 1), np.stack(varis, 1)
    else:
        means, varis = means[0], varis[0]
    joined(outs, "mean", means, tol, tol * max(1.0, np.abs(Y).max()),
           "workflow mean")
    joined(outs, "var", varis, tol, tol * top, "workflow variance")
    return tags(c, c["loss"], c["opt"], "multi" if multi else "one")


@st.composite
def classify_cases(draw):
    c = draw(c18.cases(multi=draw(st.booleans()), train=False, k_max=2))
    c["procs"] = draw(PROCS)
    c["b"] = c["q"]
    return c


def run_classify(c):
    Xtr, Xte, Y, _, nn_test, _ = c18.setup(c)
    want, cond, mixed = c18.scores(c, c["parts"], Xtr, Xte, Y, nn_test)
    if cond > 1e9:
        raise Skip("ill-conditioned")
    outs = mpi.run(c["procs"], "classify", c)
    joined(outs, "pred", want, 1e-6 + 1e-13 * cond, 1e-6 + 1e-13 * cond)
    return tags(c)


def known_classify(c, detail):
    """classify_any on several ranks puts a rank's chunk of the predictions
    into the array of all of them: refused unless the shapes happen to agree,
    or every rank returns all rows."""
    if c["procs"] == 1:
        return None
    if "examples/classify.py" in detail and "ValueError: " in detail:
        return "mpi-classify"
    if detail.startswith("pred: ranks hold"):
        return "mpi-classify"
    return None


@st.composite
def hierarchical_cases(draw):
    c = draw(c21.predict_cases(noise=("homo",), b_max=12))
    c["procs"] = draw(PROCS)
    return c


def run_hierarchical(c):
    Xtr, P, Y, nn, diag = gens.expand(c)
    h = c["h"]
    new = {int(i): v for i, v in c["new"].items()}
    vals = [new.get(i, v) for i, v in enumerate(h["vals"])]
    K = c21.knots_of(h, c["d"])
    want = c21.local(c, K, vals, P, Xtr, Y, nn, diag)
    if want is None or want[2] > 1e10:
        raise Skip("ill-conditioned or tiny length scales")
    mean, var, cond, _ = want
    outs = mpi.run(c["procs"], "hierarchical", dict(c, knots=K))
    joined(outs, "bf", P, 0, 0, "batch features")
    rt = 1e-7 + 1e-13 * cond
    joined(outs, "mean", mean, rt, rt * max(1.0, np.abs(Y).max()),
           "hierarchical mean")
    s = c["scale"]
    for o in outs:
        o["var"] = o["var"].reshape(-1)
    joined(outs, "var", s * var, rt, rt * s, "hierarchical variance")
    return tags(c, "new" if new else "same")


@st.composite
def mini_cases(draw):
    c = draw(c09.mini_cases())
    if c["noise"]["kind"] != "homo":
        c["noise"] = {"kind": "homo", "v": 0.05}
    c["procs"] = draw(PROCS)
    return c


def run_mini(c):
    c = dict(c, b=c["n"])
    X, Y, _, _, _ = c08.data(c)
    bounds = gens.bounds_of(c)
    if not bounds:
        raise Skip("nothing is free")
    outs = mpi.run(c["procs"], "minibatch", c)
    names = outs[0]["names"]
    check(sorted(names) == sorted(bounds), "free in %s", names)
    vals = everywhere(outs, "vals", "optimized parameters").ravel()
    rep = dict(zip(names, vals))
    for n, v in rep.items():
        check(bounds[n][0] * (1 - 1e-9) <= v <= bounds[n][1] * (1 + 1e-9),
              "%s = %s outside of %s", n, v, bounds[n])
    scale = float(everywhere(outs, "scale", "scale").reshape(()))
    everyone = (c["full"] or c["keep"]) and c["epochs"] == 1
    nn = ref.all_neighbors(X, X, c["nn"], np.arange(c["n"]))
    if everyone and nn is not None:
        k = gens.with_params(c, rep)
        diag = gens.noise_diag(k["noise"], c["n"], c["nn"])
        if c["scale_fn"] == "analytic":
            if ref.wobble(k["model"]) == 1.0:
                close("estimated scale", scale, ref.analytic_scale(
                    k["model"], diag, X, Y, nn), 1e-6, 0)
        else:
            close("fixed scale", scale, c["scale"], 1e-12, 0)
        a = (X, Y, np.arange(c["n"]), nn)
        was, now = c08.expected(c, {}, *a), c08.expected(k, {}, *a)
        if max(was[1], now[1]) < 1e8 and min(was[2], now[2]) > 1e-6:
            check(now[0] >= was[0] - 1e-5 * (1 + abs(was[0])), "objective "
                  "%s at %s, worse than %s at the start", now[0], rep, was[0])
    return tags(c, c["loss"], "epochs=%d" % c["epochs"])


@st.composite
def shear_cases(draw):
    c = draw(c20.cases())
    # as many rows as neighbors on one rank would be ambiguous
    c["nn"] = max(c["nn"], c["b"] + 1)
    c["n"] = max(c["n"], c["nn"] + 2)
    c["procs"] = draw(PROCS)
    return c


def run_shear(c):
    X = c20.points(c, c["n"] + c["b"])
    Y = gens.responses("normal", c["n"], 3, c["seed"]) / c["ls"]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    mean, var, quad, cond = c20.conditionals(
        c, c["ls"], c20.noise_var(c), X[:c["n"]], Y, nn, X[c["n"]:])
    outs = mpi.run(c["procs"], "shear", c)
    tol = c20.tolerance(cond)
    joined(outs, "mean", mean, tol, tol * max(1.0, np.abs(Y).max()),
           "shear mean")
    joined(outs, "var", c["scale"] * var, tol,
           tol * 2 / c["ls"] ** 2 * c["scale"], "shear variance")
    if c["kernel"] == "33":
        got = everywhere(outs, "scale", "analytic scale")
        close("analytic scale", got.reshape(()), quad, 10 * tol, 0)
    return tags(c, c["kernel"], c["noise"])


R = "1-5 ranks, batches smaller than, divisible and not divisible by them; "
N = "non-trivial = several ranks and batch elements"
register("C16", "predict", predict_cases(), R + N, 600, shards=1, procs=4,
         weight=5)(run_predict)
register("C16", "downsample", down_cases(), R + "down-sampled scales; " + N,
         150, shards=1, procs=4, weight=3)(run_down)
register("C16", "losses", loss_cases(), R + "any partition of the batch; " + N,
         600, shards=1, procs=4, weight=4)(run_losses)
register("C16", "objective", objective_cases(), R + "all losses; " + N, 400,
         shards=1, procs=4, weight=8)(run_objective)
register("C16", "optimize", optimize_cases(), R + "the optimum differs from "
         "the start; " + N, 150, shards=1, procs=4, weight=40)(run_optimize)
register("C16", "sample", sample_cases(), "hyperparameters sampled with "
         "different random states on the ranks", 60, shards=1, procs=4)(
             run_sample)
register("C16", "regress", regress_cases(), R + "the regression workflow; "
         + N, 100, shards=1, procs=4, weight=40)(run_regress)
register("C16", "classify", classify_cases(), R + "classification; " + N, 60,
         shards=1, procs=4, weight=5, known=known_classify)(run_classify)
register("C16", "hierarchical", hierarchical_cases(), R + N, 200, shards=1,
         procs=4, weight=5)(run_hierarchical)
register("C16", "minibatch", mini_cases(), R + "mini-batch optimization; " + N,
         60, shards=1, procs=4, weight=60)(run_mini)
register("C16", "shear", shear_cases(), R + "shear kernels; " + N, 100,
         shards=1, procs=4, weight=5)(run_shear)
register("C16", "predict_long", gens.huge_train(
    predict_cases(), kinds=("long", "wide", "many")), R + "thousands of rows, "
    "hundreds of neighbors or tens of thousands of training points; " + N, 24,
    shards=1, procs=4, weight=40)(run_predict)
register("C16", "objective_long", gens.huge_train(
    objective_cases(), kinds=("long", "wide")), R + "thousands of rows or "
    "hundreds of neighbors; " + N, 14, shards=1, procs=4,
    weight=60)(run_objective)
