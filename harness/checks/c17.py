"""C17: the regression workflow returns what its model predicts."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import Skip, check, close, raises, register
from harness.checks import c08
from harness.checks.c09 import reported

NN_KWARGS = [{}, {"nn_method": "exact"}, {"algorithm": "kd_tree"},
             {"nn_method": "exact", "algorithm": "ball_tree"},
             {"algorithm": "brute"}]


@st.composite
def cases(draw, multi=False, generic=True, n_max=22, nn_max=6, q_max=9,
          r_max=3):
    loss = draw(st.sampled_from(["mse", "lool", "looph", "pseudo_huber"]))
    c = draw(gens.train_problem(
        generic=generic, at_least=0, noise=("homo",), n_max=n_max,
        nn_max=nn_max,
        r_max=r_max if not multi else 0, nn_min=1, d_max=4,
        kinds=("normal", "uniform", "cluster"),
        defs=("iso",) if multi else ("iso", "diff", "aniso")))
    c["loss"] = loss
    c["q"] = draw(st.integers(1, q_max))  # test points
    c["batch"] = draw(st.sampled_from(["full", "full", "more", "part"]))
    c["opt"] = draw(st.sampled_from(["scipy", "scipy", "bayes"]))
    c["nn_kwargs"] = draw(st.sampled_from(NN_KWARGS))
    c["scale_fn"] = draw(st.sampled_from(
        ["fixed", "analytic"] if c["r"] <= 1 else ["fixed"]))
    if c["opt"] == "bayes" and draw(st.booleans()):
        c["opt"] = "default"
    c["route"] = draw(st.sampled_from(["do", "steps"]))
    if multi:
        c["r"] = draw(st.integers(1, r_max))
        c["parts"] = []
        kern = (c["model"]["kernel"],)
        for _ in range(c["r"]):
            p = {"model": draw(gens.kernel_spec(c["d"], generic=generic,
                                                defs=("iso",),
                                                kernels=kern)),
                 "noise": draw(gens.noise_spec(("homo",))),
                 "scale": draw(gens.SCALES),
                 "scale_fn": draw(st.sampled_from(["fixed", "analytic"]))}
            p["free"] = draw(gens.free_params(p["model"], p["noise"], 0))
            c["parts"].append(p)
        c["listed"] = draw(st.booleans())
    else:
        c["parts"] = [{k: c[k] for k in ("model", "noise", "scale",
                                         "scale_fn", "free")}]
    return c


def k_args(p):
    scale = p["scale"] if p["scale_fn"] == "fixed" else {
        "kind": "analytic", "val": p["scale"]}
    return {"kernel": build.kernel(p["model"]), "noise":
            build.noise(p["noise"], None), "scale": build.scale(scale)}


def opt_args(c):
    if c["opt"] == "scipy":
        return {"opt_fn": M.L_BFGS_B_optimize}
    kw = {"init_points": 2, "n_iter": 1, "random_state": 5,
          "allow_duplicate_points": True}
    if c["opt"] == "default":
        return {"opt_kwargs": kw}
    return {"opt_fn": M.Bayes_optimize, "opt_kwargs": kw}


def run(c):
    multi = "listed" in c
    X = gens.distinct_features(c["x"], c["n"] + c["q"], c["d"], c["seed"])
    Xtr, Xte = X[:c["n"]].copy(), X[c["n"]:].copy()
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    nn_test = ref.all_neighbors(Xtr, Xte, c["nn"])
    nn_train = ref.all_neighbors(Xtr, Xtr, c["nn"], np.arange(c["n"]))
    if nn_test is None or nn_train is None:
        raise Skip("tied distances")
    keep = Xtr.copy(), Xte.copy(), Y.copy()
    args = [k_args(p) for p in c["parts"]]
    kk = (args if c.get("listed") else tuple(args)) if multi else args[0]
    bc = {"full": c["n"], "more": c["n"] + 7,
          "part": max(1, c["n"] // 2)}[c["batch"]]
    kw = dict(nn_count=c["nn"], batch_count=bc, loss_fn=c08.loss_fn(c["loss"]),
              nn_kwargs=dict(c["nn_kwargs"]), **opt_args(c))
    if c["route"] == "do":
        m, lookup, mean, var = M.do_regress(Xte, Xtr, Y, k_kwargs=kk, **kw)
    else:
        if multi:
            m, lookup = M.make_multivariate_regressor(Xtr, Y, k_args=kk, **kw)
        else:
            m, lookup = M.make_regressor(Xtr, Y, k_kwargs=kk, **kw)
        mean, var, timing = M.regress_any(m, Xte, Xtr, lookup, Y)
    for a, b, w in zip((Xtr, Xte, Y), keep, ("train features",
                                             "test features", "responses")):
        close(w + " afterwards", a, b, 0, 0)
    check(isinstance(lookup, M.NN_Wrapper), "lookup is a %s", type(lookup))
    got, _ = lookup.get_nns(Xte)
    close("returned neighbor lookup", np.asarray(got), nn_test, 0, 0)
    check(isinstance(m, M.MultivariateMuyGPS if multi else M.MuyGPS),
          "regressor is a %s", type(m).__name__)
    models = m.models if multi else [m]
    check(len(models) == len(c["parts"]), "%s models", len(models))
    anyfree = any(p["free"] for p in c["parts"])
    everyone = c["batch"] != "part"
    means, varis, cond, moved, top = [], [], 1.0, False, 1e-3
    for i, (one, p) in enumerate(zip(models, c["parts"])):
        rep = reported(one)
        bounds = gens.bounds_of(p)
        check(sorted(rep) == sorted(bounds), "model is free in %s, expected "
              "%s", sorted(rep), sorted(bounds))
        for n, (v, b) in rep.items():
            lo, hi = bounds[n]
            check(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9),
                  "%s = %s outside of [%s, %s]", n, v, lo, hi)
        k = gens.with_params(p, {n: v for n, (v, _) in rep.items()})
        y = Y[:, i] if multi else Y
        scale = float(M.N(one.scale()).reshape(()))
        diag = np.full((c["n"], c["nn"]), float(k["noise"]["v"]))
        if p["scale_fn"] == "fixed" or not anyfree:
            close("fixed scale", scale, p["scale"], 1e-12, 0)
        elif everyone and ref.wobble(k["model"]) == 1.0:
            close("scale estimated on the training batch", scale,
                  ref.analytic_scale(k["model"], diag, Xtr, y, nn_train),
                  1e-5, 0)
        if everyone and p["free"]:
            full = dict(p, loss=c["loss"], b=c["n"], nn=c["nn"])
            a = (Xtr, y, np.arange(c["n"]), nn_train)
            was = c08.expected(full, {}, *a)
            now = c08.expected(full, {n: v for n, (v, _) in rep.items()}, *a)
            if max(was[1], now[1]) < 1e8 and min(was[2], now[2]) > 1e-6:
                check(now[0] >= was[0] - 1e-5 * (1 + abs(was[0])), "training "
                      "made the objective worse: %s -> %s", was[0], now[0])
                moved = moved or now[0] > was[0]
        mu, v, cd = ref.posteriors(
            k["model"], np.full((c["q"], c["nn"]), float(k["noise"]["v"])),
            Xte, Xtr, y, nn_test)
        means.append(mu)
        varis.append(scale * v)
        top = max(top, scale)
        cond = max(cond, cd)
    tol = 1e-6 + 1e-13 * cond
    if multi:
        means, varis = np.stack(means, 1), np.stack(varis, 1)
    else:
        means, varis = means[0], varis[0]
    size = max(1.0, np.abs(Y).max())
    close("workflow mean", mean, means, tol, tol * size)
    close("workflow variance", var, varis, tol, tol * top)
    return [c["loss"], c["opt"], "r=%d" % c["r"], c["route"],
            "batch:" + c["batch"], "moved" if moved else "stayed"] + (
        ["nt"] if c["q"] > 1 and c["nn"] > 1 and anyfree else [])


@st.composite
def bad_cases(draw):
    return {"r": draw(st.integers(1, 3)), "k": draw(st.integers(0, 4)),
            "seed": draw(gens.SEEDS),
            "what": draw(st.sampled_from(["count", "type"]))}


def run_bad(c):
    X = gens.features("normal", 8, 2, c["seed"])
    Y = gens.responses("normal", 8, c["r"], c["seed"])
    one = {"kernel": M.Matern(), "noise": M.HomoscedasticNoise(0.1)}
    if c["what"] == "type":
        raises("k_kwargs of another type", (ValueError,), M.do_regress,
               X[:2], X, Y, nn_count=3, k_kwargs="matern")
        return ["nt", "type"]
    if c["k"] == c["r"]:
        return []
    raises("%d models for %d responses" % (c["k"], c["r"]), (ValueError,),
           M.make_multivariate_regressor, X, Y, nn_count=3,
           k_args=[dict(one) for _ in range(c["k"])])
    return ["nt", "count"]


R = ("random data, models with any free hyperparameters, losses, optimizers, "
     "neighbor settings and scale functions; neighbors by brute force; "
     "non-trivial = several test points and neighbors, something trained")
register("C17", "univariate", cases(), R, 800, shards=4, weight=10)(run)
register("C17", "multivariate", cases(multi=True), R + "; one model per "
         "response", 400, shards=4, weight=20)(run)
register("C17", "refusals", bad_cases(), "mismatched model lists; non-trivial"
         " = mismatched", 100, shards=1)(run_bad)
for _m, _n in ((False, "univariate_large"), (True, "multivariate_large")):
    register("C17", _n, cases(multi=_m, n_max=150, nn_max=25, q_max=80,
                              r_max=5), R + "; up to 150 training and 80 test "
             "points, 25 neighbors", 60, shards=2, weight=60)(run)
