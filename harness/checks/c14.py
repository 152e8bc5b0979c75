"""C14: multivariate models are independent univariate models."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import Skip, check, close, raises, register
from harness.checks.c13 import lax, tolerance


@st.composite
def cases(draw, generic=True, r_max=4, **kw):
    c = draw(gens.problem(generic=generic, r_min=1, r_max=r_max, **kw))
    defs = ("iso",) if draw(st.booleans()) else ("diff", "aniso")
    # models over raw differences may mix metrics; distance models may not
    kernels = (draw(st.sampled_from(["matern", "rbf"])),) \
        if defs == ("iso",) else ("matern", "rbf")
    c["parts"] = [{
        "model": draw(gens.kernel_spec(c["d"], generic=generic, defs=defs,
                                       kernels=kernels,
                                       metrics=defs != ("iso",))),
        "noise": draw(gens.noise_spec(("homo", "hetero", "null"))),
        "scale": {"kind": draw(st.sampled_from(["fixed", "analytic"])),
                  "val": draw(gens.SCALES)}} for _ in range(c["r"])]
    if draw(st.booleans()):  # models that differ in little
        for p in c["parts"][1:]:
            if p["model"]["def"] == c["parts"][0]["model"]["def"]:
                p["model"]["ls"] = list(c["parts"][0]["model"]["ls"])
    c["other"] = draw(gens.SEEDS)
    c["which"] = draw(st.integers(0, c["r"] - 1))
    return c


def multi(c):
    b, nn = c["b"], c["nn"]
    return M.MultivariateMuyGPS(*[{
        "kernel": build.kernel(p["model"]),
        "noise": build.noise(p["noise"], gens.noise_diag(p["noise"], b, nn)),
        "scale": build.scale(p["scale"])} for p in c["parts"]])


def uni(c, i):
    p = c["parts"][i]
    return build.model(p, gens.noise_diag(p["noise"], c["b"], c["nn"]))


def run(c):
    Xtr, Xte, Y, nn, _ = gens.expand(c)
    b, r = c["b"], c["r"]
    means, varis, scales, cond = [], [], [], 1.0
    for i, p in enumerate(c["parts"]):
        diag = gens.noise_diag(p["noise"], b, c["nn"])
        mu, v, cd = ref.posteriors(p["model"], diag, Xte, Xtr, Y[:, i], nn)
        means.append(mu)
        varis.append(v)
        cond = max(cond, cd)
        scales.append(ref.analytic_scale(p["model"], diag, Xtr, Y[:, i], nn)
                      if p["scale"]["kind"] == "analytic"
                      else p["scale"]["val"])
    tol = tolerance(cond)
    means, varis = np.stack(means, 1), np.stack(varis, 1)
    start = np.array([p["scale"]["val"] for p in c["parts"]])
    size = max(1.0, np.abs(Y).max())
    mm = multi(c)
    check(mm.fixed(), "multivariate model of fixed models is not fixed")
    args = (M.AI(np.arange(b)), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Y))
    cross, pair, nnt = mm.make_predict_tensors(*args)
    d0 = M.N(pair).copy(), M.N(cross).copy(), M.N(nnt).copy()
    close("multivariate mean", M.N(mm.posterior_mean(pair, cross, nnt)),
          means, tol, tol * size)
    close("multivariate variance", M.N(mm.posterior_variance(pair, cross)),
          start * varis, tol, tol * start.max())
    mean, var = M.regress_from_indices(mm, *args)
    close("multivariate mean from indices", M.N(mean), means, tol, tol * size)
    close("multivariate variance from indices", M.N(var), start * varis, tol,
          tol * start.max())
    coef = M.N(mm.fast_coefficients(pair, nnt))
    fast = M.N(mm.fast_posterior_mean(cross, M.A(coef)))
    csize = max(1.0, np.abs(coef).max()) * c["nn"]
    lax("fast mean over the same neighborhoods", fast, means, tol,
        max(size, csize))
    close("targets afterwards", M.N(nnt), d0[2], 0, 0)
    close("pairwise tensor afterwards", M.N(pair), d0[0], 0, 0)
    close("crosswise tensor afterwards", M.N(cross), d0[1], 0, 0)
    for again in range(2):
        mm.optimize_scale(pair, nnt)
        got = np.array([float(M.N(m.scale())) for m in mm.models])
        close("multivariate scales", got, np.array(scales), 10 * tol, 0)
        close("multivariate variance after scaling",
              M.N(mm.posterior_variance(pair, cross)),
              np.array(scales) * varis, 10 * tol, 10 * tol * max(scales))
    raises("scales of %d responses with %d models" % (r + 1, r),
           (ValueError,), mm.optimize_scale, pair,
           M.A(np.concatenate([Y, Y[:, :1]], axis=1)[nn]))
    # differential: the univariate models on their own response
    for i in range(r):
        m = uni(c, i)
        cr, pr, yi = m.make_predict_tensors(
            *args[:4], M.A(Y[:, i]))
        Kin, Kc = m.kernel(pr), m.kernel(cr)
        close(f"response {i}: univariate mean", M.N(
            m.posterior_mean(Kin, Kc, yi)), means[:, i], tol, tol * size)
        lax(f"response {i}: univariate coefficients",
            M.N(m.fast_coefficients(Kin, yi)), coef[:, :, i], tol, csize)
        m.optimize_scale(pr, yi)
        close(f"response {i}: univariate scale", M.N(m.scale()).reshape(()), scales[i],
              10 * tol, 0)
    labels = ["r=%d" % r, "def:" + c["parts"][0]["model"]["def"]]
    if r > 1 and b > 1 and c["nn"] > 1:
        labels.append("nt")
    if len({p["model"]["kernel"] for p in c["parts"]}) > 1:
        labels.append("mixed kernels")
    for a, z, name in [("r", "nn", "r=nn"), ("b", "nn", "b=nn"),
                       ("r", "b", "r=b")]:
        if c[a] == c[z]:
            labels.append(name)
    return labels


def run_isolation(c):
    """Changing one response's data or model leaves the others alone."""
    Xtr, Xte, Y, nn, _ = gens.expand(c)
    b, r, w = c["b"], c["r"], c["which"]
    tol = 0.0
    for p in c["parts"]:
        _, _, cond = ref.posteriors(p["model"], gens.noise_diag(
            p["noise"], b, c["nn"]), Xte, Xtr, Y[:, 0], nn)
        tol = max(tol, tolerance(cond))
    Y2 = Y.copy()
    Y2[:, w] = gens.responses("large", c["n"], 0, c["other"])
    mm = multi(c)

    def everything(m, Yc):
        cross, pair, nnt = m.make_predict_tensors(
            M.AI(np.arange(b)), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Yc))
        return [M.N(x) for x in (
            m.posterior_mean(pair, cross, nnt),
            m.posterior_variance(pair, cross),
            m.fast_coefficients(pair, nnt))], pair, nnt

    def size(x):
        return max(1.0, np.abs(x).max())

    before, pair, nnt = everything(mm, Y)
    after, _, nnt2 = everything(mm, Y2)
    keep = [i for i in range(r) if i != w]
    for x, y, name in zip(before, after, ("mean", "variance",
                                          "coefficients")):
        close(f"{name} of other responses after changing response {w}",
              y[..., keep], x[..., keep], tol, tol * size(x))
    close("variance after changing responses", after[1], before[1], tol,
          tol * size(before[1]))
    # a model change
    aniso = c["parts"][w]["model"]["def"] == "aniso"
    mm.models[w].kernel.set_params(**{
        "length_scale0" if aniso else "length_scale": M.ScalarParam(0.77)})
    changed, _, _ = everything(mm, Y)
    for x, y, name in zip(before, changed, ("mean", "variance",
                                            "coefficients")):
        close(f"{name} of other responses after changing model {w}",
              y[..., keep], x[..., keep], tol, tol * size(x))
    # a permutation of responses and models permutes the predictions
    order = np.random.default_rng(c["other"]).permutation(r)
    pc = dict(c, parts=[c["parts"][i] for i in order])
    got, _, _ = everything(multi(pc), Y[:, order])
    for x, y, name in zip(before, got, ("mean", "variance", "coefficients")):
        close(f"{name} of permuted responses", y, x[..., order], tol,
              tol * size(x))
    return ["r=%d" % r] + (["nt"] if r > 1 and b > 1 else [])


@st.composite
def train_cases(draw):
    c = draw(gens.problem(generic=False, r_min=1, r_max=3, n_max=18,
                          kinds=["normal", "uniform"], noise=("homo",),
                          defs=("iso",)))
    kern = c["model"]["kernel"]
    c["n"] = max(c["n"], c["nn"] + 2)
    c["parts"] = [{"model": draw(gens.kernel_spec(
        c["d"], generic=False, defs=("iso",), kernels=(kern,))),
        "noise": draw(gens.noise_spec(("homo",))),
        "free": draw(st.booleans()),
        "scale": {"kind": draw(st.sampled_from(["fixed", "analytic"])),
                  "val": draw(gens.SCALES)}} for _ in range(c["r"])]
    c["opt"] = draw(st.sampled_from(["bayes", "scipy"]))
    return c


def run_train(c):
    """Training a multivariate regressor trains each response on its own."""
    X = gens.distinct_features(c["x"], c["n"], c["d"], c["seed"])
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    nn = ref.all_neighbors(X, X, c["nn"], np.arange(c["n"]))
    if nn is None:
        raise Skip("tied distances")
    args = []
    for p in c["parts"]:
        ns = dict(p["noise"])
        if p["free"]:
            ns["bounds"] = [0.5 * ns["v"], 3 * ns["v"]]
        args.append({"kernel": build.kernel(p["model"]), "noise":
                     build.noise(ns, None), "scale": build.scale(p["scale"])})
    kw = {"opt_fn": M.Bayes_optimize, "opt_kwargs": {
        "init_points": 2, "n_iter": 1, "random_state": 1}} \
        if c["opt"] == "bayes" else {"opt_fn": M.L_BFGS_B_optimize}
    mm, lookup = M.make_multivariate_regressor(
        X, Y, nn_count=c["nn"], batch_count=c["n"], loss_fn=M.mse_fn,
        k_args=args, **kw)
    check(len(mm.models) == c["r"], "%s models for %s responses",
          len(mm.models), c["r"])
    anyfree = any(p["free"] for p in c["parts"])
    for i, (m, p) in enumerate(zip(mm.models, c["parts"])):
        v = float(M.N(m.noise()))
        if p["free"]:
            lo, hi = 0.5 * p["noise"]["v"], 3 * p["noise"]["v"]
            check(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9),
                  "response %s: noise %s outside of [%s, %s]", i, v, lo, hi)

            def loss(x):
                mu, _, _ = ref.posteriors(p["model"], np.full(
                    (c["n"], c["nn"]), x), X, X, Y[:, i], nn)
                return ref.mse(mu, Y[:, i])

            was, now = loss(p["noise"]["v"]), loss(v)
            check(now <= was + 1e-6 * (1 + was), "response %s: training made "
                  "its own loss worse: %s -> %s", i, was, now)
        else:
            close(f"response {i}: fixed noise", v, p["noise"]["v"], 1e-12, 0)
        want = p["scale"]["val"]
        if p["scale"]["kind"] == "analytic" and anyfree:
            want = ref.analytic_scale(p["model"], np.full(
                (c["n"], c["nn"]), v), X, Y[:, i], nn)
        close(f"response {i}: scale", M.N(m.scale()), want, 1e-5, 0)
    return ["free=%d" % sum(p["free"] for p in c["parts"])] + (
        ["nt"] if anyfree and c["r"] > 1 else [])


R = ("random per-response models (kernel, smoothness, length scales, noise, "
     "scale all different); non-trivial = several responses, neighbors and "
     "batch elements")
register("C14", "differential", cases(), R, 2500, shards=4)(run)
register("C14", "isolation", cases(), R + "; one response perturbed, all "
         "permuted", 1500, shards=2)(run_isolation)
register("C14", "training", train_cases(), R + "; full training batch", 250,
         shards=3, weight=10)(run_train)
register("C14", "differential_large", cases(
    r_max=9, n_max=150, nn_max=40, b_max=50, d_max=10), R + "; up to 9 "
    "responses, 50 batch elements, 40 neighbors", 120, shards=2,
    weight=20)(run)
register("C14", "differential_huge", gens.huge(cases()), R + "; thousands of "
         "batch elements, hundreds of neighbors or features, or tens of "
         "thousands of training points", 50, shards=2, weight=60)(run)
