"""C20: shear kernels are the derivatives of a Gaussian potential."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens
from harness.checks import c08
from harness.checks.c09 import reported
from harness.core import Skip, check, close, raises, register

# each component as a combination of second derivatives (orders in x and y)
PARTS = [[(0.5, 2, 0), (0.5, 0, 2)], [(0.5, 2, 0), (-0.5, 0, 2)],
         [(1.0, 1, 1)]]
HE = [lambda t: np.ones_like(t), lambda t: t, lambda t: t * t - 1,
      lambda t: t ** 3 - 3 * t, lambda t: t ** 4 - 6 * t * t + 3]


def potential(diffs, a, b, ls):
    """d^a/dx^a d^b/dy^b of exp(-(x^2 + y^2) / (2 ls)) by Hermite functions."""
    s = np.sqrt(ls)
    x, y = diffs[..., 0] / s, diffs[..., 1] / s
    return ((-1) ** (a + b) * HE[a](x) * HE[b](y) * s ** -(a + b)
            * np.exp(-(x * x + y * y) / 2))


def block(diffs, i, j, ls):
    """Covariance of components i and j at the given differences."""
    return sum(u * v * potential(diffs, a + c, b + d, ls)
               for u, a, b in PARTS[i] for v, c, d in PARTS[j])


def cov(diffs, ls, ins, outs):
    """(..., n, m, 2) -> (..., len(ins), n, len(outs), m)"""
    rows = [np.stack([block(diffs, i, j, ls) for j in outs], axis=-2)
            for i in ins]
    return np.stack(rows, axis=-4)


def comps(c):
    return [0, 1, 2] if c["kernel"] == "33" else [1, 2]


@st.composite
def cases(draw, train=False, square=False):
    b, nn = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if square:
        b = nn
    kern = draw(st.sampled_from(["33", "23"]))
    ls = draw(st.sampled_from([0.02, 0.05, 0.3, 1.0, 2.0, 9.0]))
    c = {"kernel": kern, "b": b, "nn": nn, "seed": draw(gens.SEEDS),
         "n": draw(st.integers(nn + 2 + (b if train else 0), 18)),
         "m": draw(st.integers(1, 5)), "ls": ls,
         "x": draw(st.sampled_from(["normal", "uniform", "lattice", "line",
                                    "cluster", "dup"])),
         "stretch": draw(st.sampled_from([0.5, 1.0, 2.0])),
         "noise": draw(st.sampled_from(["homo", "shear"] if kern == "33"
                                       else ["homo"])),
         "rel": draw(st.sampled_from([1e-3, 1e-2, 0.3])),
         "other": draw(st.sampled_from([0.5, 0.9, 1.7])),
         "scale": draw(gens.SCALES)}
    if train:
        c["loss"] = draw(st.sampled_from(["mse", "lool", "lool_unscaled",
                                          "pseudo_huber"]))
        c["scale_fn"] = draw(st.sampled_from(["fixed", "analytic"]))
        c["free_noise"] = draw(st.booleans())
        c["mask"] = draw(st.sampled_from([None, None, [1, 2], [0], [2],
                                          [2, 0]]))
        c["points"] = draw(st.lists(st.tuples(
            st.sampled_from([None, 0.6, 0.8, 1.3, 1.9]),
            st.sampled_from([None, 0.2, 3.0])), min_size=1, max_size=3))
        c["opt"] = draw(st.sampled_from(["scipy", "bayes"]))
    return c


def noise_var(c):
    """Noise variance, relative to the prior variance 1/ls^2."""
    return c["rel"] / c["ls"] ** 2


def points(c, count, distinct=False):
    fn = gens.distinct_features if distinct else gens.features
    return fn(c["x"], count, 2, c["seed"]) * np.sqrt(c["ls"]) * c["stretch"]


def kernel(c, bounds=None):
    cls = M.ShearKernel if c["kernel"] == "33" else M.ShearKernel2in3out
    return cls(deformation=M.DifferenceIsotropy(
        M.F2, length_scale=build.scalar(c["ls"], bounds)))


def model(c, bounds=None, nbounds=None):
    cls = M.ShearNoise33 if c["noise"] == "shear" else M.HomoscedasticNoise
    args = (noise_var(c),) if nbounds is None else (noise_var(c), nbounds)
    scale = {"kind": "analytic", "val": c["scale"]} \
        if c.get("scale_fn") == "analytic" else c["scale"]
    return M.MuyGPS(kernel=kernel(c, bounds), noise=cls(*args),
                    scale=build.scale(scale))


def nugget(c, nn, var):
    per = [2 * var if c["noise"] == "shear" and i == 0 else var
           for i in comps(c)]
    return np.repeat(per, nn)


def run_kernel(c):
    Xtr, Xq = points(c, c["n"] + c["b"])[:c["n"]], None
    Xq = points(c, c["n"] + c["b"])[c["n"]:]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    k, ins, ls = kernel(c), comps(c), c["ls"]
    top = 2 / min(ls, ls * c["other"]) ** 2
    pd = k.deformation.pairwise_tensor(M.A(Xtr), M.AI(nn))
    cd = k.deformation.crosswise_tensor(
        M.A(Xq), M.A(Xtr), M.AI(np.arange(c["b"])), M.AI(nn))
    rp = Xtr[nn][:, :, None, :] - Xtr[nn][:, None, :, :]
    rc = Xq[:, None, :] - Xtr[nn]
    keep = M.N(pd).copy(), M.N(cd).copy()
    rt, at = (1e-4, 1e-4 * top) if M.f32() else (1e-10, 1e-11 * top)
    for over in ({}, {"length_scale": ls * c["other"]}):
        L = over.get("length_scale", ls)
        Kin = M.N(k(pd, **over))
        close("covariance", Kin, cov(rp, L, ins, ins), rt, at)
        flat = Kin.reshape(c["b"], len(ins) * c["nn"], -1)
        close("transposed covariance", np.swapaxes(flat, 1, 2), flat, 0,
              10 * at)
        low = np.linalg.eigvalsh(flat).min()
        check(low > -1e3 * at * c["nn"], "covariance has eigenvalue %s", low)
        if c["b"] != c["nn"]:
            Kc = M.N(k(cd, **over))
            want = cov(rc[:, :, None, :], L, ins, [0, 1, 2])[..., 0]
            close("cross-covariance", Kc, want, rt, at)
        # flat sets of points
        A, B = Xtr, Xtr[:c["m"]] + 0.1 * np.sqrt(ls)
        fd = A[:, None, :] - B[None, :, :]
        kw = {"adjust": False} if c["kernel"] == "33" else \
            {"force_Kcross": True}
        close("flat cross-covariance", M.N(k(M.A(fd), **kw, **over)),
              cov(fd, L, ins, [0, 1, 2]), rt, at)
        fp = A[:, None, :] - A[None, :, :]
        close("flat covariance", M.N(k(M.A(fp), **over)),
              cov(fp, L, ins, ins), rt, at)
    close("prior covariance", M.N(k.Kout()), np.diag([2.0, 1.0, 1.0])
          / ls ** 2, rt, at)
    close("pairwise tensor afterwards", M.N(pd), keep[0], 0, 0)
    close("crosswise tensor afterwards", M.N(cd), keep[1], 0, 0)
    labels = ["kernel:" + c["kernel"], "x:" + c["x"]]
    if c["b"] == 1 or c["nn"] == 1:
        labels.append("unit dimension")
    return labels + (["nt"] if c["nn"] > 1 else [])


def conditional(c, ls, var, Xtr, Y, nn, x):
    """Dense conditional of the three components at x: mean, covariance,
    normalized quadratic form of the responses, condition."""
    ins, P, y = comps(c), Xtr[nn], Y[nn][:, comps(c)].T.reshape(-1)
    size = len(ins) * len(nn)
    K = cov(P[:, None] - P[None], ls, ins, ins).reshape(size, size)
    K = K + np.diag(nugget(c, len(nn), var))
    k = cov((x[None] - P)[:, None], ls, ins, [0, 1, 2]).reshape(size, 3)
    w, V = np.linalg.eigh(K)
    F = V @ ((V.T @ k) / w[:, None])
    quad = ((V.T @ y) ** 2 / w).sum() / size
    return (F.T @ y, np.diag([2.0, 1.0, 1.0]) / ls ** 2 - F.T @ k, quad,
            w[-1] / max(w[0], 1e-300))


def conditionals(c, ls, var, Xtr, Y, nn, X):
    out = [conditional(c, ls, var, Xtr, Y, ix, x) for ix, x in zip(nn, X)]
    cond = max(o[3] for o in out)
    if cond > (1e3 if M.f32() else 1e9):
        raise Skip("ill-conditioned")
    return (np.array([o[0] for o in out]), np.array([o[1] for o in out]),
            float(np.mean([o[2] for o in out])), cond)


def tensors(c, t):
    """The library wants responses as (batch, component, neighbor)."""
    t = t.swapaxes(-2, -1)
    return t if c["kernel"] == "33" else t[:, 1:, :]


def kernels(c, m, pair, cross):
    return m.kernel(pair), m.kernel(cross)


def tolerance(cond):
    return 2e-5 * cond + 1e-3 if M.f32() else 1e-8 + 1e-14 * cond


def run_predict(c, what=("mean", "variance", "scale")):
    if c["b"] == c["nn"]:
        c = dict(c, b=c["b"] + 1)
    X = points(c, c["n"] + c["b"])
    Xtr, Xq = X[:c["n"]], X[c["n"]:]
    Y = gens.responses("normal", c["n"], 3, c["seed"]) / c["ls"]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    mean, var, quad, cond = conditionals(c, c["ls"], noise_var(c), Xtr, Y, nn,
                                         Xq)
    tol = tolerance(cond)
    m = model(c)
    cross, pair, nnt = m.make_predict_tensors(
        M.AI(np.arange(c["b"])), M.AI(nn), M.A(Xq), M.A(Xtr), M.A(Y))
    t = tensors(c, nnt)
    Kin, Kc = kernels(c, m, pair, cross)
    keep = M.N(Kin).copy(), M.N(Kc).copy(), M.N(t).copy()
    size = max(1.0, np.abs(Y).max())
    top = 2 / c["ls"] ** 2
    means = m.posterior_mean(Kin, Kc, t)
    variances = m.posterior_variance(Kin, Kc)
    if "mean" in what:
        close("shear mean", M.N(means), mean, tol, tol * size)
    if "variance" in what:
        close("shear variance", M.N(variances), c["scale"] * var, tol,
              tol * top * c["scale"])
    for a, b in zip((Kin, Kc, t), keep):
        close("tensors afterwards", M.N(a), b, 0, 0)
    if "scale" in what and c["kernel"] == "33" and M.backend() == "numpy":
        am = model(dict(c, scale_fn="analytic"))
        am.optimize_scale(pair, t)
        close("analytic scale", float(M.N(am.scale()).reshape(())), quad,
              10 * tol, 0)
        close("shear variance at the analytic scale",
              M.N(am.posterior_variance(Kin, Kc)), quad * var, 10 * tol,
              10 * tol * top * quad)
    # a changed length scale moves the prior as well
    L = c["ls"] * c["other"]
    mean2, var2, _, cond2 = conditionals(c, L, noise_var(c), Xtr, Y, nn, Xq)
    tol2 = tolerance(cond2)
    m.kernel.set_params(length_scale=M.ScalarParam(L))
    Kin, Kc = kernels(c, m, pair, cross)
    if "mean" in what:
        close("shear mean at the new length scale",
              M.N(m.posterior_mean(Kin, Kc, t)), mean2, tol2, tol2 * size)
    if "variance" in what:
        close("shear variance at the new length scale",
              M.N(m.posterior_variance(Kin, Kc)), c["scale"] * var2, tol2,
              tol2 * c["scale"] * 2 / L ** 2)
    return ["kernel:" + c["kernel"], "noise:" + c["noise"]] + (
        ["nt"] if c["nn"] > 1 and c["b"] > 1 else []) + (
        ["unit dimension"] if 1 in (c["b"], c["nn"]) else [])


def objective_value(c, ls, var, Xtr, Y, nn, batch):
    """(minus loss of the leave-one-out predictions, condition)"""
    mean, S, quad, cond = conditionals(c, ls, var, Xtr, Y, nn, Xtr[batch])
    t = Y[batch]
    if c["mask"] is not None:
        mean, t = mean[:, c["mask"]], t[:, c["mask"]]
    if c["loss"] == "mse":
        return -float(np.mean((mean - t) ** 2)), cond
    if c["loss"] == "pseudo_huber":
        return -float(1.5 ** 2 * np.sum(
            np.sqrt(1 + ((t - mean) / 1.5) ** 2) - 1)), cond
    scale = 1.0 if c["loss"] == "lool_unscaled" else \
        quad if c["scale_fn"] == "analytic" else c["scale"]
    out = 0.0
    for r, s in zip(mean - t, scale * S):
        if c["mask"] is not None:  # the selected components' own variances
            s = np.diag(np.diag(s)[c["mask"]])
        w, V = np.linalg.eigh(s)
        if w[0] < 1e-6 * w[-1]:
            raise Skip("degenerate posterior covariance")
        out += ((V.T @ r) ** 2 / w).sum() + np.log(w).sum()
    return -float(out), cond


def training(c):
    if c["b"] == c["nn"]:
        c = dict(c, b=c["b"] + 1)
    X = points(c, c["n"], distinct=True)
    Y = gens.responses("normal", c["n"], 3, c["seed"]) / c["ls"]
    batch = np.random.default_rng([c["seed"], 4]).permutation(c["n"])[:c["b"]]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"],
                               exclude=batch)
    bounds = (0.5 * c["ls"], 2.0 * c["ls"])
    v = noise_var(c)
    nb = (0.1 * v, 10 * v) if c["free_noise"] else None
    m = model(c, bounds, nb)
    cross, pair, bt, bnnt = m.make_train_tensors(
        M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
    if c["mask"] is not None:
        bt = bt[:, c["mask"]]
    return c, X, Y, batch, nn, bounds, nb, m, cross, pair, bt, tensors(c, bnnt)


def run_objective(c):
    c, X, Y, batch, nn, _, _, m, cross, pair, bt, bnnt = training(c)
    obj = M.make_loo_crossval_fn(
        c08.loss_fn(c["loss"]), m.kernel.get_opt_fn(), m.get_opt_mean_fn(),
        m.get_opt_var_fn(), m.scale.get_opt_fn(m), pair, cross, bnnt, bt,
        target_mask=c["mask"])
    moved = False
    for f, g in c["points"] + [(None, None)]:
        ls = c["ls"] * (f or 1.0)
        var = noise_var(c) * ((g or 1.0) if c["free_noise"] else 1.0)
        kw = {} if f is None else {"length_scale": ls}
        if c["free_noise"] and g is not None:
            kw["noise"] = var
        want, cond = objective_value(c, ls, var, X, Y, nn, batch)
        tol = 100 * tolerance(cond)
        close("objective of %s at %s" % (c["loss"], sorted(kw)),
              float(M.N(obj(**kw)).reshape(())), want, tol, tol)
        moved = moved or bool(kw)
    close("length scale afterwards", float(M.N(
        m.kernel.deformation.length_scale())), c["ls"], 1e-12, 0)
    return [c["loss"], "kernel:" + c["kernel"]] + (
        ["mask"] if c["mask"] else []) + (
        ["nt"] if moved and c["nn"] > 1 else [])


def run_optimize(c):
    c, X, Y, batch, nn, bounds, nb, m, cross, pair, bt, bnnt = training(c)
    v0 = noise_var(c)
    want = {"length_scale": bounds}
    if nb:
        want["noise"] = nb
    kw = {"init_points": 2, "n_iter": 2, "random_state": 3,
          "allow_duplicate_points": True} if c["opt"] == "bayes" else {}
    fn = M.Bayes_optimize if c["opt"] == "bayes" else M.L_BFGS_B_optimize
    start, cond0 = objective_value(c, c["ls"], v0, X, Y, nn, batch)
    new = fn(m, bt, bnnt, cross, pair, loss_fn=c08.loss_fn(c["loss"]),
             target_mask=c["mask"], **kw)
    rep = reported(new)
    check(sorted(rep) == sorted(want), "free in %s instead of %s",
          sorted(rep), sorted(want))
    for n, (v, _) in rep.items():
        check(want[n][0] * (1 - 1e-9) <= v <= want[n][1] * (1 + 1e-9),
              "%s = %s outside of %s", n, v, want[n])
    ls = rep["length_scale"][0]
    var = rep["noise"][0] if nb else v0
    end, cond = objective_value(c, ls, var, X, Y, nn, batch)
    if max(cond, cond0) < 1e7:
        check(end >= start - 1e-5 * (1 + abs(start)), "optimization made the "
              "objective worse: %s -> %s", start, end)
    close("length scale of the original", float(M.N(
        m.kernel.deformation.length_scale())), c["ls"], 1e-12, 0)
    mean, S, _, cd = conditionals(c, ls, var, X, Y, nn, X[batch])
    tol = tolerance(cd)
    Kin, Kc = kernels(c, new, pair, cross)
    close("optimized model mean", M.N(new.posterior_mean(Kin, Kc, bnnt)),
          mean, tol, tol * max(1.0, np.abs(Y).max()))
    close("optimized model variance", M.N(new.posterior_variance(Kin, Kc)),
          c["scale"] * S, tol, tol * c["scale"] * 2 / ls ** 2)
    return [c["loss"], c["opt"], "moved" if end > start else "stayed"] + (
        ["nt"] if end > start else [])


def run_square(c):
    """As many test points as neighbors: the documented call shape."""
    X = points(c, c["n"] + c["b"])
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    k, ins = kernel(c), comps(c)
    Xtr, Xq = X[:c["n"]], X[c["n"]:]
    cd = k.deformation.crosswise_tensor(
        M.A(Xq), M.A(Xtr), M.AI(np.arange(c["b"])), M.AI(nn))
    got = M.N(k(cd))
    name = "cross-covariance of as many test points as neighbors"
    rc = Xq[:, None, :] - Xtr[nn]
    close(name, got, cov(
        rc[:, :, None, :], c["ls"], ins, [0, 1, 2])[..., 0], 1e-9,
        1e-10 / c["ls"] ** 2)
    return ["nt"]


def known_square(case, detail):
    """Only the default call on a square crosswise tensor."""
    if case["b"] == case["nn"] and detail.startswith(
            "cross-covariance of as many test points as neighbors:"):
        return "shear-square-crosswise"
    return None


def run_refuse(c):
    cls = M.ShearKernel if c["kernel"] == "33" else M.ShearKernel2in3out
    raises("shear kernel over distances", (ValueError,), cls,
           deformation=M.Isotropy(M.F2, length_scale=M.ScalarParam(c["ls"])))
    raises("shear kernel over anisotropic differences", (ValueError,), cls,
           deformation=M.Anisotropy(M.F2, length_scale=M.VectorParam(
               M.ScalarParam(c["ls"]), M.ScalarParam(c["ls"]))))
    d = cls()
    close("default length scale", float(M.N(d.deformation.length_scale())),
          1.0, 0, 0)
    return ["nt"]


R = ("random two-dimensional points (lattices, lines, duplicates), length "
     "scales, batch and neighbor counts including one, both kernels; ")
register("C20", "kernel", cases(), R + "non-trivial = several neighbors",
         2500, shards=2)(run_kernel)
register("C20", "predict", cases(), R + "both noise models; non-trivial = "
         "several neighbors and test points", 2500, shards=3)(run_predict)
register("C20", "objective", cases(train=True), R + "four losses, masks, "
         "candidate points; non-trivial = a candidate off the model's values",
         1200, shards=2)(run_objective)
register("C20", "optimize", cases(train=True), R + "non-trivial = the "
         "objective improved", 250, shards=4, weight=20)(run_optimize)
register("C20", "square", cases(square=True), "as many test points as "
         "neighbors; non-trivial = all", 60, shards=1,
         known=known_square)(run_square)
register("C20", "refusals", cases(), "kernels over other deformations; "
         "non-trivial = all", 20, shards=1)(run_refuse)

# the same models under the properties that hold for every kernel
MULTI = ("shear models (several outputs per point), both kernels and noise "
         "models; non-trivial = several neighbors and test points")


def only(what):
    return lambda c: run_predict(c, (what,))


register("C01", "shear", cases(), MULTI, 600, shards=1)(only("mean"))
register("C02", "shear", cases(), MULTI, 600, shards=1)(only("variance"))
register("C10", "shear", cases(), MULTI, 600, shards=1)(only("scale"))
register("C08", "shear", cases(train=True), MULTI, 300,
         shards=1)(run_objective)
register("C09", "shear", cases(train=True), MULTI, 60, shards=2,
         weight=20)(run_optimize)
