"""C13: fast posterior means equal ordinary posterior means."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import Skip, check, close, register, same_shape


def tolerance(cond):
    if M.f32():
        if cond > 1e3:
            raise Skip("ill-conditioned")
        return 2e-5 * cond + 1e-3
    if cond > 1e9:
        raise Skip("ill-conditioned")
    return 1e-7 + 1e-14 * cond


def lax(name, got, want, tol, size):
    """Compare; a single response column may be squeezed."""
    if want.ndim > 1 and want.shape[-1] == 1 and got.ndim == want.ndim - 1:
        want = want[..., 0]
    close(name, got, want, tol, tol * size)


@st.composite
def cases(draw, generic=True, **kw):
    return draw(gens.problem(generic=generic, noise=("homo", "hetero",
                                                     "null"), **kw))


def run_algebra(c):
    """Coefficients of arbitrary neighborhoods, applied to arbitrary queries."""
    Xtr, Xte, Y, _, _ = gens.expand(c)
    t = c["n"]  # as many neighborhoods as training points
    nn = gens.neighbor_indices(c["n"], t, c["nn"], c["seed"])
    diag = gens.noise_diag(c["noise"], t, c["nn"])
    m = build.model(c, diag)
    pair = m.kernel.deformation.pairwise_tensor(M.A(Xtr), M.AI(nn))
    want, conds = zip(*[ref.coefficients(c["model"], diag[i], Xtr[nn[i]],
                                         Y[nn[i]]) for i in range(t)])
    want, cond = np.array(want), max(conds)
    tol = tolerance(cond)
    size = max(1.0, np.abs(want).max())
    Kin, targets = m.kernel(pair), M.A(Y[nn])
    k0, t0 = M.N(Kin).copy(), M.N(targets).copy()
    coeffs = m.fast_coefficients(Kin, targets)
    lax("fast coefficients", M.N(coeffs), want, tol, size)
    close("covariance afterwards", M.N(Kin), k0, 0, 0)
    close("targets afterwards", M.N(targets), t0, 0, 0)
    # queries use whatever neighborhood they are assigned
    closest = np.random.default_rng([c["seed"], 11]).integers(0, t, c["b"])
    cross = m.kernel.deformation.crosswise_tensor(
        M.A(Xte), M.A(Xtr), M.AI(np.arange(c["b"])), M.AI(nn[closest]))
    got = m.fast_posterior_mean(m.kernel(cross), coeffs[M.AI(closest)])
    k = np.array([ref.cov(c["model"], Xtr[nn[j]], Xte[i:i + 1])[:, 0]
                  for i, j in enumerate(closest)])
    mean = np.einsum("bn,bn...->b...", k, want[closest])
    lax("fast posterior mean", M.N(got), mean, tol, c["nn"] * size)
    same = M.N(M.fast_posterior_mean_from_indices(
        m, M.AI(np.arange(c["b"])), M.AI(nn[closest]), M.A(Xte), M.A(Xtr),
        M.AI(closest), coeffs))
    lax("fast posterior mean from indices", same, mean, tol, c["nn"] * size)
    # and equals the ordinary prediction over the same neighborhoods
    m2 = build.model(c, diag[closest])
    cr, pr, nnt = m2.make_predict_tensors(
        M.AI(np.arange(c["b"])), M.AI(nn[closest]), M.A(Xte), M.A(Xtr),
        M.A(Y))
    lax("fast against ordinary posterior mean", M.N(got), M.N(
        m2.posterior_mean(m2.kernel(pr), m2.kernel(cr), nnt)), tol,
        c["nn"] * size)
    out = [c["model"]["kernel"], c["model"]["def"], "r=%d" % c["r"],
           "noise:" + c["noise"]["kind"]]
    for a in "b", "nn":
        if c[a] == 1:
            out.append(a + "=1")
    if c["nn"] > 1 and c["b"] > 1 and c["y"] != "constant":
        out.append("nt")
    return out


@st.composite
def tensor_cases(draw):
    nn = draw(st.integers(1, 7))
    return {"nn": nn, "n": draw(st.integers(nn + 1, 15)),
            "d": draw(st.integers(1, 4)), "r": draw(st.integers(0, 3)),
            "seed": draw(gens.SEEDS)}


def run_tensors(c):
    n, nn = c["n"], c["nn"]
    X = gens.features("normal", n, c["d"], c["seed"])
    Y = gens.responses("normal", n, c["r"], c["seed"])
    ix = gens.neighbor_indices(n, n, nn, c["seed"], exclude=np.arange(n))
    want = np.array([[i] + list(row[:-1]) for i, row in enumerate(ix)])
    arg = M.AI(ix)
    close("updated neighborhoods", M.N(M.fast_nn_update(arg)), want, 0, 0)
    # rows that lead with themselves (found by querying the training features)
    own = np.random.default_rng([c["seed"], 4]).uniform(size=n) < 0.5
    mixed = np.where(own[:, None], want, ix)
    close("neighborhoods updated once more", M.N(M.fast_nn_update(
        M.AI(mixed))), want, 0, 0)
    pair, targets = M.make_fast_predict_tensors(
        M.AI(mixed) if c["seed"] % 2 else arg, M.A(X), M.A(Y))
    close("neighborhoods afterwards", M.N(arg), ix, 0, 0)
    eps = 1e-6 if M.f32() else 0
    close("fast targets", M.N(targets), Y[want], eps, eps)
    diffs = np.array([[[X[a] - X[b] for b in row] for a in row]
                      for row in want])
    close("fast pairwise differences", M.N(pair), diffs, eps, eps)
    close("batch features", M.N(M.batch_features_tensor(
        M.A(X), M.AI(want[:, 0][::-1].copy()))), X[::-1], eps, eps)
    return ["r=%d" % c["r"]] + (["nt"] if nn > 1 else [])


@st.composite
def flow_cases(draw, generic=True, n_max=20, **kw):
    c = draw(gens.problem(generic=generic, noise=("homo",), n_max=n_max, **kw,
                          kinds=["normal", "uniform", "cluster"]))
    c["multi"] = draw(st.booleans())
    c["n"] = max(c["n"], c["nn"] + 2)
    if c["multi"]:
        c["r"] = max(1, c["r"])
        base = c["model"]["def"]
        # one metric serves every response of a multivariate model
        c["models"] = [c["model"]] + [draw(gens.kernel_spec(
            c["d"], generic=generic, defs=(base,),
            kernels=(c["model"]["kernel"],))) for _ in range(c["r"] - 1)]
        c["noises"] = [c["noise"]] + [draw(gens.noise_spec(("homo",)))
                                      for _ in range(c["r"] - 1)]
    c["route"] = draw(st.sampled_from(["any", "parts"]))
    return c


def run_flow(c):
    X = gens.distinct_features(c["x"], c["n"] + c["b"], c["d"], c["seed"])
    Xtr, Xte = X[:c["n"]], X[c["n"]:]
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    nn = ref.all_neighbors(Xtr, Xtr, c["nn"], np.arange(c["n"]))
    first = ref.all_neighbors(Xtr, Xte, 1)
    if nn is None or first is None:
        raise Skip("tied distances")
    nn = np.concatenate([np.arange(c["n"])[:, None], nn[:, :-1]], axis=1)
    close_ = first[:, 0]
    specs = c["models"] if c["multi"] else [c["model"]]
    noises = c["noises"] if c["multi"] else [c["noise"]]
    wantm, wantc, cond = [], [], 1.0
    for i, (s, ns) in enumerate(zip(specs, noises)):
        y = Y[:, i] if c["multi"] else Y
        co, cd = zip(*[ref.coefficients(s, np.full(c["nn"], ns["v"]),
                                        Xtr[nn[j]], y[nn[j]])
                       for j in range(c["n"])])
        co, cond = np.array(co), max(cond, max(cd))
        k = np.array([ref.cov(s, Xtr[nn[j]], Xte[q:q + 1])[:, 0]
                      for q, j in enumerate(close_)])
        wantc.append(co)
        wantm.append(np.einsum("bn,bn...->b...", k, co[close_]))
    tol = tolerance(cond)
    if c["multi"]:
        mean, coef = np.stack(wantm, -1), np.stack(wantc, -1)
        m = M.MultivariateMuyGPS(*[
            {"kernel": build.kernel(s), "noise": build.noise(ns, None)}
            for s, ns in zip(specs, noises)])
    else:
        mean, coef = wantm[0], wantc[0]
        m = build.model(c, None)
    size = c["nn"] * max(1.0, np.abs(coef).max())
    lookup = M.NN_Wrapper(M.A(Xtr), c["nn"])
    aXtr, aXte, aY = M.A(Xtr), M.A(Xte), M.A(Y)
    if c["route"] == "any":
        got, gotc, _ = M.fast_posterior_mean_any(m, aXte, aXtr, lookup, aY)
    else:
        make = M.make_fast_multivariate_regressor if c["multi"] \
            else M.make_fast_regressor
        gotc, gotn = make(m, lookup, aXtr, aY)
        close("neighborhoods", M.N(gotn), nn, 0, 0)
        got = M.fast_posterior_mean_from_indices(
            m, M.AI(np.arange(c["b"])), M.AI(nn[close_]), aXte, aXtr,
            M.AI(close_), gotc)
    lax("precomputed coefficients", M.N(gotc), coef, tol, size)
    lax("fast posterior mean", M.N(got), mean, tol, size)
    close("test features afterwards", M.N(aXte), Xte, 1e-6, 0)
    return [c["route"], "multi" if c["multi"] else "single", "r=%d" % c["r"],
            ] + (["nt"] if c["b"] > 1 and c["nn"] > 1
                 and c["y"] != "constant" else [])


@st.composite
def do_cases(draw):
    c = draw(flow_cases(generic=False))
    c["free"] = draw(st.booleans())
    c["opt"] = draw(st.sampled_from(["bayes", "scipy"]))
    return c


def run_do(c):
    """The one-call workflow agrees with the regressor it returns."""
    X = gens.distinct_features(c["x"], c["n"] + c["b"], c["d"], c["seed"])
    Xtr, Xte = X[:c["n"]], X[c["n"]:]
    c["r"] = c["r"] if c["multi"] else min(c["r"], 1)
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    nn = ref.all_neighbors(Xtr, Xtr, c["nn"], np.arange(c["n"]))
    first = ref.all_neighbors(Xtr, Xte, 1)
    if nn is None or first is None:
        raise Skip("tied distances")
    specs = c["models"] if c["multi"] else [c["model"]]
    noises = c["noises"] if c["multi"] else [c["noise"]]
    args = []
    for i, (s, ns) in enumerate(zip(specs, noises)):
        if c["free"] and i % 2 == 0:
            ns = dict(ns, bounds=[ns["v"] * 0.5, ns["v"] * 2])
        args.append({"kernel": build.kernel(s), "noise": build.noise(ns, None)})
    kw = {"opt_fn": M.Bayes_optimize, "opt_kwargs": {
        "init_points": 1, "n_iter": 1, "random_state": 1}} \
        if c["opt"] == "bayes" else {"opt_fn": M.L_BFGS_B_optimize}
    m, lookup, got, coef, _ = M.do_fast_posterior_mean(
        Xte, Xtr, Y, nn_count=c["nn"], batch_count=c["n"],
        loss_fn=M.mse_fn, k_kwargs=args if c["multi"] else args[0], **kw)
    nn = np.concatenate([np.arange(c["n"])[:, None], nn[:, :-1]], axis=1)
    want, cond = [], 1.0
    for i, s in enumerate(specs):
        one = m.models[i] if c["multi"] else m
        v = float(M.N(one.noise()))
        lo, hi = noises[i]["v"] * 0.5, noises[i]["v"] * 2
        if c["free"] and i % 2 == 0:
            check(lo - 1e-9 <= v <= hi + 1e-9, "trained noise %s outside of "
                  "%s", v, (lo, hi))
        else:
            close("fixed noise", v, noises[i]["v"], 1e-12, 0)
        y = Y[:, i] if c["multi"] else Y
        for q, j in enumerate(first[:, 0]):
            mean, _, cd = ref.posterior(s, np.full(c["nn"], v), Xtr[nn[j]],
                                        y[nn[j]], Xte[q])
            want.append(mean)
            cond = max(cond, cd)
    shape = (len(specs), c["b"]) if c["multi"] else (c["b"],) + Y.shape[1:]
    want = np.array(want).reshape(shape)
    if c["multi"]:
        want = want.T
    lax("workflow fast posterior mean", M.N(got), want, tolerance(cond),
        c["nn"] * max(1.0, np.abs(Y).max()) * 10)
    return ["multi" if c["multi"] else "single", "free" if c["free"]
            else "fixed"] + (["nt"] if c["b"] > 1 and c["nn"] > 1 else [])


R = ("random models, neighborhoods and queries, response counts 0-4, noise of "
     "every kind; non-trivial = several neighbors and queries, varying "
     "responses")
register("C13", "algebra", cases(), R, 3000, shards=3)(run_algebra)
register("C13", "tensors", tensor_cases(), "random neighborhoods; non-trivial "
         "= several neighbors", 1200, shards=1)(run_tensors)
register("C13", "workflow", flow_cases(), R + " (univariate and multivariate "
         "models, nearest neighbors by brute force)", 1500,
         shards=3)(run_flow)
register("C13", "one_call", do_cases(), R + " (training included)", 250,
         shards=3, weight=10)(run_do)
register("C13", "algebra_large", cases(n_max=60, nn_max=35, b_max=60, d_max=10,
                                       r_max=7), R + "; up to 60 "
         "neighborhoods and queries, 35 neighbors", 200, shards=2,
         weight=10)(run_algebra)
register("C13", "workflow_large", flow_cases(n_max=120, nn_max=30, b_max=60,
                                             d_max=8), R + "; up to 120 "
         "training points, 60 queries, 30 neighbors", 150, shards=2,
         weight=15)(run_flow)
# as many neighborhoods as training points
register("C13", "algebra_huge", gens.huge(
    cases(), kinds=("long", "wide", "deep")), R + "; thousands of "
    "neighborhoods and queries, hundreds of neighbors or features", 80,
    shards=2, weight=40)(run_algebra)


@st.composite
def long_flow_cases(draw):
    c = draw(flow_cases())
    c["n"] = max(c["nn"] + 2, draw(st.one_of(
        st.sampled_from(gens.ROUND[:13]), st.integers(100, 2500))))
    c["b"] = draw(st.one_of(st.sampled_from(gens.ROUND[:13]),
                            st.integers(100, 2500)))
    c["d"] = max(c["d"], 2)
    for p in c.get("models", []) + [c["model"]]:
        if p["def"] == "aniso":
            p["ls"] = [p["ls"][i % len(p["ls"])] for i in range(c["d"])]
    return c


register("C13", "workflow_huge", long_flow_cases(), R + "; thousands of "
         "training points and queries", 30, shards=2, weight=80)(run_flow)
register("C13", "algebra_noise_extremes", cases(
    nn_max=10, noises=gens.NOISE_EXTREMES), R + "; noise between 1e-10 and "
    "1e6 and a condition number of at most 1e9", 1000, shards=1)(run_algebra)
