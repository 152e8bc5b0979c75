"""C21: hierarchical length scales vary by location as documented."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.checks import c08
from harness.checks.c09 import Recorder, reported
from harness.core import check, close, register


@st.composite
def knot_spec(draw, d, free=False, generic=True, tame=False):
    k = draw(st.integers(1, 14))
    h = {"k": k, "seed": draw(gens.SEEDS),
         "high": draw(gens.kernel_spec(d, generic=generic)),
         "noise": draw(st.sampled_from([None, 1e-4, 1e-2, 0.5])),
         "where": draw(st.sampled_from(["normal", "uniform", "box", "dup"])),
         "vals": draw(st.lists(st.sampled_from([0.4, 0.7, 1.0, 1.3, 2.1]),
                               min_size=k, max_size=k))}
    if free:
        f = draw(st.lists(st.sampled_from([None, [0.8, 1.25], [0.9, 2.0]]),
                          min_size=k, max_size=k))
        h["bounds"] = [b and [b[0] * v, b[1] * v]
                       for b, v in zip(f, h["vals"])]
    if tame:  # smooth interpolation within the data: few tiny length scales
        h["where"] = draw(st.sampled_from(["uniform", "box"]))
        h["noise"] = draw(st.sampled_from([1e-2, 0.1, 0.5]))
        h["high"]["ls"] = [draw(st.sampled_from([1.0, 1.6, 4.0]))
                           for _ in h["high"]["ls"]]
    return h


def knots_of(h, d):
    if h["where"] == "box":
        return np.array(M.sample_knots(d, h["k"]))
    return gens.features(h["where"], h["k"], d, h["seed"])


def param(h, K):
    bounds = h.get("bounds") or [None] * h["k"]
    args = [M.A(K), M.VectorParam(*[build.scalar(v, b) for v, b in
                                    zip(h["vals"], bounds)]),
            build.kernel(h["high"])]
    if h["noise"] is not None:
        args.append(M.HomoscedasticNoise(h["noise"]))
    return M.HierarchicalParam(*args)


def interpolate(h, K, P, vals=None):
    """(values at the rows of P, condition number) by a dense solve."""
    S = ref.cov(h["high"], K, K) + np.eye(h["k"]) * (
        1e-5 if h["noise"] is None else h["noise"])
    w, V = np.linalg.eigh(S)
    v = np.asarray(h["vals"] if vals is None else vals, dtype=float)
    C = ref.cov(h["high"], P, K)
    return C @ (V @ ((V.T @ v) / w)), ref.wobble(h["high"]) * w[-1] / w[0]


@st.composite
def interp_cases(draw):
    d = draw(st.integers(1, 4))
    h = draw(knot_spec(d, free=draw(st.booleans())))
    return {"d": d, "h": h, "b": draw(st.integers(1, 8)),
            "x": draw(st.sampled_from(gens.FEATURE_KINDS)),
            "seed": draw(gens.SEEDS), "at_knots": draw(st.booleans()),
            "name": draw(st.sampled_from(["length_scale", "custom"])),
            "over": draw(st.dictionaries(
                st.integers(0, h["k"] - 1),
                st.sampled_from([0.2, 0.9, 1.8, 5.0]), max_size=3))}


def run_interp(c):
    h, name = c["h"], c["name"]
    K = knots_of(h, c["d"])
    P = gens.features(c["x"], c["b"], c["d"], c["seed"])
    if c["at_knots"]:
        P[0] = K[0]
    hyp = M.NamedHierarchicalParam(name, param(h, K))
    want, cond = interpolate(h, K, P)
    eps = (1e-6 if M.f32() else 1e-15) * cond * h["k"]
    tol = 1e-8 + 30 * eps * np.abs(h["vals"]).max()
    check(hyp.name() == name, "name %s", hyp.name())
    close("knot values", M.N(hyp.knot_values()), np.array(h["vals"]),
          1e-6 if M.f32() else 1e-12, 0)
    got = M.N(hyp(M.A(P)))
    check(got.shape == ((c["b"],) if c["b"] > 1 else got.shape)
          and got.size == c["b"], "values of shape %s", got.shape)
    close("interpolated values", got.reshape(-1), want, 1e-7, tol)
    # overriding some knots is the same as other knot values
    over = {int(i): v for i, v in c["over"].items()}
    vals = [over.get(i, v) for i, v in enumerate(h["vals"])]
    kw = {f"{name}{i}": v for i, v in over.items()}
    want2, _ = interpolate(h, K, P, vals)
    tol2 = 1e-8 + 30 * eps * np.abs(vals).max()
    close("values with overridden knots",
          M.N(hyp(M.A(P), **kw)).reshape(-1), want2, 1e-7, tol2)
    lower, rest = hyp.filter_kwargs(batch_features=M.A(P), other=3.0, **kw)
    check(list(lower) == [name], "keywords %s", list(lower))
    check("other" in rest and not any(k in rest for k in kw),
          "remaining keywords %s", sorted(rest))
    close("filtered values", M.N(lower[name]).reshape(-1), want2, 1e-7, tol2)
    close("knot values after overriding", M.N(hyp.knot_values()),
          np.array(h["vals"]), 1e-6 if M.f32() else 1e-12, 0)
    close("values after overriding", M.N(hyp(M.A(P))).reshape(-1), want,
          1e-7, tol)
    names, params, bounds = [], [], []
    hyp.append_lists(names, params, bounds)
    free = [i for i, b in enumerate(h.get("bounds") or []) if b]
    check(names == [f"{name}{i}" for i in free], "free knots %s", names)
    if free:
        close("free values", M.N(params), np.array(h["vals"])[free], 1e-6, 0)
        close("free bounds", M.N(bounds),
              np.array([h["bounds"][i] for i in free]), 1e-6, 0)
    check(bool(hyp.fixed()) == (not free), "fixed() is %s", hyp.fixed())
    return ["knots=%s" % ("1" if h["k"] == 1 else "more"),
            "high:" + h["high"]["kernel"]] + (
        ["nt"] if h["k"] > 1 and c["b"] > 1 and over else [])


@st.composite
def predict_cases(draw, generic=True, **kw):
    c = draw(gens.problem(generic=generic, defs=("iso", "diff"), r_max=3, **kw,
                          kinds=("normal", "uniform", "lattice", "cluster",
                                 "dup")))
    c["h"] = draw(knot_spec(c["d"], generic=generic,
                            tame=draw(st.booleans())))
    c["new"] = draw(st.dictionaries(
        st.integers(0, c["h"]["k"] - 1),
        st.sampled_from([0.5, 0.9, 1.8]),
        min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))
    c["over"] = draw(st.booleans())
    return c


def hmodel(c, K, diag):
    metric = M.F2 if c["model"]["kernel"] == "rbf" else M.l2
    cls = M.Isotropy if c["model"]["def"] == "iso" else M.DifferenceIsotropy
    dfm = cls(metric, length_scale=param(c["h"], K))
    if c["model"]["kernel"] == "rbf":
        k = M.RBF(deformation=dfm)
    else:
        nu = np.inf if c["model"]["nu"] == "inf" else c["model"]["nu"]
        k = M.Matern(smoothness=build.scalar(nu, c["model"].get("nu_bounds")),
                     deformation=dfm)
    scale = c["scale"]
    if c.get("scale_fn") == "analytic":
        scale = {"kind": "analytic", "val": scale}
    return M.MuyGPS(kernel=k, noise=build.noise(c["noise"], diag),
                    scale=build.scale(scale))


def smallest(c, K, P):
    """Smallest length scale at P for any knot values within the bounds."""
    W = np.array([interpolate(c["h"], K, P, e)[0]
                  for e in np.eye(c["h"]["k"])]).T
    lo, hi = np.array([b or [v, v] for v, b in zip(
        c["h"]["vals"], c["h"]["bounds"])]).T
    return np.minimum(W * lo, W * hi).sum(axis=1).min()


def local(c, K, vals, P, Xtr, Y, nn, diag):
    """Per-point stationary references; None if a length scale is tiny."""
    ls, hcond = interpolate(c["h"], K, P, vals)
    if ls.min() < 0.08 or hcond > 1e8:
        return None
    mean, var, cond, scl = [], [], 1.0, 0.0
    for i in range(len(nn)):
        spec = dict(c["model"], ls=[float(ls[i])])
        m, v, k = ref.posterior(spec, diag[i], Xtr[nn[i]], Y[nn[i]], P[i])
        mean.append(m)
        var.append(v)
        cond = max(cond, k * (1 + hcond * 1e-4))
        if Y.ndim == 1:
            scl += ref.analytic_scale(spec, diag[i:i + 1], Xtr, Y, nn[i:i + 1])
    return np.array(mean), np.array(var), cond, scl / len(nn)


def compare(c, m, K, vals, P, Xtr, Y, nn, diag, what, **over):
    want = local(c, K, vals, P, Xtr, Y, nn, diag)
    if want is None or want[2] > 1e10:
        return False
    mean, var, cond, _ = want
    b = len(nn)
    bf = M.A(P)
    cd, pd, nt = m.make_predict_tensors(
        M.AI(np.arange(b)), M.AI(nn), M.A(P), M.A(Xtr), M.A(Y))
    Kin = m.kernel(pd, batch_features=bf, **over)
    Kc = m.kernel(cd, batch_features=bf, **over)
    rt = (5e-3 if M.f32() else 1e-7) + 1e-13 * cond
    close(what + " mean", M.N(m.posterior_mean(Kin, Kc, nt)), mean, rt,
          rt * max(1.0, np.abs(Y).max()))
    s = c["scale"]
    close(what + " variance", M.N(m.posterior_variance(Kin, Kc)).reshape(-1),
          s * var, rt, rt * s)
    return True


def run_predict(c):
    Xtr, P, Y, nn, diag = gens.expand(c)
    h = c["h"]
    K = knots_of(h, c["d"])
    m = hmodel(c, K, diag)
    nt = compare(c, m, K, None, P, Xtr, Y, nn, diag, "original")
    new = {int(i): v for i, v in c["new"].items()}
    vals = [new.get(i, v) for i, v in enumerate(h["vals"])]
    if c["over"]:
        compare(c, m, K, vals, P, Xtr, Y, nn, diag, "overridden",
                **{"length_scale%d" % i: v for i, v in new.items()})
        compare(c, m, K, None, P, Xtr, Y, nn, diag, "not overridden")
    elif M.backend() == "torch":  # its hierarchical models do not copy
        m.kernel.set_params(**{"length_scale%d" % i: M.ScalarParam(v)
                               for i, v in new.items()})
        nt = compare(c, m, K, vals, P, Xtr, Y, nn, diag, "updated") and nt
    else:
        twin = copy.deepcopy(m)
        m.kernel.set_params(**{"length_scale%d" % i: M.ScalarParam(v)
                               for i, v in new.items()})
        nt = compare(c, m, K, vals, P, Xtr, Y, nn, diag, "updated") and nt
        compare(c, twin, K, None, P, Xtr, Y, nn, diag, "copy")
        twin.kernel.set_params(length_scale0=M.ScalarParam(0.77))
        compare(c, m, K, vals, P, Xtr, Y, nn, diag, "updated, then the copy")
    out = ["b=%s" % ("1" if c["b"] == 1 else "more"), c["model"]["kernel"],
           "noise:" + c["noise"]["kind"], "new" if new else "same"]
    return out + (["nt"] if nt and c["b"] > 1 and new else [])


@st.composite
def train_cases(draw):
    c = draw(gens.train_problem(defs=("iso", "diff"), r_max=2, free=False,
                                kinds=("uniform",), nn_min=2,
                                noise=("homo", "hetero"), b_max=6))
    c["h"] = draw(knot_spec(c["d"], free=True, tame=True))
    c["loss"] = draw(st.sampled_from(["mse", "lool", "looph",
                                      "lool_unscaled", "pseudo_huber"]))
    c["scale_fn"] = draw(st.sampled_from(
        ["fixed", "analytic"] if c["r"] == 0 else ["fixed"]))
    if c["model"]["kernel"] == "matern" and c["model"]["nu"] != "inf" and \
            draw(st.booleans()):
        nu = c["model"]["nu"]
        c["model"]["nu_bounds"] = [max(0.3, 0.6 * nu), min(6.0, 1.5 * nu)]
    if c["noise"]["kind"] == "homo" and draw(st.booleans()):
        c["noise"]["bounds"] = [c["noise"]["v"] * 0.1, c["noise"]["v"] * 9]
    c["points"] = draw(st.lists(st.lists(
        st.one_of(st.none(), st.floats(0, 1)), min_size=4, max_size=4),
        min_size=1, max_size=3))
    c["opt"] = draw(st.sampled_from(["scipy", "bayes", None]))
    c["opt_seed"] = draw(st.integers(0, 10 ** 6))
    return c


def bounds_of(c):
    out = {"length_scale%d" % i: tuple(b)
           for i, b in enumerate(c["h"]["bounds"]) if b}
    if c["model"].get("nu_bounds"):
        out["smoothness"] = tuple(c["model"]["nu_bounds"])
    if c["noise"].get("bounds"):
        out["noise"] = tuple(c["noise"]["bounds"])
    return out


def at(c, params):
    """(case, knot values) at the given parameters."""
    vals = list(c["h"]["vals"])
    rest = {}
    for n, v in params.items():
        if n.startswith("length_scale"):
            vals[int(n[12:])] = v
        else:
            rest[n] = v
    return gens.with_params(c, rest), vals


def expected(c, params, K, X, Y, batch, nn):
    k, vals = at(c, params)
    diag = gens.noise_diag(k["noise"], c["b"], c["nn"])
    want = local(k, K, vals, X[batch], X, Y, nn, diag)
    if want is None or want[2] > 1e9:
        return None
    mean, var, cond, scl = want
    if var.min() < 1e-5 or 1e-13 * cond > 1e-3 * var.min():
        return None
    scale = scl if c["scale_fn"] == "analytic" else c["scale"]
    t, name = Y[batch], c["loss"]
    if name in ("mse", "pseudo_huber"):
        return -getattr(ref, name)(mean, t), cond, var.min()
    fn = ref.looph if name == "looph" else ref.lool
    return (-fn(mean, t, var, 1.0 if name == "lool_unscaled" else scale),
            cond, var.min())


def run_train(c):
    X, Y, batch, nn, diag = gens.expand_train(c)
    K = knots_of(c["h"], c["d"])
    m = hmodel(c, K, diag)
    bounds = bounds_of(c)
    rep = reported(m)
    check(sorted(rep) == sorted(bounds), "free parameters %s, expected %s",
          sorted(rep), sorted(bounds))
    start = {n: v for n, (v, b) in rep.items()}
    for n, v in start.items():
        close("bounds of " + n, np.array(rep[n][1]), np.array(bounds[n]),
              1e-6, 0)
        close("value of " + n, v, {"smoothness": c["model"].get("nu"),
                                   "noise": c["noise"].get("v")}.get(n) if
              not n.startswith("length") else c["h"]["vals"][int(n[12:])],
              1e-6, 0)
    cross, pair, bt, bnnt = m.make_train_tensors(
        M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
    bf = M.batch_features_tensor(M.A(X), M.AI(batch))
    close("batch features", M.N(bf), X[batch], 1e-6, 1e-9)
    rec = Recorder(c08.loss_fn(c["loss"]))
    obj = M.L_BFGS_B_optimize.make_obj_fn(
        m, bt, bnnt, cross, pair, batch_features=bf, loss_fn=rec)
    tame = 0
    free = sorted(bounds)
    pts = [{}] + [{n: bounds[n][0] + f * (bounds[n][1] - bounds[n][0])
                   for n, f in zip(free, p) if f is not None}
                  for p in c["points"]]
    for p in pts + pts[:1]:
        want = expected(c, p, K, X, Y, batch, nn)
        if want is None:
            continue
        got = float(M.N(obj(**p)))
        rel = (5e-3 if M.f32() else 1e-6) + 1e-12 * want[1] / want[2]
        close("objective at %s" % p, got, want[0], rel, rel * max(
            1.0, np.abs(Y).max() ** 2) * c["b"] * (1 + c["r"]))
        tame += 1
    out = [c["loss"], "scale:" + c["scale_fn"]]
    if c["opt"] is None or not bounds or smallest(c, K, X[batch]) < 0.08:
        return out + (["nt"] if tame > 2 and c["b"] > 1 else [])
    if c["opt"] == "bayes":
        ret = M.Bayes_optimize(
            m, bt, bnnt, cross, pair, batch_features=bf, loss_fn=rec,
            init_points=2, n_iter=1, random_state=c["opt_seed"],
            allow_duplicate_points=True)
    else:
        ret = M.L_BFGS_B_optimize(m, bt, bnnt, cross, pair,
                                  batch_features=bf, loss_fn=rec,
                                  options={"maxiter": 3})
    new = reported(ret)
    check(sorted(new) == sorted(bounds), "result is free in %s", sorted(new))
    for n, (v, b) in new.items():
        close("bounds of the result's " + n, np.array(b), np.array(bounds[n]),
              1e-6, 0)
        check(b[0] * (1 - 1e-5) <= v <= b[1] * (1 + 1e-5),
              "%s = %s outside of %s", n, v, b)
    vals = {n: v for n, (v, b) in new.items()}
    k, kv = at(c, vals)
    was, now = (expected(c, p, K, X, Y, batch, nn) for p in ({}, vals))
    if was is not None and now is not None:
        check(now[0] >= was[0] - 1e-4 * (1 + abs(was[0])),
              "objective %s at the result, worse than %s at the start",
              now[0], was[0])
    compare(k, ret, K, kv, X[batch], X, Y, nn,
            gens.noise_diag(k["noise"], c["b"], c["nn"]), "result's")
    compare(c, m, K, None, X[batch], X, Y, nn, diag, "start's")
    check(reported(m) == rep, "the start changed to %s", reported(m))
    moved = any(abs(vals[n] - start[n]) > 1e-8 for n in vals)
    return out + [c["opt"]] + (["nt"] if moved and was is not None else [])


register("C21", "interpolate", interp_cases(), "random knots, values, "
         "higher-level kernels, noise and locations; non-trivial = several "
         "knots and locations with overridden knots", 1500)(run_interp)
register("C21", "predict", predict_cases(), "random hierarchical models "
         "against stationary models of each location's own length scale, "
         "before and after updating or overriding knots, with copies; "
         "non-trivial = several points and changed knots", 1500)(run_predict)
register("C21", "train", train_cases(), "objective at random knot values and "
         "optimized models; non-trivial = comparable objectives at several "
         "candidates, or an optimum that moved", 800, shards=4,
         weight=6)(run_train)
