"""C09: optimizers return valid, no worse, independent models."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.checks import c08
from harness.core import check, close, register

LOSSES = ("mse", "pseudo_huber", "lool", "lool_unscaled", "looph",
          "cross_entropy")


@st.composite
def cases(draw, opts=("scipy", "bayes"), losses=LOSSES, r_max=3,
          generic=True):
    loss = draw(st.sampled_from(losses))
    r_min, r_hi = (2, r_max) if loss == "cross_entropy" else (0, r_max)
    c = draw(gens.train_problem(r_min=r_min, r_max=r_hi, at_least=1,
                                noise=("homo", "hetero"), nn_min=2,
                                generic=generic))
    if not c["free"]:  # nothing but a heteroscedastic RBF-like corner
        c["model"]["ls_bounds"][0] = [0.5 * c["model"]["ls"][0],
                                      2 * c["model"]["ls"][0]]
        c["free"] = ["length_scale0" if c["model"]["def"] == "aniso"
                     else "length_scale"]
    c["loss"] = loss
    c["optimizer"] = "direct"
    if loss in ("pseudo_huber", "looph"):
        c["boundary"] = draw(st.sampled_from([None, 0.4, 2.0]))
    c["scale_fn"] = draw(st.sampled_from(
        ["fixed", "analytic"] if c["r"] == 0 else ["fixed"]))
    # starting point: anywhere within the bounds, often on one of them
    for name, (lo, hi) in gens.bounds_of(c).items():
        f = draw(st.sampled_from([None, 0.0, 1.0, 0.5]))
        if f is not None:
            c = gens.with_params(c, {name: lo + f * (hi - lo)})
    c["opt"] = draw(st.sampled_from(opts))
    if c["opt"] == "bayes":
        c["kw"] = {"init_points": draw(st.integers(1, 3)),
                   "n_iter": draw(st.integers(0, 3)),
                   "random_state": draw(st.integers(0, 10 ** 6)),
                   "allow_duplicate_points": True}
    else:
        c["kw"] = draw(st.sampled_from([{}, {"options": {"maxiter": 2}}]))
    c["route"] = draw(st.sampled_from(["tensors", "indices"]))
    if c["r"] == 0 and c["opt"] == "scipy":
        c["post_scale"] = draw(st.booleans())
    return c


def reported(m):
    """{name: (value, bounds)} of everything the model lists as free."""
    names, vals, bounds = m.get_opt_params()
    vals, bounds = M.N(vals).ravel(), M.N(bounds).reshape(-1, 2)
    check(len(names) == len(vals) == len(bounds),
          "optimization lists of lengths %s %s %s", len(names), len(vals),
          len(bounds))
    return {n: (float(v), tuple(float(x) for x in b))
            for n, v, b in zip(names, vals, bounds)}


def check_start(c, m, what):
    rep = reported(m)
    want = gens.bounds_of(c)
    check(sorted(rep) == sorted(want), "%s: free parameters %s, expected %s",
          what, sorted(rep), sorted(want))
    k = {"noise": c["noise"].get("v"), "smoothness": c["model"].get("nu")}
    eps = 1e-5 if M.f32() else 1e-12
    for n, (v, b) in rep.items():
        val = k.get(n)
        if n.startswith("length_scale"):
            val = c["model"]["ls"][int(n[len("length_scale"):] or 0)]
        close(f"{what}: value of {n}", v, val, eps, 0)
        close(f"{what}: bounds of {n}", np.array(b), np.array(want[n]),
              eps, 0)
    return rep


def check_result(c, start, ret, data, obj_check=True):
    """Bounds, fixed values, objective and predictions of the result."""
    X, Y, batch, nn, diag = data
    check(type(ret) is type(start), "returned a %s", type(ret).__name__)
    check(ret is not start, "returned the starting model itself")
    rep = reported(ret)
    bounds = gens.bounds_of(c)
    check(sorted(rep) == sorted(bounds), "result is free in %s instead of %s",
          sorted(rep), sorted(bounds))
    eps = 1e-5 if M.f32() else 1e-10
    for n, (v, b) in rep.items():
        close("bounds of the result's " + n, np.array(b), np.array(bounds[n]),
              eps, 0)
        check(b[0] * (1 - eps) - 1e-12 <= v <= b[1] * (1 + eps) + 1e-12,
              "%s = %s outside of %s", n, v, b)
    # fixed parameters: the reference below uses their original values
    k = gens.with_params(c, {n: v for n, (v, b) in rep.items()})
    d2 = gens.noise_diag(k["noise"], c["b"], c["nn"])
    if obj_check:
        was = c08.expected(c, {}, X, Y, batch, nn)
        now = c08.expected(k, {}, X, Y, batch, nn)
        if max(was[1], now[1]) < 1e8 and min(was[2], now[2]) > 1e-6:
            check(now[0] >= was[0] - 1e-5 * (1 + abs(was[0])),
                  "objective %s at the result %s, worse than %s at the start",
                  now[0], rep, was[0])
    cross, pair, bt, bnnt = ret.make_train_tensors(
        M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
    Kin, Kc = ret.kernel(pair), ret.kernel(cross)
    mean, var, cond = ref.posteriors(k["model"], d2, X[batch], X, Y, nn)
    rt = (5e-3 if M.f32() else 1e-6) + 1e-14 * cond
    close("mean of the result", M.N(ret.posterior_mean(Kin, Kc, bnnt)), mean,
          rt, rt * max(1.0, np.abs(Y).max()))
    s = float(M.N(ret.scale()).reshape(()))
    close("variance of the result", M.N(ret.posterior_variance(Kin, Kc)),
          s * var, rt, rt * s)
    return rep, k


def predictions(m, X, Y, batch, nn):
    cross, pair, bt, bnnt = m.make_train_tensors(
        M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
    Kin, Kc = m.kernel(pair), m.kernel(cross)
    return (M.N(m.posterior_mean(Kin, Kc, bnnt)).copy(),
            M.N(m.posterior_variance(Kin, Kc)).copy())


def labels(c, rep, start_rep):
    moved = any(abs(rep[n][0] - start_rep[n][0]) > 1e-8 for n in rep)
    out = [c["loss"], c["opt"], "scale:" + c["scale_fn"], c["model"]["def"],
           c["model"]["kernel"], "noise:" + c["noise"]["kind"]]
    out += ["free:" + n for n in rep]
    return out + (["nt", "moved"] if moved else ["stayed"])


class Recorder:
    """A loss that notes every objective value the optimizer obtains."""

    def __init__(self, loss):
        self.loss, self.seen = loss, []

    def __call__(self, *args, **kwargs):
        return self.loss(*args, **kwargs)

    def make_predict_and_loss_fn(self, *args, **kwargs):
        fn = self.loss.make_predict_and_loss_fn(*args, **kwargs)

        def recorded(*a, **k):
            out = fn(*a, **k)
            self.seen.append(float(M.N(out)))
            return out

        return recorded


def run(c):
    X, Y, batch, nn, diag = data = c08.data(c)
    m = c08.model_of(c, diag)
    start_rep = check_start(c, m, "starting model")
    p0 = predictions(m, X, Y, batch, nn)
    opt = M.Bayes_optimize if c["opt"] == "bayes" else M.L_BFGS_B_optimize
    rec = Recorder(c08.loss_fn(c["loss"]))
    kw = dict(c["kw"], loss_fn=rec)
    if c["route"] == "indices" and not c08.loss_kwargs(c):
        ret = M.optimize_from_indices(m, M.AI(batch), M.AI(nn), M.A(X),
                                      M.A(Y), opt_fn=opt, **kw)
    else:
        cross, pair, bt, bnnt = m.make_train_tensors(
            M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
        ret = opt(m, bt, bnnt, cross, pair, loss_kwargs=c08.loss_kwargs(c),
                  **kw)
    rep, k = check_result(c, m, ret, data)
    close("scale of the result", M.N(ret.scale()), c["scale"], 1e-6, 0)
    if c["opt"] == "bayes":
        # the best of the candidates it looked at
        best = max(rec.seen)
        now, cond, vmin, _ = c08.expected(k, {}, X, Y, batch, nn)
        if cond < 1e8 and vmin > 1e-6:
            check(now >= best - 1e-5 * (1 + abs(best)), "objective %s at the "
                  "result, but a candidate attained %s", now, best)
    # the start is untouched, also by what later happens to the result
    if c.get("post_scale"):
        ret.optimize_scale(ret.make_train_tensors(
            M.AI(batch), M.AI(nn), M.A(X), M.A(Y))[1], M.A(Y[nn]))
    newls = M.ScalarParam(0.123)
    name = "length_scale0" if c["model"]["def"] == "aniso" else "length_scale"
    ret.kernel.set_params(**{name: newls})
    check_start(c, m, "starting model afterwards")
    for a, b, w in zip(predictions(m, X, Y, batch, nn), p0,
                       ("mean", "variance")):
        close(f"starting model's {w} afterwards", a, b, 1e-12, 1e-12)
    return labels(c, rep, start_rep)


@st.composite
def mini_cases(draw):
    c = draw(cases(opts=("bayes",), losses=("mse", "lool", "looph",
                                            "pseudo_huber"), r_max=0))
    c["epochs"] = draw(st.integers(1, 3))
    c["keep"] = draw(st.booleans())
    c["probe"] = draw(st.booleans())
    c["full"] = draw(st.booleans())
    c["kw"]["n_iter"] = min(2, c["kw"]["n_iter"])
    return c


def run_mini(c):
    X, Y, _, _, _ = c08.data(c)
    if c["noise"]["kind"] == "hetero":
        # the tensor of a heteroscedastic model belongs to one batch
        c = dict(c, noise={"kind": "homo", "v": 0.05})
        if "noise" in c["free"]:
            c["free"] = [n for n in c["free"] if n != "noise"]
    c = dict(c, b=c["n"])  # for the reference: every point is in the batch
    diag = gens.noise_diag(c["noise"], c["n"], c["nn"])
    m = c08.model_of(c, diag)
    start_rep = check_start(c, m, "starting model")
    bc = c["n"] if c["full"] else max(2, c["n"] // 2)
    kw = dict(c["kw"])
    ret, lookup, secs, probed, steps = M.optimize_from_tensors_mini_batch(
        m, M.A(X), M.A(Y), nn_count=c["nn"], batch_count=bc,
        train_count=c["n"], num_epochs=c["epochs"], keep_state=c["keep"],
        probe_previous=c["probe"], loss_fn=c08.loss_fn(c["loss"]),
        loss_kwargs=c08.loss_kwargs(c), **kw)
    # true neighborhoods of every training point, itself excluded
    d2 = ((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2)
    np.fill_diagonal(d2, np.inf)
    nn = np.argsort(d2, axis=1, kind="stable")[:, :c["nn"]]
    s = np.sort(d2, axis=1)
    ties = np.any(np.diff(s[:, :c["nn"] + 1], axis=1)
                  < 1e-12 * (1 + s[:, :c["nn"]]))
    everyone = c["full"] or c["keep"]
    aniso = c["model"]["def"] == "aniso" and c["epochs"] > 1
    exact = everyone and not aniso and not ties
    batch = np.arange(c["n"])
    data = (X, Y, batch, nn, diag)
    comparable = exact and (c["epochs"] == 1 or c["probe"] or c["keep"])
    rep, k = check_result(c, m, ret, data, obj_check=comparable)
    if c["scale_fn"] == "fixed":
        close("fixed scale", M.N(ret.scale()), c["scale"], 1e-12, 0)
    elif exact and ref.wobble(k["model"]) == 1.0:
        want = ref.analytic_scale(k["model"], gens.noise_diag(
            k["noise"], c["n"], c["nn"]), X, Y, nn)
        close("scale of the result", M.N(ret.scale()), want, 1e-6, 0)
    check_start(c, m, "starting model afterwards")
    close("scale of the start", M.N(m.scale()), c["scale"], 1e-12, 0)
    got, _ = lookup.get_nns(X)
    if not ties:
        got = np.sort(np.asarray(got), axis=1)
        full = np.argsort(((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2),
                          axis=1, kind="stable")[:, :c["nn"]]
        check(np.array_equal(got, np.sort(full, axis=1)),
              "returned neighbor index does not index the training data")
    return labels(c, rep, start_rep) + ["epochs=%d" % c["epochs"],
                                        "keep" if c["keep"] else "fresh"]


R = ("random models with random free hyperparameters and bounds, starting "
     "points often on a bound; non-trivial = the optimum differs from the "
     "start")
register("C09", "scipy", cases(opts=("scipy",)), R, 2000, shards=4,
         weight=10)(run)
register("C09", "bayes", cases(opts=("bayes",)), R, 800, shards=4,
         weight=20)(run)
register("C09", "minibatch", mini_cases(), R + "; mini-batch optimizer over "
         "1-3 epochs", 300, shards=4, weight=40)(run_mini)
