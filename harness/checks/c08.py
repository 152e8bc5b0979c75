"""C08: the training objective is minus the leave-one-out loss."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import check, close, register

LOSSES = ["mse", "pseudo_huber", "lool", "lool_unscaled", "looph",
          "cross_entropy"]


@st.composite
def cases(draw, generic=True, losses=tuple(LOSSES), **kw):
    loss = draw(st.sampled_from(losses))
    r_min, r_max = (2, 4) if loss == "cross_entropy" else (0, 3)
    c = draw(gens.train_problem(generic=generic, r_min=r_min, r_max=r_max,
                                at_least=0, **kw))
    c["loss"] = loss
    if loss in ("pseudo_huber", "looph"):
        c["boundary"] = draw(st.sampled_from([None, 0.4, 2.0, 6.0]))
    kinds = ["fixed"]
    if c["r"] <= 1:
        kinds.append("analytic")
    c["scale_fn"] = draw(st.sampled_from(kinds))
    # candidate points: fractions of the bounds, for some of the parameters
    c["points"] = draw(st.lists(st.lists(
        st.one_of(st.none(), st.floats(0, 1)), min_size=len(c["free"]),
        max_size=len(c["free"])), min_size=1, max_size=4))
    c["optimizer"] = draw(st.sampled_from(["bayes", "scipy", "direct"]))
    if loss in ("mse", "pseudo_huber") and c["r"] >= 2:
        c["mask"] = draw(st.one_of(st.none(), st.lists(
            st.integers(0, c["r"] - 1), min_size=1, max_size=c["r"],
            unique=True)))
    return c


def loss_fn(name):
    return {"mse": M.mse_fn, "pseudo_huber": M.pseudo_huber_fn,
            "cross_entropy": M.cross_entropy_fn, "lool": M.lool_fn,
            "lool_unscaled": M.lool_fn_unscaled, "looph": M.looph_fn}[name]


def loss_kwargs(c):
    bd = c.get("boundary")
    return {} if bd is None else {"boundary_scale": bd}


def data(c):
    X, Y, batch, nn, diag = gens.expand_train(c)
    if c["loss"] == "cross_entropy":
        rng = np.random.default_rng([c["seed"], 5])
        hot = np.full((c["n"], c["r"]), 0.0 if c["seed"] % 2 else -1.0)
        hot[np.arange(c["n"]), rng.integers(0, c["r"], c["n"])] = 1.0
        Y = hot
    return X, Y, batch, nn, diag


def model_of(c, diag):
    scale = c["scale"]
    if c["scale_fn"] == "analytic":
        scale = {"kind": "analytic", "val": scale}
    return build.model(dict(c, scale=scale), diag)


def objective(c, m, cross, pair, bt, bnnt):
    bt_ = bt
    mask = c.get("mask")
    if mask is not None:
        bt_ = bt[:, mask]
    kw = dict(target_mask=mask, loss_kwargs=loss_kwargs(c))
    if c["optimizer"] == "direct":
        return M.make_loo_crossval_fn(
            loss_fn(c["loss"]), m.kernel.get_opt_fn(), m.get_opt_mean_fn(),
            m.get_opt_var_fn(), m.scale.get_opt_fn(m), pair, cross, bnnt, bt_,
            **kw)
    opt = M.Bayes_optimize if c["optimizer"] == "bayes" \
        else M.L_BFGS_B_optimize
    return opt.make_obj_fn(m, bt_, bnnt, cross, pair,
                           loss_fn=loss_fn(c["loss"]), **kw)


def expected(c, params, X, Y, batch, nn):
    """(minus loss, condition, size) of the model rebuilt at params."""
    k = gens.with_params(c, params)
    diag = gens.noise_diag(k["noise"], c["b"], c["nn"])
    mean, var, cond = ref.posteriors(k["model"], diag, X[batch], X, Y, nn)
    if cond > 1e12:
        return None, cond, 0.0, 1.0
    t = Y[batch]
    if c.get("mask") is not None:
        mean, t = mean[:, c["mask"]], t[:, c["mask"]]
    scale = c["scale"]
    if c["scale_fn"] == "analytic":
        scale = ref.analytic_scale(k["model"], diag, X, Y, nn)
    name, kw = c["loss"], loss_kwargs(c)
    if name == "mse":
        out = ref.mse(mean, t)
    elif name == "pseudo_huber":
        out = ref.pseudo_huber(mean, t, **kw)
    elif name == "cross_entropy":
        if np.ptp(mean, axis=1).max() > (10 if M.f32() else 30):
            var = 0 * var  # saturated probabilities are clipped: not compared
        out = ref.cross_entropy(mean, t)
    elif name == "lool":
        out = ref.lool(mean, t, var, scale)
    elif name == "lool_unscaled":
        out = ref.lool(mean, t, var)
    else:
        out = ref.looph(mean, t, var, scale, **kw)
    return -out, cond, var.min(), np.abs(Y).max()


def points(c):
    out = [{}]
    for p in c["points"]:
        out.append({n: b[0] + f * (b[1] - b[0])
                    for (n, b), f in zip(gens.bounds_of(c).items(), p)
                    if f is not None})
    return out


def run(c):
    X, Y, batch, nn, diag = data(c)
    m = model_of(c, diag)
    ann, ab = M.AI(nn), M.AI(batch)
    cross, pair, bt, bnnt = m.make_train_tensors(ab, ann, M.A(X), M.A(Y))
    obj = objective(c, m, cross, pair, bt, bnnt)
    names, vals, bounds = m.get_opt_params()
    check(sorted(names) == sorted(c["free"]), "free parameters %s, expected %s",
          sorted(names), sorted(c["free"]))
    before = (M.N(vals).copy(), M.N(m.scale()).copy(), M.N(m.noise()).copy())
    pts = points(c)
    order = list(range(len(pts))) + [0] + list(range(len(pts)))[::-1]
    first, tame, nt = {}, 0, False
    for i in order:
        want, cond, vmin, size = expected(c, pts[i], X, Y, batch, nn)
        eps = (1e-6 if M.f32() else 1e-14) * cond
        if vmin < 1e3 * eps or eps > 1e-3:
            continue  # too ill-conditioned for this precision
        got = float(M.N(obj(**pts[i])))
        rel = (2e-3 if M.f32() else 1e-6) + 100 * eps / min(1.0, vmin)
        close("objective at %s" % pts[i], got, want, rel, rel * max(
            1.0, size * size) * c["b"] * (1 + c["r"]))
        if i in first:
            close("objective evaluated again at %s" % pts[i], got, first[i],
                  1e-6, 1e-6)
        first[i] = got
        tame += 1
        nt = nt or (bool(pts[i]) and c["b"] > 1)
    names2, vals2, _ = m.get_opt_params()
    check(list(names2) == list(names), "parameters changed by evaluation")
    for a, b in zip((vals2, m.scale(), m.noise()), before):
        close("model after evaluating the objective", M.N(a), b, 0, 0)
    out = [c["loss"], "scale:" + c["scale_fn"], c["model"]["kernel"],
           c["model"]["def"], "noise:" + c["noise"]["kind"],
           "r=%d" % c["r"]] + ["free:" + n for n in c["free"]]
    if c.get("mask"):
        out.append("mask")
    if nt:
        out.append("nt")
    return out


@st.composite
def down_cases(draw):
    c = draw(gens.train_problem(r_min=0, r_max=0, nn_min=2, at_least=0))
    c["loss"] = draw(st.sampled_from(["lool", "looph"]))
    c["f"] = draw(st.floats(0, 1))
    return c


def run_down(c):
    """One down-sampling iteration scales by one of the subset estimates."""
    X, Y, batch, nn, diag = gens.expand_train(c)
    m = build.model(dict(c, scale={"kind": "down", "down_count": c["nn"] - 1,
                                   "iteration_count": 1}), diag)
    cross, pair, bt, bnnt = m.make_train_tensors(
        M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
    obj = M.L_BFGS_B_optimize.make_obj_fn(
        m, bt, bnnt, cross, pair, loss_fn=loss_fn(c["loss"]))
    params = {n: b[0] + c["f"] * (b[1] - b[0])
              for n, b in gens.bounds_of(c).items()}
    k = gens.with_params(c, params)
    d = gens.noise_diag(k["noise"], c["b"], c["nn"])
    mean, var, cond = ref.posteriors(k["model"], d, X[batch], X, Y, nn)
    if cond > 1e8 or var.min() < 1e-5:
        return ["ill-conditioned"]
    got = float(M.N(obj(**params)))
    wants = []
    for j in range(c["nn"]):
        keep = [i for i in range(c["nn"]) if i != j]
        s = ref.analytic_scale(k["model"], d[:, keep], X, Y, nn[:, keep])
        wants.append(-getattr(ref, c["loss"])(mean, Y[batch], var, s))
    err = min(abs(got - w) / max(1.0, abs(w)) for w in wants)
    check(err < 1e-5, "objective %s with down-sampled scale; the %s possible "
          "values are %s", got, len(wants), wants)
    return ["nt", c["loss"]]


R = ("random training problems, losses, scale functions and candidate points "
     "(any subset of the free parameters; evaluated twice in both orders); "
     "non-trivial = several batch elements and a non-default candidate")
register("C08", "objective", cases(), R, 3000, shards=6)(run)
register("C08", "downsample", down_cases(), "down-sampled scale with every "
         "possible subset enumerated; non-trivial = well-conditioned", 600,
         shards=2)(run_down)
register("C08", "objective_large", cases(n_max=150, b_max=100, nn_max=40,
                                         d_max=12), R + "; up to 100 batch "
         "elements, 40 neighbors and 12 features", 200, shards=2,
         weight=15)(run)
register("C08", "objective_huge", gens.huge_train(cases()), R + "; thousands "
         "of batch elements, hundreds of neighbors or features, or tens of "
         "thousands of training points", 60, shards=2, weight=60)(run)
