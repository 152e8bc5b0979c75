"""C15: the torch backend's functions stay differentiable.

The values of these functions are decided elsewhere; here the gradients that
torch computes are compared with central differences of those values.
"""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import gens
from harness.checks import c07, c08
from harness.core import Skip, check, close, register


def slopes(name, f, args, rng, sizes=None, floor=0.0):
    """Compare the derivatives of the number f(**args) by every argument.

    f takes torch arrays; the derivative in one random direction per argument
    is compared, whose step is small next to the argument's smallest size.
    """
    import torch

    leaves = {k: torch.tensor(np.array(v, dtype=float), requires_grad=True)
              for k, v in args.items()}
    value = f(**leaves)
    check(getattr(value, "requires_grad", False), "%s carries no gradient",
          name)
    grads = torch.autograd.grad(value, list(leaves.values()),
                                allow_unused=True)
    big = abs(float(value))
    nonzero = 0
    for (k, v), g in zip(args.items(), grads):
        v = np.array(v, dtype=float)
        size = (sizes or {}).get(k) or max(1e-3, float(np.abs(v).max()))
        u = rng.uniform(0.3, 1.0, v.shape) * rng.choice([-1.0, 1.0], v.shape)
        if k in ("Kin",):  # covariances are symmetric
            u = u + u.swapaxes(-1, -2)

        def at(h):
            # value without gradient, the other arguments unchanged
            moved = {a: M.A(b) if np.ndim(b) else torch.tensor(float(b),
                     dtype=torch.float64) for a, b in args.items()}
            new = v + h * u
            moved[k] = M.A(new) if v.ndim else torch.tensor(
                float(new), dtype=torch.float64)
            return float(f(**moved))

        h = 3e-5 * size
        one, two = ((at(i * h) - at(-i * h)) / (2 * i * h) for i in (1, 2))
        want, err = (4 * one - two) / 3, abs(one - two)
        got = 0.0 if g is None else float((g * torch.tensor(u)).sum())
        check(g is None or bool(torch.isfinite(g).all()),
              "gradient of %s by %s is not finite", name, k)
        top = 0.0 if g is None else float(g.abs().max())
        close("derivative of %s by %s" % (name, k), got, want, 1e-4,
              3 * err + 1e-6 * top + (1e-9 + floor) * (1 + big) / size)
        nonzero += abs(want) > 100 * err + 1e-4 * (1 + big)
    return nonzero


@st.composite
def loss_cases(draw):
    c = draw(c07.cases(b_max=6, r_max=3))
    c["spread"] = draw(st.sampled_from([0.1, 1.0, 3.0]))
    c["scale"] = draw(st.sampled_from([0.2, 1.0, 2.5, 10.0]))
    c["width"] = 1.0
    c["perfect"] = False
    if c.get("boundary") is not None:
        c["boundary"] = draw(st.sampled_from([0.5, 1.5, 4.0]))
    return c


def run_loss(c):
    p, t, v = c07.arrays(c, c["seed"], c["b"])
    rng = np.random.default_rng([c["seed"], 15])
    fn, kw = c07.library(c["loss"]), c07.kwargs(c)
    args = {"predictions": p}
    if c["loss"] != "cross_entropy":
        args["targets"] = t
    if c["loss"] in c07.VAR:
        args["variances"] = v
    if c["loss"] in ("lool", "looph"):
        args["scale"] = c["scale"]

    def f(predictions, targets=None, variances=None, scale=None):
        rest = [a for a in (variances, scale) if a is not None]
        return fn(predictions, M.A(t) if targets is None else targets, *rest,
                  **kw)

    sizes = {"variances": 0.05, "scale": c["scale"],
             "predictions": 0.3, "targets": 0.3}
    k = slopes(c["loss"], f, args, rng, sizes)
    return [c["loss"]] + (["nt"] if k == len(args) else [])


@st.composite
def model_cases(draw):
    c = draw(gens.train_problem(generic=False, r_max=2, nn_min=2, d_max=3,
                                noise=("homo", "hetero"), free=False,
                                defs=("iso", "diff")))
    c["x"] = draw(st.sampled_from(["normal", "uniform"]))
    c["scale_fn"] = "analytic" if c["r"] <= 1 else "fixed"
    c["what"] = draw(st.sampled_from(["features", "kernel", "posterior",
                                      "scale", "fast", "objective"]))
    c["loss"] = draw(st.sampled_from(
        ["mse", "pseudo_huber", "lool", "lool_unscaled", "looph"]))
    if c["noise"]["kind"] == "homo":
        c["noise"]["v"] = max(1e-2, c["noise"]["v"])
    return c


def run_model(c):
    import torch

    X, Y, batch, nn, diag = gens.expand_train(c)
    m = c08.model_of(c, diag)
    rng = np.random.default_rng([c["seed"], 16])
    ab, ann = M.AI(batch), M.AI(nn)
    cross, pair, bt, bnnt = m.make_train_tensors(ab, ann, M.A(X), M.A(Y))
    Kin, Kcross = M.N(m.kernel(pair)), M.N(m.kernel(cross))
    noisy = M.N(m.noise.perturb(M.A(Kin)))
    cond = max(np.linalg.cond(k) for k in noisy)
    if cond > 1e6:
        raise Skip("condition")
    floor = 1e-14 * cond
    ls = c["model"]["ls"][0]
    used = np.unique(np.concatenate([batch, nn.ravel()]))
    near = min(np.sqrt(((X[i] - X[j]) ** 2).sum())
               for i in used for j in used if i != j)
    if near < 1e-6:
        raise Skip("coincident points")
    homo = c["noise"]["kind"] == "homo"
    tau = {"noise": c["noise"]["v"]} if homo else {}
    mean_shape = M.N(m.posterior_mean(M.A(Kin), M.A(Kcross), bnnt)).shape
    a, b = (M.A(rng.normal(size=s)) for s in (mean_shape, (c["b"],)))
    what = c["what"]
    sizes = {"noise": c["noise"].get("v"), "length_scale": ls,
             "features": min(near, ls),
             # keep the perturbed covariance well away from singular
             "Kin": min(1.0, 1e3 / cond), "dists": None}
    kfn = m.kernel.get_opt_fn()
    mean, var = m.get_opt_mean_fn(), m.get_opt_var_fn()
    sfn = m.scale.get_opt_fn(m)
    if what == "features":
        args = {"features": X, "targets": Y}

        def f(features, targets):
            cr, pr, _, nt = m.make_train_tensors(ab, ann, features, targets)
            kin, kc = m.kernel(pr), m.kernel(cr)
            return ((m.posterior_mean(kin, kc, nt) * a).sum()
                    + (m.posterior_variance(kin, kc) * b).sum())
    elif what == "kernel":
        args = {"dists": M.N(cross), "length_scale": ls}
        sizes["dists"] = min(near, ls) if m.kernel.deformation.metric is M.l2 \
            or c["model"]["def"] != "iso" else min(near, ls) ** 2
        w = M.A(rng.normal(size=Kcross.shape))

        def f(dists, length_scale):
            return (kfn(dists, length_scale=length_scale) * w).sum()
    elif what == "posterior":
        args = {"Kin": Kin, "Kcross": Kcross, "targets": M.N(bnnt), **tau}

        def f(Kin, Kcross, targets, **kw):
            return ((mean(Kin, Kcross, targets, **kw) * a).sum()
                    + (var(Kin, Kcross, **kw) * b).sum())
    elif what == "scale":
        if c["scale_fn"] == "fixed":
            raise Skip("fixed scale")
        args = {"Kin": Kin, "targets": M.N(bnnt), **tau}

        def f(Kin, targets, **kw):
            return sfn(Kin, targets, **kw)
    elif what == "fast":
        args = {"Kin": Kin, "targets": M.N(bnnt), "Kcross": Kcross}

        def f(Kin, targets, Kcross):
            out = m.fast_posterior_mean(Kcross,
                                        m.fast_coefficients(Kin, targets))
            return (out.reshape(a.shape) * a).sum()
    else:
        obj = M.make_loo_crossval_fn(
            c08.loss_fn(c["loss"]), kfn, mean, var, sfn, pair, cross, bnnt, bt)
        vmin = float(M.N(m.posterior_variance(M.A(Kin), M.A(Kcross))).min())
        if vmin < 1e-4 * c["scale"]:
            raise Skip("vanishing variance")
        args = {"length_scale": ls, **tau}

        def f(**kw):
            return obj(**kw)
    k = slopes(what, f, args, rng, sizes, floor)
    return [what, c["noise"]["kind"], c["model"]["def"],
            c["model"]["kernel"]] + (["nt"] if k > 1 else [])


register("C15", "loss_gradients", loss_cases(), "derivatives of the losses by "
         "predictions, targets, variances and scale against central "
         "differences; non-trivial = all clearly nonzero", 800,
         backend="torch", shards=1)(run_loss)
register("C15", "gradients", model_cases(), "derivatives of posteriors, "
         "scales, fast means and objectives by features, covariances, "
         "responses, noise and length scale against central differences; "
         "non-trivial = at least two clearly nonzero", 1000, backend="torch",
         shards=2, weight=2)(run_model)
