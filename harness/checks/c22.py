"""C22: PyTorch GP layers compute GP predictions and gradients."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import Skip, Violation, check, close, raises, register

KINDS = ("normal", "uniform", "cluster", "line", "far")


@st.composite
def cases(draw, multi=False):
    c = draw(gens.train_problem(
        generic=False, r_min=1 if multi else 0, kinds=KINDS, free=False,
        defs=("iso", "diff"), noise=("homo", "hetero")))
    if multi:
        c["model"]["def"] = "iso"
        c["parts"] = [{
            "model": draw(gens.kernel_spec(
                c["d"], generic=False, defs=("iso",),
                kernels=(c["model"]["kernel"],))),
            "noise": draw(gens.noise_spec(("homo", "hetero"))),
            "scale": draw(gens.SCALES)} for _ in range(c["r"])]
    c["coords"] = draw(st.lists(st.integers(0, 10 ** 6), min_size=1,
                                max_size=3))
    c["inside"] = draw(st.booleans())
    return c


def parts_of(c):
    return c.get("parts") or [c]


def layer_of(c, batch, nn, Y):
    cls = M.MultivariateMuyGPs_layer if "parts" in c else M.MuyGPs_layer
    ps = [{"kernel": build.kernel(p["model"]),
           "noise": build.noise(p["noise"], gens.noise_diag(
               p["noise"], c["b"], c["nn"])),
           "scale": build.scale(p["scale"])} for p in parts_of(c)]
    m = M.MultivariateMuyGPS(*ps) if "parts" in c else M.MuyGPS(**ps[0])
    tY = M.A(Y)
    return m, cls(m, M.AI(batch), M.AI(nn), tY[M.AI(batch)], tY[M.AI(nn)])


def reference(c, X, Y, batch, nn, ls=None):
    """(means, scaled variances, condition)"""
    means, varis, cond = [], [], 1.0
    for i, p in enumerate(parts_of(c)):
        spec = p["model"] if ls is None else dict(p["model"], ls=[ls])
        diag = gens.noise_diag(p["noise"], c["b"], c["nn"])
        y = Y[:, i] if "parts" in c else Y
        m, v, k = ref.posteriors(spec, diag, X[batch], X, y, nn)
        means.append(m)
        varis.append(p["scale"] * v)
        cond = max(cond, k)
    if "parts" in c:
        return np.stack(means, 1), np.stack(varis, 1), cond
    return means[0], varis[0], cond


def slope(f, size):
    """(central difference, bound on its error)"""
    h = 3e-5 * size
    one, two = ((f(k * h) - f(-k * h)) / (2 * k * h) for k in (1, 2))
    return (4 * one - two) / 3, abs(one - two)


def run_layer(c):
    import torch

    X, Y, batch, nn, _ = gens.expand_train(c)
    m, layer = layer_of(c, batch, nn, Y)
    x = M.A(X).requires_grad_(True)
    mean, var = layer(x)
    wm, wv, cond = reference(c, X, Y, batch, nn)
    if cond > (1e4 if M.f32() else 1e9):
        return ["ill-conditioned"]
    rt = (5e-3 if M.f32() else 1e-7) + 1e-13 * cond
    big = max(1.0, np.abs(Y).max())
    top = max(p["scale"] for p in parts_of(c))
    close("predictions", M.N(mean), wm, rt, rt * big)
    close("variances", M.N(var), wv, rt, rt * top)
    out = ["r=%d" % c["r"], c["model"]["kernel"], c["model"]["def"]]
    if M.f32() or cond > 1e6:
        return out + (["nt"] if M.f32() and c["nn"] > 1 else [])
    rng = np.random.default_rng([c["seed"], 8])
    u, w = rng.normal(size=wm.shape), rng.normal(size=wv.shape) / top

    def functional(X2, ls=None):
        a, b, _ = reference(c, X2, Y, batch, nn, ls)
        return (u * a).sum() + (w * b).sum()

    ((mean * M.A(u)).sum() + (var * M.A(w)).sum()).backward()
    grad = M.N(x.grad)
    check(grad.shape == X.shape and np.all(np.isfinite(grad)),
          "gradient with respect to the features is %s", grad)
    used = np.unique(np.concatenate([batch, nn.ravel()]))
    rest = np.setdiff1d(np.arange(c["n"]), used)
    check(not np.any(grad[rest]), "gradient at unused points")
    size = min(p["model"]["ls"][0] for p in parts_of(c))
    near = min(np.sqrt(((X[i] - X[j]) ** 2).sum()) for i in used
               for j in used if i != j)
    size = min(size, near)  # kernels are not smooth at zero distance
    for k in c["coords"]:
        i, j = used[k % len(used)], (k // 7) % c["d"]

        def f(h):
            X2 = X.copy()
            X2[i, j] += h
            return functional(X2)

        want, err = slope(f, size)
        close("derivative by feature (%d, %d)" % (i, j), grad[i, j], want,
              1e-4, 1e-5 * big + 2 * err + 1e-12 * cond * big / size)
    if "parts" not in c:
        params = dict(layer.named_parameters())
        if "length_scale" in params:
            ls = c["model"]["ls"][0]
            want, err = slope(lambda h: functional(X, ls + h), ls)
            close("derivative by length scale",
                  M.N(params["length_scale"].grad).reshape(()), want, 1e-4,
                  1e-5 * big / ls + 2 * err + 1e-12 * cond * big / ls)
            # a change of the parameter is a change of the model
            with torch.no_grad():
                params["length_scale"].mul_(1.3)
            a, b, cond = reference(c, X, Y, batch, nn, ls * 1.3)
            if cond < 1e9:
                rt = 1e-7 + 1e-13 * cond
                mean, var = layer(M.A(X))
                close("predictions at the new length scale", M.N(mean), a,
                      rt, rt * big)
                close("variances at the new length scale", M.N(var), b, rt,
                      rt * top)
            out.append("length scale")
    return out + (["nt"] if c["nn"] > 1 and c["b"] > 1 else [])


@st.composite
def layer_histories(draw):
    c = draw(cases(multi=draw(st.booleans())))
    c["steps"] = draw(st.lists(st.tuples(
        st.sampled_from(["forward", "forward", "no_grad", "eval", "train",
                         "length scale", "copy", "saved", "in place"]),
        st.integers(0, 5)), min_size=2, max_size=7))
    return c


def run_history(c):
    """Outputs depend on the present input and length scale alone."""
    import io
    from copy import deepcopy

    import torch

    X, Y, batch, nn, _ = gens.expand_train(c)
    m, layer = layer_of(c, batch, nn, Y)
    Xs = [X * (1 + 0.1 * k) + 0.05 * k * X ** 2 / (1 + np.abs(X).max())
          for k in range(3)]
    xs = [M.A(x) for x in Xs]
    ls = None if "parts" in c else c["model"]["ls"][0]
    big = max(1.0, np.abs(Y).max())
    top = max(p["scale"] for p in parts_of(c))

    def compare(what, layer, k, ls):
        wm, wv, cond = reference(c, Xs[k], Y, batch, nn, ls)
        if cond > 1e9:
            return
        rt = 1e-7 + 1e-13 * cond
        mean, var = layer(xs[k])
        close("predictions " + what, M.N(mean), wm, rt, rt * big)
        close("variances " + what, M.N(var), wv, rt, rt * top)

    def params(layer):
        return dict(layer.named_parameters()).get("length_scale")

    compare("at first", layer, 0, ls)
    moved = 0
    for what, k in c["steps"]:
        j = k % 3
        if what == "eval":
            layer.eval()
        elif what == "train":
            layer.train()
        elif what == "in place":
            Xs[j] = Xs[j] * 1.25
            xs[j].mul_(1.25)
        elif what == "no_grad":
            with torch.no_grad():
                compare("without gradients", layer, j, ls)
            continue
        elif what in ("copy", "saved"):
            if what == "copy":
                other = deepcopy(layer)
            else:
                _, other = layer_of(c, batch, nn, Y)
                buf = io.BytesIO()
                torch.save(layer.state_dict(), buf)
                buf.seek(0)
                other.load_state_dict(torch.load(buf))
            compare("of a layer from " + what, other, j, ls)
            if params(other) is not None:
                with torch.no_grad():
                    params(other).mul_(1.7)
                compare("of a changed layer from " + what, other, j, ls * 1.7)
                compare("beside a changed layer from " + what, layer, j, ls)
            if k % 2:
                if params(other) is not None:
                    ls = ls * 1.7
                layer = other
        elif what == "length scale" and params(layer) is not None:
            f = 0.8 + 0.1 * k
            with torch.no_grad():
                params(layer).mul_(f)
            ls = ls * f
        moved += what != "forward" or j > 0
        compare("after " + what, layer, j, ls)
    out = ["multi" if "parts" in c else "single"] + [w for w, _ in c["steps"]]
    return out + (["nt"] if moved and c["nn"] > 1 else [])


def run_refuse(c):
    X, Y, batch, nn, _ = gens.expand_train(c)
    c = dict(c, model=dict(c["model"], **{"def": "aniso",
                                          "ls": c["model"]["ls"] * c["d"]}))
    raises("anisotropic layer", (NotImplementedError,), layer_of, c, batch,
           nn, Y)
    return ["nt"] if c["d"] > 1 else []


# ---- deep kernels -----------------------------------------------------------

@st.composite
def train_cases(draw, losses=("mse", "lool", "ce"), dropout=(False,)):
    d = draw(st.integers(1, 3))
    nn = draw(st.integers(2, 4))
    n = draw(st.integers(nn + 3, 12))
    loss = draw(st.sampled_from(losses))
    r = draw(st.integers(2, 3) if loss == "ce" else st.integers(1, 2))
    multi = draw(st.booleans())
    c = {"d": d, "e": draw(st.integers(1, 2)), "nn": nn, "n": n,
         "b": draw(st.integers(2, min(n, 5))), "r": r, "loss": loss,
         "test": draw(st.integers(1, 4)), "seed": draw(gens.SEEDS),
         "x": "normal", "y": "normal", "tanh": draw(st.booleans()),
         "iters": draw(st.integers(1, 4)), "freq": draw(st.integers(1, 3)),
         "lr": draw(st.sampled_from([1e-3, 1e-2, 5e-2])),
         "decay": draw(st.sampled_from([0.5, 0.95, 1.0])),
         "dropout": draw(st.sampled_from(dropout)),
         "model": {"kernel": "matern", "def": "iso",
                   "nu": draw(st.sampled_from(gens.NUS)),
                   "ls": [draw(st.sampled_from([0.7, 1.0, 1.6]))]},
         "noise": {"kind": "homo", "v": draw(st.sampled_from([0.01, 0.1]))},
         "scale": draw(st.sampled_from([0.5, 1.0, 3.0]))}
    if loss == "lool":
        c["lr"] *= 0.02
    if multi:
        c["parts"] = [{
            "model": dict(c["model"], ls=[draw(st.sampled_from([0.6, 1.3]))],
                          nu=draw(st.sampled_from(gens.NUS))),
            "noise": {"kind": "homo", "v": draw(st.sampled_from([0.02, .2]))},
            "scale": draw(st.sampled_from([0.5, 2.0]))} for _ in range(r)]
    return c


def deep_model(c, batch, nn, Y, W, bias):
    import torch

    m, layer = layer_of(c, batch, nn, Y)

    class Deep(torch.nn.Module):
        def __init__(self):
            super().__init__()
            lin = torch.nn.Linear(c["d"], c["e"]).double()
            with torch.no_grad():
                lin.weight.copy_(M.A(W))
                lin.bias.copy_(M.A(bias))
            mods = [lin] + [torch.nn.Tanh()] * c["tanh"] \
                + [torch.nn.Dropout(0.5)] * c["dropout"]
            self.embedding = torch.nn.Sequential(*mods)
            self.batch_indices = layer.batch_indices
            self.batch_nn_indices = layer.batch_nn_indices
            self.batch_targets = layer.batch_targets
            self.batch_nn_targets = layer.batch_nn_targets
            self.GP_layer = layer
            self.deformation = layer.deformation

        def forward(self, x):
            return self.GP_layer(self.embedding(x))

    return m, Deep()


def loss_value(name, mean, var, t):
    if name == "mse":
        return np.mean((mean - t) ** 2)
    if name == "l1":
        if np.abs(mean - t).min() < 1e-3:
            raise Skip("kink")
        return np.mean(np.abs(mean - t))
    if name == "ce":
        return ref.cross_entropy(mean, t) / len(t)
    return ref.lool(mean, t, var)


def simulate(c, W, bias, act, X, Y, batch, nn, frozen=False):
    """(initial, trained parameters, bound on the error of differences)"""
    multi = "parts" in c

    def embed(W, bias, P):
        return act(P @ W.T + bias)

    theta = np.concatenate([W.ravel(), bias] + (
        [] if multi else [np.array(c["model"]["ls"])]))
    first = theta.copy()
    slack = 0.0

    def split(th):
        k = W.size
        return (th[:k].reshape(W.shape), th[k:k + len(bias)],
                None if multi else th[-1])

    lr = c["lr"]
    for it in range(c["iters"]):
        def loss(th):
            w, b, ls = split(th)
            E = embed(w, b, X)
            mean, var, cond = reference(c, E, Y, batch, nn, ls)
            if cond > 1e5 or var.min() < 1e-4 or (
                    ls is not None and ls < 0.05):
                raise Skip("ill-conditioned")
            return loss_value(c["loss"], mean, var, Y[batch])

        grad = np.zeros_like(theta)
        E = embed(*split(theta)[:2], X)
        d2 = ((E[:, None] - E[None]) ** 2).sum(axis=2)
        near = np.sqrt(d2[~np.eye(len(E), dtype=bool)].min())
        if near < 1e-3:
            raise Skip("embedded points coincide")
        for k in range(len(theta)):
            e = np.eye(len(theta))[k]
            grad[k], err = slope(lambda h: loss(theta + h * e),
                                 min(0.3, near))
            slack += lr * err
        theta = theta - lr * grad
        lr *= c["decay"]
        if it % c["freq"] == 0 and not frozen:
            E = embed(*split(theta)[:2], X)
            nn = ref.all_neighbors(E, E[batch], c["nn"], batch)
            if nn is None:
                raise Skip("tie")
    if np.abs(theta - first).max() > 1.0:
        raise Skip("diverging")
    return first, theta, slack


def run_train(c):
    import torch

    rng = np.random.default_rng([c["seed"], 9])
    X = gens.distinct_features(c["x"], c["n"], c["d"], c["seed"])
    T = rng.normal(size=(c["test"], c["d"]))
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    if c["loss"] == "ce":
        Y = np.eye(c["r"])[rng.integers(0, c["r"], c["n"])]
    batch = rng.permutation(c["n"])[:c["b"]]
    W, bias = rng.normal(size=(c["e"], c["d"])), rng.normal(size=c["e"])
    act = np.tanh if c["tanh"] else (lambda z: z)
    multi = "parts" in c

    def embed(W, bias, P):
        return act(P @ W.T + bias)

    nn = ref.all_neighbors(embed(W, bias, X), embed(W, bias, X)[batch],
                           c["nn"], batch)
    if nn is None:
        raise Skip("tie")
    m, model = deep_model(c, batch, nn, Y, W, bias)
    lookup = M.NN_Wrapper(embed(W, bias, X), c["nn"], nn_method="exact")
    torch.manual_seed(c["seed"])
    try:
        lookup, got = M.train_deep_kernel_muygps(
            model, M.A(X), M.A(Y), M.AI(batch), lookup,
            training_iterations=c["iters"], optimizer_method=torch.optim.SGD,
            learning_rate=c["lr"], scheduler_decay=c["decay"],
            loss_function=c["loss"], update_frequency=c["freq"],
            nn_kwargs={"nn_method": "exact"})
    except ValueError as e:
        if "NaN" in str(e) or "infinity" in str(e):
            first, theta, _ = simulate(c, W, bias, act, X, Y, batch, nn)
            check(False, "training diverged; simulated parameters are %s",
                  theta)
        raise
    check(got is model, "returned another model")
    out = [c["loss"], "multi" if multi else "single"]
    got.eval()
    # final parameters against a simulation of the training
    W1 = M.N(got.embedding[0].weight).copy()
    b1 = M.N(got.embedding[0].bias).copy()
    ls1 = None if multi else float(
        M.N(m.kernel.deformation.length_scale()).reshape(()))
    if not c["dropout"]:
        have = np.concatenate([W1.ravel(), b1] + ([] if multi else [[ls1]]))
        # known finding: neighborhoods are never updated during the training
        for frozen in (False, True):
            try:
                first, theta, slack = simulate(c, W, bias, act, X, Y, batch,
                                               nn, frozen)
            except Skip as e:
                out.append(str(e))
                continue
            try:
                # differences may grow along the training: a share of the move
                close("trained parameters", have, theta, 0,
                      1e-7 + 1e-3 * np.abs(theta - first).max() + 10 * slack)
            except Violation:
                if frozen:
                    raise
                continue
            out += ["simulated"] + ["nt"] * (c["iters"] > 1) + [
                "known:deep-stale-neighborhoods"] * frozen
            break
    # neighbors and predictions at the trained parameters
    out += verify(c, got, lookup, X, Y, T, batch, embed(W1, b1, X),
                  embed(W1, b1, T), ls1, nn, "trained")
    with torch.no_grad():
        got.embedding[0].weight.mul_(-0.7)
    E, F = embed(-0.7 * W1, b1, X), embed(-0.7 * W1, b1, T)
    lookup, again = M.update_nearest_neighbors(
        got, M.A(X), M.A(Y), M.AI(batch), c["nn"],
        nn_kwargs={"nn_method": "exact"})
    check(again is got, "returned another model")
    out += verify(c, got, lookup, X, Y, T, batch, E, F, ls1, nn, "updated")
    return out


def verify(c, got, lookup, X, Y, T, batch, E, F, ls, stale, what):
    """The neighborhoods and predictions of a model.

    Known findings: the model is given the neighborhoods that contain the batch
    elements themselves, and its layer keeps the initial ones (`stale`).
    """
    nn = ref.all_neighbors(E, E[batch], c["nn"], batch)
    tn = ref.all_neighbors(E, F, c["nn"])
    if nn is None or tn is None or (ls is not None and ls < 0.05):
        return []
    selfish = np.concatenate([batch[:, None], nn[:, :-1]], axis=1)
    out = []
    for obj, other, kid in (
            (got, selfish, "deep-self-neighbors"),
            (got.GP_layer, stale, "deep-stale-neighborhoods")):
        have = M.N(obj.batch_nn_indices)
        if not np.array_equal(np.sort(have, 1), np.sort(nn, 1)):
            check(np.array_equal(np.sort(have, 1), np.sort(other, 1)),
                  "%s: neighborhoods %s, nearest embedded points are %s",
                  what, have.tolist(), nn.tolist())
            out.append("known:" + kid)
        close(what + " neighborhood targets", M.N(obj.batch_nn_targets),
              Y[have.astype(int)], 0, 0)
    found, _ = lookup.get_nns(M.A(F))
    check(np.array_equal(np.sort(M.N(found), 1), np.sort(tn, 1)),
          "%s: the lookup does not index the embedded training features", what)
    mean, var = M.predict_model(got, M.A(T), M.A(X), M.A(Y), lookup, c["nn"])
    c2 = dict(c, b=len(T))
    wm, wv, cond = reference(c2, np.concatenate([E, F]), np.concatenate(
        [Y, np.zeros((len(F),) + Y.shape[1:])]),
        len(E) + np.arange(len(F)), tn, ls)
    if cond > 1e8:
        return out
    rt = 1e-6 + 1e-13 * cond
    close(what + " predictions", M.N(mean), wm, rt, rt * max(
        1.0, np.abs(Y).max()))
    close(what + " variances", M.N(var), wv, rt, rt * 3)
    gm, gv = got(M.A(X))
    wm, wv, cond = reference(c, E, Y, batch, M.N(
        got.GP_layer.batch_nn_indices).astype(int), ls)
    if cond < 1e8:
        rt = 1e-6 + 1e-13 * cond
        close(what + " layer predictions", M.N(gm), wm, rt, rt * max(
            1.0, np.abs(Y).max()))
        close(what + " layer variances", M.N(gv), wv, rt, rt * 3)
    return out


def known_l1(case, detail):
    """The documented loss l1 is refused."""
    if "loss function l1 is not supported" in detail:
        return "deep-l1-refused"
    return None


def known_dropout(case, detail):
    """When the last iteration is not one that updates the neighborhoods, the
    final index holds a random (training mode) embedding."""
    if (case["iters"] - 1) % case["freq"] and detail.startswith("trained"):
        return "deep-dropout-index"
    return None


R = ("random embedded features, neighborhoods and models; values against the "
     "dense reference, gradients by features and length scale against "
     "central differences of it; non-trivial = several batch elements and "
     "neighbors")
register("C22", "layer", cases(), R, 600, backend="torch",
         shards=3)(run_layer)
register("C22", "multilayer", cases(multi=True), R, 300, backend="torch",
         shards=2)(run_layer)
register("C22", "layer32", cases(), "the same values in single precision; "
         "non-trivial = several neighbors", 150, backend="torch:32",
         shards=1)(run_layer)
register("C22", "layer_history", layer_histories(), "sequences of forward "
         "passes at several inputs, in training and evaluation mode, with and "
         "without gradients, of copied and saved layers, while the length "
         "scale and the inputs change; non-trivial = something changes and "
         "more than one neighbor", 400, backend="torch")(run_history)
register("C22", "refusal", cases(), "anisotropic models refused; non-trivial "
         "= several features", 40, backend="torch", shards=1)(run_refuse)
register("C22", "deep", train_cases(), "deep kernels trained by gradient "
         "descent against a numerical simulation of the same training, then "
         "neighborhoods and predictions at the trained parameters; "
         "non-trivial = simulated over several iterations", 400,
         backend="torch", shards=6, weight=20)(run_train)
register("C22", "deep_l1", train_cases(losses=("l1",)), "the same with the l1 "
         "loss; non-trivial = simulated over several iterations", 40,
         backend="torch", shards=1, weight=20, known=known_l1)(run_train)
register("C22", "deep_dropout", train_cases(dropout=(True,)), "predictions of "
         "a model with random layers; non-trivial = none", 100,
         backend="torch", shards=1, weight=10, known=known_dropout)(run_train)
