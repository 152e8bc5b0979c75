"""C23: models behave as their current hyperparameters, after any history."""

from copy import deepcopy

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.checks import c20
from harness.core import check, close, register

VALUES = st.sampled_from([0.2, 0.45, 0.9, 1.3, 2.2, 5.0])


@st.composite
def pools(draw, d, generic=True):
    """Hyperparameter objects that models are built from and updated with."""
    ls, nu = [], []
    for _ in range(draw(st.integers(2, 4))):
        v = draw(VALUES)
        ls.append({"v": v, "b": draw(st.sampled_from(
            [None, None, [0.5 * v, 2 * v], [v, 3 * v], [0.1, 6.0]]))})
    for _ in range(draw(st.integers(2, 4))):
        v = draw(gens.nus(generic))
        free = v != "inf" and generic and draw(st.booleans())
        nu.append({"v": v, "b": draw(st.sampled_from(
            [[max(0.3, 0.7 * v), 1.4 * v], [v, v + 1], [0.3, 6.0]]))
            if free else None})
    vecs = [draw(st.lists(st.integers(0, len(ls) - 1), min_size=d,
                          max_size=d)) for _ in range(2)]
    return {"ls": ls, "nu": nu, "vecs": vecs}


@st.composite
def blueprint(draw, pool):
    """A model: indices into the pool, noise and scale."""
    spec = {"kernel": draw(st.sampled_from(["matern", "matern", "rbf"])),
            "def": draw(st.sampled_from(["iso", "diff", "aniso"])),
            "ls": draw(st.integers(0, 1)),
            "nu": draw(st.integers(0, len(pool["nu"]) - 1))}
    noise = draw(gens.noise_spec(("homo", "homo", "hetero")))
    if noise["kind"] == "homo" and draw(st.booleans()):
        noise["bounds"] = [0.3 * noise["v"], 4 * noise["v"]]
    kind = draw(st.sampled_from(["fixed", "analytic", "down"]))
    spec.update(noise=noise, scale={"kind": kind, "val": draw(gens.SCALES)})
    return spec


def slot_ids(n):
    return st.integers(0, n - 1)


@st.composite
def operation(draw, n, pool):
    s, t = draw(slot_ids(n)), draw(slot_ids(n))
    kind = draw(st.sampled_from(
        ["ls", "ls", "nu", "nu", "scale", "scale", "optimize", "copy", "copy",
         "objective", "call", "fast", "sample", "rebuild", "assign"]))
    op = {"op": kind, "s": s}
    if kind == "ls":
        op["set"] = draw(st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, len(pool["ls"]) - 1)),
            min_size=1, max_size=3))
    elif kind == "nu":
        op["to"] = draw(st.integers(0, len(pool["nu"]) - 1))
        op["ls"] = draw(st.one_of(st.none(), st.integers(
            0, len(pool["ls"]) - 1)))
    elif kind == "scale":
        op["seed"] = draw(gens.SEEDS)
    elif kind == "optimize":
        op.update(t=t, opt=draw(st.sampled_from(["scipy", "scipy", "bayes"])),
                  loss=draw(st.sampled_from(["mse", "lool", "looph"])),
                  seed=draw(st.integers(0, 999)))
    elif kind == "copy":
        op["t"] = t
    elif kind == "objective":
        op["f"] = draw(st.lists(st.floats(0, 1), min_size=5, max_size=5))
        op["loss"] = draw(st.sampled_from(["mse", "lool", "looph"]))
    elif kind == "call":
        op["v"], op["n"] = draw(VALUES), draw(st.sampled_from([0.3, 2.2]))
        op["i"] = draw(st.integers(0, 2))
    elif kind == "sample":
        op.update(lo=draw(st.floats(0.2, 1)), w=draw(st.floats(0, 3)),
                  how=draw(st.sampled_from(["sample", "log_sample"])),
                  i=draw(st.integers(0, 2)))
    elif kind == "assign":
        op.update(i=draw(st.integers(0, 4)), f=draw(st.floats(0, 1)))
    elif kind == "rebuild":
        op["spec"] = draw(blueprint(pool))
    return op


@st.composite
def cases(draw, generic=True):
    d = draw(st.integers(1, 3))
    nn = draw(st.integers(2, 5))
    n = draw(st.integers(nn + 2, 14))
    pool = draw(pools(d, generic))
    k = draw(st.integers(1, 3))
    return {"d": d, "nn": nn, "n": n, "b": draw(st.integers(1, 5)),
            "x": draw(st.sampled_from(["normal", "uniform", "cluster"])),
            "seed": draw(gens.SEEDS), "pool": pool,
            "specs": [draw(blueprint(pool)) for _ in range(k)],
            "ops": draw(st.lists(operation(k, pool), min_size=1,
                                 max_size=10))}


def obj(p):
    v = np.inf if p["v"] == "inf" else p["v"]
    return M.ScalarParam(v) if p["b"] is None else M.ScalarParam(
        v, tuple(p["b"]))


class Slot:
    """A library model together with what it should currently be."""

    def __init__(self, world, spec):
        p, d = world.c["pool"], world.c["d"]
        self.metric = M.F2 if spec["kernel"] == "rbf" else M.l2
        if spec["def"] == "aniso":
            ids = p["vecs"][spec["ls"]]
            dfm = M.Anisotropy(self.metric, length_scale=world.vecs[spec["ls"]])
        else:
            ids = [spec["ls"]]
            dfm = (M.Isotropy if spec["def"] == "iso" else
                   M.DifferenceIsotropy)(self.metric,
                                         length_scale=world.ls[spec["ls"]])
        self.now = {self.ls_name(i, spec): p["ls"][j]
                    for i, j in enumerate(ids)}
        if spec["kernel"] == "matern":
            kern = M.Matern(smoothness=world.nu[spec["nu"]], deformation=dfm)
            self.now["smoothness"] = p["nu"][spec["nu"]]
        else:
            kern = M.RBF(deformation=dfm)
        self.spec, self.d = spec, d
        self.diag = gens.noise_diag(spec["noise"], world.c["b"],
                                    world.c["nn"])
        if spec["noise"]["kind"] == "homo":
            self.now["noise"] = {"v": spec["noise"]["v"],
                                 "b": spec["noise"].get("bounds")}
        scale = dict(spec["scale"])
        if scale["kind"] == "down":
            scale.update(down_count=1, iteration_count=3)
        self.scale = scale["val"]
        self.args = {"kernel": kern, "noise": build.noise(spec["noise"],
                                                          self.diag),
                     "scale": build.scale(scale)}
        self.model = None

    def make(self):
        self.model = M.MuyGPS(**self.args)
        return self

    def ls_name(self, i, spec=None):
        aniso = (spec or self.spec)["def"] == "aniso"
        return "length_scale%d" % i if aniso else "length_scale"

    def twin(self, model):
        """Another model that should be in the same state."""
        ret = object.__new__(Slot)
        ret.__dict__.update(self.__dict__)
        ret.now = {k: dict(v) for k, v in self.now.items()}
        ret.model = model
        return ret

    def free(self):
        return [k for k in self.now if self.now[k]["b"] is not None]

    def ref_spec(self, **over):
        v = {k: over.get(k, p["v"]) for k, p in self.now.items()}
        out = {"kernel": self.spec["kernel"], "def": self.spec["def"],
               "ls": [v[k] for k in self.now if k.startswith("length")]}
        if "smoothness" in v:
            out["nu"] = v["smoothness"]
        diag = np.full(self.diag.shape, v["noise"]) if "noise" in v \
            else self.diag
        return out, diag

    # ---- what can be observed ---------------------------------------------

    def check_params(self, who):
        m, free = self.model, self.free()
        names, vals, bounds = m.get_opt_params()
        check(sorted(names) == sorted(free), "%s lists %s for optimization, "
              "free are %s", who, list(names), sorted(free))
        vals, bounds = M.N(vals).reshape(-1), M.N(bounds).reshape(-1, 2)
        for n, v, b in zip(names, vals, bounds):
            close(f"{who}: listed value of {n}", v, self.now[n]["v"], 1e-12, 0)
            close(f"{who}: listed bounds of {n}", b,
                  np.array(self.now[n]["b"], dtype=float), 1e-12, 0)
        check(bool(m.fixed()) == (not free), "%s: fixed() is %s with free %s",
              who, m.fixed(), free)
        close(f"{who}: length scale",
              M.N(m.kernel.deformation.length_scale()).reshape(-1),
              np.array([self.now[n]["v"] for n in self.now
                        if n.startswith("length")]), 1e-12, 0)
        if "smoothness" in self.now:
            v = self.now["smoothness"]["v"]
            close(f"{who}: smoothness", M.N(m.kernel.smoothness()),
                  np.inf if v == "inf" else v, 1e-12, 0)
        if "noise" in self.now:
            close(f"{who}: noise", M.N(m.noise()), self.now["noise"]["v"],
                  1e-12, 0)
        close(f"{who}: scale", M.N(m.scale()).reshape(()), self.scale, 1e-9, 0)
        close(f"{who}: Kout", M.N(m.kernel.Kout()).reshape(()), 1.0, 1e-12, 0)

    def tensors(self, w, Y=None):
        return self.model.make_train_tensors(
            M.AI(w.batch), M.AI(w.nn), M.A(w.X), M.A(w.Y if Y is None else Y))

    def check_predictions(self, who, w):
        spec, diag = self.ref_spec()
        mean, var, cond = ref.posteriors(spec, diag, w.X[w.batch], w.X, w.Y,
                                         w.nn)
        cross, pair, bt, bnnt = self.tensors(w)
        Kin, Kc = self.model.kernel(pair), self.model.kernel(cross)
        got = M.N(self.model.posterior_mean(Kin, Kc, bnnt))
        gvar = M.N(self.model.posterior_variance(Kin, Kc))
        if cond > 1e9:
            return
        rt = 1e-7 + 1e-14 * cond
        close(f"{who}: posterior mean", got, mean, rt,
              rt * max(1.0, np.abs(w.Y).max()))
        close(f"{who}: posterior variance", gvar, self.scale * var, rt,
              rt * self.scale)

    def check_all(self, who, w):
        self.check_params(who)
        self.check_predictions(who, w)


class World:
    def __init__(self, c):
        self.c = c
        self.X, self.Y, self.batch, self.nn = self.data(c)
        p = c["pool"]
        self.ls = [obj(x) for x in p["ls"]]
        self.nu = [obj(x) for x in p["nu"]]
        self.vecs = [M.VectorParam(*[self.ls[i] for i in v])
                     for v in p["vecs"]]

    @staticmethod
    def data(c):
        X = gens.distinct_features(c["x"], c["n"], c["d"], c["seed"])
        Y = gens.responses("normal", c["n"], c.get("r", 0), c["seed"])
        rng = np.random.default_rng([c["seed"], 4])
        batch = rng.integers(0, c["n"], c["b"])
        nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"],
                                   exclude=batch)
        return X, Y, batch, nn

    def check_pool(self, who):
        for objs, specs in ((self.ls, self.c["pool"]["ls"]),
                            (self.nu, self.c["pool"]["nu"])):
            for o, p in zip(objs, specs):
                v = np.inf if p["v"] == "inf" else p["v"]
                close(f"{who}: a parameter object that models were built from",
                      M.N(o()), v, 0, 0)
                check(bool(o.fixed()) == (p["b"] is None), "%s: parameter "
                      "object's fixed() is %s", who, o.fixed())
                if p["b"] is not None:
                    close(f"{who}: bounds of a parameter object",
                          np.array(o.get_bounds(), dtype=float),
                          np.array(p["b"], dtype=float), 0, 0)
        for v, ids in zip(self.vecs, self.c["pool"]["vecs"]):
            close(f"{who}: a vector parameter that models were built from",
                  M.N(v()), np.array([self.c["pool"]["ls"][i]["v"]
                                      for i in ids]), 0, 0)


def loss_fn(name):
    return {"mse": M.mse_fn, "lool": M.lool_fn, "looph": M.looph_fn}[name]


def set_kernel(slot, updates):
    """updates: {name: (object, spec)}"""
    slot.model.kernel.set_params(**{k: o for k, (o, p) in updates.items()})
    slot.now.update({k: p for k, (o, p) in updates.items()})


def apply(op, slots, w, labels):
    """Performs one operation on the models and on what they should be."""
    c, pool = w.c, w.c["pool"]
    s = slots[op["s"]]
    kind = op["op"]
    if kind == "ls":
        up = {}
        for i, j in op["set"]:
            name = s.ls_name(i % c["d"])
            up[name] = (w.ls[j], pool["ls"][j])
        set_kernel(s, up)
    elif kind == "nu":
        if "smoothness" not in s.now:
            return False
        up = {"smoothness": (w.nu[op["to"]], pool["nu"][op["to"]])}
        if op["ls"] is not None:
            up[s.ls_name(0)] = (w.ls[op["ls"]], pool["ls"][op["ls"]])
        set_kernel(s, up)
    elif kind == "scale":
        Y = gens.responses("large", c["n"], 0, op["seed"])
        cross, pair, bt, bnnt = s.tensors(w, Y)
        ret = s.model.optimize_scale(pair, bnnt)
        check(ret is s.model, "optimize_scale returned another object")
        new_scale(s, w, Y)
    elif kind == "optimize":
        if not s.free():
            return False
        optimize(op, slots, s, w)
    elif kind == "copy":
        m = deepcopy(s.model)
        check(m is not s.model and m.kernel is not s.model.kernel,
              "deepcopy returned the same object")
        if s.spec["noise"]["kind"] == "homo":
            check(m == s.model and s.model == m,
                  "a copy is not equal to its original")
        slots[op["t"]] = s.twin(m)
    elif kind == "objective":
        objective(op, s, w)
    elif kind == "call":
        over = {s.ls_name(op["i"] % c["d"]): op["v"]}
        if "smoothness" in s.now and s.now["smoothness"]["b"] is not None:
            over["smoothness"] = op["n"]
        cross, pair, bt, bnnt = s.tensors(w)
        got = M.N(s.model.kernel(pair, **over))
        spec, _ = s.ref_spec(**over)
        want = np.array([ref.cov(spec, w.X[i], w.X[i]) for i in w.nn])
        t = 1e-9 * ref.wobble(spec)
        close("kernel at other hyperparameters", got, want, t, t)
    elif kind == "fast":
        cross, pair, bt, bnnt = s.tensors(w)
        got = M.N(s.model.fast_coefficients(s.model.kernel(pair), bnnt))
        spec, diag = s.ref_spec()
        out = [ref.coefficients(spec, diag[i], w.X[ix], w.Y[ix])
               for i, ix in enumerate(w.nn)]
        want, cond = np.array([o[0] for o in out]), max(o[1] for o in out)
        if cond < 1e9 and ref.wobble(spec) == 1:
            t = 1e-7 + 1e-14 * cond
            close("fast coefficients", got.reshape(want.shape), want, t,
                  t * np.abs(want).max())
    elif kind == "sample":
        hi = op["lo"] + op["w"]
        p = M.ScalarParam(op["how"], (op["lo"], hi))
        name = s.ls_name(op["i"] % c["d"])
        v = float(M.N(p()))
        check(op["lo"] - 1e-9 <= v <= hi + 1e-9, "sampled %s from [%s, %s]",
              v, op["lo"], hi)
        set_kernel(s, {name: (p, {"v": v, "b": [op["lo"], hi]})})
    elif kind == "assign":
        assign(op, s)
    elif kind == "rebuild":
        slots[op["s"]] = Slot(w, op["spec"]).make()
    return True


def assign(op, s):
    """A new value for one hyperparameter, as the optimizers assign it."""
    names = [n for n in s.now if n != "smoothness"]
    if "noise" in names and op["i"] == 4:
        name = "noise"
    else:
        name = names[op["i"] % len(names)]
    lo, hi = s.now[name]["b"] or ((1e-4, 0.1) if name == "noise"
                                  else (0.3, 4.0))
    v = lo + op["f"] * (hi - lo)
    own = s.model.noise if name == "noise" else \
        s.model.kernel._hyperparameters[name]
    own._set_val(v)
    s.model._make()
    s.now[name] = {"v": v, "b": s.now[name]["b"]}


def new_scale(s, w, Y):
    """What the scale should be after being estimated from Y."""
    spec, diag = s.ref_spec()
    got = float(M.N(s.model.scale()).reshape(()))
    kind = s.spec["scale"]["kind"]
    _, _, cond = ref.posteriors(spec, diag, w.X[w.batch], w.X, w.Y, w.nn)
    if kind == "analytic":
        if cond < 1e9:
            close("estimated scale", got, ref.analytic_scale(
                spec, diag, w.X, Y, w.nn), 1e-6 + 1e-14 * cond, 0)
        s.scale = got
    elif kind == "down":
        # one neighbor each: the median of mean squares over 1 + noise
        vals = [float(np.mean(Y[w.nn[:, j]] ** 2 / (1 + diag[:, j])))
                for j in range(w.nn.shape[1])]
        check(min(abs(v - got) / v for v in vals) < 1e-6, "down-sampled "
              "scale %s is none of %s", got, vals)
        s.scale = got


def optimize(op, slots, s, w):
    cross, pair, bt, bnnt = s.tensors(w)
    if op["opt"] == "bayes":
        ret = M.Bayes_optimize(
            s.model, bt, bnnt, cross, pair, loss_fn=loss_fn(op["loss"]),
            init_points=1, n_iter=1, random_state=op["seed"],
            allow_duplicate_points=True)
    else:
        ret = M.L_BFGS_B_optimize(s.model, bt, bnnt, cross, pair,
                                  loss_fn=loss_fn(op["loss"]),
                                  options={"maxiter": 4})
    check(ret is not s.model, "the optimizer returned its input")
    t = s.twin(ret)
    names, vals, bounds = ret.get_opt_params()
    for n, v in zip(names, M.N(vals).reshape(-1)):
        if n in t.now and t.now[n]["b"] is not None:
            lo, hi = t.now[n]["b"]
            check(lo * (1 - 1e-9) <= v <= hi * (1 + 1e-9),
                  "optimized %s = %s outside of [%s, %s]", n, v, lo, hi)
            t.now[n]["v"] = float(v)
    # its own reports are judged by check_all, like those of every model
    t.check_all("optimized model", w)
    slots[op["t"]] = t


def objective(op, s, w):
    cross, pair, bt, bnnt = s.tensors(w)
    fn = M.make_loo_crossval_fn(
        loss_fn(op["loss"]), s.model.kernel.get_opt_fn(),
        s.model.get_opt_mean_fn(), s.model.get_opt_var_fn(),
        s.model.scale.get_opt_fn(s.model), pair, cross, bnnt, bt)
    if s.spec["scale"]["kind"] == "down":
        return  # random
    over = {}
    for n, f in zip(s.free(), op["f"]):
        lo, hi = s.now[n]["b"]
        over[n] = lo + f * (hi - lo)
    spec, diag = s.ref_spec(**over)
    mean, var, cond = ref.posteriors(spec, diag, w.X[w.batch], w.X, w.Y, w.nn)
    if s.spec["scale"]["kind"] == "analytic":
        scale = ref.analytic_scale(spec, diag, w.X, w.Y, w.nn)
    else:
        scale = s.scale
    t = w.Y[w.batch]
    kw = {} if op["loss"] == "mse" else {"v": var, "scale": scale}
    want = -{"mse": ref.mse, "lool": ref.lool, "looph": ref.looph}[
        op["loss"]](mean, t, **kw)
    got = float(M.N(fn(**over)))
    if cond < 1e7 and var.min() > 1e-6:
        rt = 1e-6 + 1e-13 * cond / var.min()
        close("objective", got, want, rt, rt)


def check_equality(slots, who):
    """Models of one kind are equal when their hyperparameters' values are."""
    for i, a in enumerate(slots):
        for j, b in enumerate(slots):
            if any(s.spec["noise"]["kind"] != "homo" for s in (a, b)) or [
                    a.spec[k] for k in ("kernel", "def")] != [
                    b.spec[k] for k in ("kernel", "def")]:
                continue
            va, vb = [{k: p["v"] for k, p in s.now.items()} for s in (a, b)]
            sa, sb = [M.N(s.model.scale()).reshape(()) for s in (a, b)]
            check(bool(a.model == b.model) == (va == vb and sa == sb),
                  "after %s models %d and %d with %s, scale %s and %s, scale "
                  "%s: equal is %s", who, i, j, va, sa, vb, sb,
                  a.model == b.model)


def run(c):
    w = World(c)
    slots = [Slot(w, sp) for sp in c["specs"]]
    for s in slots:  # every set of parts exists before any model does
        s.make()
    labels = {"slots=%d" % len(slots)}
    for i, s in enumerate(slots):
        s.check_all(f"model {i} when built", w)
    done = 0
    for k, op in enumerate(c["ops"]):
        who = "operation %d (%s on %d)" % (k, op["op"], op["s"])
        if not apply(op, slots, w, labels):
            continue
        done += 1
        labels.add(op["op"])
        for i, s in enumerate(slots):
            s.check_all(f"model {i} after {who}", w)
        w.check_pool("after " + who)
        check_equality(slots, who)
    labels.add("done=%d" % min(done, 5))
    if done >= 2:
        labels.add("nt")
    return labels


# ---- multivariate models ----------------------------------------------------

@st.composite
def multi_cases(draw):
    d = draw(st.integers(1, 3))
    nn = draw(st.integers(2, 5))
    n = draw(st.integers(nn + 2, 14))
    r = draw(st.integers(1, 3))
    pool = draw(pools(d))
    dfs = draw(st.sampled_from([["iso"], ["diff", "aniso"]]))
    kern = draw(st.sampled_from(["matern", "rbf"]))
    specs = []
    for _ in range(r):
        sp = draw(blueprint(pool))
        sp["def"] = draw(st.sampled_from(dfs))
        if sp["def"] == "iso":
            sp["kernel"] = kern
        if sp["scale"]["kind"] == "down":
            sp["scale"]["kind"] = "analytic"
        specs.append(sp)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(operation(r, pool))
        if op["op"] in ("ls", "nu", "sample", "call", "fast"):
            op["obj"] = draw(st.integers(0, 1))
        else:
            op = {"op": draw(st.sampled_from(["mcopy", "mscale", "mfast",
                                              "mpredict"])),
                  "obj": draw(st.integers(0, 1)), "seed": draw(gens.SEEDS),
                  "s": 0}
        ops.append(op)
    return {"d": d, "nn": nn, "n": n, "b": draw(st.integers(1, 5)), "r": r,
            "x": draw(st.sampled_from(["normal", "uniform"])),
            "seed": draw(gens.SEEDS), "pool": pool, "specs": specs,
            "ops": ops}


def check_multi(who, mv, slots, w, Y):
    cross, pair, bt, bnnt = mv.make_train_tensors(
        M.AI(w.batch), M.AI(w.nn), M.A(w.X), M.A(Y))
    mean = M.N(mv.posterior_mean(pair, cross, bnnt))
    var = M.N(mv.posterior_variance(pair, cross))
    for i, s in enumerate(slots):
        s.check_params(f"{who}, response {i}")
        spec, diag = s.ref_spec()
        mu, v, cond = ref.posteriors(spec, diag, w.X[w.batch], w.X, Y[:, i],
                                     w.nn)
        if cond > 1e9:
            continue
        t = 1e-7 + 1e-14 * cond
        close(f"{who}: mean of response {i}", mean[:, i], mu, t,
              t * max(1.0, np.abs(Y).max()))
        close(f"{who}: variance of response {i}", var[:, i], s.scale * v, t,
              t * s.scale)
    check(bool(mv.fixed()) == (not any(s.free() for s in slots)),
          "%s: fixed() is %s", who, mv.fixed())


def run_multi(c):
    w = World(dict(c, r=c["r"]))
    Y = w.Y
    w.Y = Y[:, 0]
    slots = [Slot(w, sp) for sp in c["specs"]]
    mv = M.MultivariateMuyGPS(*[s.args for s in slots])
    for s, m in zip(slots, mv.models):
        s.model = m
    objs = [(mv, slots)]
    labels, done = {"r=%d" % c["r"]}, 0
    for k, op in enumerate(c["ops"]):
        mv, slots = objs[op["obj"] % len(objs)]
        who = "operation %d (%s)" % (k, op["op"])
        if op["op"] == "mcopy":
            mc = deepcopy(mv)
            new = (mc, [s.twin(m) for s, m in zip(slots, mc.models)])
            objs = [(mv, slots), new]
        elif op["op"] == "mscale":
            Y2 = gens.responses("large", c["n"], c["r"], op["seed"])
            cross, pair, bt, bnnt = mv.make_train_tensors(
                M.AI(w.batch), M.AI(w.nn), M.A(w.X), M.A(Y2))
            mv.optimize_scale(pair, bnnt)
            for i, s in enumerate(slots):
                new_scale(s, w, Y2[:, i])
        elif op["op"] == "mfast":
            cross, pair, bt, bnnt = mv.make_train_tensors(
                M.AI(w.batch), M.AI(w.nn), M.A(w.X), M.A(Y))
            co = mv.fast_coefficients(pair, bnnt)
            mv.fast_posterior_mean(cross, co)
        elif op["op"] != "mpredict" and not apply(op, slots, w, labels):
            continue
        done += 1
        labels.add(op["op"])
        for j, (m, sl) in enumerate(objs):
            check_multi(f"multivariate model {j} after {who}", m, sl, w, Y)
        w.check_pool("after " + who)
    if done >= 2 and c["r"] > 1:
        labels.add("nt")
    return labels


# ---- defaults ---------------------------------------------------------------

@st.composite
def default_cases(draw):
    return {"kinds": draw(st.lists(st.sampled_from(
        ["matern", "rbf", "matern0", "muygps"]), min_size=2, max_size=4)),
        "ops": draw(st.lists(st.tuples(
            st.integers(0, 3), st.sampled_from(["ls", "nu", "scale", "copy"]),
            st.sampled_from([0.3, 1.7, 2.5]), gens.SEEDS),
            min_size=1, max_size=6)),
        "d": 2, "nn": 3, "n": 8, "b": draw(st.integers(1, 3)),
        "x": "normal", "seed": draw(gens.SEEDS),
        "pool": {"ls": [{"v": 1.0, "b": None}], "nu": [{"v": 0.5, "b": None}],
                 "vecs": [[0, 0]]}}


def run_defaults(c):
    """Models built from defaults do not share them."""
    w = World(c)
    slots = []

    def fresh(kind):
        spec = {"kernel": "rbf" if kind == "rbf" else "matern", "def": "iso",
                "ls": 0, "nu": 0, "noise": {"kind": "homo", "v": 0.0},
                "scale": {"kind": "analytic" if kind != "muygps" else "fixed",
                          "val": 1.0}}
        s = Slot(w, spec)
        s.now["noise"] = {"v": 0.0, "b": None}
        args = {"kernel": M.RBF() if kind == "rbf" else M.Matern(
            smoothness=M.ScalarParam(0.5)) if kind == "matern0"
            else M.Matern()}
        if kind != "muygps":
            args["scale"] = M.AnalyticScale()
        s.model = M.MuyGPS(**args)
        return s

    slots = [fresh(k) for k in c["kinds"]]
    for k, (i, what, v, seed) in enumerate(c["ops"]):
        s = slots[i % len(slots)]
        op = {"op": what, "s": 0, "seed": seed, "t": 0}
        if what == "ls":
            set_kernel(s, {"length_scale": (M.ScalarParam(v),
                                            {"v": v, "b": None})})
        elif what == "nu":
            if s.spec["kernel"] != "matern":
                continue
            set_kernel(s, {"smoothness": (M.ScalarParam(v),
                                          {"v": v, "b": None})})
        elif what == "copy":
            slots[i % len(slots)] = s.twin(deepcopy(s.model))
        else:
            apply(op, [s], w, set())
        for j, t in enumerate(slots):
            t.check_all(f"model {j} of {c['kinds']} after {what} on "
                        f"{i % len(slots)}", w)
        t = fresh(c["kinds"][i % len(slots)])
        t.check_all("a model newly built from defaults", w)
    return ["nt"] + sorted(set(c["kinds"]))


@st.composite
def shear_cases(draw):
    c = draw(c20.cases())
    f = st.sampled_from([0.5, 0.8, 1.0, 1.6, 2.5])
    i = st.integers(0, 2)
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(
        ["set", "set", "copy", "scale", "elsewhere"]), i, i, f),
        min_size=1, max_size=6))
    return c


def run_shear(c):
    """Shear models, whose prior covariance follows the length scale."""
    if c["b"] == c["nn"]:
        c = dict(c, b=c["b"] + 1)
    X = c20.points(c, c["n"] + c["b"])
    Xtr, Xq = X[:c["n"]], X[c["n"]:]
    Y = gens.responses("normal", c["n"], 3, c["seed"]) / c["ls"]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    var = c20.noise_var(c)
    models = [c20.model(dict(c, scale_fn="analytic")) for _ in range(3)]
    now = [[c["ls"], c["scale"]] for _ in models]
    cross, pair, nnt = models[0].make_predict_tensors(
        M.AI(np.arange(c["b"])), M.AI(nn), M.A(Xq), M.A(Xtr), M.A(Y))
    t = c20.tensors(c, nnt)
    seen, done = {}, 0

    def want(ls):
        if ls not in seen:
            seen[ls] = c20.conditionals(c, ls, var, Xtr, Y, nn, Xq)
        return seen[ls]

    for k, (op, i, j, f) in enumerate(c["ops"]):
        m, ls = models[i], c["ls"] * f
        if op == "set":
            m.kernel.set_params(length_scale=M.ScalarParam(ls))
            now[i][0] = ls
        elif op == "copy":
            models[j], now[j] = deepcopy(m), list(now[i])
        elif op == "elsewhere":
            kern, _, vary = (m.kernel.get_opt_fn(), m.get_opt_mean_fn(),
                             m.get_opt_var_fn())
            vary(kern(pair, length_scale=ls), kern(cross, length_scale=ls),
                 length_scale=ls)
        elif c["kernel"] == "33" and M.backend() == "numpy":
            m.optimize_scale(pair, t)
            now[i][1] = want(now[i][0])[2]
        else:
            continue
        done += 1
        for n, (m, (ls, scale)) in enumerate(zip(models, now)):
            what = "of shear model %d after operation %d, %s" % (n, k, op)
            mean, cov, _, cond = want(ls)
            tol = 10 * c20.tolerance(cond)
            Kin, Kc = c20.kernels(c, m, pair, cross)
            close("mean " + what, M.N(m.posterior_mean(Kin, Kc, t)), mean,
                  tol, tol * max(1.0, np.abs(Y).max()))
            close("variance " + what, M.N(m.posterior_variance(Kin, Kc)),
                  scale * cov, tol, tol * scale * 2 / ls ** 2)
    return ["kernel:" + c["kernel"]] + sorted({o[0] for o in c["ops"]}) + (
        ["nt"] if done > 1 else [])


R = ("histories of up to 10 operations (updating length scales and smoothness "
     "with shared parameter objects, estimating scales, optimizing, copying, "
     "evaluating objectives and kernels elsewhere, rebuilding) over up to "
     "three models; every model is compared with its reference after every "
     "operation; non-trivial = at least two operations took place")
register("C23", "history", cases(), R, 6000, shards=5, weight=10)(run)
register("C23", "multivariate", multi_cases(), "the same over multivariate "
         "models and their copies; non-trivial = several responses and at "
         "least two operations", 2500, shards=2, weight=10)(run_multi)
register("C23", "defaults", default_cases(), "models built from default "
         "arguments, altered one at a time; every case counts", 1500,
         shards=1, weight=3)(run_defaults)
register("C23", "shear", shear_cases(), "histories over three shear models: "
         "setting length scales, copying, estimating scales, evaluating at "
         "other length scales; non-trivial = at least two operations", 800,
         shards=1, weight=4)(run_shear)
