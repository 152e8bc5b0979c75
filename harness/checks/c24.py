"""C24: predictions are pointwise, and equivariant.

The only properties whose oracle needs no reference computation, so the
problems are much larger than elsewhere (up to 300 batch elements, 50
neighbors, 40 features, 400 training points).
"""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens
from harness.checks import c08
from harness.core import Skip, check, close, register

RELATIONS = ["subset", "single", "order", "neighbors", "linear", "unrelated",
             "relabel", "shift", "rotate", "zoom", "columns", "negate",
             "units"]


@st.composite
def sizes(draw):
    def upto(k):
        return st.one_of(st.integers(1, min(k, 6)), st.integers(1, k))

    d, nn = draw(upto(40)), draw(upto(50))
    n = nn + draw(upto(350))
    b = min(draw(upto(300)), max(1, int(3e5 / (nn * nn * d))))
    return d, nn, n, b


@st.composite
def cases(draw, generic=True, defs=("iso", "diff", "aniso")):
    d, nn, n, b = draw(sizes())
    multi = draw(st.sampled_from([False, False, True]))
    c = {"d": d, "nn": nn, "n": n, "b": b, "seed": draw(gens.SEEDS),
         "r": draw(st.integers(1 if multi else 0, 5)), "multi": multi,
         "x": draw(st.sampled_from(gens.FEATURE_KINDS)),
         "y": draw(st.sampled_from(["normal", "large", "offset", "counts"])),
         "self": draw(st.booleans()),
         "rel": draw(st.lists(st.sampled_from(RELATIONS), min_size=1,
                              max_size=3, unique=True)),
         "rseed": draw(gens.SEEDS)}
    dfs = defs
    kernels = ("matern", "rbf")
    if multi:
        dfs = draw(st.sampled_from([("iso",), ("diff", "aniso")]))
        if dfs == ("iso",):
            kernels = (draw(st.sampled_from(kernels)),)
    c["parts"] = [{
        "model": draw(gens.kernel_spec(d, generic=generic, defs=dfs,
                                       kernels=kernels)),
        "noise": draw(gens.noise_spec(("homo", "hetero"))),
        "scale": {"kind": draw(st.sampled_from(["fixed", "analytic"])),
                  "val": draw(gens.SCALES)}}
        for _ in range(c["r"] if multi else 1)]
    for p in c["parts"]:
        if "v" in p["noise"]:
            p["noise"]["v"] = max(p["noise"]["v"], 1e-3)
        else:
            p["noise"]["level"] = max(p["noise"]["level"], 1e-2)
        if not multi and c["r"] > 1:
            p["scale"]["kind"] = "fixed"
        # distances of many features grow like the root of their count
        p["model"]["ls"] = [v * np.sqrt(d) for v in p["model"]["ls"]]
    return c


class Problem:
    """Everything a prediction depends on; relations return altered copies."""

    def __init__(self, c):
        rng = np.random.default_rng([c["seed"], 12])
        X = gens.features(c["x"], c["n"] + c["b"], c["d"], c["seed"])
        X = X[rng.permutation(len(X))]
        self.c = c
        self.Xtr, self.Xte = X[:c["n"]], X[c["n"]:]
        self.Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
        self.nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
        self.idx = np.arange(c["b"])
        self.diags = [gens.noise_diag(p["noise"], c["b"], c["nn"])
                      for p in c["parts"]]
        self.specs = [p["model"] for p in c["parts"]]

    def but(self, **kw):
        ret = object.__new__(Problem)
        ret.__dict__.update(self.__dict__, **kw)
        return ret

    def rows(self, keep):
        return self.but(nn=self.nn[keep], idx=self.idx[keep],
                        diags=[d[keep] for d in self.diags])

    def args(self, i):
        p = self.c["parts"][i]
        return {"kernel": build.kernel(self.specs[i]),
                "noise": build.noise(p["noise"], self.diags[i]),
                "scale": build.scale(p["scale"])}

    def model(self):
        if self.c["multi"]:
            return M.MultivariateMuyGPS(*[self.args(i) for i in range(
                len(self.specs))])
        return M.MuyGPS(**self.args(0))

    def predict(self):
        m = self.model()
        a = (M.AI(self.idx), M.AI(self.nn), M.A(self.Xte), M.A(self.Xtr),
             M.A(self.Y))
        cross, pair, nnt = m.make_predict_tensors(*a)
        out = {}
        if self.c["multi"]:
            out["mean"] = m.posterior_mean(pair, cross, nnt)
            out["variance"] = m.posterior_variance(pair, cross)
            out["coefficients"] = m.fast_coefficients(pair, nnt)
            out["fast mean"] = m.fast_posterior_mean(cross,
                                                     out["coefficients"])
            mean, var = M.regress_from_indices(m, *a)
        else:
            Kin, Kc = m.kernel(pair), m.kernel(cross)
            out["covariance"], out["crosswise covariance"] = Kin, Kc
            out["mean"] = m.posterior_mean(Kin, Kc, nnt)
            out["variance"] = m.posterior_variance(Kin, Kc)
            out["coefficients"] = m.fast_coefficients(Kin, nnt)
            out["fast mean"] = m.fast_posterior_mean(Kc, out["coefficients"])
            mean, var = M.regress_from_indices(m, *a)
        out["mean from indices"], out["variance from indices"] = mean, var
        out = {k: M.N(v).copy() for k, v in out.items()}
        m.optimize_scale(pair, nnt)
        models = m.models if self.c["multi"] else [m]
        self.scales = np.array([float(M.N(x.scale()).reshape(()))
                                for x in models])
        return out

    def tol(self, moved=1.0):
        """Rounding, amplified by the condition of the covariances."""
        cond = max((self.c["nn"] + d.max()) / d.min() for d in self.diags)
        size = np.nanmax(np.abs(self.Xtr)) + np.nanmax(np.abs(self.Xte))
        ls = min(min(s["ls"]) for s in self.specs)
        eps = 1e-7 if M.f32() else 1e-15
        return cond * eps * (10 + 10 * moved * self.c["d"] * size / ls)


def shape_as(got, want):
    """A single response column may be squeezed by the fast functions."""
    return got.reshape(want.shape) if got.size == want.size else got


def compare(rel, base, now, tol, prob, skip=(), scales=True):
    y = max(1.0, np.nanmax(np.abs(prob.Y)))
    for k, want in base.items():
        if k in skip:
            continue
        size = {"coefficients": y / min(d.min() for d in prob.diags),
                "covariance": 1.0, "crosswise covariance": 1.0,
                "variance": prob.vmax, "variance from indices": prob.vmax,
                "fast mean": y / min(d.min() for d in prob.diags),
                }.get(k, y)
        close(f"{rel}: {k}", shape_as(now[k], want), want, tol, tol * size)


def run(c):
    p = Problem(c)
    p.vmax = max(q["scale"]["val"] for q in c["parts"])
    base = p.predict()
    b, nn, n, d = c["b"], c["nn"], c["n"], c["d"]
    rng = np.random.default_rng([c["rseed"]])
    close("mean by another route", base["mean from indices"], base["mean"],
          p.tol(), p.tol() * max(1.0, np.abs(p.Y).max()))
    close("variance by another route", base["variance from indices"],
          base["variance"], p.tol(), p.tol() * p.vmax)
    t = p.tol()
    rows = {"covariance", "crosswise covariance", "mean", "variance",
            "coefficients", "fast mean", "mean from indices",
            "variance from indices"}
    for rel in c["rel"]:
        same_scale = p.scales
        if rel in ("subset", "single", "order"):
            keep = {"subset": lambda: rng.integers(0, b, rng.integers(
                        1, b + 3)),
                    "single": lambda: rng.integers(0, b, 1),
                    "order": lambda: rng.permutation(b)}[rel]()
            q = p.rows(keep)
            # a neighborhood with its own data, indexed in any other order
            if rng.integers(0, 2):
                perm = rng.permutation(b)
                inv = np.argsort(perm)
                q = q.but(Xte=p.Xte[perm], idx=inv[q.idx])
            got = q.predict()
            want = {k: (v.reshape((b,) + v.shape[1:])[keep] if v.ndim and
                        v.shape[0] == b else v) for k, v in base.items()}
            compare(rel, want, got, t, p)
            if rel != "order":
                same_scale = None
        elif rel == "neighbors":
            perm = np.array([rng.permutation(nn) for _ in range(b)])

            def take(a):
                return np.take_along_axis(a, perm, axis=1)

            q = p.but(nn=take(p.nn), diags=[take(x) for x in p.diags])
            got = q.predict()
            want = dict(base)
            co = base["coefficients"].reshape(b, nn, -1)
            want["coefficients"] = np.stack(
                [take(co[:, :, j]) for j in range(co.shape[2])],
                axis=2).reshape(base["coefficients"].shape)
            if "covariance" in want:
                K = base["covariance"].reshape(b, nn, nn)
                want["covariance"] = np.array(
                    [K[i][np.ix_(perm[i], perm[i])] for i in range(b)])
                want["crosswise covariance"] = take(
                    base["crosswise covariance"].reshape(b, nn))
            compare(rel, want, got, t, p)
        elif rel == "linear":
            f, g = rng.normal(size=2) * 3
            Y2 = gens.responses("normal", n, c["r"], c["rseed"])
            second = p.but(Y=Y2).predict()
            got = p.but(Y=f * p.Y + g * Y2).predict()
            y = max(1.0, np.abs(p.Y).max()) * (1 + abs(f) + abs(g))
            big = max(1 / x.min() for x in p.diags)
            for k in ("mean", "mean from indices", "fast mean",
                      "coefficients"):
                s = y * (big if k in ("coefficients", "fast mean") else 1)
                close("linearity of the " + k, got[k],
                      f * base[k] + g * second[k], t, t * s)
            for k in ("variance", "variance from indices"):
                close(k + " of other responses", got[k], base[k], t,
                      t * p.vmax)
            same_scale = None
        elif rel == "negate":
            q = p.but(Y=-2 * p.Y)
            got = q.predict()
            for k in ("mean", "coefficients", "fast mean"):
                close(k + " of -2 times the responses", got[k], -2 * base[k],
                      t, t)
            an = np.array([4.0 if x["scale"]["kind"] == "analytic" else 1.0
                           for x in c["parts"]])
            close("scale of -2 times the responses", q.scales, an * p.scales,
                  100 * t, 0)
            same_scale = None
        elif rel == "unrelated":
            # data outside of the neighborhoods is not looked at
            Xtr, Y = p.Xtr.copy(), p.Y.copy()
            unused = np.setdiff1d(np.arange(n), p.nn)
            Xtr[unused], Y[unused] = np.nan, np.nan
            extra = rng.integers(0, 4)
            Xtr = np.concatenate([Xtr, np.full((extra, d), np.inf)])
            Y = np.concatenate([Y, np.full((extra,) + Y.shape[1:], np.inf)])
            q = p.but(Xtr=Xtr, Y=Y)
            compare(rel, base, q.predict(), t, p)
        elif rel == "relabel":
            perm = rng.permutation(n)
            inv = np.argsort(perm)
            q = p.but(Xtr=p.Xtr[perm], Y=p.Y[perm], nn=inv[p.nn])
            compare(rel, base, q.predict(), t, p)
        elif rel == "shift":
            off = rng.normal(size=d) * rng.choice([0.1, 1.0, 30.0])
            q = p.but(Xtr=p.Xtr + off, Xte=p.Xte + off)
            t2 = sensitive(p, q)
            compare(rel, base, q.predict(), t2, p)
            same_scale = None if t2 > 1e-6 else same_scale
        elif rel == "rotate":
            if any(s["def"] == "aniso" for s in p.specs):
                # the features can be reordered with their length scales
                perm = rng.permutation(d)
                specs = [dict(s, ls=[s["ls"][j] for j in perm])
                         if s["def"] == "aniso" else s for s in p.specs]
                q = p.but(Xtr=p.Xtr[:, perm], Xte=p.Xte[:, perm], specs=specs)
                t2 = sensitive(p, q)
            else:
                Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
                q = p.but(Xtr=p.Xtr @ Q, Xte=p.Xte @ Q)
                t2 = sensitive(p, q)
            compare(rel, base, q.predict(), t2, p)
            same_scale = None if t2 > 1e-6 else same_scale
        elif rel == "zoom":
            f = 10.0 ** rng.uniform(-2, 2)
            specs = [dict(s, ls=[f * v for v in s["ls"]]) for s in p.specs]
            q = p.but(Xtr=p.Xtr * f, Xte=p.Xte * f, specs=specs)
            t2 = sensitive(p, q)
            compare(rel, base, q.predict(), t2, p)
            same_scale = None if t2 > 1e-6 else same_scale
        elif rel == "units":
            # powers of two far from one: nothing is rounded differently
            top = 10 if M.f32() else 50
            f, g, s = 2.0 ** rng.integers(-top, top + 1, 3)
            q = p.but(Xtr=p.Xtr * f, Xte=p.Xte * f, Y=p.Y * g, specs=[
                dict(x, ls=[f * v for v in x["ls"]]) for x in p.specs],
                c=dict(c, parts=[dict(x, scale=dict(
                    x["scale"], val=s * x["scale"]["val"]))
                    for x in c["parts"]]))
            t2 = sensitive(p, p)
            got = q.predict()
            for k in got:
                got[k] = got[k] / (1 if "covariance" in k else s if
                                   "variance" in k else g)
            compare("units of %g, %g, %g" % (f, g, s), base, got, t2, p)
            an = np.array([g * g if x["scale"]["kind"] == "analytic" else s
                           for x in c["parts"]])
            same_scale = None
            if t2 < 1e-6 and c["y"] != "constant":
                close("units: scale", q.scales / an, p.scales,
                      100 * t + 1e-6, 0)
        elif rel == "columns":
            if c["r"] < 1:
                continue
            perm = rng.permutation(c["r"])[:rng.integers(1, c["r"] + 1)]
            cc = c
            if c["multi"]:
                cc = dict(c, parts=[c["parts"][j] for j in perm],
                          r=len(perm))
            q = p.but(Y=p.Y[:, perm], c=cc)
            if c["multi"]:
                q.specs = [p.specs[j] for j in perm]
                q.diags = [p.diags[j] for j in perm]
            got = q.predict()
            y = max(1.0, np.abs(p.Y).max())
            big = max(1 / x.min() for x in p.diags)
            for k in ("mean", "mean from indices"):
                close("columns: " + k, got[k].reshape(b, len(perm)),
                      base[k].reshape(b, -1)[:, perm], t, t * y)
            close("columns: coefficients", got["coefficients"].reshape(
                b, nn, len(perm)), base["coefficients"].reshape(
                    b, nn, -1)[:, :, perm], t, t * y * big)
            v = base["variance"]
            close("columns: variance", got["variance"],
                  v[:, perm] if c["multi"] else v, t, t * p.vmax)
            if c["multi"]:
                close("columns: scales", q.scales, p.scales[perm], 100 * t, 0)
            same_scale = None
        if same_scale is not None and c["y"] != "constant":
            close(rel + ": scale", q.scales, same_scale, 100 * t + 1e-6, 0)
    return labels_of(c)


def sensitive(p, q):
    """Tolerance of relations that recompute the distances.

    Coinciding points stay exactly coinciding; elsewhere distances change by
    relative rounding of the coordinates, and exp(-d) by as much. Smoother
    kernels are less sensitive.
    """
    size = max(np.abs(a).max() for a in (p.Xtr, p.Xte, q.Xtr, q.Xte))
    grow = 1.0
    both = np.concatenate([p.Xtr, p.Xte])
    both2 = np.concatenate([q.Xtr, q.Xte])
    rel = max(np.abs(both).max() / min(min(s["ls"]) for s in p.specs),
              np.abs(both2).max() / min(min(s["ls"]) for s in q.specs))
    cond = max((p.c["nn"] + d.max()) / d.min() for d in p.diags)
    eps = 1e-7 if M.f32() else 1e-15
    t = cond * eps * (10 + 30 * p.c["d"] * rel * grow)
    if t > (1e-2 if M.f32() else 1e-3) or not np.isfinite(size):
        raise Skip("too sensitive to rounding")
    return t


def labels_of(c):
    out = ["multi" if c["multi"] else "single", "def:" +
           c["parts"][0]["model"]["def"]] + ["rel:" + r for r in c["rel"]]
    for k, lim in (("b", 50), ("nn", 10), ("d", 10), ("n", 100)):
        if c[k] > lim:
            out.append("%s>%d" % (k, lim))
    if c.get("huge"):
        out.append("huge:" + c["huge"])
    if c["b"] > 1 and c["nn"] > 1:
        out.append("nt")
    return out


# ---- pathological company ----------------------------------------------------

POISONS = ["near-singular", "nan point", "far point", "nan responses",
           "huge responses", "nan neighbors", "loud"]


@st.composite
def poison_cases(draw, generic=True):
    c = draw(cases(generic=generic))
    c["b"] = max(2, min(c["b"], 60))
    # neighborhoods of the poisoned rows come from training points of their own
    c["n"] = 2 * max(c["n"], c["nn"] + 2)
    c["poison"] = draw(st.lists(st.sampled_from(POISONS), min_size=1,
                                max_size=3, unique=True))
    c["bad"] = draw(st.integers(1, min(4, c["b"] - 1)))
    return c


def run_poison(c):
    """A pathological row changes nothing in the other rows of its batch."""
    for q in c["parts"]:  # per-row noise
        q["noise"] = {"kind": "hetero", "seed": c["seed"], "level": q[
            "noise"].get("v", q["noise"].get("level"))}
    p = Problem(c)
    p.vmax = max(q["scale"]["val"] for q in c["parts"])
    rng = np.random.default_rng([c["rseed"], 3])
    b, n, nn, half = c["b"], c["n"], c["nn"], c["n"] // 2
    p.nn = gens.neighbor_indices(half, b, nn, c["seed"])
    bad = np.sort(rng.permutation(b)[:c["bad"]])
    good = np.setdiff1d(np.arange(b), bad)
    p.nn[bad] = half + gens.neighbor_indices(n - half, len(bad), nn,
                                             c["rseed"])
    q = p.but(Xtr=p.Xtr.copy(), Xte=p.Xte.copy(), Y=p.Y.copy(),
              diags=[d.copy() for d in p.diags])
    own = np.arange(half, n)
    kinds = set()
    for k in c["poison"]:
        if k == "near-singular":
            q.Xtr[own] = q.Xtr[half] + 1e-7 * rng.normal(
                size=(len(own), c["d"]))
            for d in q.diags:
                d[bad] = 1e-11
        elif k == "nan point":
            q.Xte[bad[0]] = np.nan
        elif k == "far point":
            q.Xte[bad[-1]] = 1e8
        elif k == "nan responses":
            q.Y[own] = np.nan
        elif k == "huge responses":
            q.Y[own] = 1e200 * rng.normal(size=q.Y[own].shape)
        elif k == "nan neighbors":
            q.Xtr[own] = np.nan
        else:
            for d in q.diags:
                d[bad] = 1e12
        kinds.add(k)
    alone = p.rows(good).predict()
    try:
        got = q.predict()
    except Exception as e:
        if "ingular" in str(e):
            raise Skip("exactly singular")
        raise
    t = p.tol()
    q.vmax = p.vmax
    for k, v in alone.items():
        now = got[k].reshape((b,) + v.shape[1:] if len(good) == len(v)
                             else (b,) + v.shape)[good]
        y = max(1.0, np.abs(p.Y[:half]).max())
        size = {"coefficients": y / min(d.min() for d in p.diags),
                "covariance": 1.0, "crosswise covariance": 1.0,
                "variance": p.vmax, "variance from indices": p.vmax,
                "fast mean": y / min(d.min() for d in p.diags)}.get(k, y)
        close(f"{k} beside a row with {sorted(kinds)}",
              shape_as(now, v), v, t, t * size)
    return ["poison:" + k for k in kinds] + [
        "multi" if c["multi"] else "single"] + (["nt"] if nn > 1 else [])


# ---- training objectives ----------------------------------------------------

@st.composite
def objective_cases(draw, generic=True, scales=("fixed", "analytic")):
    d, nn, n, b = draw(sizes())
    loss = draw(st.sampled_from(["mse", "pseudo_huber", "lool",
                                 "lool_unscaled", "looph",
                                 "cross_entropy"]))
    r = draw(st.integers(2, 4)) if loss == "cross_entropy" \
        else draw(st.integers(0, 3))
    c = {"d": d, "nn": nn, "n": n, "b": b, "seed": draw(gens.SEEDS), "r": r,
         "x": draw(st.sampled_from(["normal", "uniform", "cluster"])),
         "y": "normal", "loss": loss, "optimizer": "direct",
         "model": draw(gens.kernel_spec(d, generic=generic)),
         "noise": draw(gens.noise_spec(("homo", "hetero"))),
         "scale": draw(gens.SCALES), "scale_fn": draw(st.sampled_from(
             scales if r <= 1 else ("fixed",))),
         "rel": draw(st.sampled_from(["order", "neighbors", "relabel", "both",
                                      "double", "units"])),
         "units": draw(st.tuples(st.integers(-40, 40), st.integers(-40, 40))),
         "at": draw(st.lists(st.sampled_from([0.7, 1.0, 1.6]), min_size=3,
                             max_size=3)), "rseed": draw(gens.SEEDS)}
    if "v" in c["noise"]:
        c["noise"]["v"] = max(c["noise"]["v"], 1e-2)
    else:
        c["noise"]["level"] = max(c["noise"]["level"], 0.05)
    c["model"]["ls"] = [v * np.sqrt(d) for v in c["model"]["ls"]]
    m = c["model"]
    m["ls_bounds"] = [[0.5 * v, 2 * v] for v in m["ls"]]
    if m["kernel"] == "matern" and m["nu"] != "inf" and generic:
        m["nu_bounds"] = [0.5 * m["nu"], 2 * m["nu"]]
    if c["noise"]["kind"] == "homo":
        c["noise"]["bounds"] = [0.5 * c["noise"]["v"], 2 * c["noise"]["v"]]
    return c


def run_objective(c):
    """Objectives do not depend on how points and neighbors are ordered."""
    X = gens.distinct_features(c["x"], c["n"], c["d"], c["seed"]) \
        if c["n"] < 60 else gens.features("normal", c["n"], c["d"], c["seed"])
    rng = np.random.default_rng([c["rseed"]])
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    if c["loss"] == "cross_entropy":
        lab = np.random.default_rng([c["seed"], 5]).integers(0, c["r"],
                                                             c["n"])
        Y = np.eye(c["r"])[lab]
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    batch = rng.integers(0, c["n"], c["b"])
    diag = gens.noise_diag(c["noise"], c["b"], c["nn"])
    at = {}
    for i, v in enumerate(c["model"]["ls"]):
        at["length_scale%d" % i if c["model"]["def"] == "aniso"
           else "length_scale"] = v * c["at"][0]
    if "nu_bounds" in c["model"]:
        at["smoothness"] = c["model"]["nu"] * c["at"][1]
    if "bounds" in c["noise"]:
        at["noise"] = c["noise"]["v"] * c["at"][2]

    def value(X, Y, batch, nn, diag, c=c, at=at):
        m = c08.model_of(dict(c, b=len(batch)), diag)
        cross, pair, bt, bnnt = m.make_train_tensors(
            M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
        fn = c08.objective(c, m, cross, pair, bt, bnnt)
        var = M.N(m.get_opt_var_fn()(m.kernel(pair, **{
            k: v for k, v in at.items() if k != "noise"}), m.kernel(
                cross, **{k: v for k, v in at.items() if k != "noise"}),
            **({"noise": at["noise"]} if "noise" in at else {})))
        return float(M.N(fn(**at))), var.min()

    base, vmin = value(X, Y, batch, nn, diag)
    rel, want = c["rel"], base
    X2, Y2, b2, nn2, d2 = X, Y, batch, nn, diag
    if rel in ("order", "both"):
        perm = rng.permutation(c["b"])
        b2, nn2, d2 = b2[perm], nn2[perm], d2[perm]
    if rel in ("neighbors", "both"):
        perm = np.array([rng.permutation(c["nn"]) for _ in range(c["b"])])
        nn2 = np.take_along_axis(nn2, perm, axis=1)
        d2 = np.take_along_axis(d2, perm, axis=1)
    if rel in ("relabel", "both"):
        perm = rng.permutation(c["n"])
        inv = np.argsort(perm)
        X2, Y2, b2, nn2 = X[perm], Y[perm], inv[b2], inv[nn2]
    if rel == "double":  # losses are sums over the batch, mse is a mean
        b2, nn2 = np.tile(batch, 2), np.tile(nn, (2, 1))
        d2 = np.tile(diag, (2, 1))
        want = base if c["loss"] == "mse" else 2 * base
    c2, at2 = c, at
    if rel == "units":
        # a likelihood without a scale and classes have no units
        k, j = (int(v) // (6 if M.f32() else 1) for v in c["units"])
        f = 2.0 ** j
        g = 1.0 if c["loss"] in ("cross_entropy", "lool_unscaled") \
            else 2.0 ** k
        m2 = dict(c["model"], ls=[f * v for v in c["model"]["ls"]])
        m2["ls_bounds"] = [[f * v for v in b] for b in m2["ls_bounds"]]
        c2 = dict(c, model=m2)
        at2 = {k: v * f if k.startswith("length") else v
               for k, v in at.items()}
        X2, Y2 = X * f, Y * g
        if c["loss"] == "pseudo_huber":
            c2["boundary"] = g * (c.get("boundary") or 1.5)
        if c["loss"] in ("lool", "looph"):
            if c["scale_fn"] == "fixed":
                c2["scale"] = c["scale"] * g * g
            want = base - 2 * np.log(g) * c["b"] * max(1, c["r"])
    got, _ = value(X2, Y2, b2, nn2, d2, c2, at2)
    if rel == "units" and c["loss"] in ("mse", "pseudo_huber"):
        got /= g * g
    cond = (c["nn"] + diag.max()) / (0.5 * diag.min())
    eps = 1e-7 if M.f32() else 1e-15
    if vmin < 100 * cond * eps:
        raise Skip("vanishing variance")
    t = 100 * cond * eps / min(1.0, vmin)
    if t > 1e-3:
        raise Skip("ill-conditioned")
    close(f"{c['loss']} objective under {rel}", got, want, t,
          t * (c["b"] * max(1, c["r"])))
    return [c["loss"], rel, "scale:" + c["scale_fn"]] + (
        ["nt"] if c["b"] > 1 and c["nn"] > 1 else [])


# ---- end-to-end predictions with a neighbor index ---------------------------

@st.composite
def flow_cases(draw):
    d = draw(st.integers(1, 6))
    nn = draw(st.integers(1, 20))
    n = nn + draw(st.integers(2, 150))
    multi = draw(st.booleans())
    r = draw(st.integers(1, 4))
    model = draw(gens.kernel_spec(d, defs=("iso", "diff", "aniso")))
    parts = [{"model": model, "noise": {"kind": "homo", "v": draw(
        st.sampled_from([1e-2, 0.1, 1.0]))}, "scale": draw(gens.SCALES)}]
    if multi:
        parts += [{"model": draw(gens.kernel_spec(
            d, defs=(model["def"],), kernels=(model["kernel"],))),
            "noise": {"kind": "homo", "v": draw(st.sampled_from(
                [1e-2, 0.1, 1.0]))}, "scale": draw(gens.SCALES)}
            for _ in range(r - 1)]
    return {"d": d, "nn": nn, "n": n, "q": draw(st.integers(1, 120)), "r": r,
            "multi": multi, "parts": parts, "seed": draw(gens.SEEDS),
            "what": draw(st.sampled_from(["regress", "classify", "fast"])),
            "rel": draw(st.sampled_from(["subset", "order", "single",
                                         "relabel", "shift", "rotate"])),
            "alg": draw(st.sampled_from(["exact", "exact", "ball_tree"])),
            "rseed": draw(gens.SEEDS)}


def run_flow(c):
    rng = np.random.default_rng([c["rseed"]])
    if c["what"] == "classify":
        c["r"] = max(2, c["r"])
        while c["multi"] and len(c["parts"]) < c["r"]:
            c["parts"].append(c["parts"][0])
    X = np.random.default_rng([c["seed"]]).normal(size=(c["n"] + c["q"],
                                                        c["d"]))
    Xtr, Xte = X[:c["n"]], X[c["n"]:]
    if c["what"] == "classify":
        # classes are regions, so that some neighborhoods are unanimous
        lab = (np.floor(2 * Xtr[:, 0]).astype(int)) % c["r"]
        lab[:c["r"]] = np.arange(c["r"])[:len(lab)]
        Y = np.eye(c["r"])[lab]
    else:
        Y = gens.responses("normal", c["n"], c["r"], c["seed"])
    kw = {} if c["alg"] == "exact" else {"nn_method": "exact",
                                         "algorithm": c["alg"]}
    parts = [{"kernel": build.kernel(p["model"]),
              "noise": build.noise(p["noise"], None),
              "scale": build.scale(p["scale"])} for p in c["parts"]]
    m = M.MultivariateMuyGPS(*parts) if c["multi"] else M.MuyGPS(**parts[0])

    def go(Xtr, Xte, Y):
        lookup = M.NN_Wrapper(Xtr, c["nn"], **kw)
        if c["what"] == "regress":
            mean, var, _ = M.regress_any(m, Xte, Xtr, lookup, Y)
            return {"mean": mean, "variance": var}
        if c["what"] == "classify":
            return {"scores": M.classify_any(m, Xte, Xtr, lookup, Y)[0]}
        mean, coef, _ = M.fast_posterior_mean_any(m, Xte, Xtr, lookup, Y)
        return {"fast mean": mean}

    base = {k: M.N(v).copy() for k, v in go(Xtr, Xte, Y).items()}
    q, rel = c["q"], c["rel"]
    keep = np.arange(q)
    X1, X2, Y2 = Xtr, Xte, Y
    if rel in ("subset", "single", "order"):
        keep = {"subset": lambda: rng.integers(0, q, rng.integers(1, q + 3)),
                "single": lambda: rng.integers(0, q, 1),
                "order": lambda: rng.permutation(q)}[rel]()
        X2 = Xte[keep]
    elif rel == "relabel":
        perm = rng.permutation(c["n"])
        X1, Y2 = Xtr[perm], Y[perm]
    elif rel == "shift" or c["parts"][0]["model"]["def"] == "aniso":
        off = rng.normal(size=c["d"])
        X1, X2 = Xtr + off, Xte + off
    else:
        Q = np.linalg.qr(rng.normal(size=(c["d"], c["d"])))[0]
        X1, X2 = Xtr @ Q, Xte @ Q
    # neighborhoods have to be unambiguous for this to be the same problem
    D = np.sqrt(((Xte[:, None] - Xtr[None]) ** 2).sum(axis=2))
    if np.min(np.diff(np.sort(D, axis=1), axis=1)) < 1e-9 * (1 + D.max()):
        raise Skip("tied distances")
    if c["what"] == "fast":
        D = np.sqrt(((Xtr[:, None] - Xtr[None]) ** 2).sum(axis=2))
        if np.min(np.diff(np.sort(D, axis=1), axis=1)) < 1e-9 * (1 + D.max()):
            raise Skip("tied distances")
    got = go(X1, X2, Y2)
    cond = (c["nn"] + 1) / min(p["noise"]["v"] for p in c["parts"])
    t = 1e-9 + 1e-12 * cond * 10 / min(min(p["model"]["ls"])
                                       for p in c["parts"])
    for k, w in base.items():
        w = w.reshape((q,) + w.shape[1:])[keep]
        top = max(p["scale"] for p in c["parts"]) if k == "variance" \
            else 10.0 * (cond if k == "fast mean" else 1)
        close(f"{c['what']} under {rel}: {k}",
              shape_as(M.N(got[k]), w), w, t, t * top)
    return [c["what"], rel, "multi" if c["multi"] else "single"] + (
        ["nt"] if q > 1 else [])


R = ("problems with up to 300 batch elements, 50 neighbors, 40 features and "
     "400 training points; each case applies 1-3 of the relations "
     + ", ".join(RELATIONS) + "; non-trivial = several batch elements and "
     "neighbors")
register("C24", "relations", cases(), R, 3000, shards=4, weight=8)(run)
HUGE = ("; thousands of batch elements, hundreds of neighbors or features, or "
        "tens of thousands of training points")
register("C24", "huge", gens.huge(cases()), R + HUGE, 240, shards=3,
         weight=60)(run)
register("C24", "torch_huge", gens.huge(cases(generic=False)), R + HUGE +
         "; torch", 80, shards=1, weight=60, backend="torch")(run)
register("C24", "poison", poison_cases(), "rows with singular, far, "
         "non-finite or noisy neighborhoods beside ordinary ones; non-trivial "
         "= several neighbors", 800, shards=2, weight=6)(run_poison)
register("C24", "objective", objective_cases(), "training objectives and "
         "scales under reordering and duplication of the batch; non-trivial "
         "= several batch elements and neighbors", 1500, shards=2,
         weight=6)(run_objective)
register("C24", "workflow", flow_cases(), "regression, classification and "
         "fast prediction with a neighbor index; non-trivial = several test "
         "points", 1200, shards=2, weight=6)(run_flow)
register("C24", "torch_relations", cases(generic=False), R + "; torch", 500,
         shards=2, weight=10, backend="torch")(run)
register("C24", "torch_objective", objective_cases(generic=False),
         "the same with the torch backend", 300,
         shards=1, weight=10, backend="torch")(run_objective)
register("C24", "torch_poison", poison_cases(generic=False), "rows with "
         "pathological neighborhoods; torch; non-trivial = several neighbors",
         200, shards=1, weight=8, backend="torch")(run_poison)
