"""C12: hyperparameters respect values, bounds and fixedness."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import check, close, raises, register

FIN = st.one_of(st.floats(-50, 50), st.floats(1e-8, 1.0), st.integers(-5, 5))


@st.composite
def bounds_arg(draw):
    """(python value, (lo, hi) | "fixed" | None if invalid)"""
    kind = draw(st.sampled_from(["fixed", "fixed", "ok", "ok", "ok", "ok",
                                 "swapped", "len", "word", "scalar", "text",
                                 "nested"]))
    lo, w = draw(FIN), draw(st.one_of(st.just(0.0), st.floats(0, 20)))
    out = {"kind": kind, "lo": lo, "hi": lo + w,
           "list": draw(st.booleans())}
    if kind == "swapped":
        out["hi"] = lo - draw(st.floats(1e-3, 5))
    if kind == "len":
        out["items"] = draw(st.lists(st.floats(0, 1), max_size=4).filter(
            lambda x: len(x) != 2))
    if kind == "word":
        out["word"] = draw(st.sampled_from(["Fixed", "free", "", "fix",
                                            "sample"]))
    return out


def realize(b):
    k = b["kind"]
    if k == "fixed":
        return "fixed", "fixed"
    if k in ("ok", "swapped"):
        v = [b["lo"], b["hi"]]
        if not b["list"]:
            v = tuple(v)
        return v, ((float(b["lo"]), float(b["hi"])) if k == "ok" else None)
    if k == "len":
        return list(b["items"]), None
    if k == "word":
        return b["word"], None
    if k == "scalar":
        return b["lo"], None
    if k == "text":
        return [str(b["lo"]), b["hi"]], None
    return [b["lo"], [b["hi"]]], None


@st.composite
def scalar_cases(draw):
    b = draw(bounds_arg())
    kind = draw(st.sampled_from(["in", "in", "in", "free", "near", "sample",
                                 "log_sample", "word", "seq", "array"]))
    return {"cls": draw(st.sampled_from(["param", "param", "noise"])),
            "bounds": b, "val": kind, "f": draw(st.floats(0, 1)),
            "x": draw(FIN), "np": draw(st.booleans()),
            "seed": draw(gens.SEEDS)}


def run_scalar(c):
    bounds, want = realize(c["bounds"])
    kind, val = c["val"], c["x"]
    ok = want is not None
    cls = M.HomoscedasticNoise if c["cls"] == "noise" else M.ScalarParam
    if cls is not M.ScalarParam and ok and want != "fixed" and want[0] < 0:
        if c["val"] == "log_sample":
            return ["log of nonpositive bounds"]
        ok, want = False, None  # noise bounds may not be negative
    if kind == "in" and ok and want != "fixed":
        val = want[0] + c["f"] * (want[1] - want[0])
    if kind in ("sample", "log_sample"):
        val = kind
        if want == "fixed":
            ok = False
        if ok and kind == "log_sample" and want[0] <= 0:
            return ["log of nonpositive bounds"]
    elif kind == "word":
        val, ok = "uniform", False
    elif kind == "seq":
        val, ok = [c["x"]], False
    elif kind == "array":
        val, ok = np.array([c["x"], 1.0]), False
    elif ok and want != "fixed":
        if kind == "near":  # just outside of the bounds
            val = want[0] - 1e-4 * (1 + c["f"]) if c["np"] else \
                want[1] + 1e-4 * (1 + c["f"])
        gap = max(want[0] - val, val - want[1])
        if 0 < gap < (1e-3 if M.f32() else 2e-5):
            return ["within the bound tolerance"]
        ok = gap <= 0
    if isinstance(val, (int, float)) and c["np"]:
        val = np.float64(val)
    if not ok:
        raises(f"{cls.__name__}({val!r}, {bounds!r})", (ValueError,),
               cls, val, bounds)
        return ["refused", "nt"]
    p = cls(val, bounds)
    check_param(p, None if isinstance(val, str) else float(val), want)
    if isinstance(val, str) and want[1] > want[0] + 1e-3:
        draws = [float(M.N(cls(val, bounds)()))
                 for _ in range(20)]
        check(min(draws) >= want[0] - 1e-9 and max(draws) <= want[1] + 1e-9,
              "%s from %s gave %s", val, want, draws)
        # a quantile check that fails with probability 2^-60 per case:
        mid = np.sqrt(want[0] * want[1]) if val == "log_sample" \
            else (want[0] + want[1]) / 2
        more = [float(M.N(cls(val, bounds)())) for _ in range(60)]
        check(min(more) < mid < max(more),
              "60 draws of %s from %s all on one side of %s", val, want, mid)
    if isinstance(bounds, list):
        bounds[0] = bounds[1] = 1e9  # the caller's list is not shared
        check_param(p, None, want)
    return ["accepted", kind] + (["nt"] if want != "fixed" else [])


def check_param(p, val, want):
    got = float(M.N(p()))
    eps = 1e-6 if M.f32() else 0
    if val is not None:
        close("value", got, val, eps, 0)
    if want == "fixed":
        check(p.fixed(), "fixed parameter reports being free")
        return
    check(not p.fixed(), "bounded parameter reports being fixed")
    check(tuple(float(x) for x in p.get_bounds()) == tuple(want),
          "bounds %s, expected %s", p.get_bounds(), want)
    check(want[0] - 1e-5 <= got <= want[1] + 1e-5, "value %s outside of %s",
          got, want)


@st.composite
def param(draw, values=(0.05, 0.4, 1.0, 2.0, 7.5)):
    v = draw(st.sampled_from(values))
    if draw(st.booleans()):
        return {"v": v, "b": None}
    return {"v": v, "b": [v * draw(st.sampled_from([0.1, 0.9, 1.0])),
                          v * draw(st.sampled_from([1.0, 1.3, 20.0]))]}


def named_param(draw, name):
    if name == "smoothness":
        return draw(param((0.5, 1.5, 2.5, 0.4, 2.0, 7.5)))
    return draw(param())


def obj(p):
    return M.ScalarParam(p["v"]) if p["b"] is None else \
        M.ScalarParam(p["v"], tuple(p["b"]))


@st.composite
def model_cases(draw):
    d = draw(st.one_of(st.integers(1, 4), st.integers(9, 14)))
    kernel = draw(st.sampled_from(["matern", "rbf"]))
    aniso = draw(st.booleans())
    c = {"d": d, "kernel": kernel, "aniso": aniso,
         "ls": [draw(param()) for _ in range(d if aniso else 1)],
         "noise": draw(st.one_of(st.none(), param())),
         "nu": named_param(draw, "smoothness"),
         "diff": draw(st.booleans()), "ops": []}
    names = ["length_scale%d" % i for i in range(d)] if aniso \
        else ["length_scale"]
    if kernel == "matern":
        names = names + ["smoothness"]
    for _ in range(draw(st.integers(0, 5))):
        who = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3,
                            unique=True))
        c["ops"].append({n: named_param(draw, n) for n in who})
    return c


def build_model(c):
    metric = M.F2 if c["kernel"] == "rbf" else M.l2
    if c["aniso"]:
        dfm = M.Anisotropy(metric, length_scale=M.VectorParam(
            *[obj(p) for p in c["ls"]]))
    else:
        dfm = (M.DifferenceIsotropy if c["diff"] else M.Isotropy)(
            metric, length_scale=obj(c["ls"][0]))
    k = M.RBF(deformation=dfm) if c["kernel"] == "rbf" else \
        M.Matern(smoothness=obj(c["nu"]), deformation=dfm)
    n = c["noise"]
    if n is None:
        noise = M.NullNoise()
    elif n["b"] is None:
        noise = M.HomoscedasticNoise(n["v"])
    else:
        noise = M.HomoscedasticNoise(n["v"], tuple(n["b"]))
    return M.MuyGPS(kernel=k, noise=noise)


def run_model(c):
    m = build_model(c)
    now = {("length_scale%d" % i if c["aniso"] else "length_scale"): p
           for i, p in enumerate(c["ls"])}
    if c["kernel"] == "matern":
        now["smoothness"] = c["nu"]
    if c["noise"] is not None:
        now["noise"] = c["noise"]
    snapshot(m, now, c)
    given_objs = []
    for op in c["ops"]:
        objs = {n: obj(p) for n, p in op.items()}
        m.kernel.set_params(**objs)
        now.update(op)
        given_objs += [(o, op[n]) for n, o in objs.items()]
        snapshot(m, now, c)
    for o, p in given_objs:  # what was passed in is not taken over
        check_param(o, p["v"], "fixed" if p["b"] is None else tuple(p["b"]))
    free = [n for n in now if now[n]["b"] is not None]
    return [c["kernel"], "aniso" if c["aniso"] else "iso",
            "ops=%d" % len(c["ops"])] + (
        ["nt"] if 0 < len(free) and len(now) > 1 else [])


def snapshot(m, now, c):
    free = [n for n in now if now[n]["b"] is not None]
    names, vals, bounds = m.get_opt_params()
    check(sorted(names) == sorted(free) and len(set(names)) == len(names),
          "listed for optimization: %s, free: %s", list(names), sorted(free))
    vals, bounds = M.N(vals).reshape(-1), M.N(bounds).reshape(-1, 2)
    check(len(vals) == len(bounds) == len(free),
          "%s values and %s bounds for %s parameters", len(vals), len(bounds),
          len(free))
    eps = 1e-6 if M.f32() else 1e-14
    for n, v, b in zip(names, vals, bounds):
        close("listed value of " + n, v, now[n]["v"], eps, 0)
        close("listed bounds of " + n, b, np.array(now[n]["b"]), eps, 0)
    check(bool(m.fixed()) == (not free), "model.fixed() is %s with free %s",
          m.fixed(), free)
    ls = m.kernel.deformation.length_scale
    got = M.N(ls())
    want = [now[n]["v"] for n in now if n.startswith("length_scale")]
    close("length scale", got.reshape(-1), np.array(want), eps, 0)
    check(bool(ls.fixed()) == (not any(n.startswith("length_scale")
                                       for n in free)),
          "length scale fixed: %s, free: %s", ls.fixed(), free)
    if c["kernel"] == "matern":
        close("smoothness", M.N(m.kernel.smoothness()), now["smoothness"]["v"],
              eps, 0)
    close("noise", M.N(m.noise()), now.get("noise", {"v": 0.0})["v"], eps, 0)
    evaluate(m, now, c)


def evaluate(m, now, c):
    """The kernel is the one of the current hyperparameters."""
    spec = {"kernel": c["kernel"], "def": "aniso" if c["aniso"] else "iso",
            "ls": [now[n]["v"] for n in now if n.startswith("length_scale")]}
    if c["kernel"] == "matern":
        nu = now["smoothness"]
        spec["nu"] = nu["v"]
        if M.backend() == "torch" and (
                nu["b"] is not None or nu["v"] not in (0.5, 1.5, 2.5)):
            return  # no generic Matern kernel
    X = np.random.default_rng(7).normal(size=(
        4, len(spec["ls"]) if c["aniso"] else 2))
    pair = m.kernel.deformation.pairwise_tensor(
        M.A(X), M.AI(np.arange(4)[None, :]))
    close("kernel", M.N(m.kernel(pair))[0], ref.cov(spec, X, X), 0,
          2e-3 if M.f32() else 1e-8)


@st.composite
def vector_cases(draw):
    return {"ps": draw(st.lists(param(), min_size=1, max_size=13))}


def run_vector(c):
    params = [obj(p) for p in c["ps"]]
    v = M.VectorParam(*params)
    check(len(v) == len(params), "length %s of %s scalars", len(v),
          len(params))
    close("vector value", M.N(v()), np.array([p["v"] for p in c["ps"]]),
          1e-6 if M.f32() else 0, 0)
    check(bool(v.fixed()) == all(p["b"] is None for p in c["ps"]),
          "vector of %s reports fixed=%s", c["ps"], v.fixed())
    named = M.NamedVectorParam("length_scale", v)
    close("named vector value", M.N(named()),
          np.array([p["v"] for p in c["ps"]]), 1e-6 if M.f32() else 0, 0)
    names, vals, bounds = [], [], []
    named.append_lists(names, vals, bounds)
    want = [(f"length_scale{i}", p) for i, p in enumerate(c["ps"])
            if p["b"] is not None]
    check(names == [n for n, _ in want], "listed %s, expected %s", names,
          [n for n, _ in want])
    for n, x, b, (_, p) in zip(names, vals, bounds, want):
        close("listed value of " + n, float(M.N(x)), p["v"], 1e-6, 0)
        close("listed bounds of " + n, np.array([float(y) for y in b]),
              np.array(p["b"]), 1e-12, 0)
    table = {}
    named.populate(table)
    check(list(table) == [f"length_scale{i}" for i in range(len(params))],
          "populated names %s", list(table))
    for (n, q), p in zip(table.items(), c["ps"]):
        check_param(q, p["v"], "fixed" if p["b"] is None else tuple(p["b"]))
    return ["nt"] if len(params) > 1 else []


@st.composite
def shared_cases(draw):
    """Models built from, and updated with, a common pool of scalar objects."""
    pool = draw(st.lists(param((0.05, 0.5, 1.0, 1.5, 2.0, 7.5)), min_size=1,
                         max_size=3))
    pick = st.integers(0, len(pool) - 1)
    models = []
    for _ in range(draw(st.integers(1, 3))):
        aniso = draw(st.booleans())
        models.append({
            "kernel": draw(st.sampled_from(["matern", "rbf"])),
            "aniso": aniso, "diff": draw(st.booleans()),
            "ls": draw(st.lists(pick, min_size=1 + aniso,
                                max_size=3 if aniso else 1)),
            "nu": draw(pick)})
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        i = draw(st.integers(0, len(models) - 1))
        names = ["length_scale%d" % j for j in range(len(models[i]["ls"]))] \
            if models[i]["aniso"] else ["length_scale"]
        if models[i]["kernel"] == "matern":
            names = names + ["smoothness"]
        ops.append([i, {n: draw(pick) for n in draw(st.lists(
            st.sampled_from(names), min_size=1, max_size=2, unique=True))}])
    return {"pool": pool, "models": models, "ops": ops}


def run_shared(c):
    pool = [obj(p) for p in c["pool"]]
    ms, now = [], []
    for s in c["models"]:
        metric = M.F2 if s["kernel"] == "rbf" else M.l2
        if s["aniso"]:
            dfm = M.Anisotropy(metric, length_scale=M.VectorParam(
                *[pool[i] for i in s["ls"]]))
        else:
            dfm = (M.DifferenceIsotropy if s["diff"] else M.Isotropy)(
                metric, length_scale=pool[s["ls"][0]])
        k = M.RBF(deformation=dfm) if s["kernel"] == "rbf" else \
            M.Matern(smoothness=pool[s["nu"]], deformation=dfm)
        ms.append(M.MuyGPS(kernel=k, noise=M.NullNoise()))
        vals = {("length_scale%d" % j if s["aniso"] else "length_scale"):
                c["pool"][i] for j, i in enumerate(s["ls"])}
        if s["kernel"] == "matern":
            vals["smoothness"] = c["pool"][s["nu"]]
        now.append(vals)

    def everything():
        for m, vals, s in zip(ms, now, c["models"]):
            snapshot(m, vals, s)
        for o, p in zip(pool, c["pool"]):
            check_param(o, p["v"], "fixed" if p["b"] is None
                        else tuple(p["b"]))

    everything()
    for i, op in c["ops"]:
        ms[i].kernel.set_params(**{n: pool[j] for n, j in op.items()})
        now[i].update({n: c["pool"][j] for n, j in op.items()})
        everything()
    return ["models=%d" % len(ms)] + (["nt"] if c["ops"] and (
        len(ms) > 1 or len(c["models"][0]["ls"]) > 1) else [])


register("C12", "scalar", scalar_cases(), "valid and invalid values, bounds "
         "and prompts; non-trivial = refused, or accepted with bounds", 5000,
         shards=2)(run_scalar)
register("C12", "model", model_cases(), "models with any mix of free and "
         "fixed hyperparameters (up to 14 length scales) through histories "
         "of up to 5 reassignments; non-trivial = some are free and there are "
         "several", 3000, shards=3)(run_model)
register("C12", "vector", vector_cases(), "vectors of 1-13 scalars; "
         "non-trivial = several", 1000, shards=1)(run_vector)
register("C12", "shared", shared_cases(), "up to three models built from and "
         "updated with a common pool of scalar objects; non-trivial = an "
         "update and several users of the pool", 1500, shards=1)(run_shared)
