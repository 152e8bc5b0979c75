"""C11: noise models perturb exactly the covariance diagonal."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import check, close, raises, register


@st.composite
def cases(draw, kinds=("homo", "hetero", "null", "shear"), most=7,
          many=None):
    return {"kind": draw(st.sampled_from(kinds)),
            "b": draw(st.integers(1, most) if many is None else many),
            "nn": draw(st.integers(1, most)),
            "in": draw(st.sampled_from([None, None, 1, 2, 3, 4])),
            "v": draw(st.one_of(st.just(0.0), st.floats(1e-8, 10.0))),
            "o": draw(st.one_of(st.none(), st.floats(0, 5.0))),
            "level": draw(gens.NOISE), "seed": draw(gens.SEEDS)}


def covariance(c):
    rng = np.random.default_rng([c["seed"], 6])
    k = (c["in"], c["nn"]) if c["in"] else (c["nn"],)
    return rng.normal(size=(c["b"],) + k + k)


def plus_diagonal(K, diag):
    """K with diag[b, ...] added at K[b, ..., ...] where both indices match."""
    b, size = len(K), diag[0].size
    want = K.reshape(b, size, size).copy()
    want[:, range(size), range(size)] += diag.reshape(b, size)
    return want.reshape(K.shape)


def run(c):
    rng = np.random.default_rng([c["seed"], 8])
    kind = c["kind"]
    c = dict(c)
    if kind == "shear":
        c["in"] = 3
    if kind == "hetero":
        c["in"] = None
    K = covariance(c)
    diag = np.zeros(K.shape[:1 + (2 if c["in"] else 1)])
    kw = {}
    if kind == "hetero":
        diag = c["level"] * rng.uniform(0, 3, diag.shape)
        noise = M.HeteroscedasticNoise(M.A(diag))
    elif kind == "null":
        noise = M.NullNoise()
        close("null noise", M.N(noise()), 0.0, 0, 0)
    else:
        noise = (M.ShearNoise33 if kind == "shear" else
                 M.HomoscedasticNoise)(c["v"])
        close("noise value", M.N(noise()), c["v"], 1e-6, 0)
        v = c["v"]
        if c["o"] is not None:
            kw, v = {"noise": c["o"]}, c["o"]
        diag = diag + v
        if kind == "shear":
            diag[:, 0, :] *= 2
    check(noise.fixed(), "fixed noise reports being free")
    names, vals, bounds = [], [], []
    noise.append_lists(names, vals, bounds)
    check(not names and not vals and not bounds,
          "fixed noise lists itself for optimization")
    aK = M.A(K)
    want = plus_diagonal(K, diag)
    rt = 1e-6 if M.f32() else 1e-14
    for _ in range(2):
        close("perturbed covariance", M.N(noise.perturb(aK, **kw)), want, rt,
              rt)
        close("covariance afterwards", M.N(aK), K, 1e-6 if M.f32() else 0, 0)
        seen = []

        def fn(P, a, b, **k):
            seen.append((M.N(P).copy(), a, b, k))
            return "result"

        got = noise.perturb_fn(fn)(aK, 3, b="x", **kw)
        check(got == "result", "perturbed function returned %r", got)
        if kind != "null":
            check(seen[-1][1:3] == (3, "x"), "arguments became %s",
                  seen[-1][1:])
        close("covariance passed on", seen[-1][0], want, rt, rt)
        close("covariance afterwards", M.N(aK), K, 1e-6 if M.f32() else 0, 0)
    if kw:  # the override does not stick
        d = np.zeros(diag.shape) + c["v"]
        if kind == "shear":
            d[:, 0, :] *= 2
        close("perturbed covariance after an override",
              M.N(noise.perturb(aK)), plus_diagonal(K, d), rt, rt)
    if kind == "hetero":
        close("stored noise afterwards", M.N(noise()), diag, rt, 0)
    return [kind, "5-D" if c["in"] else "3-D"] + (
        ["nt"] if c["b"] > 1 and c["nn"] > 1 and diag.max() > 0 else [])


@st.composite
def equiv_cases(draw, generic=True):
    return draw(gens.problem(generic=generic, noise=("homo",), r_max=3))


def run_equiv(c):
    """Constant heteroscedastic = homoscedastic; zero = null; selection."""
    Xtr, Xte, Y, nn, _ = gens.expand(c)
    b, v = len(nn), c["noise"]["v"]
    rng = np.random.default_rng([c["seed"], 9])
    measured = v * rng.uniform(0.3, 3.0, len(Xtr))
    tensor = M.N(M.make_heteroscedastic_tensor(M.A(measured), M.AI(nn)))
    rt = 1e-6 if M.f32() else 0
    close("heteroscedastic tensor", tensor, np.array(
        [[measured[j] for j in row] for row in nn]), rt, 0)

    def predict(noise, diag):
        m = build.model(dict(c, noise=noise), diag)
        cross, pair, nnt = m.make_predict_tensors(
            M.AI(np.arange(b)), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Y))
        Kin, Kc = m.kernel(pair), m.kernel(cross)
        return (M.N(m.posterior_mean(Kin, Kc, nnt)),
                M.N(m.posterior_variance(Kin, Kc)),
                M.N(m.fast_coefficients(Kin, nnt)))

    const = np.full(nn.shape, v)
    _, _, cond = ref.posteriors(c["model"], const, Xte, Xtr, Y, nn)
    tol = (2e-2 if M.f32() else 1e-7) + 1e-13 * cond
    size = max(1.0, np.abs(Y).max(), c["scale"])
    for a, b_, w in zip(predict({"kind": "homo", "v": v}, const),
                        predict({"kind": "hetero"}, const),
                        ("mean", "variance", "coefficients")):
        close(f"{w} with constant heteroscedastic noise", b_, a, tol,
              tol * size)
    mean, var, cond = ref.posteriors(c["model"], tensor, Xte, Xtr, Y, nn)
    got = predict({"kind": "hetero"}, tensor)
    tol = (2e-2 if M.f32() else 1e-7) + 1e-13 * cond
    close("mean with measured noise", got[0], mean, tol, tol * size)
    close("variance with measured noise", got[1], c["scale"] * var, tol,
          tol * size)
    zeros = np.zeros(nn.shape)
    _, _, cond = ref.posteriors(c["model"], zeros, Xte, Xtr, Y, nn)
    if cond * (1e-7 if M.f32() else 1e-15) < 1e-6:
        tol = (2e-2 if M.f32() else 1e-7) + 1e-13 * cond
        base = predict({"kind": "null"}, zeros)
        for other in ({"kind": "homo", "v": 0.0}, {"kind": "hetero"}):
            for a, b_, w in zip(base, predict(other, zeros),
                                ("mean", "variance", "coefficients")):
                close(f"{w} with zero noise {other['kind']}", b_, a, tol,
                      tol * size)
    return ["r=%d" % c["r"]] + (["nt"] if b > 1 and c["nn"] > 1 else [])


@st.composite
def bad_cases(draw):
    b, nn = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {"b": b, "nn": nn, "seed": draw(gens.SEEDS),
            "neg": draw(st.floats(1e-6, 10)),
            "at": draw(st.integers(0, b * nn - 1)),
            "lo": draw(st.floats(1e-6, 1.0)), "w": draw(st.floats(0, 3.0)),
            "f": draw(st.floats(0, 1)),
            "how": draw(st.sampled_from(["sample", "log_sample"]))}


def run_bad(c):
    v = np.random.default_rng(c["seed"]).uniform(0, 1, (c["b"], c["nn"]))
    M.HeteroscedasticNoise(M.A(v))
    v.reshape(-1)[c["at"]] = -c["neg"]
    raises("negative measurement noise", (ValueError,),
           M.HeteroscedasticNoise, M.A(v))
    raises("text as a noise tensor", (ValueError,), M.HeteroscedasticNoise,
           "sample")
    raises("negative noise bounds", (ValueError,), M.HomoscedasticNoise,
           c["lo"], (-c["neg"], c["lo"] + c["w"]))
    raises("a negative lower noise bound", (ValueError,),
           M.HomoscedasticNoise, c["lo"], (-c["neg"], c["lo"] + c["w"] + 1))
    b = (c["lo"], c["lo"] + c["w"])
    for cls in (M.HomoscedasticNoise, M.ShearNoise33):
        n = cls(c["lo"] + c["f"] * c["w"], b)
        check(not n.fixed(), "bounded noise reports being fixed")
        close("bounds", np.array(n.get_bounds()), np.array(b), 1e-12, 0)
        raises("noise out of bounds", (ValueError,), cls, b[1] + 0.1, b)
        n = cls(c["how"], b)
        val = float(M.N(n()))
        check(b[0] - 1e-6 <= val <= b[1] * (1 + 1e-6) + 1e-6,
              "sampled noise %s outside of %s", val, b)
        names, vals, bounds = ["before"], [0], [0]
        n.append_lists(names, vals, bounds)
        check(names == ["before", "noise"] and len(vals) == len(bounds) == 2
              and float(M.N(vals[1])) == val
              and tuple(float(x) for x in bounds[1]) == tuple(
                  float(x) for x in n.get_bounds()),
              "free noise listed as %s %s %s", names, vals, bounds)
    return ["nt", c["how"]]


register("C11", "perturb", cases(), "random covariances (matrix and block) "
         "and noise values, with and without call-time override; non-trivial "
         "= several batch elements and neighbors, nonzero noise", 5000,
         shards=3)(run)
register("C11", "equivalence", equiv_cases(), "random prediction problems "
         "under equivalent noise models; non-trivial = several batch elements "
         "and neighbors", 1500, shards=3)(run_equiv)
register("C11", "contract", bad_cases(), "invalid and sampled noise values; "
         "all non-trivial", 800, shards=2)(run_bad)
register("C11", "perturb_large", cases(most=60), "up to 60 batch elements and "
         "neighbors; non-trivial as above", 150, shards=1, weight=15)(run)
register("C11", "perturb_many", cases(most=5, many=st.one_of(
    st.sampled_from(gens.ROUND), st.integers(100, 5000))), "hundreds to "
    "thousands of batch elements; non-trivial as above", 150, shards=1,
    weight=15)(run)
register("C11", "perturb_wide", cases(most=260, many=st.integers(1, 3)),
         "up to 260 neighbors; non-trivial as above", 60, shards=1,
         weight=15)(run)
