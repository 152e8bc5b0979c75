"""C10: variance-scale estimation."""

import itertools

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import Skip, check, close, raises, register


@st.composite
def cases(draw, generic=True, **kw):
    c = draw(gens.train_problem(generic=generic, r_max=1, free=False, **kw))
    c["kind"] = draw(st.sampled_from(["analytic", "fixed", "analytic"]))
    c["factor"] = draw(st.sampled_from([-3.0, 0.1, 2.0, 40.0]))
    c["override"] = draw(st.sampled_from([None, 1e-3, 0.02, 0.7]))
    c["seed2"] = draw(gens.SEEDS)
    return c


def setup(c, scale):
    X, Y, batch, nn, diag = gens.expand_train(c)
    m = build.model(dict(c, scale=scale), diag)
    cross, pair, bt, bnnt = m.make_train_tensors(
        M.AI(batch), M.AI(nn), M.A(X), M.A(Y))
    return (X, Y, batch, nn, diag), m, cross, pair, bnnt


def tame(c, X, batch, nn, diag, Y):
    _, var, cond = ref.posteriors(c["model"], diag, X[batch], X, Y, nn)
    if cond * (1e-7 if M.f32() else 1e-15) > 1e-6 * (1e4 if M.f32() else 1):
        raise Skip("ill-conditioned")
    return var, (1e-2 if M.f32() else 1e-6)


def run(c):
    data, m, cross, pair, bnnt = setup(
        c, {"kind": c["kind"], "val": c["scale"]})
    X, Y, batch, nn, diag = data
    var, rt = tame(c, X, batch, nn, diag, Y)
    Kin, Kc = m.kernel(pair), m.kernel(cross)
    mean0 = M.N(m.posterior_mean(Kin, Kc, bnnt)).copy()
    want = ref.analytic_scale(c["model"], diag, X, Y, nn)
    if c["kind"] == "fixed":
        want = c["scale"]
    fn = m.scale.get_opt_fn(m)
    got = M.N(fn(Kin, bnnt))
    check(got.size == 1, "estimate has shape %s", got.shape)
    close("estimate", got.reshape(()), want, rt, 0)
    close("scale before being set", M.N(m.scale()).reshape(()), c["scale"], 1e-6, 0)
    close("variance before", M.N(m.posterior_variance(Kin, Kc)),
          c["scale"] * var, 10 * rt, 10 * rt * c["scale"])
    if c["kind"] == "analytic":
        check(not m.scale.trained, "untrained scale reports being trained")
        o = c["override"]
        if o is not None and c["noise"]["kind"] == "homo":
            close("estimate at another noise", M.N(fn(Kin, bnnt, noise=o)).reshape(()),
                  ref.analytic_scale(c["model"], np.full(diag.shape, o), X, Y,
                                     nn), rt, 0)
        close("estimate for scaled responses",
              M.N(fn(Kin, bnnt * c["factor"])).reshape(()), want * c["factor"] ** 2, rt, 0)
    for again in range(3):  # estimating repeatedly does not compound
        ret = m.optimize_scale(pair, bnnt)
        check(ret is m, "optimize_scale returned another object")
        close("scale", M.N(m.scale()).reshape(()), want, rt, 0)
        check(float(M.N(m.scale())) > 0, "scale is not positive")
        close("variance after", M.N(m.posterior_variance(Kin, Kc)),
              want * var, 10 * rt, 10 * rt * want)
        close("mean after", M.N(m.posterior_mean(Kin, Kc, bnnt)), mean0,
              1e-12, 1e-12)
    if c["kind"] == "analytic":
        check(m.scale.trained, "trained scale reports being untrained")
        # a second data set replaces the first estimate
        Y2 = gens.responses("large", c["n"], c["r"], c["seed2"])
        m.optimize_scale(pair, M.A(Y2[nn]))
        close("scale of other responses", M.N(m.scale()).reshape(()), ref.analytic_scale(
            c["model"], diag, X, Y2, nn), rt, 0)
        if not c.get("huge"):
            again_elsewhere(c, m, data, pair, bnnt, rt)
    return [c["kind"], "r=%d" % c["r"], c["model"]["kernel"], "noise:" +
            c["noise"]["kind"]] + (["nt"] if c["b"] > 1 and c["nn"] > 1
                                   else [])


def again_elsewhere(c, m, data, pair, bnnt, rt):
    """The same arrays, at other hyperparameters and with other contents."""
    X, Y, batch, nn, diag = data
    spec = dict(c["model"], ls=[0.8 * v for v in c["model"]["ls"]])
    m.kernel.set_params(**{
        n: M.ScalarParam(v) for n, v in zip(
            ["length_scale%d" % i for i in range(len(spec["ls"]))]
            if spec["def"] == "aniso" else ["length_scale"], spec["ls"])})
    moved = dict(c, model=spec)
    tame(moved, X, batch, nn, diag, Y)
    m.optimize_scale(pair, bnnt)
    close("scale at other length scales", M.N(m.scale()).reshape(()),
          ref.analytic_scale(spec, diag, X, Y, nn), rt, 0)
    if c["noise"]["kind"] == "homo":
        m.noise = M.HomoscedasticNoise(c["noise"]["v"] * 1.5)
        diag = diag * 1.5
        m.optimize_scale(pair, bnnt)
        close("scale at another noise", M.N(m.scale()).reshape(()),
              ref.analytic_scale(spec, diag, X, Y, nn), rt, 0)
    bnnt *= 3
    m.optimize_scale(pair, bnnt)
    close("scale of responses overwritten in place", M.N(m.scale()).reshape(
        ()), 9.0 * ref.analytic_scale(spec, diag, X, Y, nn), rt, 0)


@st.composite
def down_cases(draw, generic=True):
    c = draw(gens.train_problem(generic=generic, r_max=0, nn_min=2,
                                free=False))
    c["down"] = draw(st.integers(1, c["nn"] - 1))
    c["iters"] = draw(st.sampled_from([1, 1, 2, 3, 8]))
    return c


def run_down(c):
    data, m, cross, pair, bnnt = setup(
        c, {"kind": "down", "down_count": c["down"], "val": c["scale"],
            "iteration_count": c["iters"]})
    X, Y, batch, nn, diag = data
    var, rt = tame(c, X, batch, nn, diag, Y)
    values = []
    for keep in itertools.combinations(range(c["nn"]), c["down"]):
        keep = list(keep)
        values.append(ref.analytic_scale(c["model"], diag[:, keep], X, Y,
                                         nn[:, keep]))
    values = np.array(values)
    for _ in range(2):
        m.optimize_scale(pair, bnnt)
        got = float(M.N(m.scale()))
        if c["iters"] % 2:  # the median is one of the sampled values
            err = np.min(np.abs(values - got) / values)
            check(err < 10 * rt, "down-sampled scale %s is not the estimate "
                  "of any subset of %s neighbors: %s", got, c["down"],
                  sorted(values))
        if c["iters"] == 2:  # the median of two is their mean
            pairs = 0.5 * (values[:, None] + values[None, :])
            check(np.min(np.abs(pairs / got - 1)) < 10 * rt, "down-sampled "
                  "scale %s is not the median of two estimates out of %s",
                  got, sorted(values))
        check(values.min() * (1 - 10 * rt) <= got <= values.max()
              * (1 + 10 * rt), "down-sampled scale %s outside of [%s, %s]",
              got, values.min(), values.max())
        Kin, Kc = m.kernel(pair), m.kernel(cross)
        close("variance after", M.N(m.posterior_variance(Kin, Kc)),
              got * var, 10 * rt, 10 * rt * got)
    for bad in (c["nn"], c["nn"] + 3):
        k = build.model(dict(c, scale={"kind": "down", "down_count": bad}),
                        diag)
        raises("down-sampling %d of %d neighbors" % (bad, c["nn"]),
               (ValueError,), k.optimize_scale, pair, bnnt)
    return ["down", "iters=%d" % c["iters"]] + (
        ["nt"] if len(values) > 2 and c["b"] > 1 else [])


@st.composite
def reach_cases(draw):
    c = draw(gens.train_problem(r_max=0, nn_min=2, nn_max=4, free=False,
                                noise=("homo",)))
    c["down"] = draw(st.integers(1, c["nn"] - 1))
    return c


def run_reach(c):
    """Every subset of the neighbors can be drawn."""
    data, m, cross, pair, bnnt = setup(
        c, {"kind": "down", "down_count": c["down"], "iteration_count": 1})
    X, Y, batch, nn, diag = data
    tame(c, X, batch, nn, diag, Y)
    subsets = list(itertools.combinations(range(c["nn"]), c["down"]))
    values = np.array([ref.analytic_scale(
        c["model"], diag[:, list(k)], X, Y, nn[:, list(k)]) for k in subsets])
    if len(values) > 1:
        s = np.sort(values)
        if np.min(np.diff(s) / s[1:]) < 1e-6:
            raise Skip("subsets give equal values")
    seen = set()
    # P(missing one of at most 6 equally likely subsets) < 6 (5/6)^200 < 1e-15
    for _ in range(200):
        m.optimize_scale(pair, bnnt)
        seen.add(int(np.argmin(np.abs(values - float(M.N(m.scale()))))))
    check(len(seen) == len(values), "only subsets %s of %s were ever drawn",
          [subsets[i] for i in sorted(seen)], subsets)
    return ["nt"]


def run_median(c):
    """Several iterations give the median of equally likely estimates."""
    if c["nn"] < 3:
        c = dict(c, nn=3, n=max(c["n"], 6))
    c["down"] = 1 + c["down"] % (c["nn"] - 1)
    mids = {}
    for iters, draws in ((2, 60), (15, 80)):
        data, m, cross, pair, bnnt = setup(c, {
            "kind": "down", "down_count": c["down"],
            "iteration_count": iters})
        X, Y, batch, nn, diag = data
        tame(c, X, batch, nn, diag, Y)
        values = np.sort([ref.analytic_scale(
            c["model"], diag[:, list(k)], X, Y, nn[:, list(k)])
            for k in itertools.combinations(range(c["nn"]), c["down"])])
        # no mean of two values is close to another value
        pairs = 0.5 * (values[:, None] + values[None, :])
        gaps = np.abs(pairs[..., None] / values - 1)
        for i in range(len(values)):
            gaps[i, i, i] = 1.0
        if gaps.min() < 1e-6:
            raise Skip("subsets give equal values")
        got = []
        for _ in range(draws):
            m.optimize_scale(pair, bnnt)
            got.append(float(M.N(m.scale())))
        mids[iters] = np.array(got)
    # P(60 draws of equal subsets, out of at least three) = 3^-60
    near = np.abs(mids[2][:, None] / values - 1).min(axis=1)
    check(np.any(near > 1e-7), "60 medians of two estimates are all single "
          "estimates: %s out of %s", mids[2], values)
    # the rank of the median of 15 draws is symmetric: Hoeffding, < 4e-12
    rank = np.argmin(np.abs(mids[15][:, None] / values - 1), axis=1)
    side = np.sign(rank - (len(values) - 1) / 2).sum()
    check(abs(side) <= 66, "80 medians of 15 estimates lie on one side of "
          "the middle: ranks %s of %s values", np.bincount(rank),
          len(values))
    return ["nt"]


@st.composite
def bad_cases(draw):
    return {"cls": draw(st.sampled_from(["fixed", "analytic", "down"])),
            "bad": draw(st.one_of(
                st.floats(-1e6, 0), st.just(0.0),
                st.lists(st.floats(0.1, 2), min_size=0, max_size=3).filter(
                    lambda x: len(x) != 1))),
            "good": draw(st.floats(1e-6, 1e6))}


def run_bad(c):
    cls = {"fixed": M.FixedScale, "analytic": M.AnalyticScale,
           "down": M.DownSampleScale}[c["cls"]]
    raises("scale %s" % c["bad"], (ValueError,), cls, val=c["bad"])
    close("scale", M.N(cls(val=c["good"])()), c["good"], 1e-6, 0)
    if c["cls"] == "down":
        for k in ("down_count", "iteration_count"):
            raises("%s = -1" % k, (ValueError,), cls, **{k: -1})
            raises("%s = 1.5" % k, (ValueError,), cls, **{k: 1.5})
    return ["nt", c["cls"]]


R = "random neighborhoods, kernels, noise models and prior scales; "
register("C10", "estimate", cases(), R + "non-trivial = several neighbors "
         "and batch elements", 3000, shards=3)(run)
register("C10", "downsample", down_cases(), R + "every subset of the "
         "neighbors enumerated; non-trivial = at least three subsets and "
         "several batch elements", 1200, shards=3)(run_down)
register("C10", "reach", reach_cases(), "200 draws; non-trivial = subsets "
         "give distinct values", 60, shards=1, weight=20)(run_reach)
register("C10", "median", reach_cases(), "60 medians of two and 80 of 15 "
         "estimates against the enumerated subsets; non-trivial = subsets "
         "give distinct values", 30, shards=1, weight=30)(run_median)
register("C10", "invalid", bad_cases(), "invalid scale arguments", 300,
         shards=1)(run_bad)
register("C10", "estimate_large", cases(n_max=150, b_max=100, nn_max=40,
                                        d_max=12), R + "up to 100 batch "
         "elements and 40 neighbors", 200, shards=2, weight=10)(run)
register("C10", "estimate_huge", gens.huge_train(cases()), R + "thousands of "
         "batch elements, hundreds of neighbors or features, or tens of "
         "thousands of training points", 100, shards=2, weight=40)(run)
register("C10", "estimate_noise_extremes", cases(
    nn_max=10, noise=("homo", "hetero"), noises=gens.NOISE_EXTREMES), R +
    "noise between 1e-10 and 1e6, well-conditioned", 1000, shards=1)(run)
