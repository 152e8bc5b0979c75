"""C01: the posterior mean is the dense GP conditional of each neighborhood."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import check, close, register, same_shape

RULE = ("random neighborhoods, kernels, noise and response shapes; non-trivial"
        " = at least two neighbors or two batch elements or two responses, "
        "and targets not constant")


def tolerance(c, cond, size):
    rt, at = M.tol()
    eps = 1e-7 if M.f32() else 1e-15
    return rt + 50 * eps * cond, (at + 50 * eps * cond) * max(1.0, size)


def nontrivial(c):
    return (c["nn"] > 1 or c["b"] > 1 or c["r"] > 1) and c["y"] != "constant"


def labels(c):
    out = [c["model"]["kernel"], c["model"]["def"], "noise:" +
           c["noise"]["kind"], "x:" + c["x"]]
    if nontrivial(c):
        out.append("nt")
    if c.get("huge"):
        out.append("huge:" + c["huge"])
    for a, b, name in [("r", "nn", "r=nn"), ("b", "nn", "b=nn"),
                       ("r", "b", "r=b")]:
        if c[a] == c[b]:
            out.append(name)
    for k in "b", "nn", "r":
        if c[k] == 1:
            out.append(k + "=1")
    return out


def predict(c, check_indices=True):
    """Library predictions of a problem case, via every public route."""
    Xtr, Xte, Y, nn, diag = gens.expand(c)
    m = build.model(c, diag)
    b = len(nn)
    keep = [Xtr.copy(), Xte.copy(), Y.copy(), nn.copy()]
    aXtr, aXte, aY, ann = M.A(Xtr), M.A(Xte), M.A(Y), M.AI(nn)
    cross, pair, nnt = m.make_predict_tensors(M.AI(np.arange(b)), ann, aXte,
                                              aXtr, aY)
    Kin, Kcross = m.kernel(pair), m.kernel(cross)
    kin0, kc0, t0 = M.N(Kin).copy(), M.N(Kcross).copy(), M.N(nnt).copy()
    mean = m.posterior_mean(Kin, Kcross, nnt)
    var = m.posterior_variance(Kin, Kcross)
    close("inputs after prediction", M.N(Kin), kin0, 0, 0)
    close("inputs after prediction", M.N(Kcross), kc0, 0, 0)
    close("inputs after prediction", M.N(nnt), t0, 0, 0)
    for got, want in zip((aXtr, aXte, aY, ann), keep):
        rt = 1e-6 if M.f32() else 0
        close("data after prediction", M.N(got), want, rt, rt)
    return m, (Xtr, Xte, Y, nn, diag), M.N(mean), M.N(var), (Kin, Kcross, nnt)


def run_mean(c):
    m, (Xtr, Xte, Y, nn, diag), mean, _, _ = predict(c)
    want, _, cond = ref.posteriors(c["model"], diag, Xte, Xtr, Y, nn)
    same_shape("posterior mean", mean, (c["b"],) + Y.shape[1:])
    rt, at = tolerance(c, cond, np.abs(Y).max())
    close("posterior mean", mean, want, rt, at)
    return labels(c)


def run_noise(c):
    """Noise far below or above the prior variance, predicted exactly."""
    Xtr, Xte, Y, nn, diag = gens.expand(c)
    want, wvar, cond = ref.posteriors(c["model"], diag, Xte, Xtr, Y, nn)
    if cond > (1e5 if M.f32() else 1e12):
        return ["ill-conditioned"]
    _, _, mean, var, _ = predict(c)
    cond *= max(1.0, ref.weight_sizes(c["model"], diag, Xte, Xtr, nn))
    rt, at = tolerance(c, cond, np.abs(Y).max())
    close("posterior mean", mean, want, rt, at)
    rt, at = tolerance(c, cond, 1.0)
    close("posterior variance", var, c["scale"] * wvar, rt, at * c["scale"])
    out = labels(c)
    return out + ["cond:1e%d" % (2 * int(np.log10(cond) / 2))]


@st.composite
def near_cases(draw, generic=True):
    """Test points at any distance from one of well separated neighbors."""
    d, b = draw(st.integers(1, 4)), draw(st.integers(1, 6))
    return {"d": d, "b": b, "nn": draw(st.integers(1, 4)),
            "model": draw(gens.kernel_spec(d, generic=generic)),
            "gaps": draw(st.lists(st.floats(-10, 0), min_size=b,
                                  max_size=b)),
            "noise": {"kind": draw(st.sampled_from(["homo", "hetero"])),
                      "v": 10.0 ** draw(st.integers(-14, 0)),
                      "level": 10.0 ** draw(st.integers(-14, 0)),
                      "seed": draw(gens.SEEDS)},
            "scale": draw(gens.SCALES), "seed": draw(gens.SEEDS)}


def near(c):
    """((mean, variance), (expected mean, expected variance), tolerance)."""
    rng = np.random.default_rng([c["seed"], 41])
    b, k, d = c["b"], c["nn"], c["d"]
    Z = rng.normal(size=(b, k, d)) * 0.1
    Z[:, :, 0] += 1.5 * np.arange(k)
    step = rng.normal(size=(b, d))
    step /= np.sqrt((step ** 2).sum(axis=1, keepdims=True))
    Q = Z[:, 0] + step * 10.0 ** np.array(c["gaps"])[:, None]
    ls = np.asarray(c["model"]["ls"])
    Xtr, Xte = (Z * ls).reshape(b * k, d), Q * ls
    nn = np.arange(b * k).reshape(b, k)
    Y = rng.normal(size=(b * k, 1))
    if M.f32():  # the reference sees what the library is given
        Xtr, Xte = np.float32(Xtr).astype(float), np.float32(Xte).astype(float)
    diag = gens.noise_diag(c["noise"], b, k)
    m = build.model(c, diag)
    cross, pair, nnt = m.make_predict_tensors(
        M.AI(np.arange(b)), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Y))
    Kin, Kc = m.kernel(pair), m.kernel(cross)
    got = M.N(m.posterior_mean(Kin, Kc, nnt)), M.N(m.posterior_variance(
        Kin, Kc))
    mean, var, _ = ref.posteriors(c["model"], diag, Xte, Xtr, Y, nn)
    spec = c["model"]
    closed = spec["kernel"] == "rbf" or spec["nu"] in ("inf", 0.5, 1.5, 2.5)
    tol = 2e-3 if M.f32() else 2e-12 if closed else 1e-6
    return got, (mean, c["scale"] * var), tol


def run_near(c):
    got, want, tol = near(c)
    close("posterior mean near a neighbor", got[0], want[0], 0, 10 * tol)
    return [c["model"]["kernel"]] + (
        ["nt"] if min(c["gaps"]) < -3 and c["nn"] > 1 else [])


def run_from_indices(c):
    """The index-based wrappers give the same predictions."""
    Xtr, Xte, Y, nn, diag = gens.expand(c)
    m = build.model(c, diag)
    args = (m, M.AI(np.arange(len(nn))), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Y))
    want, var, cond = ref.posteriors(c["model"], diag, Xte, Xtr, Y, nn)
    rt, at = tolerance(c, cond, np.abs(Y).max())
    close("posterior_mean_from_indices",
          M.N(M.posterior_mean_from_indices(*args)), want, rt, at)
    mean, v = M.regress_from_indices(*args)
    close("regress_from_indices mean", M.N(mean), want, rt, at)
    rv, av = tolerance(c, cond, 1.0)
    close("regress_from_indices variance", M.N(v), c["scale"] * var, rv,
          av * c["scale"])
    close("posterior_variance_from_indices",
          M.N(M.posterior_variance_from_indices(*args)), c["scale"] * var, rv,
          av * c["scale"])
    # predicting at training locations: test features omitted
    sub = np.arange(len(nn)) % len(Xtr)
    cross, pair, nnt = m.make_predict_tensors(
        M.AI(sub), M.AI(nn), None, M.A(Xtr), M.A(Y))
    mean = m.posterior_mean(m.kernel(pair), m.kernel(cross), nnt)
    want, _, _ = ref.posteriors(c["model"], diag, Xtr[sub], Xtr, Y, nn)
    close("posterior mean at training locations", M.N(mean), want, rt, at)
    return labels(c)


def run_exact(c):
    """Noise-free conditioning on the test point itself reproduces its target."""
    c = dict(c, noise={"kind": "homo", "v": 0.0})
    X = gens.distinct_features(c["x"], c["n"], c["d"], c["seed"])
    Y = gens.responses(c["y"], c["n"], c["r"], c["seed"])
    nn = gens.neighbor_indices(c["n"], c["b"], c["nn"], c["seed"])
    diag = np.zeros(nn.shape)
    at_ = nn[np.arange(len(nn)), np.arange(len(nn)) % c["nn"]]
    want, var, cond = ref.posteriors(c["model"], diag, X[at_], X, Y, nn)
    if cond > 1e6:
        return ["ill-conditioned"]
    for noise in ({"kind": "homo", "v": 0.0}, {"kind": "null"}):
        m = build.model(dict(c, noise=noise), diag)
        cross, pair, nnt = m.make_predict_tensors(
            M.AI(at_), M.AI(nn), None, M.A(X), M.A(Y))
        Kin, Kc = m.kernel(pair), m.kernel(cross)
        tol = 1e-7 * max(1.0, np.abs(Y).max())
        close("interpolated mean", M.N(m.posterior_mean(Kin, Kc, nnt)),
              Y[at_], 1e-6, tol)
        close("interpolated variance", M.N(m.posterior_variance(Kin, Kc)),
              np.zeros(len(nn)), 0, 1e-6 * c["scale"])
    return labels(c)


def run_1d(c):
    """One-dimensional feature vectors mean the same as single columns."""
    c = dict(c, d=1)
    c["model"] = dict(c["model"], ls=c["model"]["ls"][:1])
    Xtr, Xte, Y, nn, diag = gens.expand(c)
    m = build.model(c, diag)
    args = (m, M.AI(np.arange(len(nn))), M.AI(nn), M.A(Xte[:, 0]),
            M.A(Xtr[:, 0]), M.A(Y))
    want, var, cond = ref.posteriors(c["model"], diag, Xte, Xtr, Y, nn)
    mean, v = M.regress_from_indices(*args)
    rt, at = tolerance(c, cond, np.abs(Y).max())
    close("1-D feature mean", M.N(mean), want, rt, at)
    rt, at = tolerance(c, cond, 1.0)
    close("1-D feature variance", M.N(v), c["scale"] * var, rt,
          at * c["scale"])
    return labels(c)


register("C01", "mean", gens.problem(metrics=True), RULE, 4000, shards=4)(run_mean)
register("C01", "mean_large",
         gens.problem(metrics=True, n_max=150, nn_max=60, b_max=40, d_max=12, r_max=8),
         RULE + " (up to 60 neighbors, 40 batch elements, 12 features)", 400,
         shards=2, weight=5)(run_mean)
register("C01", "from_indices", gens.problem(metrics=True, noise=("homo",)), RULE, 1500,
         shards=2)(run_from_indices)
register("C01", "features_1d", gens.problem(metrics=True, d_max=1), RULE + "; features are "
         "vectors", 600)(run_1d)
register("C01", "interpolation",
         gens.problem(metrics=True, generic=False, nn_max=5, d_max=3,
                      kinds=["normal", "uniform", "lattice"]),
         "noise-free models queried at their own neighbors; non-trivial as "
         "above and condition number below 1e6", 1500)(run_exact)
register("C01", "noise_extremes",
         gens.problem(metrics=True, generic=False, nn_max=12, n_max=20,
                      noises=gens.NOISE_EXTREMES),
         RULE + "; noise between 1e-10 and 1e6 and a condition number of at "
         "most 1e12", 1500, shards=2)(run_noise)
HUGE = (" with thousands of predictions, hundreds of neighbors or features, or"
        " tens of thousands of training points")
register("C01", "mean_huge", gens.huge(gens.problem(metrics=True)), RULE + HUGE, 200,
         shards=2, weight=30)(run_mean)
register("C01", "near", near_cases(), "test points 1e-10 to one length scale "
         "from a neighbor, noise 1e-14 to 1; non-trivial = a gap below 1e-3 "
         "and several neighbors", 1500, shards=1)(run_near)
