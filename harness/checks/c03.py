"""C03: covariance functions take their mathematical values."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.core import check, close, register, same_shape


def tensors(c, dfm):
    Xtr, Xte, _, nn, _ = gens.expand(c)
    b = len(nn)
    pair = dfm.pairwise_tensor(M.A(Xtr), M.AI(nn))
    cross = dfm.crosswise_tensor(M.A(Xte), M.A(Xtr), M.AI(np.arange(b)),
                                 M.AI(nn))
    return Xtr, Xte, nn, pair, cross


def atol():
    # the generic Matern evaluates coincident points at distance eps, and
    # distances of far-from-origin features carry rounding error
    return 2e-3 if M.f32() else 1e-8


def tols(spec):
    """(rtol, atol): closed forms carry nothing but rounding error."""
    if not M.f32() and (spec["kernel"] == "rbf" or
                        spec["nu"] in ("inf", 0.5, 1.5, 2.5)) and \
            not spec.get("nu_bounds"):
        return 1e-9, 3e-10
    return 1e-6, atol()


def labels(c):
    m = c["model"]
    out = [m["kernel"], m["def"], "nu:%s" % m.get("nu"), "x:" + c["x"]]
    if c.get("huge"):
        out.append("huge:" + c["huge"])
    if c["nn"] > 1:
        out.append("nt")
    return out


def run_values(c):
    spec = c["model"]
    k = build.kernel(spec)
    Xtr, Xte, nn, pair, cross = tensors(c, k.deformation)
    keep = M.N(pair).copy(), M.N(cross).copy()
    Kin, Kc = k(pair), k(cross)
    b, q = nn.shape
    same_shape("pairwise kernel", Kin, (b, q, q))
    same_shape("crosswise kernel", Kc, (b, q))
    Kin, Kc = M.N(Kin), M.N(Kc)
    for i in range(b):
        P = Xtr[nn[i]]
        close("pairwise kernel", Kin[i], ref.cov(spec, P, P), *tols(spec))
        close("crosswise kernel", Kc[i], ref.cov(spec, P, Xte[i][None])[:, 0],
              *tols(spec))
    close("kernel input afterwards", M.N(pair), keep[0], 0, 0)
    close("kernel input afterwards", M.N(cross), keep[1], 0, 0)
    close("second evaluation", M.N(k(pair)), Kin, 0, 0)
    close("symmetry", Kin, Kin.swapaxes(1, 2), 0, 1e-12 if not M.f32() else 1e-6)
    close("diagonal", Kin[:, range(q), range(q)], np.ones((b, q)), 0, atol())
    check(Kin.min() >= 0 and Kin.max() <= 1 + atol(),
          "kernel values outside [0, 1]: %s..%s", Kin.min(), Kin.max())
    w = np.linalg.eigvalsh(Kin)
    check(w.min() >= -q * 10 * atol(), "covariance not positive semidefinite:"
          " eigenvalue %s", w.min())
    close("prior variance", M.N(k.Kout()), np.array(1.0), 0, 1e-12)
    return labels(c)


def run_overrides(c):
    """Keyword hyperparameters evaluate the kernel as if built with them."""
    p = c["p"]
    spec = dict(p["model"], ls_bounds=[[1e-3, 1e3]] * len(p["model"]["ls"]))
    if spec["kernel"] == "matern" and spec["nu"] != "inf" and \
            M.backend() != "torch":  # has no generic Matern kernel
        spec["nu_bounds"] = [0.04, 60.0]
    k = build.kernel(spec)
    Xtr, Xte, nn, pair, cross = tensors(p, k.deformation)
    new = dict(spec)
    kw = {}
    ls = list(spec["ls"])
    for i in range(len(ls)):
        if c["which"] >> i & 1:
            ls[i] = c["ls"][i % len(c["ls"])]
            kw["length_scale%d" % i if spec["def"] == "aniso"
               else "length_scale"] = ls[i]
    new["ls"] = ls
    if "nu_bounds" in spec and c["use_nu"]:
        new["nu"] = c["nu"]
        kw["smoothness"] = c["nu"]
    if c["reverse"]:
        kw = dict(reversed(list(kw.items())))
    before = M.N(k(pair)).copy()
    fn = k.get_opt_fn() if c["opt_fn"] else k
    got_pair, got_cross = M.N(fn(pair, **kw)), M.N(fn(cross, **kw))
    for i in range(len(nn)):
        P = Xtr[nn[i]]
        close("kernel at keyword hyperparameters", got_pair[i],
              ref.cov(new, P, P), *tols(new))
        close("kernel at keyword hyperparameters", got_cross[i],
              ref.cov(new, P, Xte[i][None])[:, 0], *tols(new))
    close("kernel after evaluation elsewhere", M.N(k(pair)), before, 0, 0)
    out = [x for x in labels(p) if x != "nt"]
    return out + (["nt"] if kw and p["nn"] > 1 else [])


def run_relations(c):
    """Stationarity, scaling, decay, and limits in the smoothness."""
    p = c["p"]
    spec = p["model"]
    k = build.kernel(spec)
    Xtr, Xte, nn, pair, cross = tensors(p, k.deformation)
    base = M.N(k(pair))
    shift = np.random.default_rng(c["seed"]).normal(size=p["d"])
    moved = k(k.deformation.pairwise_tensor(M.A(Xtr + shift), M.AI(nn)))
    tol = 1e-5 if p["x"] == "far" or p["x"] == "scaled" else 1e-6
    close("kernel of translated points", M.N(moved), base, 1e-4 if tol > 1e-6
          else 1e-6, tol)
    f = c["factor"]
    k2 = build.kernel(dict(spec, ls=[v * f for v in spec["ls"]]))
    grown = k2(k2.deformation.pairwise_tensor(M.A(Xtr * f), M.AI(nn)))
    close("kernel of jointly scaled points and length scales", M.N(grown),
          base, 1e-5, 1e-6)
    # monotone decay along a ray
    ray = np.zeros((c["points"], p["d"]))
    ray[:, c["seed"] % p["d"]] = np.linspace(0, 3, c["points"])
    idx = np.arange(c["points"])[None, :]
    row = M.N(k(k.deformation.pairwise_tensor(M.A(ray), M.AI(idx))))[0, 0]
    check(np.all(np.diff(row) <= 1e-9 + (1e-5 if M.f32() else 0)),
          "covariance grows with distance: %s", row)
    return labels(p)


WIDE_NUS = [0.05, 0.12, 0.2, 6.5, 9.0, 13.0, 18.3, 20.5, 27.0, 35.2, 48.0]


@st.composite
def problems(draw, **kw):
    """Prediction problems, a third of the Materns rough or very smooth."""
    c = draw(gens.problem(metrics=True, r_max=0, **kw))
    if c["model"]["kernel"] == "matern" and draw(st.integers(0, 2)) == 0:
        c["model"]["nu"] = draw(st.one_of(
            st.sampled_from(WIDE_NUS),
            st.floats(0.05, 50.0).map(lambda v: round(v, 3))))
    return c


RULE = ("random point sets (lattice, duplicates, clusters, far from the "
        "origin), deformations and smoothness; non-trivial = at least two "
        "points per neighborhood")
big = problems(n_max=30, nn_max=12, b_max=5, d_max=12)
register("C03", "values", big, RULE, 5000, shards=4)(run_values)
register("C03", "values_large", problems(
    n_max=120, nn_max=40, b_max=60, d_max=25), RULE, 250, shards=2,
    weight=8)(run_values)
register("C03", "values_huge", gens.huge(problems()), RULE + "; thousands of "
         "neighborhoods, hundreds of neighbors or features", 150, shards=2,
         weight=30)(run_values)
OVR = {"which": st.integers(0, 2 ** 12 - 1),
       "ls": st.lists(gens.LS, min_size=1, max_size=5),
       "use_nu": st.booleans(), "nu": st.one_of(
           st.sampled_from([0.5, 1.5, 2.5] + WIDE_NUS), gens.GENERIC),
       "reverse": st.booleans(), "opt_fn": st.booleans()}
register("C03", "overrides", st.fixed_dictionaries({"p": big, **OVR}),
         RULE + " and at least one keyword", 3000, shards=2)(run_overrides)
register("C03", "relations", st.fixed_dictionaries({
    "p": problems(n_max=20, nn_max=8, d_max=5),
    "seed": gens.SEEDS, "factor": st.sampled_from([0.01, 0.5, 3.0, 100.0]),
    "points": st.integers(2, 30)}), RULE, 2000, shards=2)(run_relations)
