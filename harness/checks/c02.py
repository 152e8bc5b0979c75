"""C02: the posterior variance is the scaled dense GP conditional variance."""

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.checks.c01 import (HUGE, labels, near, near_cases, predict,
                                tolerance)
from harness.core import check, close, register, same_shape

RULE = ("random neighborhoods, kernels, noise models and scales; non-trivial ="
        " more than one neighbor, batch element or response and scale != 1")


def tag(c):
    out = [x for x in labels(dict(c, y="normal")) if x != "nt"]
    if c["scale"] != 1.0 and (c["nn"] > 1 or c["b"] > 1):
        out.append("nt")
    return out


def run_variance(c):
    m, (Xtr, Xte, Y, nn, diag), _, var, _ = predict(c)
    _, want, cond = ref.posteriors(c["model"], diag, Xte, Xtr, Y, nn)
    same_shape("posterior variance", var, (c["b"],))
    rt, at = tolerance(c, cond, 1.0)
    s = c["scale"]
    close("posterior variance", var, s * want, rt, at * s)
    check(np.all(var >= -at * s), "negative posterior variance %s", var.min())
    check(np.all(var <= s * (1 + rt)), "posterior variance %s exceeds the "
          "prior variance %s", var.max(), s)
    return tag(c)


def variance_of(c, Xtr, Xte, Y, nn, diag):
    m = build.model(c, diag)
    cross, pair, _ = m.make_predict_tensors(
        M.AI(np.arange(len(nn))), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Y))
    return M.N(m.posterior_variance(m.kernel(pair), m.kernel(cross)))


def run_relations(c):
    """Independent of targets; monotone in data and noise; linear in scale."""
    p = c["p"]
    Xtr, Xte, Y, nn, diag = gens.expand(p)
    base = variance_of(p, Xtr, Xte, Y, nn, diag)
    s = p["scale"]
    tol = 1e-6 * s
    other = variance_of(p, Xtr, Xte, Y * -3.0 + 1.0, nn, diag)
    close("variance under other targets", other, base, 0, 0)
    q = dict(p, scale=s * c["mult"])
    close("variance under a multiplied scale",
          variance_of(q, Xtr, Xte, Y, nn, diag), base * c["mult"], 1e-9,
          1e-12 * s)
    noisy = diag * c["louder"]
    q = dict(p, noise={"kind": "hetero"})
    v = variance_of(q, Xtr, Xte, Y, nn, noisy)
    check(np.all(v >= base - tol), "more noise lowered the variance by %s",
          (base - v).max())
    if p["nn"] > 1:
        k = 1 + c["keep"] % (p["nn"] - 1)
        v = variance_of(q, Xtr, Xte, Y, nn[:, :k], diag[:, :k])
        check(np.all(v >= base - tol),
              "dropping neighbors lowered the variance by %s",
              (base - v).max())
    return tag(p)


def run_near(c):
    got, want, tol = near(c)
    close("posterior variance near a neighbor", got[1], want[1], 0,
          tol * c["scale"])
    return [c["model"]["kernel"]] + (["nt"] if min(c["gaps"]) < -3 else [])


register("C02", "near", near_cases(), "test points 1e-10 to one length scale "
         "from a neighbor, noise 1e-14 to 1; non-trivial = a gap below 1e-3",
         1500, shards=1)(run_near)
register("C02", "variance", gens.problem(metrics=True), RULE, 4000, shards=4)(run_variance)
register("C02", "variance_large",
         gens.problem(metrics=True, n_max=150, nn_max=60, b_max=40, d_max=12), RULE, 400,
         weight=5)(run_variance)
register("C02", "relations", st.fixed_dictionaries({
    "p": gens.problem(metrics=True, n_max=20, nn_max=12),
    "mult": st.sampled_from([0.01, 0.5, 2.0, 40.0]),
    "louder": st.sampled_from([1.0, 1.5, 10.0]),
    "keep": st.integers(0, 20)}),
    "metamorphic: other targets, scale multiples, more noise, fewer neighbors;"
    " non-trivial as above", 2000, shards=2)(run_relations)
register("C02", "variance_huge", gens.huge(gens.problem(metrics=True)),
         RULE + HUGE, 200, shards=2, weight=30)(run_variance)
register("C02", "relations_huge", st.fixed_dictionaries({
    "p": gens.huge(gens.problem(metrics=True)),
    "mult": st.sampled_from([0.01, 0.5, 2.0, 40.0]),
    "louder": st.sampled_from([1.0, 1.5, 10.0]),
    "keep": st.integers(0, 20)}),
    RULE + HUGE, 100, shards=2, weight=40)(run_relations)
