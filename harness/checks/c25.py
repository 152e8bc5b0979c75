"""C25: results have the configured backend and precision."""

import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from harness import api as M
from harness import build, gens, ref
from harness.checks import (c01, c02, c03, c04, c07, c08, c10, c11, c13,
                            c14, c20)
from harness.core import Skip, check, close, register

# ---- the numpy backend at single precision ----------------------------------

anything = gens.problem()
wide = gens.problem(n_max=30, nn_max=12, b_max=5, d_max=12,
                    r_max=0)
TABLE = [
    ("mean", anything, c01.run_mean, 600),
    ("from_indices", gens.problem(generic=False, noise=("homo",)),
     c01.run_from_indices, 200),
    ("variance", anything, c02.run_variance, 600),
    ("kernel", wide, c03.run_values, 500),
    ("overrides", st.fixed_dictionaries({"p": wide, **c03.OVR}),
     c03.run_overrides, 200),
    ("distances", c04.cases(), c04.run_tensors, 400),
    ("keywords", c04.cases(), c04.run_keywords, 200),
    # scikit-learn's log_loss clips probabilities at the precision of the type
    ("losses", c07.cases().filter(lambda c: c["loss"] != "cross_entropy"),
     c07.run_values, 800),
    ("objective", c08.cases().filter(
        lambda c: "smoothness" not in c["free"]), c08.run, 300),
    ("scale", c10.cases(), c10.run, 300),
    ("downsample", c10.down_cases(), c10.run_down, 100),
    ("noise", c11.cases(), c11.run, 300),
    ("noise_equivalence", c11.equiv_cases(), c11.run_equiv, 200),
    ("fast", c13.cases(), c13.run_algebra, 300),
    ("fast_tensors", c13.tensor_cases(), c13.run_tensors, 200),
    ("multivariate", c14.cases(), c14.run, 200),
    ("shear", c20.cases(), c20.run_kernel, 150),
    ("shear_predict", c20.cases(), c20.run_predict, 150),
]
for name, strat, run, quick in TABLE:
    register("C25", name + "32", strat, "numpy, 32 bits", quick,
             backend="numpy:32", shards=1, weight=2)(run)


# ---- types ------------------------------------------------------------------

@st.composite
def type_cases(draw):
    c = draw(gens.train_problem(generic=False, r_max=3, nn_min=2, free=False,
                                noise=("homo", "hetero")))
    if c["noise"]["kind"] == "homo":  # well-conditioned at either precision
        c["noise"]["v"] = max(0.02, c["noise"]["v"])
    if c["x"] == "lattice":  # whole numbers may be handed over as integers
        c["x"] = "normal"
    if c["y"] == "counts":
        c["y"] = "large"
    c["scale_kind"] = draw(st.sampled_from(["fixed", "analytic", "down"]))
    c["nn_method"] = draw(st.sampled_from(["exact", "exact", "hnsw"]))
    c["trained"] = draw(st.booleans())
    c["multi"] = draw(st.booleans())
    return c


def run_types(c):
    """Every array computed from data of the configured type has that type."""
    from MuyGPyS import config

    X, Y, batch, nn, diag = gens.expand_train(c)
    diag = np.maximum(diag, 0.02)
    tests = gens.features(c["x"], c["b"], c["d"], c["seed"] + 1)
    kind = "torch" if M.backend() == "torch" else "numpy"
    bits = config.state.ftype

    def typed(what, x, dtype="float" + bits):
        mod = type(x).__module__.split(".")[0]
        name = str(getattr(x, "dtype", None)).split(".")[-1]
        check(mod == kind and name == dtype, "%s is a %s.%s of %s, with the "
              "%s backend and %s bits", what, mod, type(x).__name__, name,
              kind, bits)
        return x

    aX, aY, aT = M.A(X), M.A(Y), M.A(tests)
    kw = {"algorithm": "ball_tree"} if c["nn_method"] == "exact" else {
        "space": "l2", "ef_construction": 50, "M": 8}
    nbrs = M.NN_Wrapper(aX, c["nn"], nn_method=c["nn_method"], **kw)
    for what, (ix, dist) in (
            ("query", nbrs.get_nns(aT)),
            ("batch query", nbrs.get_batch_nns(M.AI(batch)))):
        typed(what + " indices", ix, "int64")
        typed(what + " distances", dist)
    found = ix
    scale = {"fixed": c["scale"],
             "analytic": {"kind": "analytic", "val": c["scale"]},
             "down": {"kind": "down", "down_count": c["nn"] - 1,
                      "iteration_count": 2, "val": c["scale"]}}
    one = dict(c, scale=scale[c["scale_kind"]])
    if c["noise"]["kind"] == "hetero":
        typed("heteroscedastic noise", M.make_heteroscedastic_tensor(
            M.A(np.full(c["n"], 0.5)), found))
    m = build.model(one, diag)
    idx = M.AI(batch)
    cross, pair, bt, bnnt = m.make_train_tensors(idx, found, aX, aY)
    ptens = m.make_predict_tensors(M.AI(np.arange(c["b"])), found, aT, aX, aY)
    for what, x in (("crosswise tensor", cross), ("pairwise tensor", pair),
                    ("batch responses", bt), ("neighbor responses", bnnt),
                    ("test crosswise tensor", ptens[0]),
                    ("test pairwise tensor", ptens[1]),
                    ("test neighbor responses", ptens[2]),
                    ("batch features", M.batch_features_tensor(aX, idx))):
        typed(what, x)
    if c["trained"] and c["r"] == 0 and np.abs(Y).max() > 0:
        m.optimize_scale(pair, bnnt)
    Kin = typed("covariance", m.kernel(pair))
    Kc = typed("cross-covariance", m.kernel(cross))
    typed("perturbed covariance", m.noise.perturb(Kin))
    mean = typed("posterior mean", m.posterior_mean(Kin, Kc, bnnt))
    var = typed("posterior variance", m.posterior_variance(Kin, Kc))
    if kind == "torch":
        typed("mean squared error", M.mse_fn(mean, bt))
        typed("pseudo-Huber loss", M.pseudo_huber_fn(mean, bt))
        typed("leave-one-out likelihood", M.lool_fn_unscaled(mean, bt, var))
    coeffs = typed("fast coefficients", m.fast_coefficients(Kin, bnnt))
    typed("fast posterior mean", m.fast_posterior_mean(Kc, coeffs))
    typed("updated neighborhoods", M.fast_nn_update(M.AI(
        gens.neighbor_indices(c["n"], c["n"], c["nn"], c["seed"],
                              exclude=np.arange(c["n"])))), "int64")
    if c["noise"]["kind"] == "homo":
        typed("posterior mean from indices", M.posterior_mean_from_indices(
            m, idx, found, aX, aX, aY))
        typed("posterior variance from indices",
              M.posterior_variance_from_indices(m, idx, found, aX, aX, aY))
    if c["multi"] and c["r"] > 0:
        p = {"kernel": build.kernel(c["model"]),
             "noise": build.noise(c["noise"], diag),
             "scale": build.scale(c["scale"])}
        mm = M.MultivariateMuyGPS(*[dict(p) for _ in range(c["r"])])
        cross, pair, bt, bnnt = mm.make_train_tensors(idx, found, aX, aY)
        for what, x in (("crosswise tensor", cross),
                        ("pairwise tensor", pair), ("batch responses", bt),
                        ("neighbor responses", bnnt),
                        ("posterior mean", mm.posterior_mean(
                            pair, cross, bnnt)),
                        ("posterior variance", mm.posterior_variance(
                            pair, cross)),
                        ("fast coefficients", mm.fast_coefficients(
                            pair, bnnt))):
            typed("multivariate " + what, x)
    return [c["model"]["kernel"], c["model"]["def"], "noise:" +
            c["noise"]["kind"], "nns:" + c["nn_method"]] + (
        ["nt"] if c["nn"] > 1 else [])


TYPES = ("results computed from data of the configured type; non-trivial = "
         "several neighbors")
for backend, quick in (("numpy", 600), ("numpy:32", 600), ("torch", 300),
                       ("torch:32", 300)):
    register("C25", "types_" + backend.replace(":", ""), type_cases(), TYPES,
             quick, backend=backend, shards=1, weight=2)(run_types)


# ---- selection --------------------------------------------------------------

CHILD = """
import json, sys
case = json.load(sys.stdin)
from MuyGPyS import config
for name, value in case["updates"]:
    config.update(name, value)
sys.path[:0] = case["path"]
import numpy as np
from harness import api as M
from harness import build, gens
c = case["problem"]
Xtr, Xte, Y, nn, diag = gens.expand(c)
m = build.model(c, diag)
cross, pair, nnt = m.make_predict_tensors(
    M.AI(np.arange(len(nn))), M.AI(nn), M.A(Xte), M.A(Xtr), M.A(Y))
mean = m.posterior_mean(m.kernel(pair), m.kernel(cross), nnt)
print("RESULT" + json.dumps({
    "type": type(mean).__module__.split(".")[0],
    "dtype": str(mean.dtype).split(".")[-1],
    "state": [config.state.backend, config.state.ftype],
    "values": M.N(mean).ravel().tolist()}))
"""


@st.composite
def select_cases(draw):
    have = st.sampled_from([None, "numpy", "torch"])
    bits = st.sampled_from([None, "32", "64"])
    bad = draw(st.sampled_from([None] * 4 + ["backend", "ftype", "missing"]))
    env = {"backend": draw(have), "ftype": draw(bits)}
    if bad == "missing":
        env["backend"] = "jax"
    elif bad:
        env[bad] = draw(st.sampled_from(["pytorch", "16", "128", "NumPy2",
                                         "none"]))
    return {"bad": bad, "env": env, "update": {"backend": draw(have),
                                               "ftype": draw(bits)},
            "order": draw(st.booleans()),
            "problem": draw(gens.problem(generic=False, noise=("homo",),
                                         kinds=["normal", "uniform"]))}


def run_select(c):
    """The environment, or an update before importing anything else, decides.
    """
    env = dict(os.environ)
    for k, v in c["env"].items():
        env.pop("MUYGPYS_" + k.upper(), None)
        if v is not None:
            env["MUYGPYS_" + k.upper()] = v
    updates = [("muygpys_" + k, v) for k, v in c["update"].items()
               if v is not None]
    if c["order"]:
        updates.reverse()
    root = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    p = subprocess.run(
        [sys.executable, "-c", CHILD], env=env, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, text=True, timeout=300, cwd=root,
        input=json.dumps({"updates": updates, "problem": c["problem"],
                          "path": [root]}))
    if c["bad"]:
        check(p.returncode != 0 and "ValueError" in p.stderr, "the environment "
              "%s is accepted (exit %d): %s", c["env"], p.returncode,
              (p.stdout + p.stderr)[-500:])
        return ["refused", "nt"]
    check(p.returncode == 0 and "RESULT" in p.stdout, "environment %s, then "
          "%s: exit %d, %s", c["env"], updates, p.returncode,
          p.stderr[-1500:])
    got = json.loads(p.stdout.split("RESULT")[1])
    backend = c["update"]["backend"] or c["env"]["backend"] or "numpy"
    bits = c["update"]["ftype"] or c["env"]["ftype"] or "64"
    check(got["state"] == [backend, bits], "environment %s, then %s: "
          "configured as %s", c["env"], updates, got["state"])
    check(got["type"] == backend and got["dtype"] == "float" + bits,
          "environment %s, then %s: the posterior mean is a %s array of %s",
          c["env"], updates, got["type"], got["dtype"])
    Xtr, Xte, Y, nn, diag = gens.expand(c["problem"])
    want, _, cond = ref.posteriors(c["problem"]["model"], diag, Xte, Xtr, Y,
                                   nn)
    eps, tol = (1e-7, 2e-3) if bits == "32" else (1e-15, 1e-6)
    if cond * eps > 1e-2:
        raise Skip("ill-conditioned")
    close("posterior mean", got["values"], want.ravel(), tol + 50 * eps * cond,
          (tol + 50 * eps * cond) * max(1.0, np.abs(Y).max()))
    return [backend + ":" + bits] + (["nt"] if backend != "numpy" or
                                     bits != "64" else [])


register("C25", "select", select_cases(), "environment variables and updates "
         "before the import, valid and invalid, in fresh processes; "
         "non-trivial = other than the default, or refused", 16, 400,
         shards=4, weight=300)(run_select)
