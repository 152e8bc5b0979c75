"""C15: the PyTorch backend computes the same functions.

The oracles of the other properties, none of which depends on a backend, run
with the torch backend at both precisions.
"""

from hypothesis import strategies as st

from harness import gens
from harness.checks import (c01, c02, c03, c04, c07, c08, c10, c11, c12,
                            c13, c14, c20, c21)
from harness.core import register

closed = gens.problem(generic=False)
wide = gens.problem(generic=False, n_max=30, nn_max=12, b_max=5, d_max=12,
                    r_max=0)
kinds = ["normal", "uniform", "lattice"]

# name, strategy, run, quick count at 64 bits, at 32 bits (0: not run)
TABLE = [
    ("mean", closed, c01.run_mean, 800, 400),
    ("from_indices", gens.problem(generic=False, noise=("homo",)),
     c01.run_from_indices, 300, 150),
    ("interpolation", gens.problem(generic=False, nn_max=5, d_max=3,
                                   kinds=kinds), c01.run_exact, 300, 0),
    ("variance", closed, c02.run_variance, 800, 400),
    ("near", c01.near_cases(generic=False), c02.run_near, 400, 200),
    ("relations", st.fixed_dictionaries({
        "p": gens.problem(generic=False, n_max=20, nn_max=12),
        "mult": st.sampled_from([0.01, 0.5, 2.0, 40.0]),
        "louder": st.sampled_from([1.0, 1.5, 10.0]),
        "keep": st.integers(0, 20)}), c02.run_relations, 400, 0),
    ("kernel", wide, c03.run_values, 800, 400),
    ("overrides", st.fixed_dictionaries({"p": wide, **c03.OVR}),
     c03.run_overrides, 500, 200),
    ("distances", c04.cases(), c04.run_tensors, 600, 300),
    ("distances_many", c04.many_cases(), c04.run_many, 40, 20),
    ("keywords", c04.cases(), c04.run_keywords, 400, 200),
    ("losses", c07.cases(), c07.run_values, 2000, 600),
    ("loss_relations", c07.cases(), c07.run_relations, 1000, 400),
    ("objective", c08.cases(generic=False).filter(
        lambda c: "smoothness" not in c["free"]), c08.run, 800, 300),
    ("scale", c10.cases(generic=False), c10.run, 800, 300),
    ("downsample", c10.down_cases(generic=False), c10.run_down, 300, 100),
    ("noise", c11.cases(), c11.run, 800, 300),
    ("noise_equivalence", c11.equiv_cases(generic=False), c11.run_equiv, 400,
     200),
    ("fast", c13.cases(generic=False), c13.run_algebra, 500, 200),
    ("fast_tensors", c13.tensor_cases(), c13.run_tensors, 400, 0),
    ("fast_workflow", c13.flow_cases(generic=False).map(
        lambda c: dict(c, route="parts")), c13.run_flow, 250, 0),
    ("multivariate", c14.cases(generic=False), c14.run, 500, 200),
    ("shear", c20.cases().filter(lambda c: c["kernel"] == "33"),
     c20.run_kernel, 250, 0),
    ("shear_predict", c20.cases().filter(lambda c: c["kernel"] == "33"),
     c20.run_predict, 250, 0),
    ("hierarchical", c21.predict_cases(generic=False), c21.run_predict, 250,
     0),
]

for name, strat, run, q64, q32 in TABLE:
    heavy = 3 if name == "objective" else 2
    register("C15", name, strat, "torch, 64 bits", q64, backend="torch",
             shards=1 if q64 < 800 else 2, weight=heavy)(run)
    if q32:
        register("C15", name + "32", strat, "torch, 32 bits", q32,
                 backend="torch:32", shards=1, weight=heavy)(run)


def known_fast(case, detail):
    """The workflow function converts the neighbor indices as numpy arrays."""
    if "examples/fast_posterior_mean.py" in detail and "astype" in detail:
        return "torch-fast-workflow"
    return None


register("C15", "fast_workflow_any", c13.flow_cases(generic=False).map(
    lambda c: dict(c, route="any")), "torch, 64 bits, through the workflow "
    "function", 30, backend="torch", shards=1, known=known_fast)(c13.run_flow)
