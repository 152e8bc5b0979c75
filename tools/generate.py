"""Writes properties.jsonl and MANIFEST.json from the tables below.

usage: cd /verif && . ./env.sh && /opt/venv/bin/python tools/generate.py
"""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, ".deps")]
from harness.core import load_all  # noqa: E402
from harness.main import QUICK_FACTOR  # noqa: E402

S = "src/MuyGPyS/"
TOL = "Trusts numpy/scipy linear algebra and the stated tolerance."

# id, title, statement, over, quantifier text, why tests can't, files,
# [(mechanism, where)], technique
P = []


def prop(id, title, statement, over, text, why, files, mech, technique):
    P.append((id, title, statement, over, text, why,
              [S + f for f in files],
              [{"name": n, "where": S + w} for n, w in mech], technique))


prop("C01", "Posterior means are exact local GP conditionals",
     "For every batch of test points, neighborhoods, training responses, kernel and noise model, the posterior mean returned for each test point equals the mean of a dense Gaussian process conditioned on exactly that point's own neighbors and their responses. It has one row per test point and the trailing shape of the responses, whatever coincidences there are between batch, neighbor and response counts, and computing it changes none of its inputs.",
     ["inputs", "configurations"],
     "all batch, neighbor, feature and response counts (including equal ones and 1), feature layouts, kernels, deformations, noise models",
     "Tests compare a few fixed shapes; coincident dimensions, single neighbors/responses and mixed noise are never enumerated.",
     ["gp/muygps.py", "gp/mean.py", "_src/gp/muygps/numpy.py", "examples/from_indices.py"],
     [("posterior mean solve", "_src/gp/muygps/numpy.py:_muygps_posterior_mean"), ("tensor construction", "gp/muygps.py:make_predict_tensors")],
     "property-based testing against a per-neighborhood dense GP reference")
prop("C02", "Posterior variances are exact local GP variances",
     "The posterior variance returned for each test point equals the model's variance scale times the dense Gaussian process conditional variance given that point's neighbors, for every kernel and noise model. It is therefore nonnegative and at most the scaled prior variance, does not depend on the responses, and never grows when neighbors are added or noise is removed.",
     ["inputs", "configurations"],
     "all neighborhoods, kernels, noise models and scales",
     "Tests check shapes and a few values; monotonicity and per-point exactness over all inputs are not sampled.",
     ["gp/muygps.py", "gp/variance.py", "gp/hyperparameter/scale.py", "_src/gp/muygps/numpy.py"],
     [("posterior variance", "_src/gp/muygps/numpy.py:_muygps_diagonal_variance"), ("scale application", "gp/variance.py:PosteriorVariance")],
     "property-based testing against a dense GP reference plus metamorphic relations")
prop("C03", "Kernels take their defined values at every hyperparameter",
     "The Matern and RBF kernels evaluate to their mathematical definitions at every distance and smoothness, whether a hyperparameter is the model's own or is supplied at the call, and the closed forms used for special smoothness values agree with the general form. Kernel matrices are symmetric with unit diagonal, positive semidefinite, bounded by one and decreasing in distance.",
     ["inputs", "configurations"],
     "all distances (zero and tiny included), smoothness values, length scales, call-time overrides",
     "Tests compare with scikit-learn on a handful of fixed parameters.",
     ["gp/kernels/matern.py", "gp/kernels/rbf.py", "_src/gp/kernels/numpy.py", "_src/gp/kernels/torch.py"],
     [("kernel selection", "gp/kernels/matern.py:_set_matern_fn"), ("kernel functions", "_src/gp/kernels/numpy.py")],
     "property-based testing against scipy special-function definitions plus metamorphic relations")
prop("C04", "Distance tensors and length scales mean what they say",
     "Crosswise and pairwise tensors hold, for each batch element, the (squared) distances or coordinate differences between exactly the indexed points, with one entry per neighbor, for any index arrays, feature counts and number types of the features. Scaling by a length scale is equivalent to dividing the features by it, coordinate by coordinate for anisotropic models, independent of the order in which hyperparameters are named.",
     ["inputs", "configurations"],
     "all features, index arrays, metrics, isotropic and anisotropic length scales, up to more than ten features",
     "Tests compare implementation variants with each other on one shape.",
     ["gp/deformation/isotropy.py", "gp/deformation/anisotropy.py", "gp/deformation/metric.py", "_src/gp/tensors/numpy.py", "gp/hyperparameter/vector.py"],
     [("tensors", "_src/gp/tensors/numpy.py"), ("length scale vector", "gp/hyperparameter/vector.py")],
     "property-based testing against explicit distance loops plus metamorphic rescaling")
prop("C05", "Nearest-neighbor queries return the true nearest neighbors",
     "Exact neighbor queries return, for each query point, the indices of its nearest training points in nondecreasing distance order together with the matching (squared) distances. For batches drawn from the training data no point is ever its own neighbor, even when the data contain duplicated points; approximate queries keep the same format, self-exclusion and index-distance consistency.",
     ["inputs", "configurations"],
     "all feature sets including ties and duplicates, counts, algorithms, batch index sets",
     "Tests use continuous random features without ties and check only a few sizes.",
     ["neighbors.py"],
     [("neighbor index", "neighbors.py:NN_Wrapper")],
     "property-based testing against brute-force distances")
prop("C06", "Training batches are valid samples",
     "Every batch sampler returns distinct in-range training indices of the requested count (or all of them), paired row by row with the neighbors of those very points excluding themselves. Filtered batches contain exactly the points whose neighborhoods disagree with their label or vary among themselves, balanced batches contain each class as evenly as possible and never more of a class than exists, and every point can be drawn.",
     ["inputs", "schedules"],
     "all train sizes, batch sizes, class layouts, class imbalances, random draws",
     "Tests check histograms for one dataset and seed.",
     ["optimize/batch.py"],
     [("samplers", "optimize/batch.py")],
     "property-based testing against set-membership oracles over generated label layouts")
prop("C07", "Loss functions take their documented values",
     "Mean squared error, cross-entropy, pseudo-Huber and the leave-one-out likelihood losses equal their documented formulas for every batch size, response shape, variance shape and boundary or scale value, pairing each prediction with its own variance. They are invariant to reordering the batch, add over concatenated batches, and are smallest at perfect predictions where their formula says so.",
     ["inputs", "configurations"],
     "all batch and response shapes (including single responses), diagonal and full variances, label encodings",
     "Tests compare a few fixed arrays; broadcasting coincidences between batch and response dimensions are not covered.",
     ["optimize/loss.py", "_src/optimize/loss/numpy.py", "_src/optimize/loss/torch.py"],
     [("loss formulas", "_src/optimize/loss/numpy.py")],
     "property-based testing against formula references plus metamorphic relations")
prop("C08", "The training objective is minus the leave-one-out loss",
     "At any point of the hyperparameter space the objective used for training equals minus the chosen loss of the leave-one-out predictions of the model rebuilt with those hyperparameters, including noise, smoothness, length scales and the variance scale recomputed there. Hyperparameters left out take the model's own values, and evaluating the objective any number of times in any order changes neither the model nor later values.",
     ["inputs", "configurations", "histories"],
     "all models, losses, loss arguments, scale functions, response shapes and candidate points",
     "Tests only observe the optimum found, on one dataset per loss.",
     ["optimize/objective.py", "optimize/loss.py", "optimize/chassis.py", "gp/hyperparameter/scale.py"],
     [("objective composition", "optimize/objective.py:make_loo_crossval_fn"), ("predict-and-loss", "optimize/loss.py")],
     "property-based testing against a reference model rebuilt at each candidate, over evaluation sequences")
prop("C09", "Optimization returns a valid, no worse, independent model",
     "Every optimizer returns a model of the same form whose free hyperparameters lie within their bounds, whose fixed hyperparameters are unchanged, and whose training objective is not worse than that of the model it started from (for Bayesian search, of any candidate it evaluated). The starting model is left unmodified and shares no state with the result, and the result's predictions are those of a model built from scratch with its reported hyperparameters.",
     ["inputs", "configurations", "histories"],
     "all models with any subset of free hyperparameters, losses, optimizers and their settings, starting points on or inside bounds",
     "Tests check recovered values on one benchmark with a statistical tolerance.",
     ["optimize/chassis.py", "_src/optimize/chassis/numpy.py", "optimize/experimental/chassis.py"],
     [("optimizers", "_src/optimize/chassis/numpy.py"), ("mini-batch optimizer", "optimize/experimental/chassis.py")],
     "property-based testing with a reference objective and rebuilt-model differential")
prop("C10", "Variance-scale estimation is correct",
     "The analytic scale equals the mean over neighborhoods of the normalized quadratic form of their responses in the noise-perturbed covariance, down-sampled scales lie among the values of that estimator on subsets of the neighbors, and fixed scales never change. Scaling the responses by a constant multiplies the estimate by its square, and the estimated scale is positive and multiplies subsequent posterior variances exactly once while leaving means unchanged.",
     ["inputs", "configurations", "histories"],
     "all neighborhoods, kernels, noise models, scale functions and call orders",
     "Tests check closeness to a simulated truth with a loose tolerance.",
     ["gp/hyperparameter/scale.py", "_src/optimize/scale/numpy.py", "gp/muygps.py"],
     [("scale estimators", "gp/hyperparameter/scale.py"), ("quadratic form", "_src/optimize/scale/numpy.py")],
     "property-based testing against the closed-form estimator and exhaustive subset enumeration")
prop("C11", "Noise models perturb exactly the covariance diagonal",
     "Perturbing a covariance adds each neighbor's noise variance to its own diagonal entry and changes nothing else, for homoscedastic, heteroscedastic, null and shear noise and for both matrix and block covariances, without modifying its input. A constant heteroscedastic model is indistinguishable from the homoscedastic one, null noise from zero noise, and heteroscedastic tensors select the measurement noise of exactly each point's neighbors; invalid noise is refused.",
     ["inputs", "configurations"],
     "all batch, neighbor and block counts, noise values, call-time overrides",
     "Tests compare one shape per noise type.",
     ["gp/noise/homoscedastic.py", "gp/noise/heteroscedastic.py", "gp/noise/null.py", "_src/gp/noise/numpy.py", "gp/tensors.py"],
     [("perturbation", "_src/gp/noise/numpy.py")],
     "property-based testing against explicit diagonal construction plus metamorphic equivalences")
prop("C12", "Hyperparameters respect values, bounds and fixedness",
     "A scalar hyperparameter always reports the value and bounds it was last given, is fixed exactly when told so, lies within its bounds, and refuses invalid values, bounds and prompts without changing; sampled values lie within their bounds. A model lists for optimization exactly its free hyperparameters, each with its own value and bounds in a matching order, and a vector hyperparameter behaves as the ordered collection of its scalars.",
     ["inputs", "histories", "configurations"],
     "all sequences of value and bound assignments, all combinations of free and fixed hyperparameters",
     "Tests cover a list of single assignments, not histories nor every combination.",
     ["gp/hyperparameter/scalar.py", "gp/hyperparameter/vector.py", "gp/kernels/kernel_fn.py", "gp/muygps.py"],
     [("parameter contract", "gp/hyperparameter/scalar.py"), ("optimization lists", "gp/muygps.py:get_opt_params")],
     "stateful property-based testing against a reference parameter model")
prop("C13", "Fast posterior means equal ordinary posterior means",
     "Precomputed coefficients give, for every query point, the posterior mean conditioned on the neighborhood of its nearest training point (that point and its neighbors), exactly as the ordinary prediction over that neighborhood does. This holds for univariate and multivariate models, any response count, any batch and neighbor counts including one, and for the end-to-end convenience functions.",
     ["inputs", "configurations"],
     "all shapes, kernels, noise, neighborhood sizes and query points",
     "Tests check coefficients on a few shapes and the timing of the workflow.",
     ["gp/muygps.py", "gp/fast_mean.py", "gp/fast_precompute.py", "gp/tensors.py", "examples/fast_posterior_mean.py"],
     [("coefficients", "gp/fast_precompute.py"), ("fast tensors", "gp/tensors.py:make_fast_predict_tensors")],
     "property-based testing: differential against the dense conditional on the same neighborhoods")
prop("C14", "Multivariate models are independent univariate models",
     "A multivariate model with one kernel, noise and scale per response predicts means, variances, fast means and scales that are, response by response, exactly those of the corresponding univariate models on that response alone. Changing one response's model or data never affects the others.",
     ["inputs", "configurations"],
     "all response counts, per-response models, scales and noise, batch and neighbor shapes",
     "Tests compare shapes, or identical models for every response.",
     ["gp/multivariate_muygps.py", "examples/regress.py", "_src/gp/muygps/numpy.py"],
     [("per-response composition", "gp/multivariate_muygps.py")],
     "property-based testing: differential against independent univariate models and the reference")
prop("C15", "The PyTorch backend computes the same functions",
     "With the PyTorch backend selected, distance tensors, kernels, noise, posterior means and variances, scales, losses and objectives return the same values as the reference definitions the NumPy backend satisfies, up to the configured precision. This holds for every supported shape, and the quantities stay differentiable.",
     ["inputs", "configurations"],
     "the same input domains as the underlying properties, at 64- and 32-bit precision",
     "Backend tests compare one fixed shape per function.",
     ["_src/gp/muygps/torch.py", "_src/gp/kernels/torch.py", "_src/gp/tensors/torch.py", "_src/optimize/loss/torch.py", "_src/optimize/scale/torch.py", "_src/gp/noise/torch.py", "_src/math/torch.py"],
     [("torch implementations", "_src/gp/muygps/torch.py")],
     "differential property-based testing of the torch backend against backend-independent references")
prop("C16", "Distributed execution equals serial execution",
     "Under MPI with any number of processes the same program computes the same predictions, losses, objectives, scales and optimized models as a serial run: chunks are a partition of the batch in order, losses and scales are reduced over all processes, and every process obtains the same scalar results. This holds when the batch does not divide evenly among processes.",
     ["inputs", "configurations", "schedules"],
     "all process counts (1-5 tested), batch sizes including indivisible ones, models and losses",
     "MPI tests run a fixed process count and dataset.",
     ["_src/mpi_utils.py", "_src/optimize/loss/mpi.py", "_src/optimize/scale/mpi.py", "_src/gp/tensors/mpi.py", "optimize/chassis.py"],
     [("chunking", "_src/mpi_utils.py:mpi_chunk"), ("reductions", "_src/optimize/loss/mpi.py")],
     "differential property-based testing: generated programs run under mpirun and against the serial reference")
prop("C17", "The regression workflow returns what its model predicts",
     "The one-call regression workflow returns a trained model, a neighbor index of the training data and predictions such that the means and variances are exactly those of the returned model on the true nearest neighbors of each test point, in the order of the test points, for univariate and multivariate responses. Requested fixed hyperparameters stay as given and trained ones lie in their bounds; inputs are left unmodified.",
     ["inputs", "configurations"],
     "all data shapes, model specifications, scale functions, losses, optimizers and neighbor settings",
     "Tests check mean squared error on one simulated dataset.",
     ["examples/regress.py"],
     [("workflow", "examples/regress.py:do_regress")],
     "property-based end-to-end testing against brute-force neighbors and the dense reference at the returned hyperparameters")
prop("C18", "The classification workflow returns its surrogate's predictions",
     "The one-call classification workflow returns class scores such that each test point whose neighbors all agree receives exactly the common class encoding and every other point receives the posterior mean of the returned model on its own nearest neighbors' one-hot labels. This holds for any number of classes and for multivariate surrogates, in the order of the test points.",
     ["inputs", "configurations"],
     "all data, label layouts (any number of classes, unanimous or mixed neighborhoods), models",
     "Tests check accuracy on separable simulated data.",
     ["examples/classify.py"],
     [("workflow", "examples/classify.py:do_classify"), ("unanimity shortcut", "examples/classify.py:classify_any")],
     "property-based end-to-end testing against brute-force neighbors and the dense reference")
prop("C19", "Uncertainty-quantified classification masks match their intervals",
     "Two-class classification with uncertainty returns, besides the class scores, the posterior variances of the same points, and marks as ambiguous exactly the points whose score lies within the trained multiple of its posterior standard deviation of the class midpoint. Cutoffs are chosen to minimize the given objective over the training batch, and the reported statistics count what the masks select.",
     ["inputs", "configurations"],
     "all two-class data, label encodings, objectives, cutoffs",
     "Tests only check that accuracy is above a threshold.",
     ["examples/two_class_classify_uq.py"],
     [("masks and cutoffs", "examples/two_class_classify_uq.py")],
     "property-based testing against direct enumeration of the interval rule")
prop("C20", "Shear kernels are the derivatives of a Gaussian potential",
     "The lensing shear kernels equal the fourth-order derivative covariances of an RBF potential between the convergence and shear components, for every pair of points and length scale. The full covariance is symmetric and positive semidefinite, the two-in three-out variant consists of the corresponding blocks, and predictions with them are the dense conditionals on the stacked components.",
     ["inputs", "configurations"],
     "all two-dimensional point sets, length scales, batch and neighbor counts",
     "Tests compare one benchmark with one implementation.",
     ["gp/kernels/experimental/shear.py", "_src/gp/kernels/shear/numpy.py", "gp/noise/shear.py"],
     [("shear kernels", "_src/gp/kernels/shear/numpy.py")],
     "property-based testing against analytic derivatives obtained independently")
prop("C21", "Hierarchical length scales vary by location as documented",
     "A hierarchical hyperparameter evaluates, at every location, to the posterior mean of its knot process (a Gaussian process with the given higher-level kernel and noise, conditioned on the knot values), so a nonstationary kernel uses for each prediction the length scale of that prediction's own location. Each free knot is listed for optimization with its value and bounds, and overriding or updating knot values acts exactly like rebuilding the hyperparameter with them.",
     ["inputs", "configurations"],
     "all knot sets, values, higher-level kernels, batches",
     "Tests check shapes and one optimization.",
     ["gp/hyperparameter/experimental/hierarchical.py", "gp/deformation/isotropy.py"],
     [("knot interpolation", "gp/hyperparameter/experimental/hierarchical.py")],
     "property-based testing against a direct interpolation reference and a stationary-per-point differential")
prop("C22", "PyTorch GP layers compute GP predictions and gradients",
     "The PyTorch layers return, for any embedding of the features, exactly the posterior means and variances of the corresponding model on the given neighborhoods. Their gradients with respect to features and hyperparameters equal the derivatives of those predictions.",
     ["inputs", "configurations"],
     "all embeddings, batch and neighbor index sets, response counts, kernels",
     "Tests train one network and check the resulting error.",
     ["torch/muygps_layer.py", "torch/multivariate_muygps_layer.py", "examples/muygps_torch.py"],
     [("layer forward", "torch/muygps_layer.py")],
     "property-based testing against the dense reference and numerical derivatives")
prop("C23", "Models behave as their current hyperparameters, after any history",
     "After any sequence of parameter updates, scale estimations, optimizations, copies and predictions, a model predicts exactly as a model freshly built with its current hyperparameters. Models never share state: no operation on one changes the predictions or reported parameters of another. Two models of the same kind compare equal exactly when their hyperparameters are equal.",
     ["histories", "configurations"],
     "all interleavings of public operations over several models",
     "Tests exercise each operation once on a fresh model.",
     ["gp/muygps.py", "gp/kernels/kernel_fn.py", "gp/kernels/matern.py", "gp/hyperparameter/scalar.py"],
     [("model rebuild", "gp/muygps.py:_make")],
     "stateful (model-based) property-based testing against a reference model")
prop("C24", "Predictions are pointwise, and equivariant",
     "Each test point's prediction depends only on that point and its neighbors: it is unchanged by which other points share the batch, by the order of the batch and by the order of its neighbors. Means are linear in the responses, predictions are unchanged by translating or rotating features (for isotropic models) or by measuring features and length scales in other units, and relabeling training points changes nothing. Scale estimates and training objectives likewise do not depend on how the batch, the neighbors or the training points are ordered.",
     ["inputs", "configurations"],
     "all batches, splits, permutations, transformations and models",
     "Tests never vary batch composition or order.",
     ["gp/muygps.py", "gp/tensors.py", "gp/multivariate_muygps.py"],
     [("batched algebra", "_src/gp/muygps/numpy.py")],
     "metamorphic property-based testing")

prop("C25", "Results have the configured backend and precision",
     "The environment variables MUYGPYS_BACKEND and MUYGPYS_FTYPE, or a config.update made before importing anything else, decide the backend and the floating-point type: neighbors' distances, difference tensors, covariances, perturbed covariances, posterior means and variances and fast coefficients computed from data of the configured type are arrays of that backend and type (indices are 64-bit integers), with both backends at both precisions. At 32 bits the values agree with the 64-bit definitions to single precision, and unknown or unavailable settings in the environment are refused.",
     ["inputs", "configurations"],
     "all models, noise and scale kinds and data shapes, at numpy/torch x 32/64 bits, set by environment or update",
     "Tests run the numpy backend at 64 bits (and one torch module at 32); the setting is fixed at import, so one process tests one.",
     ["_src/config.py", "_src/util.py", "_src/math/meta.py", "_src/math/numpy.py", "_src/math/torch.py"],
     [("configuration", "_src/config.py"), ("typed array constructors", "_src/math/meta.py:fix_function_types"), ("implementation selection", "_src/util.py:_collect_implementation")],
     "property-based testing of result types in processes of every configuration, and of single-precision values against the double-precision references")

NOT_APPLICABLE = {}


def main():
    reg = load_all()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for (id, title, stmt, over, text, why, files, mech, tech) in P:
            f.write(json.dumps({
                "id": id, "title": title, "statement": stmt,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": mech,
                            "observe_at": ["public Python API"],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for (id, title, stmt, over, text, why, files, mech, tech) in P:
        if id not in reg:
            na.append({"property": id, "reason": NOT_APPLICABLE.get(
                id, "no check built yet")})
            continue
        subs = reg[id].values()
        checks.append({
            "property": id, "quick_cmd": f"bash run.sh {id}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {id}",
            "evidence_file": f"evidence/{id}.json", "technique": tech,
            "level": "exploration",
            "level_note": "Generated-input search, not proof: "
            f"{QUICK_FACTOR * sum(s.quick for s in subs)} cases quick, "
            f"{sum(s.thorough for s in subs)} thorough ("
            + ", ".join(s.name for s in subs) + "). " + TOL})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks: every check drives the public API of "
                   "/repo's working tree."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
