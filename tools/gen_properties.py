#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
B = "include/albatross/src/"

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("C01", "Gaussian process predictions are exact Gaussian conditioning",
 "For every training set, covariance function, mean function and measurement noise, the mean, marginal and joint predictions of a fitted Gaussian process at any features (training or new, of any supported feature type, plain or marked as measurements) equal the closed form conditional Gaussian of the declared prior given the measurements. The three kinds of prediction agree with each other, the predictive covariance is symmetric positive semi-definite and never exceeds the prior, and neither the order of the training data nor the order of the requested features changes any value. Metrics and predictions read through a model adapter or through a fit model obtained by copying or moving are the same values.",
 ["inputs", "configurations"],
 "all datasets (sizes, duplicates, noise including zero noise diagonal), all composed covariance and mean functions, all feature types, all three prediction types",
 "The GP tests are not part of the buildable suite here and each compares a few hand made datasets with one covariance function; the claim is over every covariance, mean, noise and feature combination.",
 [B+"models/gp.hpp", B+"core/prediction.hpp", B+"core/model.hpp", B+"core/fit_model.hpp", B+"covariance_functions/mean_function.hpp", B+"covariance_functions/measurement.hpp"],
 [("gp conditioning", "models/gp.hpp gp_*_prediction"), ("prediction type conversions", "core/prediction.hpp")],
 ["Prediction::mean/marginal/joint return values"])

prop("C02", "Updating a Gaussian process equals refitting on all the data",
 "Updating a fitted Gaussian process with further measurements gives, for mean, marginal and joint predictions everywhere, the same result as fitting once to all of the measurements, for every split of the data, every number of chained updates and also when the new features have another type (covariance terms which exist between measurements only being independent across batches). Building a fit from a joint prediction yields a model which reproduces that prediction (mean and covariance) at those features, and which then behaves at other features as the conditional distribution given that information.",
 ["inputs", "histories"],
 "every dataset, every way of splitting it into an initial fit and a sequence of updates, every covariance, mean function and noise level",
 "Update is a history property: tests do one update with one split of one dataset; chained updates and non-zero mean functions are never exercised.",
 [B+"models/gp.hpp", B+"linalg/block_symmetric.hpp", B+"core/fit_model.hpp", B+"core/concatenate.hpp"],
 [("block inversion update", "models/gp.hpp _update_impl, linalg/block_symmetric.hpp"), ("fit_from_prediction", "models/gp.hpp")],
 ["predictions of the updated fit model"])

prop("C03", "Cross-validation predictions equal held-out refits",
 "For every dataset, grouping and model, the cross-validated prediction of an observation equals what the same model fitted to all of the data outside the observation's group predicts for it, for mean, marginal and joint predictions: a Gaussian process with a shortcut predicts the held-out observations (their measurement noise included in mean and reported variance) conditional on the remaining observations, and any model without one, or when the predictions themselves are asked for, gives fit(rest).predict(held out features). Every observation is predicted exactly once and results come back in dataset order (or keyed by group), and cross-validation scores equal the metric evaluated on those held-out predictions in group order.",
 ["inputs", "configurations"],
 "all datasets, all groupings (leave one out, arbitrary groups, single group), all prediction types and metrics, with and without a fast path",
 "The suite that builds never runs cross-validation and the upstream tests fix one dataset and two groupings; equivalence must hold for every partition of every dataset.",
 [B+"evaluation/cross_validation.hpp", B+"evaluation/cross_validation_utils.hpp", B+"evaluation/folds.hpp", B+"models/gp.hpp", B+"cereal/gp.hpp"],
 [("leave one group out shortcut", "models/gp.hpp / evaluation/cross_validation_utils.hpp"), ("folds from groups", "evaluation/folds.hpp")],
 ["cross_validate().predict(...).mean/marginal/joint, scores"])

prop("C04", "Sparse Gaussian processes equal their defining approximation",
 "For every dataset, grouping, set of inducing points, nugget, mean function and linear-algebra back end, predictions and log likelihood of a sparse Gaussian process equal the dense block-diagonal (PITC/FITC) approximation computed directly from its definition, and reduce to the exact Gaussian process when the inducing points are the training points and everything is in one group. Updating with new data equals fitting once with the union, and rebasing onto inducing points that contain the old ones, or building a fit from a prediction, preserves the predictive distribution.",
 ["inputs", "configurations", "histories"],
 "all datasets, groupings, inducing point strategies, nuggets, sequences of updates, dense and sparse QR",
 "Tests compare against the exact GP with loose tolerances on one toy dataset; grouping, order of data within groups, mean functions and back ends vary over an unbounded space.",
 [B+"models/sparse_gp.hpp", B+"linalg/qr_utils.hpp", B+"linalg/spqr_utils.hpp", B+"linalg/block_diagonal.hpp"],
 [("PITC via QR", "models/sparse_gp.hpp"), ("rebase_inducing_points", "models/sparse_gp.hpp")],
 ["predictions, log_likelihood, updated fits"])

prop("C05", "Likelihoods and tuning objectives are true Gaussian log densities",
 "The log likelihood of a dataset under a Gaussian process, the negative log likelihood of truth under any predicted distribution (scalar, diagonal or full covariance) and the likelihood based tuning metrics equal the multivariate normal log density computed from the definition, including normalising constants, mean functions, measurement noise and parameter prior terms. Diagonal and full covariance forms of the same distribution give the same value, and leave-one-out objectives equal the sum of the held-out densities.",
 ["inputs", "configurations"],
 "all datasets, models, parameter values, predicted distributions",
 "Only single hand-computed values are asserted; a wrong constant or a missing term for a particular size or noise level passes those.",
 [B+"evaluation/likelihood.hpp", B+"evaluation/prediction_metrics.hpp", B+"evaluation/model_metrics.hpp", B+"models/gp.hpp", B+"tune/tuning_metrics.hpp", B+"stats/gaussian.hpp", B+"evaluation/differential_entropy.hpp"],
 [("negative_log_likelihood", "evaluation/likelihood.hpp"), ("log_likelihood", "models/gp.hpp")],
 ["returned likelihood and metric values"])

prop("C06", "Covariance functions give valid, compositional covariances",
 "Every covariance function, and every sum, product and scaling of covariance functions, gives Gram matrices which are symmetric and positive semi-definite for every set of features, equals the published closed form of that function, and does not depend on the order of its two arguments. Sums and products (also with inputs only one side supports), variant features, measurements, linear combinations and cross-covariance blocks evaluate to the same algebra applied to the parts, and derived length scales and state space forms invert or reproduce the function they are derived from.",
 ["inputs", "configurations"],
 "all covariance functions, compositions, parameter values and sets of features including duplicated and extreme ones",
 "Positive semi-definiteness and the composition laws quantify over every finite set of features; tests evaluate a few points.",
 [B+"covariance_functions/covariance_function.hpp", B+"covariance_functions/callers.hpp", B+"covariance_functions/radial.hpp", B+"covariance_functions/polynomials.hpp", B+"covariance_functions/noise.hpp", B+"covariance_functions/distance_metrics.hpp", B+"covariance_functions/scaling_function.hpp", B+"covariance_functions/mean_function.hpp", B+"covariance_functions/measurement.hpp", B+"core/linear_combination.hpp"],
 [("caller chain", "covariance_functions/callers.hpp"), ("radial kernels", "covariance_functions/radial.hpp")],
 ["values of cov(x, y), cov(xs), cov(xs, ys)"])

prop("C07", "Structured linear algebra agrees with its dense definition",
 "Solves, square-root solves, log determinants, diagonals and blocks of inverses, and products computed through the library's factorizations and structured matrices (LDLT, block diagonal, block symmetric, QR dense and sparse, explained covariance, block accumulations) equal the same operation on the equivalent dense matrix for every conformable input. Serial and threaded variants agree, and results do not depend on how a matrix is cut into blocks.",
 ["inputs", "configurations"],
 "all symmetric positive definite (and where supported semi-definite) matrices, block structures and right hand sides",
 "Tests use a handful of fixed sizes; pivoting, permutations, empty and one-element blocks need varied inputs.",
 [B+"eigen/serializable_ldlt.hpp", B+"linalg/block_diagonal.hpp", B+"linalg/block_symmetric.hpp", B+"linalg/block_utils.hpp", B+"linalg/qr_utils.hpp", B+"linalg/spqr_utils.hpp", B+"covariance_functions/representations.hpp", B+"utils/eigen_utils.hpp"],
 [("pivoted LDLT", "eigen/serializable_ldlt.hpp"), ("block partitions", "linalg/block_utils.hpp")],
 ["returned matrices"])

prop("C08", "Indexing, grouping and combining conserve the data",
 "Grouping a dataset or vector partitions it: each element lands in exactly the group its key says, within-group order is preserved, and recombining, filtering, counting, mapping or applying over groups loses, duplicates or mislabels nothing. Subsets, complements, concatenations, alignment (of datasets without repeated features), de-duplication and unique-value extraction return exactly the elements selected, with each feature still attached to its own mean and variance.",
 ["inputs", "programs"],
 "all datasets, index sets, key functions (by value or member, to any key type) and chains of group, filter, apply and combine operations",
 "Conservation quantifies over arbitrary chains of operations and data with duplicates and empty groups; tests use one small dataset.",
 [B+"indexing/group_by.hpp", B+"indexing/subset.hpp", B+"indexing/filter.hpp", B+"indexing/apply.hpp", B+"indexing/unique.hpp", B+"core/dataset.hpp", B+"core/concatenate.hpp", B+"utils/vector_utils.hpp"],
 [("Grouped / GroupIndexer", "indexing/group_by.hpp"), ("subset", "indexing/subset.hpp")],
 ["returned groups, datasets and vectors"])

prop("C09", "Distribution arithmetic follows the Gaussian laws",
 "Adding, subtracting, scaling, linearly transforming, subsetting, concatenating and converting joint and marginal distributions gives the mean and covariance that probability theory prescribes for the corresponding random vectors. Marginal results are exactly the diagonal of the joint result, sizes always match, and equality is value equality.",
 ["inputs", "programs"],
 "all distributions, linear maps (dense, sparse or vectors), index sets and chains of operations",
 "Tests check a few operators on one fixture; the law has to hold for each operator and each shape.",
 [B+"core/distribution.hpp", B+"core/transformed_distribution.hpp", B+"indexing/subset.hpp", B+"core/concatenate.hpp"],
 [("JointDistribution / MarginalDistribution operators", "core/distribution.hpp")],
 ["means and covariances of results"])

prop("C10", "Saving and loading reproduces every serializable object",
 "Everything the library can archive (parameters with their priors, datasets, distributions, matrices dense, sparse and diagonal, factorizations, fits and fit models of every kind, models with parameters, variants, thread pools) compares equal after a round trip through each supported archive format. The loaded object behaves identically: a loaded fit model gives the same predictions, and a loaded factorization gives the same solves and diagnostics. Saving does not change the object, loading replaces whatever the target held and consumes exactly what was saved, and archives in earlier versions of the formats remain readable.",
 ["inputs", "configurations"],
 "all serializable types, values (including special floating point values where the format has them, empty and large containers) and archive formats",
 "Round trip tests check equality operators for one fixture per type, and for several types the operator itself or the behaviour after loading is never checked.",
 [B+"cereal/eigen.hpp", B+"cereal/gp.hpp", B+"cereal/distribution.hpp", B+"cereal/parameters.hpp", B+"cereal/priors.hpp", B+"cereal/variant.hpp", B+"cereal/serializable_ldlt.hpp", B+"cereal/suitesparse.hpp", B+"cereal/serializable_spqr.hpp", B+"cereal/block_utils.hpp", B+"cereal/ransac.hpp", B+"cereal/dataset.hpp", B+"cereal/fit_model.hpp", B+"cereal/ThreadPool.hpp", B+"eigen/serializable_ldlt.hpp"],
 [("cereal save/load", "cereal/*.hpp")],
 ["loaded objects, their predictions and solves"])

prop("C11", "Compression round-trips and survives corrupt input",
 "Compressing any bytes at any level and decompressing them gives back exactly those bytes, and data that was not compressed is recognised as such. Decompressing truncated, corrupted or arbitrary input never crashes, hangs, reads out of bounds or raises: truncated input and input which is not a frame is reported as failure, and a damaged frame is either refused or decodes to what the format itself says it holds.",
 ["inputs", "fault_sequences"],
 "all byte strings (including empty and already compressed ones), all levels, and all corruptions of the compressed form",
 "Corruption space is unbounded: tests try a couple of damaged strings.",
 [B+"utils/compress.hpp"],
 [("zstd wrappers", "utils/compress.hpp")],
 ["returned bytes and status"])

prop("C12", "Threaded evaluation is race free and equals serial evaluation",
 "Every operation that accepts a thread pool (applying functions over vectors, maps and groups, covariance matrices and mean vectors, block diagonal solves, sparse GP fits, tuning) returns the same result as without a pool, in the same order, with every element processed exactly once, for every pool size and every interleaving of the workers. No data race or use of expired storage occurs, and an exception thrown by a worker reaches the caller.",
 ["schedules", "inputs", "configurations"],
 "all pool sizes, task counts (including fewer tasks than workers and none), interleavings and failing tasks",
 "Tests run a pool once with light tasks; races and ordering errors need many schedules and a race detector.",
 [B+"utils/async_utils.hpp", B+"covariance_functions/callers.hpp", B+"covariance_functions/covariance_function.hpp", B+"linalg/block_diagonal.hpp", B+"indexing/apply.hpp", B+"tune/greedy_tuner.hpp", B+"models/sparse_gp.hpp"],
 [("apply / async_apply", "utils/async_utils.hpp"), ("partition_triangular", "covariance_functions/callers.hpp")],
 ["results, call logs and race detector reports"])

prop("C13", "Map, set, vector and variant helpers match their set algebra",
 "For all inputs, the map helpers (keys, values, lookups, joins, intersections, unions, differences, symmetric differences and subsets, also for maps ordered by a run-time comparator), vector helpers (all, any, containment, evenly spaced and unique values) and variant helpers (conversion between variants, extraction, membership) return what the corresponding mathematical operation on finite maps, sequences and tagged unions prescribes, in key or input order. Arguments are left untouched.",
 ["inputs"],
 "all maps, vectors and variants, including empty and disjoint ones",
 "The suite samples one or two maps per helper.",
 [B+"utils/map_utils.hpp", B+"utils/vector_utils.hpp", B+"utils/variant_utils.hpp", B+"details/typecast.hpp"],
 [("map_* functions", "utils/map_utils.hpp")],
 ["returned values"])

prop("C14", "Spanning trees are optimal and well formed",
 "For every weighted undirected graph, the computed minimum (maximum) spanning structure is a subset of the graph's edges, has no cycle, and has the least (greatest) possible total weight among those that span the same vertices. A spanning forest connects exactly the vertices that the graph connects; a single spanning tree spans the connected part which holds the best edge. Edge and vertex data are preserved, and this holds with ties, parallel edges, self-loops and disconnected parts.",
 ["inputs"],
 "all finite weighted graphs",
 "Optimality over all graphs cannot be sampled by the few small fixed graphs in the suite.",
 [B+"graph/minimum_spanning_tree.hpp"],
 [("Prim / Kruskal style construction", "graph/minimum_spanning_tree.hpp")],
 ["returned graph"])

prop("C15", "Statistical functions are accurate, monotone and consistent",
 "The incomplete gamma and chi-squared distribution functions (and their degrees-of-freedom, matrix and metric forms), the Gaussian density, the Kolmogorov-Smirnov uniformity statistic and p value and the Chebyshev evaluation routines return values within tight tolerance of their mathematical definitions over their whole domain (incomplete gamma and chi-squared: 1e-6 for small shapes, close to double precision in the quadrature range). Distribution functions are monotone up to that tolerance and always stay in [0, 1], and the Chebyshev routines agree with the polynomial they define for every degree and location, also when there are no locations.",
 ["inputs"],
 "the full domain of each function: small and large arguments, all degrees of freedom and polynomial degrees",
 "Tests compare at sampled arguments only.",
 [B+"stats/chi_squared.hpp", B+"stats/incomplete_gamma.hpp", B+"stats/gauss_legendre.hpp", B+"stats/gaussian.hpp", B+"stats/ks_test.hpp", B+"polynomial/chebyshev.hpp"],
 [("series / quadrature", "stats/incomplete_gamma.hpp"), ("Clenshaw recurrences", "polynomial/chebyshev.hpp")],
 ["returned values"])

prop("C16", "Prediction scores match their definitions and are proper",
 "Root mean square error, standard deviation, differential entropy, Wasserstein distance (squared 2-Wasserstein distance of Gaussians), CRPS, energy score and variogram score (over pairs i < j) equal their mathematical definition for every distribution and truth, singular covariances included. Distances and CRPS are finite and non-negative for every valid distribution, the distance is symmetric and zero for identical arguments, sampled scores are reproducible for a given seed and converge to the definition, weights enter as documented, and the expected score is best for the true distribution.",
 ["inputs"],
 "all distributions (any dimension, correlation and conditioning), truths, weights, orders and seeds",
 "A few fixed distributions are checked; pivoting, weights and near-degenerate covariances are reached only by varied inputs.",
 [B+"evaluation/prediction_metrics.hpp", B+"evaluation/differential_entropy.hpp"],
 [("score::*", "evaluation/prediction_metrics.hpp"), ("differential_entropy", "evaluation/differential_entropy.hpp")],
 ["returned scores"])

prop("C17", "Parameters survive every get, set and tuning-vector round trip",
 "Setting a parameter by name is visible through every way of reading it, in the owning model and in composed models, sums, products and adapters whose parts have distinct parameter names, and nothing else changes; setting unknown names is rejected or ignored as documented. Converting tunable parameters to an optimizer vector and back is the identity, keeps order and bounds aligned, leaves fixed parameters alone, transforms log-scale parameters consistently, and validity checks accept exactly the values inside their priors' support.",
 ["inputs", "programs"],
 "all parameter stores, priors, model compositions and sequences of get and set",
 "Tests set one or two parameters on a toy model.",
 [B+"core/parameters.hpp", B+"core/parameter_handling_mixin.hpp", B+"core/parameter_macros.hpp", B+"covariance_functions/covariance_function.hpp", B+"models/gp.hpp"],
 [("ParameterHandlingMixin", "core/parameter_handling_mixin.hpp"), ("TunableParameters", "core/parameters.hpp")],
 ["parameter stores and tuning vectors"])

prop("C18", "Parameter priors are normalised densities with matching bounds",
 "Each prior's log density is the logarithm of the probability density it names; that of a proper prior integrates to one over its support and is minus infinity outside it. Declared bounds contain the mass, and log-scale and fixedness flags, equality (same kind and hyper-parameters), naming and the prior log likelihood of a whole parameter set are consistent with that density.",
 ["inputs", "configurations"],
 "all priors, hyper-parameters and argument values",
 "Tests assert single values or only compare two evaluations of the same expression.",
 [B+"core/priors.hpp", B+"core/parameters.hpp", B+"core/parameter_handling_mixin.hpp"],
 [("PriorDistribution subclasses", "core/priors.hpp")],
 ["log_pdf values, bounds"])

prop("C19", "RANSAC returns a valid best consensus set or says why not",
 "On success the reported candidates, inliers and outliers partition the groups, the inliers satisfy (and the outliers fail) the threshold with respect to the candidate fit, the consensus metric is the best among the iterations run, and the returned fit equals a fit to exactly the consensus data, for every data set, grouping, configuration and seed. When no acceptable consensus exists the result reports the failure truthfully, the iteration limit is respected, and no group outside the dataset is ever used. Candidates are drawn without replacement, every subset being as likely as any other, and the same input gives the same output.",
 ["inputs", "configurations"],
 "all datasets, contamination patterns, groupings, sample sizes, thresholds, iteration limits and random seeds",
 "Tests use one dataset with one outlier and default seeds.",
 [B+"models/ransac.hpp", B+"models/ransac_gp.hpp", B+"utils/random_utils.hpp"],
 [("ransac loop", "models/ransac.hpp"), ("consensus metrics", "models/ransac_gp.hpp")],
 ["ransac output, calls to the supplied functions, ransac fit predictions"])

prop("C20", "Linear, null and conditional models match their closed forms",
 "Least squares fits equal the (weighted) normal-equation solution for every full-rank design and their predictions are that linear function; the null model always predicts its prior; conditioning a joint Gaussian on measurements of some of its entries equals the closed-form conditional. Model adapters change only what they override.",
 ["inputs", "configurations"],
 "all datasets, designs, priors and observed subsets",
 "Tests use one line fit or one small prior.",
 [B+"models/least_squares.hpp", B+"models/null_model.hpp", B+"models/conditional_gaussian.hpp"],
 [("least squares", "models/least_squares.hpp"), ("ConditionalGaussian", "models/conditional_gaussian.hpp")],
 ["predictions"])

prop("C21", "Ensemble sampling is consistent, in bounds and targets the posterior",
 "Every iteration of the ensemble sampler returns one state per walker whose stored log probability is the objective evaluated at its stored parameters, with a rejected walker exactly keeping its previous state, never a non-finite log probability accepted and never parameters outside their support. The recorded history has the requested length, is handed to the callbacks in order, is reproducible for a seed, and its long-run statistics match the target density.",
 ["inputs", "histories"],
 "all objectives, dimensions, walker counts, iteration counts and seeds",
 "Tests run two short chains and compare loose moments.",
 [B+"samplers/ensemble.hpp", B+"samplers/state.hpp", B+"samplers/initialization.hpp", B+"samplers/callbacks.hpp"],
 [("stretch move", "samplers/ensemble.hpp")],
 ["sampler states, callback invocations, CSV written"])

prop("C22", "Tuning stays in bounds and never returns worse than it found",
 "Every parameter set handed to the objective while tuning lies within its bounds with fixed parameters untouched, the first being the starting point, and the returned parameters are valid, leave fixed values alone and score no worse than the starting point when the start is feasible. The greedy tuner's result is the best point it evaluated and does not depend on the number of threads, and finite-difference gradients agree with the analytic gradient at interior points and respect bounds.",
 ["inputs", "configurations"],
 "all objectives (including noisy, flat and non-finite ones), bounds, starting points and thread counts",
 "Tests tune two quadratic objectives.",
 [B+"tune/tune.hpp", B+"tune/greedy_tuner.hpp", B+"tune/finite_difference.hpp", B+"tune/tuning_metrics.hpp"],
 [("ModelTuner / GenericTuner", "tune/tune.hpp"), ("greedy_tune", "tune/greedy_tuner.hpp")],
 ["objective call log and returned parameters"])

prop("C23", "CSV output holds exactly the data written and reads back",
 "Writing any dataset with predictions to CSV gives one header and one row per entry whose columns line up with the header, each value parsing back to the number that was written within its printed precision, for every feature type and combination of optional columns, for values whose text holds no separator. Rows keep dataset order.",
 ["inputs"],
 "all datasets, features, predictions and metadata",
 "Tests write one small dataset.",
 [B+"utils/csv_utils.hpp", B+"samplers/callbacks.hpp"],
 [("write_to_csv", "utils/csv_utils.hpp")],
 ["CSV text"])

prop("C24", "Random helpers draw from the sets and laws they name",
 "Sampling without replacement returns the requested number of distinct valid elements with every element equally likely; random covariance matrices are symmetric positive definite of the requested size, and multivariate normal samples have the requested mean and covariance. Results depend only on the generator's state.",
 ["inputs"],
 "all sizes, sample counts, seeds and covariances",
 "Tests draw a handful of samples.",
 [B+"utils/random_utils.hpp"],
 [("randint_without_replacement etc.", "utils/random_utils.hpp")],
 ["returned samples"])

prop("C25", "Valid use never triggers memory errors or undefined behaviour",
 "For every valid input, including empty and single-element data, duplicates, large values and objects used after being copied, moved from elsewhere, saved or loaded, public operations perform no out-of-bounds or use-after-free access, read no uninitialised value, leak nothing and execute no undefined behaviour. Printing an object writes to the stream it was given and nowhere else.",
 ["inputs", "programs"],
 "all public operations on all valid inputs, with emphasis on degenerate sizes",
 "Ordinary unit tests run without instrumentation and with ordinary sizes.",
 ["include/albatross"],
 [("value semantics of header-only templates", "include/albatross/src")],
 ["sanitizer reports, captured standard output"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
