"""What each check builds and runs, and what its evidence says."""

CHECKS = {
    "C11": dict(
        rule="one case = one payload (kind, size, content hash) with its compression level and, in 'damage', the corruption applied; non-trivial when the bytes differ from the intact frame or a round trip was compared",
        bins=[dict(name="compress", srcs=["c11_compress.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["payloads_above_a_megabyte", "refused", "decoded", "empty_payloads", "bytes_round_tripped"]),
    "C13": dict(
        rule="one case = one generated pair of maps (5 key/value/comparator types, one with a run-time order), vector, or vector of variants; distinct by content",
        bins=[dict(name="helpers", srcs=["c13_helpers.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["overlapping_maps", "empty_maps", "equivalent_keys", "two_key_types"]),
    "C14": dict(
        rule="one case = one generated weighted graph (vertex type, edges with ends and weights); distinct by content",
        bins=[dict(name="graph", srcs=["c14_graph.cc", "c14_history.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "graphs_with_cycles", "possibly_disconnected_graphs"]),
    "C23": dict(
        rule="one case = one dataset with its predictions, metadata, column choice and kind of stream; every written cell is parsed back",
        bins=[dict(name="csv", srcs=["c23_csv.cc"], mode="asan", leaks=True)],
        min_distinct=300, must_count=["huge_values", "cells_compared", "several_datasets"]),
    "C24": dict(
        rule="one case = one seed with its size, range or covariance; frequency cases use thousands of draws each",
        bins=[dict(name="random", srcs=["c24_random.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["all_of_them", "more_than_half", "draws", "beyond_32_bits", "units"]),
    "C18": dict(
        rule="one case = one prior (kind and hyper-parameters) or set of priors with the values it is evaluated at; integrals use thousands of evaluations of log_pdf each",
        bins=[dict(name="priors", srcs=["c18_priors.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["far_tails", "integrals", "outside_support", "close_but_different", "invalid_values", "empty_sets"]),
    "C17": dict(
        rule="one case = one parameter store, or one composed covariance, mean or model, with a random sequence of set operations; after each operation every way of reading is compared with a model map and the formula of the composed function",
        bins=[dict(name="params", srcs=["c17_params.cc", "c17_models.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["operations", "unknown_names", "log_scale", "clamped", "tuning_vectors", "empty_store"]),
    "C22": dict(
        rule="one case = one parameter store with its objective (smooth, flat, rugged, NaN or infinite in places), tuner and settings; every question the tuner asks is logged and checked",
        bins=[dict(name="tune", srcs=["c22_tune.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["evaluations", "threaded", "threaded_vector_gradients", "combined_rounds", "gradient_runs", "at_upper_bound", "at_lower_bound", "more_than_ten", "metric_calls", "narrow_bounds"]),
    "C15": dict(
        rule="one case = one function at one generated argument (with a chain of larger arguments for monotonicity), one sample for the uniformity statistic, or one polynomial degree with its locations",
        bins=[dict(name="stats", srcs=["c15_stats.cc", "c15_history.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "lower_tail", "upper_tail", "bulk", "integer_dof", "samples", "no_locations"]),
    "C16": dict(
        rule="one case = one distribution (mean, covariance with its rank and conditioning), truth, weights, order and seed; scores are compared with the definition evaluated in long double or by an own Monte Carlo estimate (7 standard errors)",
        bins=[dict(name="scores", srcs=["c16_scores.cc", "c16_history.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "energy_samples", "one_dimension", "perfectly_correlated", "singular", "single_entry", "empty", "with_an_offset"]),
    "C09": dict(
        rule="one case = one random program over distributions (initial mean, covariance with its rank, operations), one transformation (dense, sparse, row, block), one list of parts, or one refused operation; distinct by content",
        bins=[dict(name="dist", srcs=["c09_dist.cc", "c09_history.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "mixed_units", "operations", "joint_and_marginal", "subsets", "transformed", "singular", "parts_set", "refused", "empty"]),
    "C08": dict(
        rule="one case = one dataset or vector of uniquely tagged elements with a grouper and everything a grouping offers, one chain of group, filter, subset, concatenate and de-duplicate operations, one set of index lists, or one refused call; distinct by content",
        bins=[dict(name="index", srcs=["c08_index.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["group_bys", "groups", "leave_one_out", "k_fold", "more_folds_than_elements", "chained", "deduplicated", "aligned", "nothing_in_common", "repeats", "one_value", "refused", "empty", "means_which_are_not_integers"]),
    "C07": dict(
        rule="one case = one matrix (size, conditioning, kind) or block structure with its right hand sides; every result is compared with long double elimination on the dense equivalent; distinct by content",
        bins=[dict(name="linalg", srcs=["c07_linalg.cc", "c07_history.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "mixed_units", "inverse_blocks", "one_by_one", "singular", "zero_matrix", "blocks", "nested", "singular_inner", "refused", "some_dropped", "square", "tall"]),
    "C06": dict(
        rule="one case = one covariance function with its parameters and a set of features (repeated and close ones included), or one composition evaluated for all 81 pairs of feature representations (plain, measurement, variant, linear combination and nestings of them) against the algebra of the parts in long double; distinct by content",
        bins=[dict(name="covariance", srcs=["c06_kernels.cc", "c06_algebra.cc", "c06_blocks.cc", "c06_history.cc"] + ["c06_algebra_%d.cc" % i for i in range(1, 8)], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "block_sizes", "multiples", "gram_matrices", "repeated_features", "close_features", "no_features", "angles", "inverted", "pairs", "undefined_pairs", "psd_checked", "unknown_elements", "means"]),
    "C05": dict(
        rule="one case = one covariance with its deviation in every form (scalar, diagonal, full, factorized), one predicted distribution with measured truth, or one dataset with its model, parameter priors and grouping; values are compared with the log density computed from its definition in long double",
        bins=[dict(name="likelihood", srcs=["c05_likelihood.cc", "c05_history.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["walks", "steps_which_change_something", "mixed_units", "densities", "fixed_size", "metrics", "gp_likelihoods", "chains", "exact_targets", "noisy_targets", "grouped", "null_models"]),
    "C20": dict(
        rule="one case = one design matrix with targets, one line, one joint Gaussian with its observed and requested entries, or one user model (own solver, own features, one kind of prediction only) with its data; compared with the normal equations and closed form conditional in long double",
        bins=[dict(name="models", srcs=["c20_models.cc", "c20_history.cc"], mode="asan", leaks=True)],
        min_distinct=400, must_count=["walks", "steps_which_change_something", "mixed_units", "nearly_collinear", "designs", "square", "refused", "lines", "cubics", "null_models", "conditionals", "at_the_observed", "observed", "nothing_observed", "kinds", "adapters", "held_out"]),
    "C01": dict(
        rule="one case = one dataset with one of six covariance and mean functions, fitted and asked for all kinds of prediction at plain and measured features, permuted, repeated, copied, moved and temporary; or one dataset of variants, linear combinations or two types; compared with conditioning in long double",
        bins=[dict(name="gp", srcs=["c01_gp.cc"] + ["c01_gp_%s.cc" % x for x in "bcdef"] + ["c01_features.cc"] + ["c01_features_%d.cc" % i for i in (2, 3, 4)] + ["c01_history.cc"], mode="asan", leaks=True)],
        min_distinct=400, must_count=["walks", "steps_which_change_something", "mixed_units", "fits", "exact_targets", "one_observation", "large_fits", "from_a", "from_b", "from_variants", "from_combinations", "two_datasets", "queries"]),
    "C02": dict(
        rule="one case = one dataset cut into two to four batches (fit, then chained updates), or one joint prediction (own or foreign) from which a fit is built, queried and updated, with one of six covariance and mean functions; compared with conditioning in long double",
        bins=[dict(name="update", srcs=["c02_update.cc"] + ["c02_update_%s.cc" % x for x in "bcdef"] + ["c02_types.cc", "c02_types_2.cc", "c02_types_3.cc", "c02_history.cc"], mode="asan", leaks=True)],
        min_distinct=400, must_count=["walks", "steps_which_change_something", "mixed_units", "updates", "chained", "chained_three", "refits", "own_predictions", "foreign_predictions", "informed_updates", "typed_updates"]),
    "C04": dict(
        rule="one case = one dataset with its grouping, inducing points, nuggets, linear algebra back end and one of six covariance and mean functions (or variants, linear combinations, shipped strategies and groupers), fitted, updated in batches, rebased or built from a joint prediction; compared with the block diagonal approximation evaluated from its definition in long double",
        bins=[dict(name="sparse", srcs=["c04_sparse.cc"] + ["c04_sparse_%s.cc" % x for x in "bcdef"] + ["c04_types.cc", "c04_strategies.cc", "c04_history.cc"], mode="asan", leaks=True)],
        min_distinct=400, must_count=["walks", "steps_which_change_something", "sparse_fits", "more_inducing_than_data", "one_group", "independent", "one_inducing", "exact", "sparse_updates", "equal_to_union", "rebased", "rebased_onto_superset", "updated_after_rebase", "foreign_sparse_predictions", "shifted_means", "typed_sparse_fits", "typed_sparse_updates", "evenly_spaced", "state_space", "library_groupers", "repeated_inducing"]),
    "C03": dict(
        rule="one case = one dataset with its grouping (leave one out, groups, folds, hand written partitions in any order, overlapping or partial groups) and a Gaussian process of one of six setups (compared with conditioning in long double), a model whose predictions encode exactly what it was fitted to, or a library model; predictions, folds and scores are compared with held-out refits",
        bins=[dict(name="cv", srcs=["c03_gp.cc"] + ["c03_gp_%s.cc" % x for x in "bcdef"] + ["c03_generic.cc", "c03_history.cc"], mode="asan", leaks=True)],
        min_distinct=400, must_count=["walks", "steps_which_change_something", "mixed_units", "forms", "groups_held_out", "with_pool", "cross_validated_gps", "leave_one_out_cv", "k_fold_cv", "unordered_partitions", "overlapping_or_partial", "tagged_items", "one_item", "library_models"]),
    "C10": dict(
        rule="one case = one random object (special floating point values, empty, large and damaged-by-design ones included) saved to and loaded from binary, portable binary, JSON and XML archives, loaded over nothing or over another object, compared bit for bit and by what it then predicts, solves or reports; plus archives in every earlier version of the formats, some of them written by the original code",
        bins=[dict(name="serialize", srcs=["c10_%s.cc" % x for x in ("eigen", "core", "linalg", "gp", "sparse", "models", "golden")], mode="asan", leaks=True)],
        min_distinct=300, must_count=["inserted_one_by_one", "with_gaps", "other_priors_only", "archives", "xml", "dense_matrices", "empty_matrices", "legacy_payloads", "permutations", "sparse_matrices", "uncompressed_sparse", "priors", "parameters", "distributions", "datasets", "variants", "pools", "versioned", "decompositions", "empty_decompositions", "singular_matrices", "indefinite_matrices", "loaded_over_used_qr", "representations", "sparse_qr", "version_0", "fit_models", "updated_fits", "fits_from_predictions", "sparse_fits", "mixed_updates", "old_sparse_fits", "least_squares_fits", "null_fits", "ransac_outputs", "ransac_fits", "empty_ransac_fits", "old_archives"]),
    "C19": dict(
        rule="one case = one RANSAC run: the loop driven by recorded callbacks (metrics with ties, NaN, infinities and values on the threshold) and judged by an offline checker of the call log and the output, or a model around a dataset with damaged targets whose every reported metric is recomputed (Gaussian processes in long double) and whose final fit is compared with a fit to exactly the consensus",
        bins=[dict(name="ransac", srcs=["c19_loop.cc", "c19_models.cc", "c19_generic.cc", "c19_gp.cc"], mode="asan", leaks=True)],
        min_distinct=500, must_count=["iterations", "consensus_found", "consensus_too_small", "exceeded", "invalid_arguments", "invalid_candidates", "no_consensus", "successes", "uniform_draws", "samples", "generic", "gp_strategies", "conditionals", "ransac_fits", "failed_fits", "plain_fits", "plain_failures", "planted"]),
    "C21": dict(
        rule="one case = one ensemble of chains: an offline checker replays the recorded history (objective values, supports, rejections, callbacks, seeds) over objectives with walls, holes, NaN and infinities, or over the parameters of Gaussian processes with every kind of prior including the CSV written and read back; or many short chains started from exact draws of a known target whose averages are compared with their exact values",
        bins=[dict(name="trace", srcs=["c21_trace.cc", "c21_model.cc"], mode="asan", leaks=True),
              dict(name="target", srcs=["c21_target.cc"], mode="plain")],
        min_distinct=250, must_count=["levels_compared", "accepted", "rejected", "bad_initial_states", "tied_initial_states", "single_steps", "refused", "random_indices", "csv_lines", "restarts", "model_chains", "sparse_chains", "prior_chains", "jittered", "prior_uniform", "prior_log_scale_uniform", "moves"]),
    "C25": dict(
        rule="one case = one family of operations on one set of mostly degenerate data (nothing, one element, duplicates, zeros, huge and tiny values), with every object copied, moved, assigned, swapped, kept after what it was made from is gone, saved and loaded; run under the address and undefined behaviour sanitizers with a checked standard library and filled matrices, and under memcheck; every number of every result is read, and standard output is captured",
        bins=[dict(name="memory", srcs=["c25_core.cc", "c25_models.cc", "c25_more.cc"], mode="asan", leaks=True, flags=["-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"]),
              dict(name="values", srcs=["c25_core.cc", "c25_models.cc", "c25_more.cc"], mode="memcheck", scale=0.2)],
        min_distinct=800, must_count=["datasets", "distributions", "groups", "helpers", "linear_algebra", "statistics", "values", "gaussian_processes", "other_features", "sparse", "other_models", "tuners", "samplers", "archives", "threads", "cross_validated"]),
    "C12": dict(
        rule="one case = one operation with its data, pool size, delays injected into the pool's workers, and failing elements (or none), run with and without the pool under the thread sanitizer and under the address sanitizer; every element is counted, the task schedule is hashed, and the results have to be equal",
        bins=[dict(name="races", srcs=["c12_apply.cc", "c12_models.cc"], mode="tsan", flags=["-DVERIF_TSAN"]),
              dict(name="memory", srcs=["c12_apply.cc", "c12_models.cc"], mode="asan", leaks=True)],
        min_distinct=200, must_count=["tasks", "overlapping_runs", "vectors", "maps", "groups", "exceptions", "failing_pairs", "covariance_matrices", "linear_algebra", "leave_group_out", "gaussian_process", "sparse_gaussian_process", "tuning", "greedy", "pools"]),
}
