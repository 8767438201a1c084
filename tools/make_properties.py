#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays well formed)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=state or [],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


D = "src/data_generators/"
S = "src/simulator/"
M = "src/models/"
R = "src/driver/"
F = "src/filesystem_wrappers/"

prop(
    "C01",
    "A publisher's impression log answers every query from one price-ordered log",
    "However the events of a publisher's log are ordered when it is built (unsorted, repeated users, equal prices), all of its queries describe prefixes of one fixed price-ordered arrangement: the impressions bought by a spend are exactly the events priced at or below it, buying n impressions buys the first n events (all of them beyond the end), the spend for n impressions is the price of the n-th event (0 for none), and the per-user counts of a purchase add up to its impressions. The reported totals (impressions, spend, distinct users) are those of the whole log. Building a log or querying it never changes the caller's list, later changes to that list do not change the log, and any sequence of queries gives the same answers as each query alone.",
    ["inputs", "histories"],
    "every finite log of (user, price) events in every order, every spend and impression count, every sequence of queries",
    "The unit tests query one or two already-sorted logs at a few spends; order, ties and repeated users multiply beyond sampling.",
    [D + "publisher_data.py"],
    [("sort by price, prefix queries, bisection", D + "publisher_data.py:PublisherData")],
    ["PublisherData.*_by_spend / *_by_impressions, max_*"],
)
prop(
    "C02",
    "True multi-publisher reach counts distinct users at each frequency",
    "For every data set, every vector of spends or impressions and every frequency cap, the reported true k+ reach is exactly the number of distinct users whose impressions, added up over all publishers, reach k; the point also carries the purchase's impressions and spends per publisher and the universe size. Consequently reach is non-increasing in k, non-decreasing in each publisher's spend, never above the data set's maximum reach, which is the number of distinct users over all publishers, and the default universe is twice that. A vector of the wrong length is refused, and a data set is unaffected by queries and by later changes to the publisher objects it was built from. The simulated system, its planner and its single publishers report that same true reach, whatever the campaign spends.",
    ["inputs", "histories"],
    "every set of publisher logs with arbitrary overlap, every spend/impression vector, every frequency cap, every query order",
    "Tests evaluate one small data set at a handful of vectors; overlaps across publishers, caps and boundary spends are not enumerated.",
    [D + "data_set.py", D + "publisher_data.py", "src/simulator/publisher.py", "src/simulator/planner_simulator.py"],
    [("accumulate per-user counts across publishers, suffix-sum the capped histogram", D + "data_set.py:DataSet")],
    ["DataSet.reach_by_spend, reach_by_impressions, maximum_reach, universe_size"],
)
prop(
    "C03",
    "Stored data sets come back unchanged and designs never overwrite each other",
    "Over every history of adding, re-adding, reading, reopening and copying data sets between data designs, each design lists exactly the names that were added to it, and every stored data set reads back with the same name and with, for each publisher, the same name and the same multiset of (user, exact price) events. Adding a data set whose name is already present is refused and changes nothing on storage, and no operation on one data set or design alters any file of another. A malformed line in a stored log is reported as an error, never skipped.",
    ["histories", "inputs"],
    "every sequence of write, add, duplicate add, reopen, by-name read, rename-on-write and cross-design copy, for every log content",
    "Tests write and read back one data set in a fresh directory; sequences that mix designs, re-reads and copies are not exercised.",
    [D + "data_design.py", D + "data_set.py", D + "publisher_data.py"],
    [
        ("existence check before writing", D + "data_design.py:DataDesign.add"),
        ("one file per publisher, name from path", D + "data_set.py:write_data_set/read_data_set"),
    ],
    ["DataDesign.add/by_name/names/count, files on storage"],
    [dict(name="design directory", meaning="map data set name -> publisher name -> log", where=D + "data_design.py")],
)
prop(
    "C04",
    "Relabelling users to create overlap preserves each publisher's own curve",
    "For every list of publishers and every generator of user-id sets, the overlap data set contains the same publishers in the same order under the same names, and each one's log is the original log with its users renamed one-to-one onto exactly the ids the generator produced for that publisher; hence every single-publisher reach and frequency at every spend is unchanged, while which users coincide across publishers is exactly what the generator dictated. The source publishers are not modified, and a generated set whose size differs from the publisher's reach is refused. The independent and the sequentially correlated variants hand the configured overlap settings and a random source derived from the given generator to the set generator, so equal generators give equal data sets.",
    ["inputs", "configurations"],
    "every list of publisher logs, every assignment of generated id sets (arbitrary overlap, non-contiguous ids, any order), every overlap configuration",
    "Tests for this part pin three tiny hand-made logs against literal expected ids.",
    [D + "overlap_data_set.py", D + "independent_overlap_data_set.py", D + "sequentially_correlated_overlap_data_set.py"],
    [("id map from original ids to generated ids", D + "overlap_data_set.py:_label_ids")],
    ["OverlapDataSet and subclasses' publisher logs"],
)
prop(
    "C05",
    "Synthetic publishers and designs have the requested audience and reproduce",
    "Every impression generator asked for n users returns a log in which exactly the users 0..n-1 occur, each at least once, and fixed-price pricing keeps that sequence one-to-one with the i-th impression costing i times the unit cost. A generated data design contains exactly one data set per configuration entry, under that entry's name, with the configured number of publishers, whose audience sizes start at the configured largest size and shrink geometrically (rounded down) towards the configured ratio. Generating a design twice from the same seed and configuration yields identical stored data, whatever was generated or drawn in the process before.",
    ["inputs", "configurations", "histories"],
    "every size, distribution parameter, seed, configuration list and history of earlier generations in the process",
    "Tests use a few fixed sizes with fake random generators and check literal values or lengths.",
    [
        D + "homogeneous_impression_generator.py",
        D + "heterogeneous_impression_generator.py",
        D + "heavy_tailed_impression_generator.py",
        D + "fixed_price_generator.py",
        D + "synthetic_data_design_generator.py",
        D + "data_set_parameters.py",
    ],
    [
        ("shifted distributions give every user at least one impression", D + "*_impression_generator.py"),
        ("seeded generator and size decay", D + "synthetic_data_design_generator.py"),
    ],
    ["generator output, stored data design"],
)
prop(
    "C06",
    "Reach and frequency representations convert without losing anybody",
    "For every reach point and every per-user count table, the k+ reaches, the exact frequencies, the capped histogram with its final k+ bucket and the zero-included histogram describe the same people: exact frequency k is k+ reach minus (k+1)+ reach, suffix sums of the capped histogram give back the k+ reaches, and the zero-included histogram adds up to the universe. Converting user counts at any cap puts every counted user in exactly one bucket and is the same as going through frequencies. Requests outside the represented range, or for a universe size that was not given, or points with mismatched spends, are refused, and no conversion changes its input.",
    ["inputs"],
    "every k+ vector, every frequency vector, every user-count table, every cap and every k",
    "Tests check two or three literal vectors.",
    [M + "reach_point.py"],
    [("differences and suffix sums", M + "reach_point.py:ReachPoint")],
    ["ReachPoint accessors and static converters"],
)
prop(
    "C07",
    "Reported privacy consumption is the worst sampling bucket's total",
    "After any sequence of recorded noising events, the consumption reported for a sampling bucket is the sum of the budgets of exactly the events whose (possibly wrapping) bucket interval contains it, and the total consumption is the maximum of that over all buckets in [0,1), separately for epsilon and delta. The reported total does not depend on the order of the events, never decreases when an event is recorded, equals the plain sum when all events cover everyone, and the mechanism list has one entry per event in order.",
    ["histories", "inputs"],
    "every finite sequence of events with every bucket start, sampling rate and budget, every queried bucket",
    "Tests record one or two events with hand-picked intervals; wrap-around combinations and orders are not covered.",
    [S + "privacy_tracker.py"],
    [("maximum over interval starting points and 0", S + "privacy_tracker.py:PrivacyTracker")],
    ["PrivacyTracker.privacy_consumption, privacy_consumption_for_sampling_bucket, mechanisms"],
    [dict(name="noising events", meaning="sequence of (budget, mechanism, bucket interval)", where=S + "privacy_tracker.py")],
)
prop(
    "C08",
    "No simulation spends more privacy budget than granted, and all of it is logged",
    "For every data set, budget, split and noise outcome, the noise actually applied by a simulated query uses exactly the granted budget divided by the requested split, and each noised release is recorded in the privacy log with the epsilon and delta it used, so that consumption rises by exactly the query's budget. A whole model fit consumes at most the budget it was given for any number of publishers (the total query, one query per publisher and, for three or more, one per leave-one-out subset, each with an equal share of one part in twice the number of publishers plus one), and a single-publisher fit consumes exactly its budget. Queries that release nothing (no active publisher) or are refused consume nothing, and true-reach queries never touch the log.",
    ["inputs", "configurations", "histories"],
    "every number of publishers, budget, split, sequence of queries and noise outcome",
    "The tests of this layer check one configuration with mocked noise and are not even runnable in the pinned environment.",
    [S + "halo_simulator.py", S + "m3_strategy.py", S + "single_publisher_strategy.py", S + "planner_simulator.py", S + "privacy_tracker.py"],
    [
        ("record the estimator's privacy parameters", S + "halo_simulator.py:simulated_reach_by_spend"),
        ("split budget between region noise and cardinality noise", S + "halo_simulator.py:simulated_venn_diagram_reach_by_spend"),
        ("per-request budget", S + "m3_strategy.py:fit"),
    ],
    ["privacy tracker contents against the noisers applied"],
)
prop(
    "C09",
    "Simulated Venn diagrams partition the audience and add up over subsets",
    "For every data set and spend vector the diagram's regions are exactly the non-empty subsets of publishers with non-zero spend, every reached user is counted in exactly the region of the publishers that reach it, and sampling draws from each region at most its population and in total exactly the sample size. The result has one point per non-empty subset of active publishers, carrying the spends and impressions of that subset only, whose reach is the sum of the noised, non-negative and rescaled regions that intersect the subset, so that it is monotone under inclusion and the full subset's reach equals the noised cardinality estimate (zero if that is negative) whenever the noised regions are not all zero. With no active publisher the result is empty, and more than twenty active publishers, or a frequency cap other than one, is refused.",
    ["inputs", "configurations"],
    "every set of logs, spend vector (zeros included), sample outcome and noise outcome",
    "Tests pin a few 2-3 publisher examples with fixed fake noise; they cannot run in the pinned environment.",
    [S + "halo_simulator.py"],
    [
        ("bit-set region of each user", S + "halo_simulator.py:_form_venn_diagram_regions"),
        ("hypergeometric sampling, noise, scaling, aggregation", S + "halo_simulator.py"),
    ],
    ["HaloSimulator.simulated_venn_diagram_reach_by_spend"],
)
prop(
    "C10",
    "Simulated reach is a well-formed measurement of the campaign's merged audience",
    "For every data set, campaign spend fractions, requested spends, frequency cap and noise outcome, the simulated measurement is taken from the union over all publishers of the events bought with the smaller of requested and campaign spend, in compatible sketches built with the configured parameters. The returned k+ reaches are non-negative, non-increasing, as many as the frequency cap, and equal to the rounded noised estimates clipped that way whenever the resulting reach is below the number of impressions; otherwise 1+ reach is one less than the impressions (at least one) and higher frequencies are zero. The point carries the requested spends, the impressions those buy and the data set's universe size.",
    ["inputs", "configurations"],
    "every set of logs, spend fractions, spends, frequency caps and noised estimates (negative, non-monotone, too large)",
    "Tests pin two publishers with one mocked estimate; they cannot run in the pinned environment.",
    [S + "halo_simulator.py", S + "publisher.py"],
    [
        ("sketch limited to the campaign spend", S + "publisher.py:liquid_legions_sketch"),
        ("merge, clip, cap", S + "halo_simulator.py:simulated_reach_by_spend"),
    ],
    ["HaloSimulator.simulated_reach_by_spend, Publisher.liquid_legions_sketch, true reach of a publisher"],
)
prop(
    "C11",
    "Every fitted reach curve is a proper reach curve",
    "For every admissible training point, a fitted single-publisher curve predicts k+ reaches that are non-negative, non-increasing in k, non-decreasing in impressions, zero at zero impressions and never above the model's stated maximum reach (the universe for the Poisson-mixture model); it returns exactly as many frequencies as asked, asking for more does not change the lower ones, earlier queries do not change later ones, and for the exponential and Gamma-Poisson models the k+ reaches over all frequencies add up to the impressions asked for (up to the modelled inventory), so no k+ reach exceeds the impressions divided by k. Predictions by spend equal predictions by impressions at the training point's cost per impression (and are refused when it has none), the exponential model passes exactly through its training point, and the ground-truth curve equals the data set's true reach with all other publishers at zero. Training points with no impressions, more than one point, several publishers, or reach above impressions, and query vectors of the wrong length, are refused.",
    ["inputs", "histories"],
    "every admissible training point (reach, frequencies, impressions, cost), every query point and frequency cap, every query order after fitting",
    "Tests compare a few fitted values with literals; the shape laws are not checked over the input space.",
    [M + "goerg_model.py", M + "gamma_poisson_model.py", M + "kinflated_gamma_poisson_model.py", M + "dirac_mixture_single_publisher_model.py", M + "ground_truth_reach_curve_model.py", M + "reach_curve.py"],
    [("k+ reaches from a frequency distribution", M + "*_model.py:by_impressions")],
    ["by_impressions, by_spend, max_reach of every single-publisher model"],
)
prop(
    "C12",
    "Quantile search returns the last integer purchase within the target reach",
    "For every non-decreasing reach curve and every quantile strictly between 0 and 1, the impressions (or spend) reported for that quantile is the integer whose reach does not exceed the quantile of the maximum reach while the next integer's does. Quantiles outside the open interval are refused, and a target that is never exceeded is reported as not achievable instead of looping or returning a wrong value. The curve itself is not changed by the search.",
    ["inputs"],
    "every non-decreasing curve (steps, plateaus, asymptotes, jumps at any integer up to large values), every quantile",
    "Tests evaluate one closed-form curve at two quantiles.",
    [M + "reach_curve.py"],
    [("doubling then bisection with a stated invariant", M + "reach_curve.py:_by_quantile")],
    ["impressions_at_reach_quantile, spend_at_reach_quantile"],
)
prop(
    "C13",
    "Multi-publisher surfaces stay between the largest and the summed reach",
    "For every set of single-publisher curves with positive reach and training points, a fitted multi-publisher surface has overlap parameters inside its published constraint set (non-negative; symmetric, zero diagonal and row sums at most one for the pairwise models; rows summing to one for the mixture model), up to solver tolerance. Hence its predicted union reach is never below the largest single-publisher reach nor above their sum, is non-decreasing in each publisher's impressions, and equals the publisher's own curve when only that publisher is active. Prediction by spend equals prediction by the impressions each curve assigns to that spend, training points that admissible pairwise overlaps explain exactly are reproduced, fitting does not modify the caller's curves or points, and a surface is not changed by what the caller does to its own lists afterwards.",
    ["inputs"],
    "every number of publishers, set of curves, training points and query vector",
    "Tests recover known parameters for a few synthetic configurations within loose tolerances.",
    [M + "pairwise_union_reach_surface.py", M + "restricted_pairwise_union_reach_surface.py", M + "generalized_mixture_reach_surface.py", M + "reach_surface.py"],
    [
        ("quadratic program constraints", M + "pairwise_union_reach_surface.py"),
        ("coordinate descent with feasible bound", M + "restricted_pairwise_union_reach_surface.py"),
        ("alternating simplex-constrained fit", M + "generalized_mixture_reach_surface.py"),
    ],
    ["by_impressions, by_spend, fitted parameters"],
)
prop(
    "C14",
    "Fitted frequency distributions are probability distributions",
    "For every admissible parameter vector the inflated Gamma-Poisson distribution puts no mass on zero, has the configured leading probabilities (scaled down to sum to at most one), non-negative probabilities summing to one, and its thinned k-impression probabilities are non-negative, sum with the zero-impression probability to one and agree with its k+ probabilities; at inclusion probability one it is the distribution itself and at zero everyone is unreached. For every valid histogram the Poisson-mixture fit of two or more components places, evenly in each unit frequency interval, a number of components proportional (up to rounding) to its mass and at least as many in all as requested, gives them non-negative weights summing to one that no other mixture of them beats in likelihood, and predicts at every scaling the mixture of the scaled components as a distribution of the requested length, with no fewer people at k or more impressions when the scaling grows. Histograms that are too short, negative or empty are refused. Answers never depend on the questions asked before.",
    ["inputs"],
    "every parameter vector, inclusion probability, histogram, component count, scaling factor and frequency cap",
    "Tests evaluate a few literal points.",
    [M + "kinflated_gamma_poisson_model.py", M + "dirac_mixture_single_publisher_model.py"],
    [
        ("renormalised tail, last cell forces the sum to 1", M + "kinflated_gamma_poisson_model.py:KInflatedGammaPoissonDistribution"),
        ("convex program with simplex constraint", M + "dirac_mixture_single_publisher_model.py:UnivariateMixedPoissonOptimizer"),
    ],
    ["pmf, kreach, kplusreach, expected_value, components, weights, predict"],
)
prop(
    "C15",
    "An experiment yields exactly one row per data set and distinct configuration",
    "For every non-empty data design, every non-empty list of trial configurations (including repeated ones) and every execution mode (one worker, several workers, distributed pipeline with any bundling, ordering or retry, a rerun over earlier results), the result table has exactly one row for each pair of data set and distinct configuration, nothing else, each carrying that data set's and configuration's own identifying values. All modes return the same rows up to order and number formatting, and the driver writes that same table to the output file.",
    ["schedules", "configurations", "histories"],
    "every design, list with duplicates, worker count, bundle/merge order, bundle retry and sequence of reruns",
    "Tests run one small design serially; the distributed and parallel modes are mocked or not runnable in the pinned environment.",
    [R + "experimental_design.py", R + "experiment.py", R + "experiment_driver.py", R + "experimental_trial.py"],
    [
        ("de-duplication by data set and configuration name", R + "experimental_design.py:_remove_duplicates"),
        ("combine function over data frames", R + "experimental_design.py:CombineDataFrameFn"),
        ("parallel fill of the result cache, then serial read", R + "experimental_design.py:load"),
    ],
    ["ExperimentalDesign.load, ExperimentDriver.execute, output file"],
)
prop(
    "C16",
    "A crashed experiment can be rerun and ends as if it had never crashed",
    "If a run is killed at any moment, including in the middle of any file operation or with a partially written file, rerunning it over the same intermediate directory produces the same table as an uninterrupted run, without manual cleanup. Trials that had completed before (result stored, marker of being in progress gone) are not evaluated again, an unreadable stored result is evaluated again, and the stored result of a completed trial is never changed by a later run. The directory of pending trials names exactly the trials in progress: an entry exists while a trial is evaluated and is gone when it completes, and is empty after a complete run.",
    ["crash_points", "fault_sequences", "histories"],
    "every crash point between and inside file operations, every prefix of a partially written file, every number of crashes and reruns",
    "No test crashes an evaluation.",
    [R + "experimental_trial.py", R + "experimental_design.py"],
    [
        ("stored result consulted first; unreadable result removed", R + "experimental_trial.py:evaluate"),
        ("pending marker written before and removed after", R + "experimental_trial.py:evaluate"),
    ],
    ["result files, pending files, returned rows, number of evaluations"],
    [
        dict(name="result file", meaning="absent / partial / complete", where=R + "experimental_trial.py"),
        dict(name="pending file", meaning="trial in progress", where=R + "experimental_trial.py"),
    ],
)
prop(
    "C17",
    "A trial's result depends only on its data set, configuration and seed",
    "The row computed for a trial is a function of the stored data set, the trial configuration and the seed: it is the same whether the trial is evaluated first or last, alone or among others, serially, in worker processes or after other work in the same process, and whatever earlier draws were made from the global random source. Evaluating a trial does not alter its configuration (including the state of the random generator in it), the configuration list it came from, or the data set. Two configurations with the same test point settings, evaluated on the same data set and seed, are scored at the same test points against the same true reach.",
    ["schedules", "histories", "configurations"],
    "every evaluation order, interleaving, worker assignment and prior history of the process",
    "Tests evaluate one trial in a fresh process.",
    [R + "experimental_trial.py", R + "trial_descriptor.py", S + "system_parameters.py", R + "latin_hypercube_random_test_point_generator.py", R + "uniformly_random_test_point_generator.py"],
    [
        ("reseeding at the start of each trial", R + "experimental_trial.py:evaluate"),
        ("per-data-set copies of the configuration", R + "trial_descriptor.py:update_from_dataset, " + S + "system_parameters.py"),
    ],
    ["ExperimentalTrial.evaluate under permuted histories"],
)
prop(
    "C18",
    "A failing model costs only its own scores",
    "If fitting or evaluating a model raises any error (an exception with a printable message), at any point, the trial still yields one row with the same columns in the same order as a successful one, flagged as failed with the error recorded, all scores missing, and the data set, configuration and privacy columns correct, including the budget consumed before the failure. The other trials of the run are unaffected, the failed trial's marker of being in progress is removed, and its row is stored and reused like any other. A trial whose model did not fail is flagged as succeeded with no error text.",
    ["fault_sequences", "inputs", "configurations"],
    "every failing trial subset and every failure point (fit, test points, true reach, prediction, scoring), with and without the single-publisher analysis",
    "Tests inject one failure at one place.",
    [R + "experimental_trial.py", R + "test_point_aggregator.py"],
    [("catch, fill with missing values", R + "experimental_trial.py:evaluate, " + R + "test_point_aggregator.py:aggregate_on_exception")],
    ["ExperimentalTrial.evaluate rows and columns"],
)
prop(
    "C19",
    "Test points cover the spend box, in the promised number, reproducibly",
    "For every data set and generator setting, each test point has one coordinate per publisher, between zero and that publisher's maximum spend. The grid strategy yields every combination of the evenly spaced interior fractions exactly once; the random strategies draw every coordinate independently over the whole range and yield the configured number, at least the per-publisher minimum times the number of publishers, and the Latin-hypercube strategy between 100 and 2000 points with each publisher's coordinates hitting every equal-probability slice exactly once. The same data set and state of the given random source give the same points, regardless of other draws from the global random source; another state gives other random points.",
    ["inputs", "configurations", "histories"],
    "every number of publishers, maximum spends, grid size, point counts, seeds and prior histories of the global random source",
    "Tests check counts and a handful of coordinates for one or two publishers.",
    [R + "test_point_generator.py", R + "grid_test_point_generator.py", R + "uniformly_random_test_point_generator.py", R + "latin_hypercube_random_test_point_generator.py", R + "experiment_parameters.py"],
    [("scaling unit-cube designs by maximum spends", R + "*_test_point_generator.py")],
    ["test_points() of each strategy, ExperimentParameters.generate_test_points"],
)
prop(
    "C20",
    "Error metrics mean what their names say",
    "For every pair of equally long lists of true and modelled reach points (true reach non-zero), each reported statistic equals its definition over the per-point errors: count, mean, mean absolute, mean squared, variance, relative versions, absolute relative error quantiles, relative error per frequency (missing when that frequency is not modelled), and shuffle distances over the first five frequencies (one when fewer are available, one half when either side is empty). Hence a perfect model scores zero everywhere, swapping or permuting the points together changes nothing, quantiles are non-decreasing and shuffle distances lie in [0,1]. The failure row has exactly the same columns.",
    ["inputs"],
    "every list of point pairs, frequency caps and reach values",
    "Tests check each statistic on one literal pair of lists.",
    [R + "test_point_aggregator.py"],
    [("dictionary of aggregators", R + "test_point_aggregator.py:AGGREGATORS")],
    ["aggregate, aggregate_on_exception"],
)
prop(
    "C21",
    "Trials with different configurations never share an identity",
    "Two trials whose modeling strategy, model arguments, spend fractions, sketch parameters, privacy budget, replica, frequency cap or test-point settings differ have different names and different result locations, configurations built from the same values always have equal ones, and on different data sets the locations are always different; so no stored result is ever returned for another trial. Specialising a configuration to a data set fills in the publisher count and spend fractions for that data set, keeps everything else, and leaves the original configuration usable for the next data set, also when the specialised one is changed later.",
    ["configurations", "histories"],
    "every pair of configurations differing in any one or more fields, every data set, every order of specialisation",
    "Tests check the literal name of one configuration.",
    [R + "trial_descriptor.py", R + "modeling_strategy_descriptor.py", R + "experiment_parameters.py", S + "system_parameters.py", R + "experimental_trial.py"],
    [("string form of each descriptor, used as file name", R + "trial_descriptor.py:__str__, " + R + "experimental_trial.py:_compute_trial_results_path")],
    ["str(TrialDescriptor), result path, rows returned from a shared intermediate directory"],
)
prop(
    "C22",
    "Local and cloud storage back ends behave as the same file system",
    "Over every history of write, open, read, delete and listing operations the local and the cloud file-system wrappers give the same answers: what was last written is what is read, existence, file and directory tests agree with the files written and not deleted (directories being those that hold files), listing a directory, wholly or by suffix, gives exactly its matching direct entries, and deleting a missing file is an error unless allowed. Path joins, names and parents are those of the path text and never touch storage, and an operation on one path never changes what is stored under another. Creating a directory never harms existing contents and, locally, creates it with its parents when asked and is an error for an existing directory unless allowed.",
    ["histories", "inputs"],
    "every sequence of operations over every small tree of paths",
    "Tests exercise each wrapper method once or twice against mocks.",
    [F + "filesystem_wrapper_base.py", F + "filesystem_pathlib_wrapper.py", F + "filesystem_cloudpath_wrapper.py"],
    [("delegation to pathlib / cloudpathlib", F + "*.py")],
    ["every method of the wrappers"],
    [dict(name="tree", meaning="map path -> content or directory", where=F)],
)

prop(
    "C23",
    "Simulated noise is fresh, repeatable and drawn from the system's own source",
    "For every data set and every history of simulated queries and model fits, the noise of each noised quantity comes from a stream of its own, started from the random source given in the system parameters: no two noised quantities of a system, in one query or in repeated ones, share their noise, and systems with different sources have different noise. Systems with the same data, settings and state of that source give the same answers with the same noise to the same sequence of queries, whatever true-reach questions, other systems' queries or draws from the global random source come in between. No query draws from, reseeds or restores the global random source, and true-reach questions add no noise and leave the system's source where it was.",
    ["histories", "inputs"],
    "every interleaving of queries, fits and foreign draws over several systems with equal and different sources",
    "Tests fix one seed and one query, or mock the noisers; shared or reused noise gives plausible answers and only shows when the noise of several releases is compared.",
    [S + "halo_simulator.py", S + "system_parameters.py", S + "m3_strategy.py", S + "single_publisher_strategy.py"],
    [
        ("seeds for the noisers drawn from the generator", S + "halo_simulator.py:simulated_reach_by_spend"),
        ("seeds for the noisers drawn from the generator", S + "halo_simulator.py:_add_dp_noise_to_primitive_regions, _scale_up_reach_in_primitive_regions"),
    ],
    ["HaloSimulator.simulated_reach_by_spend, simulated_venn_diagram_reach_by_spend, strategies' fit"],
    [dict(name="generator", meaning="random source of the system", where=S + "system_parameters.py")],
)

prop(
    "C24",
    "Shipped designs list exactly the settings they announce, reproducibly",
    "Each data design and experimental design that ships with the framework lists exactly what its announced levels call for: a factorial design every combination of its levels once and nothing else, a Latin-hypercube design its announced number of entries (10, 100 and 100), each factor using only its levels and all of them evenly (within one slice at either end of a level's share). All entries of a data design, and all trials of a factorial design, have names of their own. In the M3 data design the universe of an independent overlap is the largest publisher's size divided by that overlap's ratio. Listing a design again from the same seed gives the same list, whatever was listed or drawn at random before, and every trial has a random source of its own that starts from the design's seed.",
    ["inputs", "histories"],
    "every shipped design, every seed, every history of listings and foreign draws before",
    "Tests count the entries of one listing or only check that a design file can be imported.",
    [D + "simple_data_design_example.py", D + "analysis_example_data_design.py", D + "single_publisher_design.py", D + "lhs_data_design_example.py", D + "m3_data_design.py", R + "sample_experimental_design.py", R + "analysis_example_experimental_design.py", R + "m3_first_round_experimental_design.py", R + "single_publisher_design.py"],
    [("products of levels, Latin-hypercube samples mapped to levels", "generate_data_design_config, generate_experimental_design_config of each file")],
    ["generate_data_design_config(random_generator), generate_experimental_design_config(seed)"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
