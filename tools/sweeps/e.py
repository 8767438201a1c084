L="data_generators/lhs_data_design_example.py"; M3="data_generators/m3_data_design.py"; SP="data_generators/single_publisher_design.py"
AN="data_generators/analysis_example_data_design.py"; SI="data_generators/simple_data_design_example.py"
TS="driver/sample_experimental_design.py"; TA="driver/analysis_example_experimental_design.py"; TM="driver/m3_first_round_experimental_design.py"; T1="driver/single_publisher_design.py"
M=[
("c24_round", "C24", [(L, "int(level * len(LEVELS[key]))]", "round(level * (len(LEVELS[key]) - 1))]")]),
("c24_m3_pop", "C24", [(M3, '                    "random_generator": raw_overlap_params.params["random_generator"],', '                    "random_generator": 1,')]),
("c24_m3_mul", "C24", [(M3, "                        / raw_overlap_params.params", "                        * raw_overlap_params.params")]),
("c24_m3_inplace", "C24", [(M3, '''            design_parameters["overlap_generator_params"] = raw_overlap_params._replace(
                params={
                    "universe_size": int(
                        design_parameters["largest_publisher_size"]
                        / raw_overlap_params.params["largest_pub_to_universe_ratio"]
                    ),
                    "random_generator": raw_overlap_params.params["random_generator"],
                }
            )''', '''            params = raw_overlap_params.params
            params.setdefault(
                "universe_size",
                int(
                    design_parameters["largest_publisher_size"]
                    / params["largest_pub_to_universe_ratio"]
                ),
            )
            design_parameters["overlap_generator_params"] = raw_overlap_params._replace(
                params={
                    "universe_size": params["universe_size"],
                    "random_generator": params["random_generator"],
                }
            )''')]),
("c24_trial_shared_gen", "C24", [(TA, "    for level_combination in", "    generator = np.random.default_rng(seed=seed)\n    for level_combination in"), (TA, "            generator=np.random.default_rng(seed=seed),", "            generator=generator,")]),
("c24_trial_noseed", "C24", [(TS, "    np.random.seed(seed)\n", "")]),
("c24_trial_seed_const", "C24", [(TM, "np.random.default_rng(seed=seed)", "np.random.default_rng(seed=1)")]),
("c24_late_bind", "C24", [(TA, '''CAMPAIGN_SPEND_FRACTIONS_GENERATORS = [
    lambda dataset: [0.6] * dataset.publisher_count,
    lambda dataset: list(islice(cycle([0.4, 0.8]), dataset.publisher_count)),
]''', '''CAMPAIGN_SPEND_FRACTIONS_GENERATORS = [
    lambda dataset: list(islice(cycle(fractions), dataset.publisher_count))
    for fractions in ([0.6], [0.4, 0.8])
]''')]),
("c24_cycle_shared", "C24", [(TM, "    lambda dataset: list(islice(cycle([0.1, 0.2, 0.3]), dataset.publisher_count)),", "    lambda dataset: list(islice(_FRACTIONS, dataset.publisher_count)),"), (TM, "CAMPAIGN_SPEND_FRACTIONS_GENERATORS = [", "_FRACTIONS = cycle([0.1, 0.2, 0.3])\n\nCAMPAIGN_SPEND_FRACTIONS_GENERATORS = [")]),
("c24_id_missing", "C24", [(L, '        design_parameters = {"id": str(i)}\n', '        design_parameters = {}\n')]),
("c24_delta_lost", "C24", [(T1, '                design_parameters["privacy_budget_delta"],', '                design_parameters["privacy_budget_epsilon"],')]),
("c24_dedupe", "C24", [(SP, "itertools.product(PUBLISHER_SIZES, IMPRESSION_GENERATORS)", "itertools.product(PUBLISHER_SIZES, {g.params.get('gamma_shape', str(g)): g for g in IMPRESSION_GENERATORS}.values())")]),
("c24_n99", "C24", [(TS, "samples=NUM_TRIALS_PER_DATASET", "samples=NUM_TRIALS_PER_DATASET - 1")]),
("c24_global_seed_rg", "C24", [(TS, "np.random.default_rng(seed=seed),", "np.random.default_rng(seed=np.random.randint(2**31)),")]),
("eq_c24_list", "C24", [(TA, "itertools.product(*LEVELS.values())", "list(itertools.product(*LEVELS.values()))[::-1]")]),
("eq_c24_loops", "C24", [(SI, '''    for params in itertools.product(
        NUM_PUBLISHERS, LARGEST_PUBLISHER, PUBLISHER_RATIOS
    ):
        num_publishers, largest_publisher, publisher_ratio = params
        data_design_config''', '''    for publisher_ratio, num_publishers, largest_publisher in itertools.product(
        PUBLISHER_RATIOS, NUM_PUBLISHERS, LARGEST_PUBLISHER
    ):
        data_design_config''')]),
]
