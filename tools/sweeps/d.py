H = "simulator/halo_simulator.py"
S1 = """            reach_noiser_kwargs={
                "random_state": np.random.RandomState(
                    seed=self._params.generator.integers(low=0, high=1e9)
                )
            },"""
S2 = """            frequency_noiser_kwargs={
                "random_state": np.random.RandomState(
                    seed=self._params.generator.integers(low=0, high=1e9)
                )
            },"""
SEEDX = "seed=self._params.generator.integers(low=0, high=1e9)"
M = [
("c23_spends_seed", "C23", [(H, S1, S1.replace(SEEDX, "seed=int(sum(spends)) % 1000"))]),
("c23_unseeded", "C23", [(H, S2, S2.replace(SEEDX, ""))]),
("c23_shared_seed", "C23", [(H, "        estimator = StandardizedHistogramEstimator(", "        noise_seed = self._params.generator.integers(low=0, high=1e9)\n        estimator = StandardizedHistogramEstimator("), (H, S1, S1.replace(SEEDX, "seed=noise_seed")), (H, S2, S2.replace(SEEDX, "seed=noise_seed"))]),
("c23_small_seed", "C23", [(H, S1, S1.replace("1e9", "50"))]),
("c23_global", "C23", [(H, S1, S1.replace(SEEDX, "seed=np.random.randint(10 ** 9)"))]),
("c23_frozen_seed", "C23", [(H, S1, S1.replace(SEEDX, "seed=self._noise_seed")), (H, "        self._privacy_tracker = privacy_tracker\n", "        self._privacy_tracker = privacy_tracker\n        self._noise_seed = params.generator.integers(low=0, high=1e9)\n")]),
("c23_true_draw", "C23", [(H, "        return self._data_set.reach_by_spend(spends, max_frequency)", "        self._params.generator.random()\n        return self._data_set.reach_by_spend(spends, max_frequency)")]),
("c23_venn_same_state", "C23", [(H, "            region_repr: max(0, noiser(reach))\n            for region_repr, reach in primitive_regions.items()", "            region_repr: max(0, GeometricEstimateNoiser(budget.epsilon * privacy_budget_split, np.random.RandomState(seed=12 + region_repr))(reach))\n            for region_repr, reach in primitive_regions.items()")]),
("eq_c23_shared_rs", "C23,C08,C10", [(H, "        estimator = StandardizedHistogramEstimator(", "        rs = np.random.RandomState(seed=self._params.generator.integers(low=0, high=1e9))\n        estimator = StandardizedHistogramEstimator("), (H, S1, '            reach_noiser_kwargs={"random_state": rs},'), (H, S2, '            frequency_noiser_kwargs={"random_state": rs},')]),
]
