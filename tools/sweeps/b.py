H = "simulator/halo_simulator.py"
PB = "simulator/publisher.py"
M3 = "simulator/m3_strategy.py"
SP = "simulator/single_publisher_strategy.py"
RC = "models/reach_curve.py"
GO = "models/goerg_model.py"
GP = "models/gamma_poisson_model.py"
DM = "models/dirac_mixture_single_publisher_model.py"
GT = "models/ground_truth_reach_curve_model.py"
M = [
# C08
("c08_skip_zero_noise_event", "C08", [(H, "        for noiser_class, epsilon, delta in estimator.output_privacy_parameters():\n", "        for noiser_class, epsilon, delta in estimator.output_privacy_parameters():\n            if not epsilon:\n                continue\n")]),
("c08_log_dedupe", "C08", [(H, "        for noiser_class, epsilon, delta in estimator.output_privacy_parameters():\n", "        for noiser_class, epsilon, delta in dict.fromkeys(estimator.output_privacy_parameters()):\n")]),
("c08_log_only_nonzero", "C08", [(H, "        self._privacy_tracker.append(noise_event)\n\n        return noised_primitive_regions", "        if any(primitive_regions.values()):\n            self._privacy_tracker.append(noise_event)\n\n        return noised_primitive_regions")]),
("c08_delta_full", "C08", [(H, "            frequency_delta=budget.delta * (1 - privacy_budget_split),", "            frequency_delta=budget.delta - budget.delta * privacy_budget_split if max_frequency > 1 else budget.delta,")]),
("c08_scale_wrong_split", "C08", [(H, "            budget,\n            1 - privacy_budget_split,", "            budget,\n            max(privacy_budget_split, 1 - privacy_budget_split),")]),
("c08_m3_2p", "C08", [(M3, "        if p > 2:\n            for i in range(p):\n                spend_vec = list", "        if p > 2:\n            for i in range(p + (p > 5)):\n                i = i % p\n                spend_vec = list")]),
("c08_m3_share_small", "C08", [(M3, "            budget.epsilon / (2 * p + 1), budget.delta / (2 * p + 1)", "            budget.epsilon / (p + 1 + (p if p > 2 else 0)), budget.delta / (p + 1 + (p if p > 3 else 0))")]),
("c08_tracker_replaced", "C08", [(H, "        self._privacy_tracker = privacy_tracker\n", "        self._privacy_tracker = privacy_tracker or PrivacyTracker()\n")]),
("c08_refused_logs", "C08", [(H, "        if max_frequency != 1:\n            raise ValueError(\"Max frequency has to be 1.\")\n\n        venn_diagram_regions = self._form_venn_diagram_regions(spends, max_frequency)\n        # This happens when there are no active publishers, i.e. 0 spend vector.\n        if not venn_diagram_regions:\n            return []\n\n        true_cardinality = self.true_reach_by_spend(spends).reach()\n", "        if max_frequency != 1:\n            raise ValueError(\"Max frequency has to be 1.\")\n\n        venn_diagram_regions = self._form_venn_diagram_regions(spends, max_frequency)\n        # This happens when there are no active publishers, i.e. 0 spend vector.\n        if not venn_diagram_regions:\n            self._privacy_tracker.append(NoisingEvent(budget, DP_NOISE_MECHANISM_DISCRETE_LAPLACE, {}))\n            return []\n\n        true_cardinality = self.true_reach_by_spend(spends).reach()\n")]),
("c08_noise_once_per_region", "C08", [(H, "            region_repr: max(0, noiser(reach))\n            for", "            region_repr: max(0, noiser(reach)) if reach else 0\n            for")]),
("c08_noiser_fullbudget", "C08", [(H, "        noiser = GeometricEstimateNoiser(\n            budget.epsilon * privacy_budget_split,\n            np.random.RandomState(\n                seed=self._params.generator.integers(low=0, high=1e9)\n            ),\n        )\n\n        noise_event", "        noiser = GeometricEstimateNoiser(\n            budget.epsilon * privacy_budget_split if len(primitive_regions) < 4 else budget.epsilon,\n            np.random.RandomState(\n                seed=self._params.generator.integers(low=0, high=1e9)\n            ),\n        )\n\n        noise_event")]),
("c08_single_retry", "C08", [(SP, "        curve = self._single_pub_model([", "        if total_reach.reach() < 2:\n            total_reach = halo.simulated_reach_by_spend(\n                halo.campaign_spends, budget, max_frequency=MAX_MEASUREMENT_FREQUENCY\n            )\n        curve = self._single_pub_model([")]),
# C09
("c09_bit_order", "C09", [(H, "        targeted_pub_repr = sum(1 << pub_id for pub_id in pub_ids)", "        targeted_pub_repr = sum(1 << (pub_id % 16) for pub_id in pub_ids)")]),
("c09_neg_spend", "C09", [(H, "            if spend\n        }", "            if spend > 1e-6\n        }")]),
("c09_active_pos", "C09", [(H, "        active_pub_set = [i for i in range(len(spends)) if spends[i]]", "        active_pub_set = [i for i in range(len(spends)) if spends[i] and self._publishers[i]._publisher_data.impressions_by_spend(spends[i])]")]),
("c09_limit", "C09", [(H, "len(user_counts_by_pub_id) > MAX_ACTIVE_PUBLISHERS", "len(spends) > MAX_ACTIVE_PUBLISHERS")]),
("c09_limit_ge", "C09", [(H, "len(user_counts_by_pub_id) > MAX_ACTIVE_PUBLISHERS", "len(user_counts_by_pub_id) >= MAX_ACTIVE_PUBLISHERS")]),
("c09_universe", "C09", [(H, "                    sub_spends.tolist(),\n                    self._data_set.universe_size,", "                    sub_spends.tolist(),\n                    max(self._data_set.universe_size, int(sub_reach)),")]),
("c09_int_scale", "C09", [(H, "            region: reach * scaling_factor\n", "            region: round(reach * scaling_factor)\n")]),
("c09_cap_campaign", "C09", [(H, "pub_id: self._publishers[pub_id]._publisher_data.user_counts_by_spend(spend)", "pub_id: self._publishers[pub_id]._publisher_data.user_counts_by_spend(min(spend, self._publishers[pub_id].max_spend * 0.999999))")]),
("c09_imps_int", "C09", [(H, "            sub_imps = np.array(impressions) * pub_vector", "            sub_imps = np.array(impressions, dtype=np.int8).astype(int) * pub_vector")]),
("c09_sample_repl", "C09", [(H, "        sampled_reach = self._params.generator.multivariate_hypergeometric(\n            reach_population, sample_size\n        )", "        pop = np.array(reach_population)\n        sampled_reach = self._params.generator.multinomial(sample_size, pop / pop.sum())")]),
("c09_neg_keep", "C09", [(H, "            region_repr: max(0, noiser(reach))", "            region_repr: abs(noiser(reach))")]),
# C10
("c10_sketch_seed", "C10", [(PB, "            random_seed=self._params.liquid_legions.random_seed,", "            random_seed=self._params.liquid_legions.random_seed + (self._publisher_index > 3),")]),
("c10_len_int", "C10", [(PB, "length=int(self._params.liquid_legions.sketch_size)", "length=int(min(self._params.liquid_legions.sketch_size, 1e5))")]),
("c10_spend_frac", "C10", [(PB, "        spend = min(spend, self._campaign_spend)\n", "        spend = min(spend, self._campaign_spend) if self._campaign_spend else spend\n")]),
("c10_ids_set", "C10", [(PB, "            sketch.add_ids([id] * freq)", "            sketch.add_ids([id] * min(freq, 20))")]),
("c10_sketch_cache", "C10", [(PB, "        self._params = params\n\n    @property\n    def campaign_spend", "        self._params = params\n        self._sketches = {}\n\n    @property\n    def campaign_spend"), (PB, "        sketch = ExponentialSameKeyAggregator(", "        spend = min(spend, self._campaign_spend)\n        key = int(spend)\n        if key in self._sketches and self._sketches[key][0] >= spend:\n            return self._sketches[key][1]\n        sketch = ExponentialSameKeyAggregator("), (PB, "        return sketch\n", "        self._sketches[key] = (spend, sketch)\n        return sketch\n")]),
("c10_sketch_cache2", "C10", [(PB, "        self._params = params\n\n    @property\n    def campaign_spend", "        self._params = params\n        self._full = None\n\n    @property\n    def campaign_spend"), (PB, "        sketch = ExponentialSameKeyAggregator(", "        if spend >= self._campaign_spend and self._full is not None:\n            return self._full\n        sketch = ExponentialSameKeyAggregator("), (PB, "        return sketch\n", "        if spend == self._campaign_spend:\n            self._full = sketch\n        return sketch\n")]),
("c10_clip_order", "C10", [(H, "np.minimum.accumulate(np.maximum(kplus_reaches, 0))", "np.maximum(np.minimum.accumulate(kplus_reaches), 0) if max_frequency < 11 else np.maximum(kplus_reaches, 0)")]),
("c10_lt", "C10", [(H, "if np.sum(impressions) <= kplus_reaches[0]:", "if np.sum(impressions) < kplus_reaches[0]:")]),
("c10_spends_capped", "C10", [(H, "            kplus_reaches=kplus_reaches,\n            spends=spends,", "            kplus_reaches=kplus_reaches,\n            spends=[min(s, m) for s, m in zip(spends, self._max_spends)],")]),
("c10_imps_campaign", "C10", [(H, "        impressions = self._data_set.impressions_by_spend(spends)\n        combined_sketch", "        impressions = self._data_set.impressions_by_spend([min(s, m + 1) for s, m in zip(spends, self._campaign_spends)]) if len(spends) == self.publisher_count else self._data_set.impressions_by_spend(spends)\n        combined_sketch")]),
("c10_skip_zero_spend", "C10", [(H, "        for i in range(1, len(spends)):\n            sketch", "        for i in range(1, len(spends)):\n            if spends[i] <= 0:\n                continue\n            sketch")]),
("c10_neg_price0", "C10", [(PB, "        for id, freq in self._publisher_data.user_counts_by_spend(spend).items():", "        for id, freq in self._publisher_data.user_counts_by_impressions(\n            self._publisher_data.impressions_by_spend(spend)\n        ).items():\n            freq = max(freq, 1)")]),
("c10_campaign_fraction_clip", "C10", [(PB, "params.campaign_spend_fractions[publisher_index] * publisher_data.max_spend", "min(params.campaign_spend_fractions[publisher_index], 0.99) * publisher_data.max_spend")]),
("c10_true_reach_mut", "C10,C02", [(PB, "        return ReachPoint([impressions], reach, [spend])", "        return ReachPoint([impressions], reach, [min(spend, self.max_spend)])")]),
("c10_params_shared_gen", "C10", [(H, "            reach_noiser_kwargs={\n                \"random_state\": np.random.RandomState(\n                    seed=self._params.generator.integers(low=0, high=1e9)\n                )\n            },", "            reach_noiser_kwargs={\n                \"random_state\": np.random.RandomState(\n                    seed=int(sum(spends)) % 1000\n                )\n            },")]),
# C11
("c11_goerg_maxfreq", "C11", [(GO, "        for k in range(1, max_frequency + 1):\n", "        for k in range(1, min(max_frequency, 50) + 1):\n")]),
("c11_goerg_spend_floor", "C11", [(GO, "        return self.by_impressions([spends[0] / self._cpi], max_frequency)", "        return self.by_impressions([int(spends[0] / self._cpi)], max_frequency)")]),
("c11_goerg_le", "C11", [(GO, "if self._impressions <= self._reach:", "if self._impressions < self._reach or self._impressions == self._reach == 1:")]),
("c11_goerg_memo", "C11", [(GO, "        kplus_reach_list = []\n", "        kplus_reach_list = []\n        if getattr(self, '_last', None) and self._last[0] == impressions and self._last[1] >= max_frequency:\n            return ReachPoint(impressions, self._last[2][:max_frequency], [impressions[0] * self._cpi] if self._cpi else None)\n"), (GO, "        if self._cpi:\n            spend = impressions[0] * self._cpi", "        self._last = (impressions, max_frequency, kplus_reach_list)\n        if self._cpi:\n            spend = impressions[0] * self._cpi")]),
("c11_gp_min_I", "C11", [(GP, "            min(impressions[0], self._max_impressions - 1),", "            min(impressions[0], self._reach_point.impressions[0] * 3, self._max_impressions - 1),")]),
("c11_gp_maxfreq_hist", "C11", [(GP, "            self._beta,\n            MAXIMUM_COMPUTATIONAL_FREQUENCY,\n        )\n        kplus_reach", "            self._beta,\n            max(max_frequency * 4, 40),\n        )\n        kplus_reach")]),
("c11_gp_cap_reach", "C11", [(GP, "        kplus_reach = self._kplus_reaches_from_frequencies(hist)\n        if self._cpi:", "        kplus_reach = np.round(self._kplus_reaches_from_frequencies(hist))\n        if self._cpi:")]),
("c11_gp_refit", "C11", [(GP, "        if self._max_reach is None:\n            Imax, N", "        if self._max_reach is None or self._max_reach < self._reach_point.reach(1):\n            Imax, N")]),
("c11_gp_cache", "C11", [(GP, "        hist = self._expected_histogram(\n            min(imp", "        key = int(impressions[0])\n        if not hasattr(self, '_hc'):\n            self._hc = {}\n        if key in self._hc:\n            k = self._hc[key][:max_frequency]\n            return ReachPoint(impressions, k, [impressions[0] * self._cpi]) if self._cpi else ReachPoint(impressions, k)\n        hist = self._expected_histogram(\n            min(imp"), (GP, "        kplus_reach = self._kplus_reaches_from_frequencies(hist)\n        if", "        kplus_reach = self._kplus_reaches_from_frequencies(hist)\n        self._hc[key] = kplus_reach\n        if")]),
("c11_gt_index", "C11", [(GT, "        data_set_impressions[self._publisher_index] = impressions[0]", "        data_set_impressions[self._publisher_index] = min(impressions[0], self._max_reach * 10)")]),
("c11_gt_max", "C11", [(GT, "data_set._data[publisher_index].max_reach", "data_set.maximum_reach")]),
("c11_dm_refit", "C11", [(DM, "            customized_max_freq=max_frequency,\n        )\n        # a rel", "            customized_max_freq=min(max_frequency, self.optimizer.max_freq + 10),\n        )\n        # a rel")]),
("c11_dm_roundup", "C11", [(DM, "            .round(0)\n            .astype(\"int32\")", "            .astype(\"int32\")")]),
("c11_dm_int32", "C11", [(DM, ".astype(\"int32\")", ".astype(\"int16\")")]),
("c11_dm_cpi", "C11", [(DM, "        return spend / self._cpi", "        return int(spend / self._cpi)")]),
("c11_kplus_bucket_reach0", "C11", [(GP, "if data[0].impressions[0] < data[0].reach(1):", "if data[0].impressions[0] < data[0].reach(1) and not data[0].spends:")]),
("c11_gp_imax_minus", "C11", [(GP, "min(impressions[0], self._max_impressions - 1)", "min(impressions[0], self._max_impressions * 0.999)")]),
# C12
("c12_60", "C12", [(RC, "            if niter > 60:", "            if niter > 30:")]),
("c12_lt", "C12", [(RC, "            if reach_function([mid]).reach() <= target_reach:\n                lower = mid", "            if reach_function([mid]).reach() < target_reach:\n                lower = mid")]),
("c12_q", "C12", [(RC, "        if not 0 < quantile < 1:", "        if quantile <= 0 or quantile > 1:")]),
("c12_int_target", "C12", [(RC, "        target_reach = self.max_reach * quantile", "        target_reach = round(self.max_reach * quantile, 6)")]),
("c12_floatmid", "C12", [(RC, "            mid = (upper + lower) // 2", "            mid = int((upper + lower) / 2)")]),
("c12_spend_imps", "C12", [(RC, "        return self._by_quantile(quantile, self.by_spend)", "        cpi = getattr(self, '_cpi', None)\n        if cpi:\n            return int(self._by_quantile(quantile, self.by_impressions) * cpi)\n        return self._by_quantile(quantile, self.by_spend)")]),
("c12_start_memo", "C12", [(RC, "        lower, upper = 0, 1\n", "        lower, upper = getattr(self, '_qlast', 0), 1 + getattr(self, '_qlast', 0)\n"), (RC, "                upper = mid\n        return lower", "                upper = mid\n        self._qlast = lower // 2\n        return lower")]),
("c12_lower0", "C12", [(RC, "            lower, upper = upper, 2 * upper\n", "            lower, upper = upper, 2 * upper + (niter > 40)\n")]),
("c12_eps", "C12", [(RC, "        while upper - lower > 1:", "        while upper - lower > max(1, lower >> 40):")]),
]
