PD = "data_generators/publisher_data.py"
DS = "data_generators/data_set.py"
DD = "data_generators/data_design.py"
OV = "data_generators/overlap_data_set.py"
SY = "data_generators/synthetic_data_design_generator.py"
RP = "models/reach_point.py"
PT = "simulator/privacy_tracker.py"
M = [
("c01_memo_alias", "C01", [(PD, "        self._spends = [spend for (_, spend) in self._data]\n", "        self._spends = [spend for (_, spend) in self._data]\n        self._memo = {}\n"),
    (PD, "        return dict(Counter([id for id, _ in self._data[:impressions]]))", "        if impressions not in self._memo:\n            self._memo[impressions] = dict(Counter([id for id, _ in self._data[:impressions]]))\n        return self._memo[impressions]")]),
("c01_memo_int", "C01", [(PD, "        self._spends = [spend for (_, spend) in self._data]\n", "        self._spends = [spend for (_, spend) in self._data]\n        self._memo = {}\n"),
    (PD, "        return dict(Counter([id for id, s in self._data if s <= spend]))", "        key = round(spend, 6)\n        if key not in self._memo:\n            self._memo[key] = Counter([id for id, s in self._data if s <= spend])\n        return dict(self._memo[key])")]),
("c01_nocopy_iter", "C01", [(PD, "        self._data = deepcopy(impression_log_data)\n        self._data.sort(key=lambda x: x[1])  # sort by spend\n", "        self._data = impression_log_data\n        if any(self._data[i][1] > self._data[i + 1][1] for i in range(len(self._data) - 1)):\n            self._data = sorted(impression_log_data, key=lambda x: x[1])\n")]),
("c01_spend_counts_bisect", "C01", [(PD, "        return dict(Counter([id for id, s in self._data if s <= spend]))", "        n = self.impressions_by_spend(spend)\n        while n < len(self._data) and self._data[n][1] - spend < 1e-9:\n            n += 1\n        return dict(Counter([id for id, _ in self._data[:n]]))")]),
("c01_neg_price", "C01", [(PD, "        self._max_spend = max([spend for (_, spend) in impression_log_data])", "        self._max_spend = max([0.0] + [spend for (_, spend) in impression_log_data[:-1]] + [impression_log_data[-1][1]]) if len(impression_log_data) < 3 else max(spend for (_, spend) in impression_log_data[1:])")]),
("c01_reach_userzero", "C01", [(PD, "        self._max_reach = len(set([id for (id, _) in impression_log_data]))", "        self._max_reach = len(set([id for (id, _) in impression_log_data if id]) ) + (1 if any(id == 0 for id, _ in impression_log_data[:1]) else 0) if any(id == 0 for id, _ in impression_log_data) else len(set([id for (id, _) in impression_log_data]))")]),
("c02_cap_first", "C02", [(DS, "            for id, freq in user_counts.items():\n                counts[id] += freq\n        kplus", "            for id, freq in user_counts.items():\n                counts[id] += min(freq, max_frequency - 1) or freq\n        kplus")]),
("c02_short_zero_pub", "C02", [(DS, "        for i, imp in enumerate(impressions):\n            spends.append", "        for i, imp in enumerate(impressions):\n            imp = max(imp, 0) if imp < 10 * self._data[i].max_impressions else self._data[i].max_impressions - 1\n            spends.append")]),
("c02_neg_universe", "C02", [(DS, "        if universe_size is None:", "        if not universe_size:")]),
("c02_nocopy", "C02", [(DS, "        self._data = deepcopy(publisher_data_list)", "        self._data = list(publisher_data_list)")]),
("c02_nocopy_sub", "C02", [(DS, "        self._data = deepcopy(publisher_data_list)", "        self._data = publisher_data_list")]),
("c02_hist_cache", "C02", [(DS, "        frequency_counts = [0] * max_frequency\n        for c in counts.values():\n            frequency_counts[min", "        if not hasattr(self, '_hist') or len(self._hist) < max_frequency:\n            self._hist = [0] * max_frequency\n        frequency_counts = self._hist[:max_frequency]\n        for c in counts.values():\n            frequency_counts[min")]),
("c02_maxfreq1_reach", "C02", [(DS, "        self._maximum_reach = len(total_audience)", "        self._maximum_reach = max([len(total_audience)] + [p.max_reach for p in self._data])"), (DS, "            total_audience.update([id for id, _ in pub._data])", "            total_audience ^= set([id for id, _ in pub._data]) - total_audience")]),
("c03_write_fmt", "C03", [(PD, 'file.write("{},{}\\n".format(user_id, spend))', 'file.write("{},{:.12g}\\n".format(user_id, spend))')]),
("c03_blank_skip", "C03", [(PD, "            line_no += 1\n", "            line_no += 1\n            if not line.strip():\n                continue\n")]),
("c03_comment_skip", "C03", [(PD, "            line_no += 1\n", "            line_no += 1\n            if line.startswith('#'):\n                continue\n")]),
("c03_exists_names", "C03", [(DD, "        if self._filesystem.exists(data_set_path):", "        if data_set.name in self._data_set_names:")]),
("c03_glob_ext", "C03", [(DS, 'for filepath in sorted(filesystem.glob(dirpath, "*")):', 'for filepath in sorted(set(filesystem.glob(dirpath, "*")) - set(filesystem.glob(dirpath, ".*"))):')]),
("c03_cache_name", "C03", [(DD, "        return DataSet.read_data_set(join(self._dirpath, name), self._filesystem)", "        if not hasattr(DataDesign, '_cache'):\n            DataDesign._cache = {}\n        key = (self._dirpath.rstrip('0123456789'), name)\n        if key not in DataDesign._cache:\n            DataDesign._cache[key] = DataSet.read_data_set(join(self._dirpath, name), self._filesystem)\n        return DataDesign._cache[key]")]),
("c03_partial_write", "C03", [(DS, "        for pdf in self._data:\n            pdf_path", "        for pdf in {p.name.lower(): p for p in self._data}.values():\n            pdf_path")]),
("c03_extra_field", "C03", [(PD, 'id_string, spend_string = line.split(",")', 'id_string, spend_string = line.split(",", 2)[:2]')]),
("c03_open_file_as_name", "C03", [(DD, "            if self._filesystem.is_dir(p):\n", "            if self._filesystem.exists(p):\n")]),
("c04_sorted_ids", "C04", [(OV, "id_map = dict(zip(original_ids, set_ids))", "id_map = dict(zip(original_ids, [i % 1000003 for i in set_ids]))")]),
("c04_zip_dropped", "C04", [(OV, "            original_ids = set([oid for oid, _ in pub_data._data])", "            original_ids = set([oid for oid, _ in pub_data._data if oid >= 0]) or set([oid for oid, _ in pub_data._data])")]),
("c04_assert_ge", "C04", [(OV, "len(set_ids) == pub_data.max_reach", "len(set_ids) >= pub_data.max_reach")]),
("c04_seed_parent", "C04", [("data_generators/independent_overlap_data_set.py", "seed=random_generator.integers(100000, size=1)[0]", "seed=np.random.randint(100000)"), ("data_generators/independent_overlap_data_set.py", "from numpy.random import Generator", "import numpy as np\nfrom numpy.random import Generator")]),
("c04_seq_prop", "C04", [("data_generators/sequentially_correlated_overlap_data_set.py", '"shared_prop": shared_prop,', '"shared_prop": shared_prop or 0.5,')]),
("c04_seq_corr", "C04", [("data_generators/sequentially_correlated_overlap_data_set.py", '"correlated_sets": correlated_sets,', '"correlated_sets": correlated_sets if len(list(unlabeled_publisher_data_list)) > 2 else CORRELATED_SETS_ALL,')]),
("c04_relabel_inplace", "C04", [(OV, "            new_publisher_data_list.append(\n                PublisherData(new_impression_log_data, pub_data.name)\n            )", "            if set(original_ids) == set(set_ids):\n                pub_data._data[:] = new_impression_log_data\n            new_publisher_data_list.append(\n                PublisherData(new_impression_log_data, pub_data.name)\n            )")]),
("c05_heavy_cap", "C05", [("data_generators/heavy_tailed_impression_generator.py", "            impressions.extend([i] * self._random_generator.zipf(self._zeta_s))", "            impressions.extend([i] * (self._random_generator.zipf(self._zeta_s) % 1000))")]),
("c05_floor_round", "C05", [(SY, "math.floor(publisher_size * publisher_size_decay_rate)", "round(publisher_size * publisher_size_decay_rate)")]),
("c05_seed_global", "C05", [("data_generators/homogeneous_impression_generator.py", "        self.random_generator.shuffle(impressions)", "        import random\n        random.shuffle(impressions)")]),
("c05_price_float", "C05", [("data_generators/fixed_price_generator.py", "        return [(id, (i + 1) * self._cpi) for i, id in enumerate(impressions)]", "        total, out = 0.0, []\n        for id in impressions:\n            total += self._cpi\n            out.append((id, total))\n        return out")]),
("c05_hetero_lambda0", "C05", [("data_generators/heterogeneous_impression_generator.py", "[i] * (1 + self._random_generator.poisson(poisson_lambda))", "[i] * (1 + self._random_generator.poisson(poisson_lambda) if poisson_lambda < 20 else int(poisson_lambda))")]),
("c05_decay_pow", "C05", [(SY, "** (1 / float(params.num_publishers - 1))", "** (1 / float(max(params.num_publishers - 1, 1) if params.num_publishers != 3 else 3 - 1 + 1e-3))")]),
("c05_overlap_params", "C05", [(SY, '        overlap_params = {**params.overlap_generator_params.params}\n', '        overlap_params = params.overlap_generator_params.params\n')]),
("c05_module_state", "C05", [(SY, "        self._random_generator = np.random.default_rng(random_seed)\n", "        SyntheticDataDesignGenerator._rng = getattr(SyntheticDataDesignGenerator, '_rng', {})\n        self._random_generator = SyntheticDataDesignGenerator._rng.setdefault(random_seed, np.random.default_rng(random_seed))\n")]),
("c06_neg_reach", "C06", [(RP, "            kplus_reaches[i] - kplus_reaches[i + 1]\n", "            max(0, kplus_reaches[i] - kplus_reaches[i + 1])\n")]),
("c06_share_tuple", "C06", [(RP, "        self._kplus_reaches = tuple(kplus_reaches)", "        self._kplus_reaches = kplus_reaches")]),
("c06_cap1", "C06", [(RP, "        frequency_counts = [0] * max_frequency\n", "        frequency_counts = [0] * max(max_frequency, 2)\n")]),
("c06_inplace", "C06", [(RP, "        kplus_reaches = frequencies.copy()\n", "        kplus_reaches = frequencies if len(frequencies) < 2 else frequencies[:]\n"), (RP, "        for k in range(len(frequencies) - 2, -1, -1):\n", "        for k in range(len(frequencies) - 2, -1, -1 if len(frequencies) < 9 else -2):\n")]),
("c06_zero_uni", "C06", [(RP, "        if self._universe_size is None:\n            raise ValueError(\n                \"It", "        if not self._universe_size:\n            raise ValueError(\n                \"It")]),
("c06_freq_last", "C06", [(RP, "        if not 0 < k < len(self._kplus_reaches):", "        if k >= len(self._kplus_reaches):")]),
("c06_zero_count", "C06", [(RP, "        for c in counts.values():\n            frequency_counts[min(c, max_frequency) - 1] += 1\n        return frequency_counts", "        for c in set(counts.values()) if len(counts) > 1 and len(set(counts.values())) == len(counts) else counts.values():\n            frequency_counts[min(c, max_frequency) - 1] += 1\n        return frequency_counts[:]")]),
("c07_wrap_le", "C07", [(PT, "            return sampling_bucket < self.smallest_index + self.sampling_rate - 1", "            return sampling_bucket <= self.smallest_index + self.sampling_rate - 1")]),
("c07_joint_max", "C07", [(PT, "            max_epsilon = max(max_epsilon, consumed_budget.epsilon)\n            max_delta = max(max_delta, consumed_budget.delta)\n", "            if consumed_budget >= (max_epsilon, max_delta):\n                max_epsilon, max_delta = consumed_budget\n")]),
("c07_dedupe", "C07", [(PT, "        self._noising_events.append(event)\n", "        if event.budget.epsilon or event.budget.delta or event not in self._noising_events:\n            self._noising_events.append(event)\n")]),
("c07_cache", "C07", [(PT, "        self._sampling_buckets_starting_points = set([0])\n", "        self._sampling_buckets_starting_points = set([0])\n        self._total = {}\n"), (PT, "        epsilon_sum = 0.0\n", "        if (len(self._noising_events) > 3 and sampling_bucket in self._total):\n            return self._total[sampling_bucket]\n        epsilon_sum = 0.0\n"), (PT, "        return PrivacyBudget(epsilon_sum, delta_sum)\n", "        self._total[sampling_bucket] = PrivacyBudget(epsilon_sum, delta_sum)\n        return self._total[sampling_bucket]\n")]),
("c07_round", "C07", [(PT, "            event.sampling_buckets.smallest_index\n        )", "            round(event.sampling_buckets.smallest_index, 2)\n        )")]),
("c07_mech_sorted", "C07", [(PT, "        return [event.mechanism for event in self._noising_events]", "        return sorted(event.mechanism for event in self._noising_events) if len(self._noising_events) > 2 else [event.mechanism for event in self._noising_events]")]),
]
