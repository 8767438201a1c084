ET = "driver/experimental_trial.py"
ED = "driver/experimental_design.py"
EX = "driver/experiment.py"
DR = "driver/experiment_driver.py"
GR = "driver/grid_test_point_generator.py"
LH = "driver/latin_hypercube_random_test_point_generator.py"
UR = "driver/uniformly_random_test_point_generator.py"
TG = "driver/test_point_generator.py"
AG = "driver/test_point_aggregator.py"
TD = "driver/trial_descriptor.py"
MS = "driver/modeling_strategy_descriptor.py"
EP = "driver/experiment_parameters.py"
SY = "simulator/system_parameters.py"
CL = "filesystem_wrappers/filesystem_cloudpath_wrapper.py"
PL = "filesystem_wrappers/filesystem_pathlib_wrapper.py"
M = [
# C15
("c15_dedupe_desc", "C15", [(ED, "trial_name = f\"{t._data_set_name}::{t._trial_descriptor}\"", "trial_name = f\"{t._data_set_name}{t._trial_descriptor.experiment_params.replica_id}::{t._trial_descriptor}\".split('test_point_strategy')[0]")]),
("c15_dedupe_lower", "C15", [(ED, "trial_name = f\"{t._data_set_name}::{t._trial_descriptor}\"", "trial_name = f\"{t._data_set_name}::{t._trial_descriptor}\".lower()")]),
("c15_par_drop", "C15", [(ED, "pool.uimap(process_trial, range(ntrials))", "pool.uimap(process_trial, range(ntrials), chunksize=4)")]),
("c15_par_collect", "C15", [(ED, "            self._evaluate_all_trials_in_parallel()\n", "            self._evaluate_all_trials_in_parallel()\n            self._all_trials = [t for t in self._all_trials if self._filesystem.is_file(t._compute_trial_results_path())]\n")]),
("c15_comb_set", "C15", [(ED, "        return list(itertools.chain.from_iterable(accumulators))", "        accumulators = list(accumulators)\n        return accumulators[0] + accumulators[-1] if len(accumulators) > 1 else accumulators[0]")]),
("c15_comb_mutable", "C15", [(ED, "class CombineDataFrameFn(beam.CombineFn):\n    def create_accumulator(self):\n        return []", "class CombineDataFrameFn(beam.CombineFn):\n    _acc = []\n    def create_accumulator(self):\n        return self._acc")]),
("c15_beam_fixedpath", "C15", [(ED, "        if use_apache_beam:\n            self._evaluate_all_trials_using_apache_beam(", "        if use_apache_beam and not self._filesystem.is_file(temp_result_path):\n            self._evaluate_all_trials_using_apache_beam(")]),
("c15_load_cache", "C15", [(ED, "        if not self._all_trials:\n            self.generate_trials()\n", "        if self._all_trials is None:\n            self.generate_trials()\n        self._all_trials.sort(key=lambda t: t._data_set_name)\n        self._all_trials = [t for i, t in enumerate(self._all_trials) if i == 0 or t._data_set_name != self._all_trials[i - 1]._data_set_name or str(t._trial_descriptor) != str(self._all_trials[i - 1]._trial_descriptor)]\n")]),
("c15_out_index", "C15", [(DR, "result.to_csv(na_rep=\"NaN\", index=False)", "result.drop_duplicates(subset=['dataset', 'single_pub_model', 'multi_pub_model', 'replica_id']).to_csv(na_rep=\"NaN\", index=False)")]),
("c15_dataset_sorted", "C15", [(ED, "        for data_set_name in self._data_design.names:", "        for data_set_name in [n for n in self._data_design.names if not n.startswith('.')]:")]),
("c15_reach_col", "C15", [(ET, "\"largest_pub_reach\": [max([p.max_reach for p in data_set._data])]", "\"largest_pub_reach\": [data_set._data[0].max_reach]")]),
("c15_avg_spend", "C15", [(ET, "                    np.mean(\n                        self._trial_descriptor.system_params.campaign_spend_fractions\n                    )", "                    np.median(\n                        self._trial_descriptor.system_params.campaign_spend_fractions\n                    )")]),
("c15_bad_merge", "C15", [(ED, "        return pd.concat(accumulator)", "        return pd.concat(accumulator).drop_duplicates('trial')")]),
("c15_generator_consumed", "C15", [(EX, "        for desc in self._trial_descriptors:", "        for desc in dict.fromkeys(str(d) for d in self._trial_descriptors) and {f'{d.modeling_strategy}{d.experiment_params}': d for d in self._trial_descriptors}.values():")]),
# C16
("c16_pending_after", "C16", [(ET, "        filesystem.write_text(\n            trial_results_path, result.to_csv(na_rep=\"NaN\", index=False)\n        )\n        filesystem.unlink(pending_path, missing_ok=True)\n", "        filesystem.unlink(pending_path, missing_ok=True)\n        filesystem.write_text(\n            trial_results_path, result.to_csv(na_rep=\"NaN\", index=False)\n        )\n")]),
("c16_pending_name", "C16", [(ET, "hashlib.md5(trial_results_path.encode())", "hashlib.md5(str(self._trial_descriptor).encode())")]),
("c16_unlink_missing", "C16", [(ET, "                filesystem.unlink(trial_results_path)\n", "")]),
("c16_read_narrow", "C16", [(ET, "            except Exception as e:\n                filesystem.unlink", "            except pd.errors.ParserError as e:\n                filesystem.unlink")]),
("c16_dir_exist", "C16", [(ET, "        filesystem.mkdir(filesystem.parent(pending_path), parents=True, exist_ok=True)\n", "        if not filesystem.exists(filesystem.parent(pending_path)):\n            filesystem.mkdir(filesystem.parent(pending_path), parents=True)\n")]),
("c16_rewrite_cached", "C16", [(ET, "                with filesystem.open(trial_results_path) as file:\n                    return pd.read_csv(file)", "                with filesystem.open(trial_results_path) as file:\n                    cached = pd.read_csv(file)\n                filesystem.write_text(trial_results_path, cached.to_csv(na_rep=\"NaN\", index=False))\n                return cached")]),
("c16_pending_first_only", "C16", [(ET, "        filesystem.write_text(\n            pending_path,\n", "        if not filesystem.is_file(pending_path):\n          filesystem.write_text(\n            pending_path,\n")]),
("c16_marker_in_exc", "C16", [(ET, "        if filesystem.is_file(trial_results_path) and not filesystem.is_file(\n            pending_path\n        ):", "        if filesystem.is_file(trial_results_path):")]),
("c16_dups_reeval", "C16", [(ET, "                    return pd.read_csv(file)\n", "                    cached = pd.read_csv(file)\n                if cached[\"model_succeeded\"][0]:\n                    return cached\n")]),
# C17
("c17_rng_fit", "C17", [(ET, "generate_test_points(\n                    dataset, rng\n                )", "generate_test_points(\n                    dataset, system_params.generator\n                )")]),
("c17_default_gen", "C17", [(SY, "copy.deepcopy(self.liquid_legions), self.generator\n", "copy.deepcopy(self.liquid_legions), np.random.default_rng(np.random.randint(2 ** 31))\n")]),
("c17_seed_hash", "C17", [(ET, "rng = np.random.default_rng(seed=seed)", "rng = np.random.default_rng(seed=seed + len(str(self._trial_descriptor)))")]),
("c17_noseed", "C17", [(ET, "        np.random.seed(seed)\n        privacy_tracker", "        privacy_tracker")]),
("c17_spend_mut", "C17", [(ET, "        halo = HaloSimulator(dataset, system_params, privacy_tracker)\n", "        halo = HaloSimulator(dataset, system_params, privacy_tracker)\n        self._trial_descriptor.modeling_strategy.single_pub_model_kwargs.pop('debug', None)\n")]),
("c17_kwargs_mut", "C17", [("simulator/m3_strategy.py", "        p = halo.publisher_count\n", "        p = halo.publisher_count\n        halo._data_set._data.sort(key=lambda d: d.name)\n")]),
("c17_class_cache", "C17", [(ET, "            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)\n", "            cache = ExperimentalTrial.__dict__.get('_fits')\n            if cache is None:\n                cache = ExperimentalTrial._fits = {}\n            key = (self._data_set_name, f'{self._trial_descriptor.modeling_strategy},{self._trial_descriptor.system_params},{privacy_budget}')\n            if key not in cache:\n                cache[key] = modeling_strategy.fit(halo, system_params, privacy_budget)\n            reach_surface = cache[key]\n")]),
("c17_tp_cache", "C17", [(EP, "        return test_point_generator.test_points()", "        pts = list(test_point_generator.test_points())\n        if not hasattr(data_set, '_tp'):\n            data_set._tp = pts\n        return data_set._tp if len(pts) == len(data_set._tp) else pts")]),
# C18
("c18_narrow", "C18", [(ET, "        except Exception as inst:\n            if not", "        except (ValueError, RuntimeError, ArithmeticError, TypeError, KeyError, IndexError, AssertionError) as inst:\n            if not")]),
("c18_partial_metrics", "C18", [(AG, "    stats = {\"model_succeeded\": [0], \"model_exception\": [debug_msg]}\n    for key in AGGREGATORS:\n        stats[key] = [np.NaN]", "    stats = {\"model_succeeded\": [0], \"model_exception\": [debug_msg]}\n    for key in AGGREGATORS:\n        stats[key] = [0 if key == 'npoints' else np.NaN]")]),
("c18_pending_left", "C18", [(ET, "        filesystem.unlink(pending_path, missing_ok=True)\n", "        if metrics[\"model_succeeded\"][0]:\n            filesystem.unlink(pending_path, missing_ok=True)\n")]),
("c18_msg_split", "C18", [(ET, "metrics = aggregate_on_exception(traceback.format_exc())", "metrics = aggregate_on_exception(str(inst) or None)")]),
("c18_tracker_reset", "C18", [(ET, "            metrics = aggregate_on_exception(traceback.format_exc())\n", "            metrics = aggregate_on_exception(traceback.format_exc())\n            privacy_tracker = PrivacyTracker()\n")]),
("c18_sp_cols", "C18", [(ET, "        for f in range(1, max_frequency):\n            for r in SINGLE_PUBLISHER_FRACTIONS:\n                column_name = f\"freq_{f}_relative_error_at_{int(r*100):03d}\"\n                results[column_name] = [np.NaN]", "        for f in range(1, min(max_frequency, 10)):\n            for r in SINGLE_PUBLISHER_FRACTIONS:\n                column_name = f\"freq_{f}_relative_error_at_{int(r*100):03d}\"\n                results[column_name] = [np.NaN]")]),
("c18_order", "C18", [(AG, "    for key in AGGREGATORS:\n        stats[key] = [np.NaN]", "    for key in sorted(AGGREGATORS):\n        stats[key] = [np.NaN]")]),
("c18_outside_try", "C18", [(ET, "        try:\n            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)\n            test_points = list(\n                self._trial_descriptor.experiment_params.generate_test_points(\n                    dataset, rng\n                )\n            )\n", "        test_points = list(\n            self._trial_descriptor.experiment_params.generate_test_points(\n                dataset, rng\n            )\n        )\n        try:\n            reach_surface = modeling_strategy.fit(halo, system_params, privacy_budget)\n")]),
("c18_nofail_store", "C18", [(ET, "        filesystem.write_text(\n            trial_results_path, result.to_csv(na_rep=\"NaN\", index=False)\n        )\n", "        if metrics[\"model_succeeded\"][0]:\n            filesystem.write_text(\n                trial_results_path, result.to_csv(na_rep=\"NaN\", index=False)\n            )\n")]),
# C19
("c19_grid_end", "C19", [(GR, "                    * np.arange(1, self._grid_size + 1)\n                    / (self._grid_size + 1)", "                    * np.linspace(0, 1, self._grid_size + 2)[1:-1].round(3)")]),
("c19_grid_set", "C19", [(GR, "        for point in itertools.product(*points_per_dimension):\n            yield point", "        for point in itertools.islice(itertools.product(*points_per_dimension), 2000):\n            yield point")]),
("c19_lh_max", "C19", [(LH, "MAXIMUM_NUMBER_OF_TEST_POINTS = 2000", "MAXIMUM_NUMBER_OF_TEST_POINTS = 2001")]),
("c19_lh_colperm", "C19", [(LH, "            yield list(self._max_spends * point)", "            yield list(self._max_spends * np.clip(point, 0.001, 1))")]),
("c19_lh_state", "C19", [(LH, "np.random.seed(self._rng.integers(2 ** 32, dtype=np.uint32))", "np.random.seed(self._npublishers)")]),
("c19_ur_shared", "C19", [(UR, "yield list(self._max_spends * self._rng.random(size=self._npublishers))", "yield list(self._max_spends * (self._rng.random(size=self._npublishers) if self._npublishers < 6 else np.tile(self._rng.random(size=(self._npublishers + 1) // 2), 2)[: self._npublishers]))")]),
("c19_ur_min", "C19", [(UR, "        for i in range(self._npoints):", "        for i in range(min(self._npoints, 5000)):")]),
("c19_ur_half", "C19", [(UR, "        self._npoints = max(npoints, npublishers * minimum_points_per_publisher)", "        self._npoints = max(npoints, min(npublishers, dataset.publisher_count) * minimum_points_per_publisher)")]),
("c19_maxspend_zero", "C19", [(TG, "            [dataset._data[i].max_spend for i in range(dataset.publisher_count)]", "            [dataset._data[i].max_spend or 1.0 for i in range(dataset.publisher_count)]")]),
("c19_maxspend_f32", "C19", [(TG, "            [dataset._data[i].max_spend for i in range(dataset.publisher_count)]\n", "            [dataset._data[i].max_spend for i in range(dataset.publisher_count)], dtype=np.float32\n")]),
("c19_ur_lazy_rng", "C19", [(UR, "yield list(self._max_spends * self._rng.random(size=self._npublishers))", "yield list(self._max_spends * np.random.default_rng(self._npoints + i).random(size=self._npublishers))")]),
# C20
("c20_var_ddof", "C20", [(AG, "\"var_relative_error\": lambda x, y: np.var((_reach(x) - _reach(y)) / _reach(x)),", "\"var_relative_error\": lambda x, y: np.var((_reach(x) - _reach(y)) / _reach(x), ddof=1 if len(x) > 10 else 0),")]),
("c20_q_interp", "C20", [(AG, "np.abs(_reach(x) - _reach(y)) / _reach(x), 0.70\n", "np.abs(_reach(x) - _reach(y)) / _reach(x), 0.70, interpolation='nearest'\n")]),
("c20_freq_any", "C20", [(AG, "    if any([k > p.max_frequency for p in y]):", "    if all([k > p.max_frequency for p in y[:1]]):")]),
("c20_nanmean", "C20", [(AG, "    return np.mean(np.abs(_reach(x, k) - _reach(y, k)) / _reach(x, k))", "    return np.mean(np.abs(_reach(x, k) - _reach(y, k))) / np.mean(_reach(x, k)) if k > 7 else np.mean(np.abs(_reach(x, k) - _reach(y, k)) / _reach(x, k))")]),
("c20_shuffle_lt", "C20", [(AG, "    if xpoint.max_frequency <= k or ypoint.max_frequency <= k:", "    if xpoint.max_frequency < k or ypoint.max_frequency < k:")]),
("c20_shuffle_zero", "C20", [(AG, "    if sum(xfreq) == 0 or sum(yfreq) == 0:\n        return 0.5", "    if sum(xfreq) == 0 and sum(yfreq) == 0:\n        return 0.0\n    if sum(xfreq) == 0 or sum(yfreq) == 0:\n        return 0.5")]),
("c20_int_trunc", "C20", [(AG, "    return np.array([point.reach(k) for point in point_list])", "    return np.array([point.reach(k) for point in point_list], dtype=np.float32).astype(float)")]),
("c20_msq_abs", "C20", [(AG, "        (_reach(x) - _reach(y)) ** 2 / _reach(x) ** 2", "        (_reach(x) - _reach(y)) ** 2 / (_reach(x) * np.maximum(_reach(x), 1.0))")]),
("c20_swap_sign", "C20", [(AG, "    \"mean_error\": lambda x, y: np.mean(_reach(x) - _reach(y)),", "    \"mean_error\": lambda x, y: np.mean(_reach(x)) - np.mean(_reach(y)[: max(1, len(x))]) if len(x) == len(set(map(id, x))) else 0.0,")]),
# C21
("c21_ms_kwargs", "C21", [(MS, "            + self._dict_to_string(self.multi_pub_model, self.multi_pub_model_kwargs)", "            + self._dict_to_string(self.multi_pub_model, {k: v for k, v in self.multi_pub_model_kwargs.items() if v})")]),
("c21_eps_fmt", "C21", [(EP, "f\"epsilon={self.privacy_budget.epsilon}\"", "f\"epsilon={self.privacy_budget.epsilon:.6g}\"")]),
("c21_spend_fmt", "C21", [(SY, "[f\"{s}\" for s in self.campaign_spend_fractions]", "[f\"{s:.5f}\" for s in self.campaign_spend_fractions]")]),
("c21_spend_max", "C21", [(SY, "[f\"{s}\" for s in self.campaign_spend_fractions]", "[f\"{s}\" for s in self.campaign_spend_fractions[:20]]")]),
("c21_trunc", "C21", [(TD, "        return (\n            f\"{self.modeling_strategy},\"\n            f\"{self.system_params},\"\n            f\"{self.experiment_params}\"\n        )", "        return (\n            f\"{self.modeling_strategy},\"\n            f\"{self.system_params},\"\n            f\"{self.experiment_params}\"\n        )[:230]")]),
("c21_share_kwargs", "C21", [(EP, "test_point_strategy_kwargs = copy.deepcopy(self.test_point_strategy_kwargs)", "test_point_strategy_kwargs = self.test_point_strategy_kwargs")]),
("c21_gen_fractions", "C21", [(SY, "            campaign_spend_fractions = self.campaign_spend_fractions_generator(dataset)\n", "            campaign_spend_fractions = self.campaign_spend_fractions_generator(dataset)\n            self.campaign_spend_fractions[:] = campaign_spend_fractions\n")]),
("c21_alias_frac", "C21", [(SY, "            campaign_spend_fractions = copy.deepcopy(self.campaign_spend_fractions)\n", "            campaign_spend_fractions = self.campaign_spend_fractions\n")]),
("c21_ll_copy", "C21", [(SY, "copy.deepcopy(self.liquid_legions), self.generator", "self.liquid_legions._replace(random_seed=1), self.generator")]),
("c21_path_slash", "C21", [(ET, "            f\"{self._experiment_dir}/{self._data_set_name}/{self._trial_descriptor}.csv\"", "            f\"{self._experiment_dir}/{self._data_set_name.split('.')[0]}/{self._trial_descriptor}.csv\"")]),
("c21_npub_always", "C21", [(EP, "        if \"npublishers\" in test_point_strategy_kwargs:", "        if test_point_strategy_kwargs.get(\"npublishers\"):")]),
("c21_ms_share", "C21", [(TD, "            copy.deepcopy(self.modeling_strategy),", "            self.modeling_strategy,")]),
("c21_strategy_kwargs_drop", "C21", [(MS, "            + self._dict_to_string(self.single_pub_model, self.single_pub_model_kwargs)", "            + self._dict_to_string(self.single_pub_model, {k: round(v, 3) if isinstance(v, float) else v for k, v in self.single_pub_model_kwargs.items()})")]),
# C22
("c22_unlink_race", "C22", [(CL, "        if CloudPath(path).exists():\n            CloudPath(path).unlink()", "        if CloudPath(path).is_file() or not missing_ok:\n            CloudPath(path).unlink()")]),
("c22_join_strip", "C22", [(CL, "        root_folder = root[1]\n", "        root_folder = root[1].rstrip('/').lower()\n")]),
("c22_glob_hidden", "C22", [(CL, "        for obj in CloudPath(path).glob(pattern):\n            yield str(obj)", "        for obj in CloudPath(path).glob(pattern):\n            if not obj.name.startswith('.'):\n                yield str(obj)")]),
("c22_pl_glob_sorted", "C22", [(PL, "        for obj in pathlib.Path(path).glob(pattern):", "        for obj in pathlib.Path(path).rglob(pattern):")]),
("c22_pl_write_enc", "C22", [(PL, "        pathlib.Path(path).write_text(data=data, encoding=encoding, errors=errors)", "        pathlib.Path(path).write_text(data=data, encoding=encoding, errors=errors or 'replace')")]),
("c22_pl_write_mkdir", "C22", [(PL, "        del newline  # newline argument", "        pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)\n        del newline  # newline argument")]),
("c22_pl_mkdir_ok", "C22", [(PL, "mkdir(mode=mode, parents=parents, exist_ok=exist_ok)", "mkdir(mode=mode, parents=parents, exist_ok=exist_ok or parents)")]),
("c22_pl_unlink", "C22", [(PL, "pathlib.Path(path).unlink(missing_ok)", "pathlib.Path(path).unlink(missing_ok or not pathlib.Path(path).parent.exists())")]),
("c22_pl_name", "C22", [(PL, "return str(pathlib.Path(path).name)", "return str(pathlib.Path(path).resolve().name)")]),
("c22_cl_isfile", "C22", [(CL, "        return CloudPath(path).is_file()", "        return CloudPath(path).exists() and not CloudPath(path).is_dir()")]),
("c22_cl_write_append", "C22", [(CL, "        CloudPath(path).write_text(data=data, encoding=encoding, errors=errors)", "        if not data:\n            CloudPath(path).touch()\n            return\n        CloudPath(path).write_text(data=data, encoding=encoding, errors=errors)")]),
("c22_cl_open_mode", "C22", [(CL, "            mode=mode,\n            buffering=buffering,", "            mode=mode.replace('x', 'w'),\n            buffering=buffering,")]),
]
