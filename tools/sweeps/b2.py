PW = "models/pairwise_union_reach_surface.py"
RP = "models/restricted_pairwise_union_reach_surface.py"
GM = "models/generalized_mixture_reach_surface.py"
RS = "models/reach_surface.py"
KI = "models/kinflated_gamma_poisson_model.py"
DM = "models/dirac_mixture_single_publisher_model.py"
M = [
("c13_nocopy_curves", "C13", [(PW, "self._reach_curves = copy.deepcopy(reach_curves)", "self._reach_curves = reach_curves")]),
("c13_nocopy_data", "C13", [(RS, "self._data = copy.deepcopy(data)", "self._data = list(data)")]),
("c13_col_constraint", "C13", [(PW, "np.vstack((G1, G2, G3))", "np.vstack((G1, G2, G2))"), (PW, "np.vstack((A1, A2))", "np.vstack((A1, A2))")]),
("c13_rows_relaxed", "C13", [(PW, "np.zeros(self._p * self._p), np.ones(2 * self._p)", "np.zeros(self._p * self._p), np.ones(2 * self._p) * (1 if self._p < 4 else 2)")]),
("c13_minreach", "C13", [(PW, "                    max(\n                        self._reach_curves[i].max_reach, self._reach_curves[j].max_reach\n                    )\n                    * 2", "                    min(\n                        self._reach_curves[i].max_reach, self._reach_curves[j].max_reach\n                    )\n                    * 2")]),
("c13_minreach_both", "C13", [(PW, "                    max(\n                        self._reach_curves[i].max_reach, self._reach_curves[j].max_reach\n                    )\n                    * 2", "                    min(\n                        self._reach_curves[i].max_reach, self._reach_curves[j].max_reach\n                    )\n                    * 2"), (PW, "                        max(\n                            self._reach_curves[i].max_reach,\n                            self._reach_curves[j].max_reach,\n                        )\n", "                        min(\n                            self._reach_curves[i].max_reach,\n                            self._reach_curves[j].max_reach,\n                        )\n")]),
("c13_symm_last", "C13", [(PW, "            for j in range(i + 1, self._p):\n                A2[constraint_row, i * self._p + j] = 1\n                A2[constraint_row, j * self._p + i] = -1", "            for j in range(i + 1, self._p):\n                A2[constraint_row, i * self._p + j] = 1\n                A2[constraint_row, j * self._p + i] = -1 if j - i < 3 else -2")]),
("c13_r_noclip", "C13", [(RP, "        if lbd_i_hat < 0:\n            return 0\n", "")]),
("c13_r_bound", "C13", [(RP, "        for j in range(len(lbd)):\n            if j != i:\n                res = min(res, 1 / max(lbd[j], tol) - total + lbd[i] + lbd[j])\n        return res", "        return res")]),
("c13_r_diag", "C13", [(RP, "        a -= np.diag(np.diag(a))\n", "")]),
("c13_r_half", "C13", [(RP, "        self._a = a.flatten() / 2", "        self._a = a.flatten()")]),
("c13_r_bestinit", "C13", [(RP, "                self._fitted_lbd = local_fit\n", "                self._fitted_lbd = local_fit\n            else:\n                self._fitted_lbd = np.array(self._fitted_lbd) * 1.0001\n            if False:\n                pass\n")]),
("c13_g_rows", "C13", [(GM, "        b = matrix(np.ones(self._p))\n", "        b = matrix(np.ones(self._p) - (0.01 if self._c > 3 else 0))\n")]),
("c13_g_N", "C13", [(GM, "max([reach_curve.max_reach for reach_curve in reach_curves]) * 2", "max([point.reach() for point in reach_points]) * 2")]),
("c13_g_index", "C13", [(GM, "self.a[j + i * self._c] * reach_vector[i]", "self.a[(j * self._p + i) if self._c == self._p else (j + i * self._c)] * reach_vector[i]")]),
("c13_byspend_zip", "C13", [(RS, "                curve.impressions_for_spend(pub_spend)\n", "                int(curve.impressions_for_spend(pub_spend))\n")]),
("c13_byspend_order", "C13", [(RS, "                for curve, pub_spend in zip(self._reach_curves, spend)", "                for curve, pub_spend in sorted(zip(self._reach_curves, spend), key=lambda cs: cs[1] == 0)")]),
("c13_reach_cap", "C13", [(PW, "        return ReachPoint(impressions, [reach_sum - overlap])", "        return ReachPoint(impressions, [min(reach_sum - overlap, max(c.max_reach for c in self._reach_curves) * 2)])")]),
("c13_reach_cap_seen", "C13", [(PW, "        return ReachPoint(impressions, [reach_sum - overlap])", "        return ReachPoint(impressions, [max(reach_sum - overlap, min(p.reach() for p in self._data) if all(impressions) else 0)])")]),
("c13_point_weight", "C13", [(PW, "        alpha = [sum(reach_vector) for reach_vector in reach_vectors]", "        alpha = [sum(np.sort(reach_vector)[-4:]) for reach_vector in reach_vectors]")]),
("c13_points_first", "C13", [(PW, "        self._n = len(reach_points)\n", "        self._n = min(len(reach_points), len(reach_curves) + 1)\n")]),
("c13_zero_pub", "C13", [(PW, "        reach_sum = sum(reach_vector)\n", "        reach_sum = sum(r for r, imp in zip(reach_vector, impressions) if imp >= 1)\n")]),
# C14
("c14_scale", "C14", [(KI, "            a = np.array(a) / np.sum(a)", "            a = np.clip(a, 0, 1) / max(1, len(a))")]),
("c14_scale_mut", "C14", [(KI, "            a = np.array(a) / np.sum(a)\n", "            s0 = sum(a)\n            for i in range(len(a)):\n                a[i] /= s0\n")]),
("c14_tail_neg", "C14", [(KI, "            pmf_tail = ((1 - s) / (1 - t)) * u", "            pmf_tail = ((1 - s) / max(1 - t, 1e-3)) * u")]),
("c14_t", "C14", [(KI, "t = np.sum(self._gamma_poisson_pmf(np.arange(1, n + 1), alpha, beta))", "t = np.sum(self._gamma_poisson_pmf(np.arange(1, max(n, 2)), alpha, beta)) if n else 0.0")]),
("c14_force", "C14", [(KI, "        self._pmf[-1] = 1.0 - np.sum(self._pmf[:-1])\n", "        self._pmf[-1] += 1.0 - np.sum(self._pmf[:-1])\n")]),
("c14_kplus_direct", "C14", [(KI, "            return 1.0 - np.sum(self.kreach(np.arange(k), p))", "            return np.sum(self.kreach(np.arange(k, 200), p))")]),
("c14_kreach_trunc", "C14", [(KI, "        mat = self.knreach(k, np.arange(min_freq, len(self._pmf)), p)", "        mat = self.knreach(k, np.arange(min_freq, min(len(self._pmf), min_freq + 500)), p)")]),
("c14_kreach_memo", "C14", [(KI, "        min_freq = np.min(k)\n        # The 2D", "        memo = self.__dict__.setdefault('_memo', {})\n        key = (int(k[0]), int(k[-1]), round(float(p), 5))\n        if key in memo:\n            return memo[key]\n        min_freq = np.min(k)\n        # The 2D"), (KI, "        upper_triangular = np.triu(mat)\n        return np.sum(upper_triangular, axis=-1)", "        upper_triangular = np.triu(mat)\n        memo[key] = np.sum(upper_triangular, axis=-1)\n        return memo[key]")]),
("c14_alias_a", "C14", [(KI, "        self._a = a\n\n        n = len(a)", "        self._a = a\n        self._pmf_src = a\n\n        n = len(a)"), (KI, "        return self._pmf[n]", "        if np.isscalar(n) and 0 < n <= len(self._pmf_src):\n            return self._pmf_src[n - 1]\n        return self._pmf[n]")]),
("c14_d_round", "C14", [(DM, "            n = int(round(ncomponents * pmf[f]))", "            n = int(ncomponents * pmf[f])")]),
("c14_d_left", "C14", [(DM, "        while n_left > 0 and f < len(pmf):", "        while n_left > 0 and f < len(pmf) - 1:")]),
("c14_d_endpoint", "C14", [(DM, "                (components, np.linspace(f, f + 1, n, endpoint=False))", "                (components, np.linspace(f, f + 1, n, endpoint=(n > 40)))")]),
("c14_d_sf", "C14", [(DM, "        v[-1] = stats.poisson.sf(max_freq - 1, poisson_mean)", "        v[-1] = stats.poisson.sf(max_freq - 1, poisson_mean) if poisson_mean < 50 else stats.poisson.sf(max_freq, poisson_mean)")]),
("c14_d_eq", "C14", [(DM, "constraints=[ws >= 0, cp.sum(ws) == 1]", "constraints=[ws >= 0, cp.sum(ws) <= 1]")]),
("c14_d_shift", "C14", [(DM, "fitted_arr = fitted_arr + 1e-200", "fitted_arr = fitted_arr + 1e-3")]),
("c14_d_neg_ok", "C14", [(DM, "        if not all(frequency_histogram >= 0):", "        if not all(frequency_histogram[1:] >= 0):")]),
("c14_d_sum", "C14", [(DM, "        if sum(frequency_histogram) <= 0:", "        if len(frequency_histogram) < 0:")]),
("c14_d_refit_state", "C14", [(DM, "        scaled_component_pmfs = [\n", "        if customized_max_freq is not None:\n            self.max_freq = max(self.max_freq, customized_max_freq)\n        scaled_component_pmfs = [\n")]),
("c14_d_scale_cap", "C14", [(DM, "                poisson_mean=c * scaling_factor,", "                poisson_mean=min(c * scaling_factor, 100.0),")]),
("c14_d_zero_freq", "C14", [(DM, "                    if customized_max_freq is None\n", "                    if not customized_max_freq\n")]),
("c14_d_hist_alias", "C14", [(DM, "self.max_freq = len(frequency_histogram) - 1", "self.max_freq = len(np.trim_zeros(frequency_histogram, 'b')) - 1 or 1")]),
]
