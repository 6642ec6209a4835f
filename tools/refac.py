"""author tool: behaviour-preserving edits of /repo on which every check must stay quiet.
refac.py [name-regex] [props-regex] -- runs the deductive phase of all properties and the oracles on scratch copies"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
B = "mixture_models/_base.py"
U = "mixture_models/_utils.py"
F = "utils/functions.py"
WB = "weight_models/_base.py"
DP, PY, GP, BIB, BB, BE, BD, DD, FW, EW = ["weight_models/_%s.py" % x for x in (
    "dirichlet_process", "pitman_yor_process", "geometric_process", "beta_in_beta", "beta_binomial", "beta_bernoulli", "beta_in_dirichlet", "dirichlet_distribution", "frequency", "equal")]
CUM = "self.v * np.cumprod(np.concatenate(([1],\n                                                         1 - self.v[:-1])))"
R = {}

# ---- helpers extracted
R["dp-helper-weights"] = [(DP, "            self.w = self.v * np.cumprod(np.concatenate(([1],\n                                                         1 - self.v[:-1])))", "            self.w = self._sticks_to_weights()"),
                          (DP, "    def complete(self, size):", "    def _sticks_to_weights(self):\n        remaining = np.cumprod(np.concatenate(([1], 1 - self.v[:-1])))\n        return self.v * remaining\n\n    def complete(self, size):")]
R["dp-helper-counts"] = [(DP, "            a_c = np.bincount(self.d)\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n", "            a_c, b_c = self._counts()\n"),
                         (DP, "    def complete(self, size):", "    def _counts(self):\n        a_c = np.bincount(self.d)\n        b_c = a_c.sum() - np.cumsum(a_c)\n        return a_c, b_c\n\n    def complete(self, size):")]
R["py-loop-weights"] = [(PY, "            self.w = self.v * np.cumprod(np.concatenate(([1],\n                                                         1 - self.v[:-1])))\n        return self.w", "            rest = 1.0\n            w = np.empty(len(self.v), dtype=np.float64)\n            for j in range(len(self.v)):\n                w[j] = self.v[j] * rest\n                rest *= 1 - self.v[j]\n            self.w = w\n        return self.w")]
R["py-arange-zero"] = [(PY, "            pitman_yor_bias = np.arange(1, size + 1)\n            self.v = self._rng.beta(a=1 - self.pyd,\n                                    b=self.alpha + pitman_yor_bias * self.pyd,\n                                    size=size)",
                        "            index = np.arange(size)\n            self.v = self._rng.beta(1 - self.pyd, self.alpha + (index + 1) * self.pyd)")]
R["bib-helper-params"] = [(BIB, "                concat_value = self._rng.beta(\n                    a=1 + self.x / (1 - self.x) * self.p,\n                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p),\n                    size=size - len(self.v)\n                )",
                           "                odds = self.x / (1 - self.x)\n                shape_a, shape_b = 1 + odds * self.p, self.alpha + odds * (1 - self.p)\n                missing = size - len(self.v)\n                concat_value = self._rng.beta(shape_a, shape_b, missing)")]
R["geo-tail-order"] = [(GP, "        self.v = self.v[:0]\n        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())\n", "        n_obs, total = len(self.d), np.sum(self.d)\n        self.p = self._rng.beta(a=self.a + n_obs, b=self.b + total)\n        self.v = np.array([], dtype=np.float64)\n")]
R["geo-full"] = [(GP, "            self.v = np.repeat(self.p, size)", "            self.v = np.full(size, self.p)")]
R["tail-size-helper"] = [(WB, "        while self.w.sum() < x:\n            self.complete(len(self.w) + 1)\n        return self.w", "        while True:\n            if np.sum(self.w) >= x:\n                break\n            self.complete(self.get_size() + 1)\n        return self.get_weights()")]
R["random-assign-searchsorted"] = [(WB, "        inverse_sampling = np.greater.outer(\n            u, self.get_normalized_cumulative_weights()\n        )\n        return np.sum(inverse_sampling, axis=-1)", "        cumulative = self.get_normalized_cumulative_weights()\n        return np.searchsorted(cumulative, u)")]
R["random-assign-compare"] = [(WB, "        inverse_sampling = np.greater.outer(\n            u, self.get_normalized_cumulative_weights()\n        )\n        return np.sum(inverse_sampling, axis=-1)", "        cumulative = self.get_normalized_cumulative_weights()\n        passed = np.asarray(u)[..., None] > cumulative\n        return passed.sum(axis=-1)")]
R["assign-loglik-mask"] = [(WB, "        self.complete(max(d) + 1)\n        with np.errstate(divide='ignore'):\n            ret = np.sum(np.log(self.w[d]))\n        return ret", "        size = np.max(d) + 1\n        self.complete(size)\n        with np.errstate(divide='ignore'):\n            log_w = np.log(self.w)\n        return log_w[d].sum()")]
R["norm-weights"] = [(WB, "        return self.w / np.sum(self.w)", "        total = self.w.sum()\n        return self.w / total")]
R["dp-var-list"] = [(DP, "        res = 0\n        for jj in range(j):\n            res += mean_log_beta(self.variational_params[jj][1],\n                                 self.variational_params[jj][0])\n", "        params = self.variational_params\n        res = sum(mean_log_beta(params[i, 1], params[i, 0]) for i in range(j))\n")]
R["dp-var-vector"] = [(DP, "        for jj in range(j):\n            res *= (self.variational_params[jj][1] /\n                    self.variational_params[jj].sum())\n", "        below = self.variational_params[:j]\n        res *= np.prod(below[:, 1] / below.sum(axis=1))\n")]
R["dp-pdw-dot"] = [(DP, "        for j, nj in enumerate(np.sum(_variational_d, 1)):\n            res += nj * self.variational_mean_log_w_j(j)\n", "        counts = np.sum(_variational_d, axis=1)\n        for j in range(len(counts)):\n            res += counts[j] * self.variational_mean_log_w_j(j)\n")]
R["dp-loglik-from-v"] = [(DP, "        prod_v = 1 - v\n        for wj in self.w[1:]:\n            v = wj / prod_v\n            ret += log_likelihood_beta(v, 1, self.alpha)\n            prod_v *= (1 - v)\n", "        remaining = 1 - v\n        for j in range(1, len(self.w)):\n            v = self.w[j] / remaining\n            remaining = remaining * (1 - v)\n            ret = ret + log_likelihood_beta(v, 1, self.alpha)\n")]
R["dd-bincount-minlength"] = [(DD, "                a_c = np.bincount(self.d)\n                a_c.resize(len(self.alpha), refcheck=False)\n                self.w = self._rng.dirichlet(self.alpha + a_c)", "                counts = np.bincount(self.d, minlength=len(self.alpha))\n                posterior = counts + self.alpha\n                self.w = self._rng.dirichlet(posterior)")]
R["dd-lognorm"] = [(DD, "        log_sum = loggamma(np.sum(_alpha))\n        for a_j in _alpha:\n            log_sum -= loggamma(a_j)\n        return log_sum", "        return loggamma(np.sum(_alpha)) - np.sum(loggamma(_alpha))")]
R["fw-normalise"] = [(FW, "            self.w = np.bincount(self.d)\n            self.w = self.w / self.w.sum()", "            counts = np.bincount(self.d)\n            self.w = counts / len(self.d)")]
R["ew-full"] = [(EW, "        self.w = np.repeat(1 / self.n, self.n)", "        self.w = np.full(self.n, 1 / self.n)")]
R["be-mask-name"] = [(BE, "            self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)\n            self.v = self.v[mask_change]", "            values = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)\n            self.v = values[mask_change]")]
R["bb-lists"] = [(BB, "            self.binomials = np.append(self.binomials,\n                                       self._rng.binomial(self.n, self.v[-1]))\n", "            count = self._rng.binomial(self.n, self.v[-1])\n            self.binomials = np.append(self.binomials, count)\n")]
R["bd-unique"] = [(BD, "        for vj in v_unique:\n            ret += log_likelihood_beta(vj, 1, self.alpha)\n", "        ret += np.sum(log_likelihood_beta(v_unique, 1, self.alpha))\n")]
# ---- other library functions
R["dp-hstack-flip"] = [(DP, "b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))", "b_c = np.hstack((np.flip(np.cumsum(np.flip(a_c)))[1:], [0]))"),
                       (DP, "self.v * np.cumprod(np.concatenate(([1],\n                                                         1 - self.v[:-1])))", "self.v * np.cumprod(np.hstack([1, 1 - self.v[:-1]]))")]
R["bd-count-nonzero"] = [(BD, "            np.sum(self._d_base == j) for j", "            np.count_nonzero(self._d_base == j) for j")]
R["gp-full-like"] = [(GP, "            self.v = np.repeat(self.p, size)", "            self.v = np.full_like(np.arange(size), self.p, dtype=np.float64)")]
# ---- Beta-in-Dirichlet
R['bd-new-logprob-helper'] = [(BD, '                    temp_log_prob = (\n                            np.log(self.a) + np.log(self.alpha)\n                            + loggamma(1 + a_c[j])\n                            + loggamma(self.alpha + b_c[j])\n                            - loggamma(1 + self.alpha + a_c[j] + b_c[j]))\n', '                    temp_log_prob = self._log_prob_new(a_c[j], b_c[j])\n'), (BD, '    def complete(self, size):', '    def _log_prob_new(self, above, beyond):\n        return (np.log(self.a) + np.log(self.alpha)\n                + loggamma(1 + above) + loggamma(self.alpha + beyond)\n                - loggamma(1 + self.alpha + above + beyond))\n\n    def complete(self, size):')]
R['bd-members-mask'] = [(BD, '            a_c_base = np.sum(a_c[self._d_base == jj])\n            b_c_base = np.sum(b_c[self._d_base == jj])\n            v_base[jj] = self._rng.beta(a=1 + a_c_base,\n                                        b=self.alpha + b_c_base)\n', '            members = self._d_base == jj\n            v_base[jj] = self._rng.beta(a=1 + a_c[members].sum(),\n                                        b=self.alpha + b_c[members].sum())\n')]
R['bd-not-tied'] = [(BD, 'if not np.any(d_base_reduced == new_d):', 'if np.sum(d_base_reduced == new_d) == 0:')]
R['bd-not-tied-in'] = [(BD, 'if not np.any(d_base_reduced == new_d):', 'if new_d not in d_base_reduced:')]
R['bd-store-first'] = [(BD, '            self._d_base[j] = new_d\n', ''), (BD, '            if not np.any(d_base_reduced == new_d):', '            self._d_base[j] = new_d\n            if not np.any(d_base_reduced == new_d):')]
R['bd-log1p'] = [(BD, 'b_c[j] * np.log(1 - self._v_base[dd])', 'b_c[j] * np.log1p(-self._v_base[dd])')]
R['bd-sweep-method'] = [(BD, '            if self.a == 0:\n                if j < len(self._d_base):\n                    self._d_base[j] = 0\n                else:\n                    self._d_base = np.append(self._d_base, 0)\n                continue\n            d_base_reduced = np.delete(self._d_base, j)\n            k = np.max(d_base_reduced, initial=-1)\n            log_prob = []\n            new_base = False\n            for dd in range(k + 2):\n                base_count = sum(d_base_reduced == dd)\n                if base_count == 0 and not new_base:\n                    new_base = True\n                    temp_log_prob = (\n                            np.log(self.a) + np.log(self.alpha)\n                            + loggamma(1 + a_c[j])\n                            + loggamma(self.alpha + b_c[j])\n                            - loggamma(1 + self.alpha + a_c[j] + b_c[j]))\n                    log_prob.append(temp_log_prob)\n                    continue\n                if base_count == 0:\n                    if dd < k + 1:\n                        log_prob.append(-np.inf)\n                    continue\n                temp_log_prob = (\n                        np.log(base_count)\n                        + a_c[j] * np.log(self._v_base[dd])\n                        + b_c[j] * np.log(1 - self._v_base[dd]))\n                log_prob.append(temp_log_prob)\n            log_prob = np.array(log_prob)\n            new_d = gumbel_max_sampling(log_prob, rng=self._rng)\n            if not np.any(d_base_reduced == new_d):\n                # The stick is tied to no other, draw its own value\n                new_v = self._rng.beta(a=1 + a_c[j], b=self.alpha + b_c[j])\n                if new_d < len(self._v_base):\n                    self._v_base[new_d] = new_v\n                else:\n                    self._v_base = np.append(self._v_base, new_v)\n            self._d_base[j] = new_d\n', '            self._update_base(j, a_c, b_c)\n'), (BD, '    def complete(self, size):', '    def _update_base(self, j, a_c, b_c):\n        if self.a == 0:\n            if j < len(self._d_base):\n                self._d_base[j] = 0\n            else:\n                self._d_base = np.append(self._d_base, 0)\n            return\n        d_base_reduced = np.delete(self._d_base, j)\n        k = np.max(d_base_reduced, initial=-1)\n        log_prob = []\n        new_base = False\n        for dd in range(k + 2):\n            base_count = sum(d_base_reduced == dd)\n            if base_count == 0 and not new_base:\n                new_base = True\n                temp_log_prob = (\n                        np.log(self.a) + np.log(self.alpha)\n                        + loggamma(1 + a_c[j])\n                        + loggamma(self.alpha + b_c[j])\n                        - loggamma(1 + self.alpha + a_c[j] + b_c[j]))\n                log_prob.append(temp_log_prob)\n                continue\n            if base_count == 0:\n                if dd < k + 1:\n                    log_prob.append(-np.inf)\n                continue\n            temp_log_prob = (\n                    np.log(base_count)\n                    + a_c[j] * np.log(self._v_base[dd])\n                    + b_c[j] * np.log(1 - self._v_base[dd]))\n            log_prob.append(temp_log_prob)\n        log_prob = np.array(log_prob)\n        new_d = gumbel_max_sampling(log_prob, rng=self._rng)\n        if not np.any(d_base_reduced == new_d):\n            # The stick is tied to no other, draw its own value\n            new_v = self._rng.beta(a=1 + a_c[j], b=self.alpha + b_c[j])\n            if new_d < len(self._v_base):\n                self._v_base[new_d] = new_v\n            else:\n                self._v_base = np.append(self._v_base, new_v)\n        self._d_base[j] = new_d\n\n    def complete(self, size):')]
R['bd-counts-array'] = [(BD, 'base_count = sum(d_base_reduced == dd)', 'base_count = np.count_nonzero(d_base_reduced == dd)')]
R['bd-counts-once'] = [(BD, '            log_prob = []\n', '            counts = np.bincount(d_base_reduced, minlength=k + 2)\n            log_prob = []\n'), (BD, 'base_count = sum(d_base_reduced == dd)', 'base_count = counts[dd]')]
R['bd-elif'] = [(BD, '                if base_count == 0 and not new_base:\n                    new_base = True\n                    temp_log_prob = (\n                            np.log(self.a) + np.log(self.alpha)\n                            + loggamma(1 + a_c[j])\n                            + loggamma(self.alpha + b_c[j])\n                            - loggamma(1 + self.alpha + a_c[j] + b_c[j]))\n                    log_prob.append(temp_log_prob)\n                    continue\n                if base_count == 0:\n                    if dd < k + 1:\n                        log_prob.append(-np.inf)\n                    continue\n                temp_log_prob = (\n                        np.log(base_count)\n                        + a_c[j] * np.log(self._v_base[dd])\n                        + b_c[j] * np.log(1 - self._v_base[dd]))\n                log_prob.append(temp_log_prob)\n', '                if base_count > 0:\n                    log_prob.append(\n                        np.log(base_count)\n                        + a_c[j] * np.log(self._v_base[dd])\n                        + b_c[j] * np.log(1 - self._v_base[dd]))\n                elif not new_base:\n                    new_base = True\n                    log_prob.append(\n                        np.log(self.a) + np.log(self.alpha)\n                        + loggamma(1 + a_c[j])\n                        + loggamma(self.alpha + b_c[j])\n                        - loggamma(1 + self.alpha + a_c[j] + b_c[j]))\n                elif dd < k + 1:\n                    log_prob.append(-np.inf)\n')]
R['bd-pad-zeros'] = [(BD, '                [self._d_base, [0] * (n - len(self._d_base))])', '                [self._d_base, np.zeros(n - len(self._d_base), dtype=np.int64)])')]
R['bd-hoist-a0'] = [(BD, '            if self.a == 0:\n                if j < len(self._d_base):\n                    self._d_base[j] = 0\n                else:\n                    self._d_base = np.append(self._d_base, 0)\n                continue\n', ''), (BD, '        for j in range(n):\n', '        if self.a == 0:\n            self._d_base = np.zeros(n, dtype=np.int64)\n        for j in range(n if self.a != 0 else 0):\n')]
R['bd-counts-bincount'] = [(BD, '        self._count_base = [\n            np.sum(self._d_base == j) for j in range(len(self._v_base))]\n', '        self._count_base = list(np.bincount(self._d_base, minlength=len(self._v_base)))\n')]
R['bd-complete-p'] = [(BD, '            p = np.array(self._count_base + [self.a], dtype=np.float64)\n            p /= p.sum()\n', '            counts = np.array(self._count_base + [self.a], dtype=np.float64)\n            p = counts / np.sum(counts)\n')]
R['bd-vcumsum-helper'] = [(BD, '        b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n', '        b_c = a_c.sum() - np.cumsum(a_c)\n')]

# ---- mixture base
R["gibbs-inline-step"] = [(B, "        for _ in burn_in_iterator:\n            self._gibbs_step()\n", "        for _ in burn_in_iterator:\n            self._update_atoms()\n            self._update_weights()\n            self._update_d()\n")]
R["gibbs-rename"] = [(B, "self._gibbs_step()", "self._step()"), (B, "def _gibbs_step(self)", "def _step(self)")]
R["gibbs-single-loop"] = [(B, "        for _ in burn_in_iterator:\n            self._gibbs_step()\n            self._update_map_params()\n", "        for _ in burn_in_iterator:\n            self._sweep()\n"),
                          (B, "        for i in range_iterator:\n            self._gibbs_step()\n            self._update_map_params()\n", "        for i in range_iterator:\n            self._sweep()\n"),
                          (B, "    def _gibbs_step(self):", "    def _sweep(self):\n        self._gibbs_step()\n        self._update_map_params()\n\n    def _gibbs_step(self):")]
R["gibbs-save-counter"] = [(B, "            if i % self.subsample_steps == 0:\n                self._save_params()", "            keep = not i % self.subsample_steps\n            if keep:\n                self._save_params()")]
R["save-order"] = [(B, "        self.sim_params.append(self._get_run_params())\n        self.n_groups.append(len(np.unique(self.d)))\n        self.n_atoms.append(len(self.theta))\n        self.affinity_matrix += np.equal(self.d, self.d[:, None])\n        self.total_saved_steps += 1\n",
                    "        self.total_saved_steps += 1\n        self.affinity_matrix += self.d[:, None] == self.d[None, :]\n        params = self._get_run_params()\n        self.sim_params.append(params)\n        self.n_atoms.append(len(params['theta']))\n        occupied = np.unique(self.d)\n        self.n_groups.append(len(occupied))\n")]
R["map-nested"] = [(B, "        if self.map_log_likelihood < run_log_likelihood:\n            self.map_log_likelihood = run_log_likelihood\n            self.map_sim_params = self._get_run_params()\n        elif self.map_log_likelihood == -np.inf:\n            # Save the params to get something to compare\n            self.map_sim_params = self._get_run_params()\n",
                    "        better = run_log_likelihood > self.map_log_likelihood\n        if better or self.map_log_likelihood == -np.inf:\n            self.map_sim_params = self._get_run_params()\n        if better:\n            self.map_log_likelihood = run_log_likelihood\n")]
R["run-params-copy"] = [(B, "        return {\"w\": self.weight_model.get_weights(),\n                \"theta\": dict(self.theta),\n                \"u\": self.u,\n                \"d\": self.d}", "        params = dict(theta=dict(self.theta))\n        params[\"w\"] = self.weight_model.get_weights().copy()\n        params[\"u\"] = self.u.copy()\n        params[\"d\"] = self.d.copy()\n        return params")]
R["ylik-mask"] = [(B, "                ret += np.sum(multivariate_normal.logpdf(self.y[self.d == j],\n                                                         self.theta[j][0],\n                                                         self.theta[j][1],\n                                                         1))\n", "                mu, sigma = self.theta[j]\n                members = self.y[self.d == j]\n                ret += multivariate_normal.logpdf(members, mean=mu, cov=sigma,\n                                                  allow_singular=True).sum()\n")]
R["dlik-loop"] = [(B, "            log_probability = np.array(\n                [np.atleast_1d(multivariate_normal.logpdf(self.y,\n                                                          self.theta[j][0],\n                                                          self.theta[j][1],\n                                                          1))\n                 for j in range(self.weight_model.get_size())]\n            )\n",
                   "            rows = []\n            for j in range(self.weight_model.get_size()):\n                mu, sigma = self.theta[j]\n                rows.append(np.atleast_1d(\n                    multivariate_normal.logpdf(self.y, mu, sigma, 1)))\n            log_probability = np.array(rows)\n")]
R["dlik-where"] = [(B, "            log_probability += np.log(np.greater.outer(\n                self.weight_model.get_weights(),\n                self.u))\n", "            admissible = self.weight_model.get_weights()[:, None] > self.u\n            log_probability = np.where(admissible, log_probability, -np.inf)\n")]
R["weights-names"] = [(B, "        self.weight_model.fit(self.d)\n        w = self.weight_model.random()\n        self.u = self.rng.uniform(0 + np.finfo(np.float64).eps,\n                                  w[self.d] + np.finfo(np.float64).eps)\n        self.weight_model.tail(1 - min(self.u))",
                       "        model = self.weight_model\n        eps = np.finfo(np.float64).eps\n        model.fit(self.d)\n        upper = model.random()[self.d] + eps\n        self.u = self.rng.uniform(eps, upper)\n        model.tail(1 - self.u.min())")]
R["atoms-helper"] = [(B, "            temp_mu, temp_sigma = _utils.random_normal_invw(\n                mu=posterior_params[\"mu\"],\n                lam=posterior_params[\"lambda\"],\n                psi=posterior_params[\"psi\"],\n                nu=posterior_params[\"nu\"],\n                rng=self.rng)\n            temp_mu = np.atleast_1d(temp_mu)\n            temp_sigma = np.atleast_2d(temp_sigma)\n            self.theta[j] = (temp_mu, temp_sigma)",
                      "            self.theta[j] = self._draw_atom(**posterior_params)"),
                     (B, "    def _update_d(self):", "    def _draw_atom(self, **params):\n        mu, sigma = _utils.random_normal_invw(\n            params[\"mu\"], params[\"lambda\"], params[\"psi\"], params[\"nu\"],\n            rng=self.rng)\n        return np.atleast_1d(mu), np.atleast_2d(sigma)\n\n    def _update_d(self):")]
R["post-scatter"] = [(U, "    n = len(y)\n    ret_mu = (lam * mu + n * y.mean(axis=0)) / (lam + n)\n    ret_lam = lam + n\n    ret_psi = psi + n * np.cov(y.T, bias=True) + (\n            (lam * n) / (lam + n) * np.outer(y.mean(axis=0) - mu,\n                                             y.mean(axis=0) - mu))",
                      "    n = len(y)\n    y_bar = y.mean(axis=0)\n    ret_lam = lam + n\n    ret_mu = (lam * mu + n * y_bar) / ret_lam\n    centred = y - y_bar\n    scatter = centred.T @ centred\n    gap = y_bar - mu\n    ret_psi = psi + scatter + lam * n / ret_lam * np.outer(gap, gap)")]
R["post-order"] = [(U, "    n = len(y)\n    ret_mu = (lam * mu + n * y.mean(axis=0)) / (lam + n)\n    ret_lam = lam + n\n", "    n = y.shape[0]\n    ret_lam = lam + n\n    mean = np.mean(y, axis=0)\n    ret_mu = (lam * mu + n * mean) / ret_lam\n")]
R["normal-invw-inline"] = [(U, "    ret_sigma = invwishart.rvs(nu, psi,\n                               random_state=rng)\n    ret_mu = multivariate_normal.rvs(mu, ret_sigma / lam,\n                                     random_state=rng)\n    return ret_mu, ret_sigma", "    sigma = invwishart.rvs(df=nu, scale=psi, random_state=rng)\n    cov = sigma / lam\n    mu = multivariate_normal.rvs(mean=mu, cov=cov, random_state=rng)\n    return mu, sigma")]
R["gumbel-name"] = [(U, "        ret = np.argmax(logp -\n                        np.log(-np.log(rng.uniform(size=logp.shape))), axis=0)", "        noise = -np.log(-np.log(rng.uniform(size=logp.shape)))\n        ret = (logp + noise).argmax(axis=0)")]
R["reject-loop"] = [(U, "        x = rng.uniform(a, b)\n        y = rng.uniform(0, max_y)\n        while y > f(x):\n            x = rng.uniform(a, b)\n            y = rng.uniform(0, max_y)\n        return x", "        while True:\n            x = rng.uniform(a, b)\n            y = rng.uniform(0, max_y)\n            if y <= f(x):\n                return x")]
R["mixdens-accumulate"] = [(U, "    ret = []\n    if component is None:", "    if isinstance(dim, list):\n        dim = np.array(dim)\n    ret = []\n    if component is None:")]
R["mixdens-ix"] = [(U, "theta[j][1][:, dim][dim, :],", "theta[j][1][np.ix_(dim, dim)],")]
R["mixdens-helper"] = [(U, "    ret = np.array(ret).T\n    ret = np.atleast_2d(ret).sum(1)\n    return ret\n", "    return _sum_components(ret)\n"), (U, "def cluster(x, w, theta):", "def _sum_components(parts):\n    parts = np.atleast_2d(np.array(parts).T)\n    return parts.sum(axis=1)\n\n\ndef cluster(x, w, theta):")]
R["cluster-names"] = [(U, "    assign_prob = np.exp(assign_prob - assign_prob.max(1)[:, None])\n    assign_prob /= assign_prob.sum(1)[:, None]\n    grp = np.argmax(assign_prob, axis=1)\n    uncertainty = 1 - assign_prob[range(len(x)), grp]\n    u_grp, ret = np.unique(grp, return_inverse=True)\n    return ret, uncertainty",
                       "    assign_prob -= assign_prob.max(axis=1, keepdims=True)\n    prob = np.exp(assign_prob)\n    prob = prob / prob.sum(axis=1, keepdims=True)\n    grp = prob.argmax(axis=1)\n    uncertainty = 1 - prob[np.arange(len(x)), grp]\n    ret = np.unique(grp, return_inverse=True)[1]\n    return ret, uncertainty")]
R["cluster-maxprob"] = [(U, "    uncertainty = 1 - assign_prob[range(len(x)), grp]\n", "    uncertainty = 1 - assign_prob.max(axis=1)\n")]
R["wishart-sum"] = [(U, "    for i in range(dim):\n        inverse_term += loggamma((scale - i) / 2)\n    res -= inverse_term\n    return res", "    inverse_term += np.sum(loggamma((scale - np.arange(dim)) / 2))\n    return res - inverse_term")]
R["elog-gen"] = [(U, "    res = np.linalg.slogdet(precision)[1]\n    res += dim * np.log(2)\n    for i in range(dim):\n        res += digamma((scale - i) / 2)\n    return res", "    _, log_det = np.linalg.slogdet(precision)\n    res = sum(digamma((scale - i) / 2) for i in range(dim))\n    return res + dim * np.log(2) + log_det")]
R["marginal-sigma"] = [(U, "    return np.linalg.inv(np.linalg.inv(precision)[:, dim][dim, :])", "    covariance = np.linalg.inv(precision)\n    covariance = covariance[dim][:, dim]\n    return np.linalg.inv(covariance)")]
R["kmeans-name"] = [(U, "    d = km.fit_predict(y)\n    _, d, d_count = np.unique(d, return_inverse=True, return_counts=True)", "    labels = km.fit(y).labels_\n    _, d, d_count = np.unique(labels, return_inverse=True, return_counts=True)")]
R["kmeans-rank"] = [(U, "    d = np.argsort(np.argsort(-d_count))[d]\n    return d", "    order = np.argsort(-d_count)\n    rank = np.empty_like(order)\n    rank[order] = np.arange(len(order))\n    return rank[d]")]
R["students-t-log"] = [(F, "    density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))\n    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)\n", "    log_ratio = loggamma((nu + dim) / 2) - loggamma(nu / 2)\n    density = np.exp(log_ratio)\n    density = density * np.sqrt(np.linalg.det(precision))\n    density = density / (nu * np.pi) ** (dim / 2)\n")]
R["normal-quad"] = [(F, "    density *= np.exp(- np.einsum('ij,jk,ik->i',\n                                  x - mu, precision, x - mu\n                                  ) / 2)\n    return density", "    gap = x - mu\n    quad = np.sum((gap @ precision) * gap, axis=1)\n    return density * np.exp(-quad / 2)")]
R["eppf"] = [(F, "    res = loggamma(alpha) - loggamma(alpha + n)\n    res += k * np.log(alpha)\n    res += np.sum(loggamma(partition))\n    return res", "    log_blocks = np.sum(loggamma(partition)) + k * np.log(alpha)\n    return log_blocks + loggamma(alpha) - loggamma(alpha + n)")]
R["vard-helper"] = [(B, "        var_d -= var_d.max(axis=0, initial=-np.inf)\n        var_d = np.exp(var_d)\n        var_d += np.finfo(np.float64).eps\n        var_d /= var_d.sum(axis=0)\n        self.var_d = var_d", "        self.var_d = self._softmax(var_d)\n\n    @staticmethod\n    def _softmax(log_p):\n        p = np.exp(log_p - log_p.max(axis=0, initial=-np.inf))\n        p += np.finfo(np.float64).eps\n        return p / p.sum(axis=0)")]
R["vard-einsum"] = [(B, "            log_d_ji -= (v_scale_j *\n                         ((self.y - v_mu_j).T * (\n                                 v_precision_j @ (self.y - v_mu_j).T)).sum(0)\n                         ) / 2\n", "            gap = self.y - v_mu_j\n            log_d_ji = log_d_ji - v_scale_j / 2 * np.einsum(\n                'ij,jk,ik->i', gap, v_precision_j, gap)\n")]
R["vard-rows"] = [(B, "        var_d = np.zeros((self.var_k, self.y.shape[0]), dtype=np.float64)\n        for j, vt_j in enumerate(self.var_theta):\n            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j\n            log_d_ji = self.weight_model.variational_mean_log_w_j(j)\n            log_d_ji += _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2\n            log_d_ji -= dim * np.log(2 * np.pi) / 2\n",
                   "        var_d = np.empty((self.var_k, len(self.y)))\n        for j in range(self.var_k):\n            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = self.var_theta[j]\n            log_d_ji = _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2\n            log_d_ji += self.weight_model.variational_mean_log_w_j(j)\n            log_d_ji -= dim * np.log(2 * np.pi) / 2\n")]
R["vartheta-matmul"] = [(B, "            ns_j = np.einsum('i,ij,ik->jk',\n                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j)\n                             )\n", "            centred = self.y - x_bar_j\n            ns_j = (vd_j[:, None] * centred).T @ centred\n")]
R["vartheta-reorder"] = [(B, "            v_lambda_j = self.lambda_prior + n_j\n            v_scale_j = self.nu_prior + n_j\n            v_mu_j = (self.lambda_prior * self.mu_prior +\n                      n_j * x_bar_j) / v_lambda_j\n", "            v_scale_j = self.nu_prior + n_j\n            v_lambda_j = self.lambda_prior + n_j\n            total = self.lambda_prior * self.mu_prior + vd_j @ self.y\n            v_mu_j = total / v_lambda_j\n")]
R["maxvar-inline"] = [(B, "        self._update_var_d()\n        self._update_var_w()\n        self._update_var_theta()\n\n    def _calc_elbo", "        self._update_var_d()\n        self.weight_model.fit_variational(self.var_d)\n        self._update_var_theta()\n\n    def _calc_elbo")]
R["elbo-sum"] = [(B, "        ret = 0\n        ret += self._e_q_log_p_x()\n        ret += self._e_q_log_p_d__w()\n        ret += self._e_log_p_w()\n        ret += self._e_log_p_theta()\n        ret -= self._e_log_q_d()\n        ret -= self._e_loq_q_w()\n        ret -= self._e_log_q_theta()\n        return ret", "        joint = (self._e_q_log_p_x() + self._e_q_log_p_d__w()\n                 + self._e_log_p_w() + self._e_log_p_theta())\n        entropy = -(self._e_log_q_d() + self._e_loq_q_w()\n                    + self._e_log_q_theta())\n        return joint + entropy")]
R["elbo-px-direct"] = [(B, "            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)\n            res_j -= (v_scale_j *\n                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)\n                      )\n", "            gap_j = x_bar_j - v_mu_j\n            spread_j = np.trace(s_j @ v_precision_j)\n            res_j -= v_scale_j * (spread_j + gap_j @ v_precision_j @ gap_j)\n")]
R["fitvar-for"] = [(B, "        while elbo_diff > tol and iterations < self.total_iter:\n            self._maximize_variational()\n            prev_elbo = elbo\n            elbo = self._calc_elbo()\n            elbo_diff = abs(prev_elbo - elbo)\n            iterations += 1\n            if t is not None:\n                t.update()\n", "        for _ in range(self.total_iter):\n            if not elbo_diff > tol:\n                break\n            self._maximize_variational()\n            new_elbo = self._calc_elbo()\n            elbo_diff = abs(new_elbo - elbo)\n            elbo = new_elbo\n            if t is not None:\n                t.update()\n")]
R["fitvar-rename"] = [(B, "self._maximize_variational()", "self._coordinate_ascent()"), (B, "def _maximize_variational(self)", "def _coordinate_ascent(self)")]
R["eap-mean-running"] = [(B, "        y_sim = []\n        if periods is None:\n            sim_params = self.sim_params\n        else:\n            i_start = min(periods, len(self.sim_params))\n            sim_params = self.sim_params[-i_start:]\n        for param in sim_params:\n            y_sim.append(_utils.mixture_density(_y,\n                                                param[\"w\"],\n                                                param[\"theta\"],\n                                                dim=dim,\n                                                component=component))\n        return np.array(y_sim).mean(axis=0)",
                          "        sim_params = self.sim_params\n        if periods is not None:\n            sim_params = sim_params[-min(periods, len(sim_params)):]\n        y_sim = [_utils.mixture_density(_y, p[\"w\"], p[\"theta\"], dim=dim,\n                                        component=component)\n                 for p in sim_params]\n        return np.mean(y_sim, axis=0)")]
R["eap-total"] = [(B, "        return np.array(y_sim).mean(axis=0)", "        total = 0\n        for density in y_sim:\n            total = total + density\n        return total / len(y_sim)")]
R["affinity-list"] = [(B, "        affinity_matrix = np.zeros((len(_y), len(_y)))\n        for params in self.sim_params:\n            grouping = _utils.cluster(_y, params[\"w\"], params[\"theta\"])[0]\n            affinity_matrix += np.equal(grouping, grouping[:, None])\n        affinity_matrix /= len(self.sim_params)\n        return affinity_matrix", "        n = len(_y)\n        matches = np.zeros((n, n))\n        for params in self.sim_params:\n            labels, _ = _utils.cluster(_y, params[\"w\"], params[\"theta\"])\n            matches = matches + (labels[:, None] == labels[None, :])\n        return matches / len(self.sim_params)")]
R["var-density-helper"] = [(B, "        if dim is None:\n            dim = np.arange(_y.shape[1])\n        dim = np.atleast_1d(dim)\n        f_x = np.zeros(len(_y))\n", "        dim = self._dimensions(_y, dim)\n        f_x = np.zeros(len(_y))\n"), (B, "    def get_n_groups(self):", "    @staticmethod\n    def _dimensions(_y, dim):\n        if dim is None:\n            return np.arange(_y.shape[1])\n        return np.atleast_1d(dim)\n\n    def get_n_groups(self):")]
R["var-density-range"] = [(B, "        if component is None:\n            iterator = enumerate(self.var_theta)\n        else:\n            iterator = [(component, self.var_theta[component])]\n        for j, vt_j in iterator:\n", "        components = range(len(self.var_theta))\n        if component is not None:\n            components = [component]\n        for j in components:\n            vt_j = self.var_theta[j]\n")]
R["varcluster-shared"] = [(B, "        if y is None:\n            if not full:\n                return self.var_d.argmax(0)\n            else:\n                d = self.var_d.argmax(0)\n                return d, 1 - self.var_d[d, range(len(d))]\n", "        if y is None:\n            d = np.argmax(self.var_d, axis=0)\n            if full:\n                return d, 1 - self.var_d.max(axis=0)\n            return d\n")]
R["notfitted-helper"] = [(B, "        if not self.var_fitted:\n            raise NotFittedError(\"Object must be fitted with fit_variational\"\n                                 \" method\")\n", "        self._require_variational()\n"), (B, "    def get_n_groups(self):", "    def _require_variational(self):\n        if not self.var_fitted:\n            raise NotFittedError(\n                \"Object must be fitted with fit_variational method\")\n\n    def get_n_groups(self):")]
R["cast-split"] = [(B, "                if y.ndim == 1:\n                    _y = y.copy()\n                    _y = y.reshape(-1, 1)\n                else:\n                    _y = y\n", "                _y = y\n                if _y.ndim == 1:\n                    _y = _y[:, None]\n")]
R["common-helper"] = [(B, "        if \"mu_prior\" in self._data_priors:\n            self.mu_prior = self.y.mean(axis=0)\n        else:\n            self.mu_prior = np.array(self.mu_prior)\n", "        self._initialize_priors()\n\n    def _initialize_priors(self):\n        if \"mu_prior\" in self._data_priors:\n            self.mu_prior = np.mean(self.y, axis=0)\n        else:\n            self.mu_prior = np.array(self.mu_prior)\n")]
R["init-gibbs-order"] = [(B, "        self.theta = defaultdict(atom_generator)\n        self.affinity_matrix = np.zeros((len(self.y), len(self.y)))\n        self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,\n                                  len(self.y))\n        self.weight_model.reset()\n", "        self.weight_model.reset()\n        n_obs = len(self.y)\n        self.u = self.rng.uniform(np.finfo(np.float64).eps, 1, size=n_obs)\n        self.affinity_matrix = np.zeros((n_obs, n_obs))\n        self.theta = defaultdict(atom_generator)\n")]
R["init-clear-helper"] = [(B, "        self.sim_params = []\n        self.n_groups = []\n        self.n_atoms = []\n        self.total_saved_steps = 0\n        self.map_sim_params = None\n        self.map_log_likelihood = -np.inf\n\n        self.theta", "        self._clear_saved()\n        self.theta"), (B, "    def _get_run_params(self):", "    def _clear_saved(self):\n        self.map_log_likelihood = -np.inf\n        self.map_sim_params = None\n        self.sim_params, self.n_groups, self.n_atoms = [], [], []\n        self.total_saved_steps = 0\n\n    def _get_run_params(self):")]
R["init-var-onehot"] = [(B, "            var_d = np.zeros((self.var_k, self.y.shape[0]),\n                             dtype=np.float64)\n            var_d[d, range(len(d))] = 1\n            self.var_d = var_d\n", "            self.var_d = np.zeros((self.var_k, len(self.y)))\n            self.var_d[d, np.arange(len(d))] = 1.0\n")]
R["st-cum"] = [(WB, "        return np.cumsum(self.get_normalized_weights())", "        if self._cum_of is not self.w:\n            self._cum = np.cumsum(self.get_normalized_weights())\n            self._cum_of = self.w\n        return self._cum.copy()"),
               (WB, "        self.w = np.array([], dtype=np.float64)", "        self.w = np.array([], dtype=np.float64)\n        self._cum_of, self._cum = None, None")]
R["st-counts"] = [(WB, "        self.d = np.array(d)", "        self.d = np.array(d)\n        self._counts = np.bincount(self.d) if len(self.d) else None"),
                  (WB, "        \"\"\"Resets the conditional vector `d` to None\"\"\"\n", "        \"\"\"Resets the conditional vector `d` to None\"\"\"\n        self._counts = None\n"),
                  (DP, "            a_c = np.bincount(self.d)\n", "            a_c = self._counts\n")]
R["st-labels"] = [(B, "        log_prob = self._d_log_likelihood_vector()\n        self.d = _utils.gumbel_max_sampling(log_prob, rng=self.rng)\n", "        log_prob = self._d_log_likelihood_vector()\n        self._set_d(_utils.gumbel_max_sampling(log_prob, rng=self.rng))\n\n    def _set_d(self, d):\n        self.d = d\n        self._labels = np.unique(d)\n"),
                  (B, "            self.d = _utils.kmeans_cluster_size_biased(self.y, n, self.rng)", "            self._set_d(_utils.kmeans_cluster_size_biased(self.y, n, self.rng))"),
                  (B, "            self.d = self.weight_model.random_assignment(len(self.y))", "            self._set_d(self.weight_model.random_assignment(len(self.y)))"),
                  (B, "            self.d = self.var_map_cluster()", "            self._set_d(self.var_map_cluster())"),
                  (B, "            for j in np.unique(self.d):\n                ret +=", "            for j in self._labels:\n                ret +="),
                  (B, "        for j in np.unique(self.d):\n            mask_j", "        for j in self._labels:\n            mask_j")]
R["st-memo"] = [(U, "def log_wishart_normalization_term(precision, scale):\n    dim = precision.shape[0]\n", "_TERMS = {}\n\n\ndef log_wishart_normalization_term(precision, scale):\n    key = (precision.tobytes(), precision.shape, float(scale))\n    if key not in _TERMS:\n        _TERMS[key] = _log_wishart(precision, scale)\n    return _TERMS[key]\n\n\ndef _log_wishart(precision, scale):\n    dim = precision.shape[0]\n")]
R["st-const"] = [(U, "def log_wishart_normalization_term(precision, scale):\n", "_LOG2, _LOGPI = np.log(2), np.log(np.pi)\n\n\ndef log_wishart_normalization_term(precision, scale):\n"), (U, "    inverse_term = np.log(2) * (scale * dim / 2)\n    inverse_term += np.log(np.pi) *", "    inverse_term = _LOG2 * (scale * dim / 2)\n    inverse_term += _LOGPI *")]
R["st-dim"] = [(B, "        self.affinity_matrix = np.zeros((len(self.y), len(self.y)))\n", "        self._n_obs = len(self.y)\n        self.affinity_matrix = np.zeros((self._n_obs, self._n_obs))\n"), (B, "            posterior_params = _utils.posterior_norm_invw_params(\n                self.y[mask_j],", "            self._mask = mask_j\n            posterior_params = _utils.posterior_norm_invw_params(\n                self.y[self._mask],")]
R["comment-all"] = [(f, None, "\n# end of module\n") for f in (B, U, F, WB, DP, PY, GP, BIB, BB, BE, BD, DD, FW, EW)]

props = ["C%02d" % i for i in range(1, 30)]


def one(name, pre):
    d = tempfile.mkdtemp(prefix="refac_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for f, old, new in R[name]:
            p = os.path.join(d, "pyrichlet", f)
            s = open(p).read()
            if old is None:
                s += new
            else:
                assert old in s, (name, f, old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
        if os.environ.get("TESTS"):
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", d], cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True, text=True)
            print("   tests", r.stdout.splitlines()[-1:])
        t = time.time()

        def oracle(p):
            r = subprocess.run(["/opt/venv/bin/python", "-m", "oracle.run", p, "--tier", "quick", "--seed", "1"], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, capture_output=True, text=True)
            try:
                return p, json.loads(r.stdout.splitlines()[-1])["failures"]
            except Exception:
                return p, [r.stderr[-300:]]
        pre = pre or ("C0|C1[01]|C27" if all(x[0].startswith("weight") for x in R[name]) else "C1[2-9]|C2" if len(R[name]) < 5 else "")
        todo = [p for p in props if re.search(pre, p)]
        out = {"oracle": {}, "refuted": [], "lost": []}
        if not os.environ.get("NOORACLE"):
            with cf.ThreadPoolExecutor(8) as ex:
                for p, fails in ex.map(oracle, todo):
                    if fails:
                        out["oracle"][p] = [str(x)[:200] for x in fails[:2]]
        t1 = time.time()
        if os.environ.get("NOVC"):
            print("%-28s" % name, "ALARM %r" % out["oracle"] if out["oracle"] else "QUIET", "oracle only %ds" % (t1 - t), flush=True)
            return
        r = subprocess.run(["/opt/venv/bin/python", "-c", "import sys,json\nfrom pyvc import main\nfor p in sys.argv[1:]:\n    r=main.collect(p,'quick',1,400)\n    print(json.dumps([(p,o['status'],o['name'],o.get('replayed'),(o.get('reason') or '')[:200]) for o in r['obligations'] if o['status']!='proved']))"] + todo,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, capture_output=True, text=True)
        for line in r.stdout.splitlines():
            for p, st, nm, rep, why in json.loads(line):
                (out["refuted"] if st == "refuted" else out["lost"]).append((p, nm, st, rep, why))
        if r.returncode:
            print(r.stderr[-500:])
        print("%-28s %s  oracle %.0fs vc %.0fs" % (name, "QUIET" if not out["oracle"] and not out["refuted"] else "ALARM", t1 - t, time.time() - t1), "lost", len(out["lost"]), flush=True)
        for p, f in out["oracle"].items():
            print("     ORACLE", p, f)
        for x in out["refuted"][:8]:
            print("     REFUTED", x)
        for x in out["lost"][:8]:
            print("     lost", x[0], x[1], x[2], x[4][:150])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for n in R:
        if re.search(sys.argv[1] if len(sys.argv) > 1 else "", n):
            try:
                one(n, sys.argv[2] if len(sys.argv) > 2 else "")
            except AssertionError as e:
                print(n, "DOES NOT APPLY", e)
