"""author tool: bugs that need state kept between calls (caches, skipped updates). hidden.py [name-regex]"""
import json, re, sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import mutants
WB, DP, PY, GP = ["weight_models/_%s.py" % x for x in ("base", "dirichlet_process", "pitman_yor_process", "geometric_process")]
MB, U = "mixture_models/_base.py", "mixture_models/_utils.py"
H = {}
H["cum-cache-by-size"] = ("C07 C01", [(WB, "        return np.cumsum(self.get_normalized_weights())", "        c = getattr(self, '_cum', None)\n        if c is None or len(c) != len(self.w):\n            c = self._cum = np.cumsum(self.get_normalized_weights())\n        return c")])
H["cum-cache-by-size-init"] = ("C07 C01", [(WB, "        return np.cumsum(self.get_normalized_weights())", "        if len(self._cum) != len(self.w):\n            self._cum = np.cumsum(self.get_normalized_weights())\n        return self._cum"),
                                           (WB, "        self.w = np.array([], dtype=np.float64)", "        self.w = np.array([], dtype=np.float64)\n        self._cum = np.array([], dtype=np.float64)")])
H["fit-same-length"] = ("C06 C05", [(WB, "        self.d = np.array(d)", "        if len(self.d) == 0 or len(self.d) != len(d):\n            self.d = np.array(d)\n        else:\n            self.d[:] = self.d if np.array_equal(np.sort(d), np.sort(self.d)) else d")])
H["dp-counts-cache"] = ("C06 C05", [(DP, "            a_c = np.bincount(self.d)\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n\n            if size", "            if getattr(self, '_n_fit', None) != len(self.d):\n                self._counts = np.bincount(self.d)\n                self._n_fit = len(self.d)\n            a_c = self._counts\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n\n            if size")])
H["dp-rest-cache"] = ("C01 C02 C04", [(DP, "            self.w = self.v * np.cumprod(np.concatenate(([1],\n                                                         1 - self.v[:-1])))\n        return self.w\n\n    def fit", "            k = len(self.w)\n            rest = self._rest * np.cumprod(np.concatenate(([1], 1 - self.v[k:])))\n            self.w = np.concatenate((self.w, self.v[k:] * rest[:-1]))\n            self._rest = rest[-1]\n        return self.w\n\n    def fit"),
                                      (DP, "        self.v = self.v[:0]\n        if len(self.d) == 0:", "        self.v = self.v[:0]\n        if len(self.d) == 0:\n            self.w = self.w[:0]"), (DP, "        self.v = np.array([], dtype=np.float64)", "        self.v = np.array([], dtype=np.float64)\n        self._rest = 1.")])
H["eap-density-cache"] = ("C17", [(MB, "    def gibbs_eap_density(self, y=None", "    def gibbs_eap_density(self, y=None, *a, **k):\n        key = (None if y is None else np.shape(y), str(a), str(sorted(k.items())), len(self.sim_params))\n        if getattr(self, '_dens', (None,))[0] != key:\n            self._dens = (key, self._gibbs_eap_density(y, *a, **k))\n        return self._dens[1].copy()\n\n    def _gibbs_eap_density(self, y=None")])
H["atoms-skip-same-count"] = ("C12", [(MB, "            mask_j = self.d == j\n            posterior_params", "            mask_j = self.d == j\n            if j in self.theta and self._sizes.get(j) == mask_j.sum() > 50:\n                continue\n            self._sizes[j] = mask_j.sum()\n            posterior_params"),
                                      (MB, "        self.sim_params = []\n        self.n_groups = []\n        self.n_atoms = []", "        self.sim_params = []\n        self._sizes = {}\n        self.n_groups = []\n        self.n_atoms = []")])
H["ylik-cache-by-d"] = ("C15", [(MB, '        """returns the loglikelihood of f(y|d, w, theta)"""\n        ret = 0', '        """returns the loglikelihood of f(y|d, w, theta)"""\n        if self._last_d is not None and len(self._last_d) == len(self.d) and np.all(self._last_d == self.d):\n            return self._last_ylik\n        ret = 0'),
                                (MB, "                                                         1))\n        return ret\n\n    def _d_log_likelihood(self)", "                                                         1))\n        self._last_d, self._last_ylik = self.d.copy(), ret\n        return ret\n\n    def _d_log_likelihood(self)"),
                                (MB, "        self.sim_params = []\n        self.n_groups = []\n        self.n_atoms = []", "        self.sim_params = []\n        self._last_d = None\n        self.n_groups = []\n        self.n_atoms = []")])
H["post-stats-cache"] = ("C12", [(MB, "            posterior_params = _utils.posterior_norm_invw_params(\n                self.y[mask_j],\n                mu=self.mu_prior,\n                lam=self.lambda_prior,\n                psi=self.psi_prior,\n                nu=self.nu_prior)\n", "            key = (mask_j.sum(), mask_j.argmax())\n            if key not in self._post:\n                self._post[key] = _utils.posterior_norm_invw_params(\n                    self.y[mask_j],\n                    mu=self.mu_prior,\n                    lam=self.lambda_prior,\n                    psi=self.psi_prior,\n                    nu=self.nu_prior)\n            posterior_params = self._post[key]\n"),
                                 (MB, "        self.sim_params = []\n        self.n_groups = []\n        self.n_atoms = []", "        self.sim_params = []\n        self._post = {}\n        self.n_groups = []\n        self.n_atoms = []")])
H["module-cache-wishart"] = ("C29 C21", [(U, "def log_wishart_normalization_term(precision, scale):\n    dim = precision.shape[0]", "_TERMS = {}\n\n\ndef log_wishart_normalization_term(precision, scale):\n    key = (precision.trace(), scale)\n    if key not in _TERMS:\n        _TERMS[key] = _log_wishart_normalization_term(precision, scale)\n    return _TERMS[key]\n\n\ndef _log_wishart_normalization_term(precision, scale):\n    dim = precision.shape[0]")])
H["module-cache-marginal"] = ("C29 C23", [(U, "def marginal_precision(precision, dim):", "_LAST = {}\n\n\ndef marginal_precision(precision, dim):\n    key = (tuple(dim), tuple(np.diag(precision)))\n    if key not in _LAST:\n        _LAST[key] = _marginal_precision(precision, dim)\n    return _LAST[key]\n\n\ndef _marginal_precision(precision, dim):")])
H["noise-reuse"] = ("C28 C13", [(U, "    if size is None:\n        ret = np.argmax(logp -\n                        np.log(-np.log(rng.uniform(size=logp.shape))), axis=0)", "    if size is None:\n        if len(logp.shape) == 2 and _NOISE.get('shape') == logp.shape and _NOISE['used'] < 2:\n            _NOISE['used'] += 1\n        else:\n            _NOISE.update(shape=logp.shape, used=0, u=rng.uniform(size=logp.shape))\n        ret = np.argmax(logp - np.log(-np.log(_NOISE['u'])), axis=0)"),
                            (U, "def gumbel_max_sampling(", "_NOISE = {}\n\n\ndef gumbel_max_sampling(")])
H["cast-cache"] = ("C26", [(MB, "    def _cast_observations(self, y):", "    def _cast_observations(self, y):\n        if y is not None and getattr(self, '_cast', (None,))[0] == id(y):\n            return self._cast[1]\n        r = self._cast_observations_(y)\n        if y is not None:\n            self._cast = (id(y), r)\n        return r\n\n    def _cast_observations_(self, y=None):")])
H["map-cluster-cache"] = ("C18 C15 C24", [(MB, "        _y = self._cast_observations(y)\n        ret = _utils.cluster(_y,\n                             self.map_sim_params[\"w\"],\n                             self.map_sim_params[\"theta\"])\n", "        _y = self._cast_observations(y)\n        if y is None and getattr(self, '_map_cl', (None,))[0] == len(_y):\n            ret = self._map_cl[1]\n        else:\n            ret = _utils.cluster(_y,\n                                 self.map_sim_params[\"w\"],\n                                 self.map_sim_params[\"theta\"])\n            if y is None:\n                self._map_cl = (len(_y), ret)\n")])
H["var-d-warm"] = ("C19", [(MB, "            log_d_ji += _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2\n            log_d_ji -= dim * np.log(2 * np.pi) / 2\n            log_d_ji -= dim / v_lambda_j / 2\n            log_d_ji -= (v_scale_j *\n                         ((self.y - v_mu_j).T * (", "            if (j, v_scale_j) not in self._norms:\n                self._norms[j, v_scale_j] = _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2\n            log_d_ji += self._norms[j, v_scale_j]\n            log_d_ji -= dim * np.log(2 * np.pi) / 2\n            log_d_ji -= dim / v_lambda_j / 2\n            log_d_ji -= (v_scale_j *\n                         ((self.y - v_mu_j).T * ("),
                           (MB, "        self.var_theta = var_theta\n", "        self.var_theta = var_theta\n        self._norms = getattr(self, '_norms', {})\n")])
H["tail-total-cache"] = ("C03", [(WB, "        while self.w.sum() < x:\n            self.complete(len(self.w) + 1)\n", "        total = self._total if self._total_of == len(self.w) else self.w.sum()\n        while total < x:\n            self.complete(len(self.w) + 1)\n            total = self.w.sum()\n        self._total, self._total_of = total, len(self.w)\n"),
                                 (WB, "        self.w = np.array([], dtype=np.float64)", "        self.w = np.array([], dtype=np.float64)\n        self._total, self._total_of = 0., -1")])
H["affinity-incremental"] = ("C18", [(MB, "        self.affinity_matrix += np.equal(self.d, self.d[:, None])\n", "        if self._same_d is None or np.any(self._same_d != np.bincount(self.d)[self.d]):\n            self._eq = np.equal(self.d, self.d[:, None])\n            self._same_d = np.bincount(self.d)[self.d]\n        self.affinity_matrix += self._eq\n"),
                                      (MB, "        self.sim_params = []\n        self.n_groups = []\n        self.n_atoms = []", "        self.sim_params = []\n        self._same_d = None\n        self.n_groups = []\n        self.n_atoms = []")])
H["u-kept"] = ("C13", [(MB, "        self.u = self.rng.uniform(0 + np.finfo(np.float64).eps,\n                                  w[self.d] + np.finfo(np.float64).eps)\n        self.weight_model.tail", "        if self._steps % 7 != 6:\n            self.u = self.rng.uniform(0 + np.finfo(np.float64).eps,\n                                      w[self.d] + np.finfo(np.float64).eps)\n        else:\n            self.u = np.minimum(self.u, w[self.d])\n        self._steps += 1\n        self.weight_model.tail"),
                       (MB, "        self.sim_params = []\n        self.n_groups = []\n        self.n_atoms = []", "        self.sim_params = []\n        self._steps = 0\n        self.n_groups = []\n        self.n_atoms = []")])
# ---- boundaries, tolerances, argument forms
DD, FW, BB, BID = ["weight_models/_%s.py" % x for x in ("dirichlet_distribution", "frequency", "beta_bernoulli", "beta_in_dirichlet")]
H["tail-isclose"] = ("C03", [(WB, "        while self.w.sum() < x:", "        while self.w.sum() < x and not np.isclose(self.w.sum(), x):")])
H["dp-later-truncated"] = ("C05", [(DP, "            a_c = np.bincount(self.d)\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))\n\n            if size is not None and size < len(a_c):\n                a_c = a_c[:size]\n                b_c = b_c[:size]", "            a_c = np.bincount(self.d)[:size]\n            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))")])
H["dd-label-equal-n"] = ("C06", [(DD, "max(self.d) >= len(self.alpha)", "max(self.d) > len(self.alpha)")])
H["loglik-by-counts"] = ("C08", [(WB, "            ret = np.sum(np.log(self.w[d]))", "            counts = np.bincount(d)\n            ret = np.sum(counts * np.log(self.w[:len(counts)]))")])
H["loglik-completes-own"] = ("C08", [(WB, "        self.complete(max(d) + 1)\n        with", "        self.complete(max(self.d, default=0) + 1)\n        with")])
H["cover-mean-slice"] = ("C13", [(MB, "        self.weight_model.tail(1 - min(self.u))\n\n    def _update_atoms", "        if self.weight_model.w.sum() < 1 - np.median(self.u):\n            self.weight_model.tail(1 - min(self.u))\n\n    def _update_atoms")])
H["groups-by-largest"] = ("C14", [(MB, "self.n_groups.append(len(np.unique(self.d)))", "self.n_groups.append(int(self.d.max()) + 1)")])
H["dims-sorted"] = ("C17", [(U, "    elif isinstance(dim, tuple):\n        dim = list(dim)", "    elif isinstance(dim, tuple):\n        dim = sorted(dim)")])
H["small-group-prior"] = ("C20", [(MB, "            ns_j = np.einsum('i,ij,ik->jk',\n                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j)\n                             )", "            ns_j = np.einsum('i,ij,ik->jk',\n                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j)\n                             ) * (n_j > 1)")])
H["elbo-decrease-stops"] = ("C22", [(MB, "            elbo_diff = abs(prev_elbo - elbo)", "            elbo_diff = elbo - prev_elbo")])
H["permuted-dims"] = ("C23", [(U, "    if len(dim) == precision.shape[0] and np.all(\n            dim == np.arange(precision.shape[0])):", "    if len(dim) == precision.shape[0]:")])
H["component-zero-falsy"] = ("C17", [(U, "    if component is None:\n        iterator = range(k)", "    if not component:\n        iterator = range(k)")])
H["var-component-zero"] = ("C23", [(MB, "        if component is None:\n            iterator = enumerate(self.var_theta)", "        if not component:\n            iterator = enumerate(self.var_theta)")])
H["dim-zero-falsy"] = ("C23", [(MB, "        if dim is None:\n            dim = np.arange(_y.shape[1])", "        if not np.any(dim):\n            dim = np.arange(_y.shape[1])")])
H["mask-first-match"] = ("C12", [(MB, "            mask_j = self.d == j\n", "            mask_j = np.flatnonzero(self.d == j)[:256]\n")])
H["cov-ddof"] = ("C12", [(U, "    ret_psi = psi + n * np.cov(y.T, bias=True) + (", "    ret_psi = psi + n * np.cov(y.T, bias=n < 2) + (")])
H["own-data-affinity-new"] = ("C18", [(MB, "        if y is None:\n            return self.affinity_matrix / self.total_saved_steps\n        _y = self._cast_observations(y)", "        _y = self._cast_observations(y)\n        if _y.shape == self.y.shape:\n            return self.affinity_matrix / self.total_saved_steps")])
H["affinity-total-iter"] = ("C18", [(MB, "            return self.affinity_matrix / self.total_saved_steps", "            return self.affinity_matrix / (\n                self.total_iter - self.burn_in) * self.subsample_steps")])
H["var-own-data-when-same-size"] = ("C24", [(MB, "        if y is None:\n            if not full:", "        if y is None or np.shape(y) == self.y.shape:\n            if not full:")])
H["warm-keeps-data"] = ("C16", [(MB, "        self._initialize_common_params(y)\n        if not warm_start:\n            self._initialize_gibbs_params", "        if not (warm_start and self.gibbs_fitted):\n            self._initialize_common_params(y)\n        if not warm_start:\n            self._initialize_gibbs_params")])
H["nu-prior-first-only"] = ("C16", [(MB, '        if "nu_prior" in self._data_priors:\n', '        if self.nu_prior is None:\n')])
H["var-failed-refit"] = ("C25", [(MB, "        elbo = -np.inf\n        elbo_diff = np.inf\n", "        elbo = -np.inf\n        elbo_diff = np.inf\n        self.var_fitted = True\n")])
H["series-copy"] = ("C26", [(MB, "            self.y = np.array(y).reshape(-1, 1)\n            if y.name is None", "            self.y = np.asarray(y).reshape(-1, 1)\n            if y.name is None")])
H["int-data-kept-int"] = ("C26", [(MB, "            self.y = np.copy(y)\n", "            self.y = np.copy(y).astype(np.float32)\n")])
H["nested-list-column"] = ("C26", [(MB, "            self.y = np.array(y)\n            if self.y.ndim == 1:\n                self.y = self.y.reshape(-1, 1)\n                self._column_names = np.array([0])\n            else:\n                self._column_names = np.arange(self.y.shape[1])\n        elif isinstance(y, np.ndarray)", "            self.y = np.atleast_2d(y)\n            self._column_names = np.arange(self.y.shape[1])\n        elif isinstance(y, np.ndarray)")])
H["kmeans-int-seed"] = ("C27", [(U, "        random_state=np.random.RandomState(rng.bit_generator)", "        random_state=0")])
H["geom-fit-keeps-p"] = ("C04", [(GP, "        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())\n", "        if len(self.d) or size != len(self.w):\n            self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())\n")])
H["bid-tied-count"] = ("C04", [(BID, "                self._count_base[jj] += 1\n", "                self._count_base[jj] = max(self._count_base[jj], 1) + (jj > 0)\n")])
H["rej-vector-once"] = ("C28", [(U, "        while np.any(rejected):\n            x[rejected] =", "        for _ in range(50):\n            x[rejected] =")])
H["eppf-alpha-large"] = ("C29", [("utils/functions.py", "    res = loggamma(alpha) - loggamma(alpha + n)\n", "    res = -np.sum(np.log(alpha + np.arange(n - 1)))\n")])
# ---- batch 4: dtypes, falsy seeds, limits
EFF = "utils/validators.py"
H["complete-check-when-growing"] = ("C02", [(DP, "        super().complete(size)\n        if len(self.v) < size:", "        if len(self.v) < size:\n            super().complete(size)")])
H["var-dtype-of-r"] = ("C09", [(DP, "        self.variational_params = np.empty((self.variational_k, 2),\n                                           dtype=np.float64)", "        self.variational_params = np.empty((self.variational_k, 2),\n                                           dtype=np.asarray(variational_d).dtype)")])
H["frame-aligned-by-name"] = ("C26", [(MB, "                _y = y.to_numpy()\n            elif isinstance(y, pd.Series)", "                if set(y.columns) == set(self._column_names):\n                    y = y[self._column_names]\n                _y = y.to_numpy()\n            elif isinstance(y, pd.Series)")])
H["seed-zero-falsy"] = ("C27", [(EFF, "    if rng is None:", "    if rng is None or rng == 0:")])
H["tail-capped"] = ("C03", [(WB, "        while self.w.sum() < x:\n            self.complete(len(self.w) + 1)", "        for _ in range(1000):\n            if self.w.sum() >= x:\n                break\n            self.complete(len(self.w) + 1)")])
H["size-zero-scalar"] = ("C07", [(WB, "        u = self._rng.uniform(size=size)\n", "        u = self._rng.uniform(size=size or None)\n")])
H["cover-clip"] = ("C13", [(MB, "        self.weight_model.tail(1 - min(self.u))\n\n    def _update_atoms", "        self.weight_model.tail(min(1 - min(self.u), 1 - 1e-3))\n\n    def _update_atoms")])
H["affinity-uint8"] = ("C18", [(MB, "        self.affinity_matrix = np.zeros((len(self.y), len(self.y)))", "        self.affinity_matrix = np.zeros((len(self.y), len(self.y)),\n                                        dtype=np.uint8)")])
H["d-int8"] = ("C14", [(MB, '                "d": self.d}', '                "d": self.d.astype(np.int8)}')])
H["var-d-f32"] = ("C19", [(MB, "            var_d = np.zeros((self.var_k, self.y.shape[0]),\n                             dtype=np.float64)", "            var_d = np.zeros((self.var_k, self.y.shape[0]),\n                             dtype=np.float32)")])
H["fit-alias"] = ("C06", [(WB, "        self.d = np.array(d)", "        self.d = np.asarray(d)")])
H["eppf-singletons"] = ("C29", [("utils/functions.py", "    res += np.sum(loggamma(partition))", "    res += np.sum(loggamma([x for x in partition if x > 2]))")])
H["gumbel-inf-guard"] = ("C28", [(U, "        ret = np.argmax(logp -\n                        np.log(-np.log(rng.uniform(size=logp.shape))), axis=0)", "        logp = np.maximum(logp, -700)\n        ret = np.argmax(logp -\n                        np.log(-np.log(rng.uniform(size=logp.shape))), axis=0)")])
H["rej-strict-zero"] = ("C28", [(U, "        x = rng.uniform(a, b)\n        y = rng.uniform(0, max_y)\n        while y > f(x):\n            x = rng.uniform(a, b)", "        x = rng.uniform(a, b)\n        y = rng.uniform(0, max_y)\n        while y > f(x):\n            x = rng.uniform(x, b) if y > 2 * f(x) else rng.uniform(a, b)")])
H["kmeans-size-ties"] = ("C28", [(U, "    d = np.argsort(np.argsort(-d_count))[d]", "    d = np.argsort(-d_count)[d]")])
H["cluster-log-clip"] = ("C18", [(U, "    with np.errstate(divide='ignore'):\n        assign_prob = assign_prob + np.log(w)", "    assign_prob = assign_prob + np.log(np.maximum(w, 1e-3))")])
H["mixdens-skip-small"] = ("C17", [(U, "        iterator = range(k)\n    else:", "        iterator = [j for j in range(k) if w[j] > 1e-4]\n    else:")])
H["py-var-d-neg"] = ("C09", [(PY, "                1 + np.arange(self.variational_params.shape[0])\n        ) * self.pyd + b_c", "                1 + np.arange(self.variational_params.shape[0])\n        ) * max(self.pyd, 0) + b_c")])
H["dd-list-alpha"] = ("C05", [(DD, "                a_c = np.bincount(self.d)\n                a_c.resize(len(self.alpha), refcheck=False)\n", "                a_c = np.bincount(self.d, minlength=len(self.alpha))\n                a_c = np.minimum(a_c, 1 << 8)\n")])
H["bincount-u8"] = ("C05", [(DP, "            a_c = np.bincount(self.d)\n            b_c", "            a_c = np.bincount(self.d).astype(np.uint8)\n            b_c")])
H["geom-int32-sum"] = ("C05", [(GP, "self.b + self.d.sum())", "self.b + np.unique(self.d).sum())")])
H["warm-map-reset"] = ("C15", [(MB, "            self._update_map_params()\n        if show_progress", "            self._update_map_params()\n        else:\n            self.map_log_likelihood = self._run_log_likelihood()\n        if show_progress")])
H["var-warm-flag"] = ("C25", [(MB, "        self.gibbs_fitted = True\n\n    def fit_variational", "        self.gibbs_fitted = self.total_saved_steps > 1\n\n    def fit_variational")])
H["var-query-k1"] = ("C24", [(MB, "        var_d -= var_d.max(0)\n        var_d = np.exp(var_d)\n        var_d += np.finfo(np.float64).eps\n        var_d /= var_d.sum(0)\n        if not full:", "        var_d -= var_d.max()\n        var_d = np.exp(var_d)\n        var_d += np.finfo(np.float64).eps\n        var_d /= var_d.sum(0)\n        if not full:")])
H["prior-mu-shape"] = ("C16", [(MB, "            self.psi_prior = np.atleast_2d(np.cov(self.y.T))", "            self.psi_prior = np.atleast_2d(np.cov(self.y[:200].T))")])
H["nu-small"] = ("C20", [(U, "    ret_nu = nu + n\n", "    ret_nu = max(nu + n, len(psi) + 2)\n")])
# ---- batch 5: cooperating sites
H["weights-in-buffer"] = ("C14", [(DP, "            self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)\n            self.w = self.v * np.cumprod(np.concatenate(([1],\n                                                         1 - self.v[:-1])))",
  "            self.v = self._rng.beta(a=1 + a_c, b=self.alpha + b_c)\n            w = self.v * np.cumprod(np.concatenate(([1],\n                                                    1 - self.v[:-1])))\n            if len(w) == len(self.w):\n                self.w[:] = w\n            else:\n                self.w = w")])
H["map-weights-in-buffer"] = ("C15", H["weights-in-buffer"][1])
H["elbo-stalled-prev"] = ("C22", [(MB, "            elbo_diff = abs(prev_elbo - elbo)", "            elbo_diff = abs(prev_elbo - elbo)\n            elbo = max(elbo, prev_elbo)")])
H["map-before-d"] = ("C15", [(MB, "            self._gibbs_step()\n            self._update_map_params()\n        if self.show_progress:\n            print(\"Finished burn-in.\")", "            self._update_map_params()\n            self._gibbs_step()\n        if self.show_progress:\n            print(\"Finished burn-in.\")")])
H["affinity-same-length"] = ("C24", [(MB, "        affinity_matrix = var_d.T @ var_d\n", "        affinity_matrix = var_d.T @ var_d\n        affinity_matrix = np.round(affinity_matrix, 6)\n")])
H["d-inplace"] = ("C14", [(MB, "        self.weight_model.fit(self.d)\n        w = self.weight_model.random()", "        self.weight_model.fit(self.d)\n        self.d.sort() if len(self.d) == 1 else None\n        w = self.weight_model.random()")])
H["geom-p-reuse"] = ("C02", [(GP, "        self.v = self.v[:0]\n        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())", "        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())\n        self.v = np.full(min(len(self.v), size), self.p)")])
H["gibbs-resets-var"] = ("C25", [(MB, "        self.map_sim_params = None\n        self.map_log_likelihood = -np.inf\n\n        self.theta = ", "        self.map_sim_params = None\n        self.var_fitted = False\n        self.map_log_likelihood = -np.inf\n\n        self.theta = ")])
H["var-loads-gibbs"] = ("C16", [(MB, "        self.var_k = var_k\n        self.var_theta = []", "        self.var_k = var_k\n        if self.var_theta is None:\n            self.var_theta = []\n        del self.var_theta[var_k:]")])
H["random-init-own-n"] = ("C16", [(MB, "            self.weight_model.random(1)\n            self.weight_model.tail(1 - min(self.u))\n        else:", "            self.weight_model.random(max(1, self.weight_model.get_size()))\n            self.weight_model.tail(1 - min(self.u))\n        else:")])
if __name__ == "__main__":
    import subprocess, os, shutil, tempfile, time
    for n, (ps, eds) in H.items():
        if len(sys.argv) > 1 and not re.search(sys.argv[1], n):
            continue
        files = {}
        for f, old, new in eds:
            s = files.get(f) or open("/repo/pyrichlet/" + f).read()
            if old not in s:
                print(n, "DOES NOT APPLY", old[:80])
                break
            files[f] = s.replace(old, new)
        else:
            d = tempfile.mkdtemp(prefix="hid_", dir="/tmp")
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            for f, s in files.items():
                open(os.path.join(d, "pyrichlet", f), "w").write(s)
            if os.environ.get("TESTS"):
                r = subprocess.run(["timeout", "150", mutants.PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", d], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True, timeout=200)
                print(n, "tests", r.returncode, r.stdout[-150:] if r.returncode else "")
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
            for p in ps.split():
                r = subprocess.run([mutants.PY, "-c", "import sys,json\nfrom pyvc import main\nr=main.collect(sys.argv[1],'quick',1,400)\nprint(json.dumps([(o['status'],o['name'],o.get('replayed'),(o.get('reason') or '')[:150]) for o in r['obligations'] if o['status']!='proved']))", p], cwd=mutants.ROOT, env=env, capture_output=True, text=True)
                try:
                    bad = json.loads(r.stdout.splitlines()[-1])
                except Exception:
                    bad = [("error", r.stderr[-200:], None, "")]
                q = subprocess.run([mutants.PY, "-m", "oracle.run", p, "--tier", "quick", "--seed", "1"], cwd=mutants.ROOT, env=env, capture_output=True, text=True)
                try:
                    fails = json.loads(q.stdout.splitlines()[-1])["failures"]
                except Exception:
                    fails = [q.stderr[-200:]]
                ref = [b for b in bad if b[0] == "refuted"]
                print("%-24s %s %s lost %d refuted %d oracle %d" % (n, p, "caught" if ref or fails else "MISSED", len(bad) - len(ref), len(ref), len(fails)), [b[1:] for b in ref][:2], [b[1:] for b in bad][:1] if not ref else "", flush=True)
            shutil.rmtree(d)
