"""Author tool (not run by any check): writes /verif/seeded/<id>/."""
import os, subprocess, json, sys, shutil, textwrap
ROOT='/verif/seeded'
SEEDS=[]
def seed(id, prop, file, old, new, needs, breaks, demo):
    SEEDS.append((id,prop,file,old,new,needs,breaks,textwrap.dedent(demo)))
W='pyrichlet/weight_models/'; X='pyrichlet/mixture_models/'; U='pyrichlet/utils/'
HEAD='''import sys; sys.path.insert(0, "/repo")
import numpy as np
'''
class FakeRng(str): pass

seed('bib-posterior-swaps-shape','C05',W+'_beta_in_beta.py',
 "b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c\n",
 "b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + np.maximum(b_c - 1, 0)\n",
 "a fitted Beta-in-Beta model with 0<x<1 (or x=0) and later groups occupied",
 "one assignment to a later group is not counted in the posterior of each stick",
 '''
from pyrichlet.weight_models import BetaInBeta
vals = []
for s in range(4000):
    m = BetaInBeta(x=0.0, alpha=1, p=0.3, p_method='static', rng=s)
    m.fit([0, 1, 1, 2]); m.random()
    vals.append(m.v[0])
# Beta(2, 4): mean 1/3
assert abs(np.mean(vals) - 1 / 3) < 0.02, np.mean(vals)
''')
seed('py-prior-normalizer','C11',W+'_pitman_yor_process.py',
 "            res += loggamma(self.alpha + j * self.pyd + 1)\n",
 "            res += loggamma(self.alpha + (j + 1) * self.pyd + 1)\n",
 "a non-zero discount",
 "the Beta normalizing constant of each stick's prior is wrong in E[log p(w)]",
 '''
from pyrichlet.weight_models import PitmanYorProcess
m = PitmanYorProcess(pyd=0.4, alpha=1.3, rng=1)
m.fit_variational(np.empty((4, 0)))
# the law equals the prior: E log p = E log q
assert abs(m.variational_mean_log_p_w() - m.variational_mean_log_q_w()) < 1e-8
''')
seed('save-stride-off','C14',X+'_base.py',
 "            if i % self.subsample_steps == 0:\n",
 "            if (i + 1) % self.subsample_steps == 0:\n",
 "subsample_steps > 1 that does not divide the number of steps kept",
 "the saved draws number floor instead of ceil of (total_iter-burn_in)/subsample_steps",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(12, 2))
m = DirichletProcessMixture(total_iter=9, burn_in=2, subsample_steps=3, rng=1)
m.fit_gibbs(y, init_groups=3)
assert len(m.get_sim_params()) == 3, len(m.get_sim_params())
''')
seed('theta-shared','C14',X+'_base.py',
 '                "theta": dict(self.theta),\n',
 '                "theta": self.theta,\n',
 "a state saved (or kept as the MAP) followed by at least one more Gibbs step",
 "saved draws share the live atom dictionary and change with later steps",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(12, 2))
m = DirichletProcessMixture(total_iter=6, burn_in=1, rng=1)
m.fit_gibbs(y, init_groups=3)
p = m.get_sim_params()
assert not np.array_equal(p[0]["theta"][p[0]["d"][0]][0], p[-1]["theta"][p[0]["d"][0]][0]) or p[0]["theta"] is not p[-1]["theta"]
''')
seed('tail-largest-slice','C13',X+'_base.py',
 """                                  w[self.d] + np.finfo(np.float64).eps)
        self.weight_model.tail(1 - min(self.u))
""",
 """                                  w[self.d] + np.finfo(np.float64).eps)
        self.weight_model.tail(1 - max(self.u))
""",
 "a Gibbs step whose slice variables differ",
 "the weights are completed only up to the largest slice variable, so admissible components are truncated away",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(30, 1))
m = DirichletProcessMixture(alpha=6., total_iter=40, burn_in=0, rng=3)
m.fit_gibbs(y, init_groups=3)
for p in m.get_sim_params():
    assert p["w"].sum() >= 1 - min(p["u"]) - 1e-12
''')
seed('atoms-posterior-scatter','C20',X+'_base.py',
 "                             self.lambda_prior * n_j / (self.lambda_prior +\n                                                        n_j) *\n",
 "                             self.lambda_prior * n_j / (1 +\n                                                        n_j) *\n",
 "a lambda_prior other than 1",
 "the between-group term of the variational inverse scale uses 1+n instead of lambda+n",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
from pyrichlet.mixture_models._utils import posterior_norm_invw_params
y = np.random.default_rng(0).normal(size=(15, 2))
m = DirichletProcessMixture(total_iter=3, burn_in=0, lambda_prior=0.2, mu_prior=[1., -1.], rng=1)
m.fit_variational(y, n_groups=2)
d = np.arange(15) % 2
m.var_d = np.array([d == 0, d == 1], dtype=float)
m._update_var_theta()
for j in range(2):
    p = posterior_norm_invw_params(y[d == j], m.mu_prior, m.lambda_prior, m.psi_prior, m.nu_prior)
    assert np.allclose(np.linalg.inv(m.var_theta[j][2]), p["psi"])
''')
seed('elbo-dim-dependent','C21',X+'_utils.py',
 "    inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)\n",
 "    inverse_term += np.log(np.pi) * (dim - 1) / 2\n",
 "data of three or more dimensions (the terms agree for one and two)",
 "the log Wishart normalizing constant is wrong from dimension three on; being constant per group it cancels in part of the bound only",
 '''
from pyrichlet.mixture_models import _utils
from scipy.special import multigammaln
P = np.diag([1., 2., 3., 4.]); nu = 6.5
e = -nu / 2 * np.log(24.) - nu * 4 / 2 * np.log(2) - multigammaln(nu / 2, 4)
assert abs(_utils.log_wishart_normalization_term(P, nu) - e) < 1e-8
''')
SEEDS[-1]=SEEDS[-1][:1]+('C29',)+SEEDS[-1][2:]
seed('marginal-eap-scale','C17',X+'_utils.py',
 "                                np.sqrt(theta[j][1][dim, dim]))*w[j])\n",
 "                                theta[j][1][dim, dim])*w[j])\n",
 "a Gibbs density with an integer dim and a variance other than one",
 "the marginal normal uses the variance as its standard deviation",
 '''
from pyrichlet.mixture_models._utils import mixture_density
from scipy.stats import norm
x = np.array([[0.3], [2.]])
got = mixture_density(x, np.array([1.]), {0: (np.zeros(2), np.diag([4., 9.]))}, dim=1)
assert np.allclose(got, norm.pdf(x[:, 0], 0, 3)), got
''')
seed('stop-one-late','C22',X+'_base.py',
 "        while elbo_diff > tol and iterations < self.total_iter:\n",
 "        while elbo_diff >= tol and iterations <= self.total_iter:\n",
 "a fit that reaches the iteration cap",
 "one more update than total_iter is made",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(40, 2))
m = DirichletProcessMixture(total_iter=3, burn_in=0, rng=1)
n = [0]; f = m._maximize_variational
def g():
    n[0] += 1; f()
m._maximize_variational = g
m.fit_variational(y, n_groups=4, tol=0)
assert n[0] == 3, n
''')
seed('dp-loglik-drops-sticks','C08',W+'_dirichlet_process.py',
 "            prod_v *= (1 - v)\n        return ret\n",
 "            prod_v -= v\n        return ret\n",
 "a truncated draw of three or more weights",
 "from the third stick on, the recovered stick fraction in the log prior density is wrong",
 '''
from pyrichlet.weight_models import DirichletProcess
from scipy.stats import beta
m = DirichletProcess(alpha=1.7, rng=4); m.random(5)
assert abs(m.weighting_log_likelihood() - beta.logpdf(m.v, 1, 1.7).sum()) < 1e-8
''')
seed('map-last-of-equals','C15',X+'_base.py',
 "            self.map_log_likelihood = run_log_likelihood\n",
 "            self.map_log_likelihood = max(run_log_likelihood, 0)\n",
 "data on a scale where the log-likelihood is negative",
 "the stored best value is floored at zero, so better states with negative log-likelihood are not retained",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(40, 2)) * 5
m = DirichletProcessMixture(total_iter=25, burn_in=3, rng=1)
best = [-np.inf]; f = m._run_log_likelihood
def g():
    r = f(); best[0] = max(best[0], r); return r
m._run_log_likelihood = g
m.fit_gibbs(y, init_groups=3)
assert m.map_log_likelihood == best[0], (m.map_log_likelihood, best[0])
''')

seed('py-prior-bias','C04',W+'_pitman_yor_process.py',
 "                                    b=self.alpha + pitman_yor_bias * self.pyd,\n",
 "                                    b=self.alpha + (pitman_yor_bias - 1) * self.pyd,\n",
 "a non-zero discount and a draw without assignments",
 "the second Beta parameter of every prior stick lacks one discount",
 '''
from pyrichlet.weight_models import PitmanYorProcess
vals = []
for s in range(3000):
    m = PitmanYorProcess(pyd=0.7, alpha=0.1, rng=s)
    m.random(2)
    vals.append(m.v[0])
# Beta(0.3, 0.8): mean 0.2727
assert abs(np.mean(vals) - 0.3 / 1.1) < 0.03, np.mean(vals)
''')
seed('dirichlet-joint-mode','C10',W+'_dirichlet_distribution.py',
 "               (alpha - 2))\n",
 "               (alpha - self.n))\n",
 "three or more groups",
 "the mode of w_j is that of the joint Dirichlet, not of its own Beta marginal",
 '''
from pyrichlet.weight_models import DirichletDistribution
m = DirichletDistribution(n=3, alpha=1.5, rng=1)
m.fit_variational(np.full((3, 6), 1 / 3))
# Beta(3.5, 7): mode 2.5 / 8.5
assert abs(m.variational_mode_w_j(1) - 2.5 / 8.5) < 1e-9
''')
seed('component-weight-zero','C23',X+'_base.py',
 "            iterator = [(component, self.var_theta[component])]\n",
 "            iterator = enumerate(self.var_theta[component:component + 1])\n",
 "a density query for a component other than the first",
 "the kernel of the component is scaled with the mean weight of the first group",
 '''
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(15, 2))
m = DirichletProcessMixture(total_iter=5, burn_in=0, rng=1)
m.fit_variational(y, n_groups=3)
tot = sum(m.var_eap_density(component=j) for j in range(3))
assert np.allclose(tot, m.var_eap_density())
''')
seed('rejection-keeps-height','C28',X+'_utils.py',
 "            y = rng.uniform(0, max_y)\n",
 "            y = rng.uniform(0, y)\n",
 "the scalar sampler with a target that rejects the first proposal",
 "the height of a retry is drawn below the rejected one, so retries accept too easily",
 '''
from pyrichlet.mixture_models._utils import rejection_sample
r = np.random.default_rng(0)
x = np.array([rejection_sample(lambda t: t ** 3, 1., 0., 1., rng=r) for _ in range(20000)])
# density 4t^3: mean 4/5
assert abs(x.mean() - 0.8) < 0.01, x.mean()
''')
seed('dp-leftover-by-sum','C01',W+'_dirichlet_process.py',
 """            self.v = np.concatenate(
                (self.v,
                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))))
            self.w = self.v * np.cumprod(np.concatenate(([1],
                                                         1 - self.v[:-1])))
        return self.w

    def fit_variational""",
 """            new_v = self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))
            kept = self.w[:len(self.v)]
            self.w = np.concatenate((kept, (1 - kept.sum()) * new_v * np.cumprod(
                np.concatenate(([1], 1 - new_v[:-1])))))
            self.v = np.concatenate((self.v, new_v))
        return self.w

    def fit_variational""",
 "a realization extended in steps until its mass rounds above one (dozens of sticks, small alpha)",
 "the stick left over is taken from the rounded sum of the weights, so later weights come out negative",
 """
from pyrichlet.weight_models import DirichletProcess
for s in range(60):
    m = DirichletProcess(alpha=.5, rng=s)
    m.random(1)
    for n in range(2, 80):
        w = m.complete(n)
    assert np.all(w >= 0), w.min()
""")
seed('empty-fit-ignored','C06',W+'_base.py',
 "        self.d = np.array(d)\n",
 "        d = np.array(d)\n        if d.size or not len(self.d):\n            self.d = d\n",
 "a model fitted to some assignments and then fitted to an empty vector",
 "the earlier assignments stay in force",
 """
from pyrichlet.weight_models import DirichletProcess
m = DirichletProcess(alpha=1, rng=1)
m.fit(np.array([0, 0, 3]))
m.fit(np.array([], dtype=int))
assert len(m.random(2)) == 2 and len(m.d) == 0
""")
seed('leftover-to-last','C07',W+'_base.py',
 """        inverse_sampling = np.greater.outer(
            u, self.get_normalized_cumulative_weights()
        )
        return np.sum(inverse_sampling, axis=-1)
""",
 """        inverse_sampling = np.greater.outer(u, np.cumsum(self.w[:-1]))
        return np.sum(inverse_sampling, axis=-1)
""",
 "a realization whose weights total less than one",
 "the mass beyond the realization goes to its last group instead of being shared by normalization",
 """
from pyrichlet.weight_models import DirichletProcess
m = DirichletProcess(alpha=3, rng=1)
w = m.random(3)
d = m.random_assignment(40000)
assert np.allclose(np.bincount(d, minlength=3) / 40000, w / w.sum(), atol=.02)
""")
seed('atoms-of-known-labels','C12',X+'_base.py',
 """        for j in np.unique(self.d):
            mask_j = self.d == j
            posterior_params""",
 """        for j in [j for j in sorted(self.theta) if j in self.d]:
            mask_j = self.d == j
            posterior_params""",
 "the first step after an initialization whose likelihood was not evaluated, or a label without an atom",
 "an occupied group without an atom gets a draw from the prior instead of the posterior of its members",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(50, 1, size=(40, 1))
mus = []
for s in range(20):
    m = DirichletProcessMixture(total_iter=2, burn_in=0, rng=s, mu_prior=np.zeros(1), lambda_prior=1, psi_prior=np.eye(1), nu_prior=3)
    m.fit_gibbs(y, init_groups=2)
    m.d = np.full(len(y), max(m.theta) + 3)
    m._update_atoms()
    assert m.d[0] in m.theta
    mus.append(m.theta[m.d[0]][0][0])
assert np.mean(mus) > 40, mus
""")
seed('affinity-buffer-kept','C16',X+'_base.py',
 "        self.affinity_matrix = np.zeros((len(self.y), len(self.y)))\n",
 "        if self.affinity_matrix.shape != (len(self.y), len(self.y)):\n            self.affinity_matrix = np.zeros((len(self.y), len(self.y)))\n",
 "two cold fits on data of the same length",
 "the co-assignment counts of the first fit are added to those of the second",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(12, 2))
m = DirichletProcessMixture(total_iter=6, burn_in=1, rng=1)
m.fit_gibbs(y, init_groups=2)
m.fit_gibbs(y + 1, init_groups=2)
assert np.allclose(np.diag(m.gibbs_eap_affinity_matrix()), 1)
""")
seed('uncertainty-of-compact-label','C18',X+'_utils.py',
 """    uncertainty = 1 - assign_prob[range(len(x)), grp]
    u_grp, ret = np.unique(grp, return_inverse=True)
""",
 """    u_grp, ret = np.unique(grp, return_inverse=True)
    uncertainty = 1 - assign_prob[range(len(x)), ret]
""",
 "a component of the mixture that gets no point, before one that does",
 "the uncertainty reported is the one of another component",
 """
from pyrichlet.mixture_models._utils import cluster
th = {0: (np.zeros(1), np.eye(1)), 1: (np.full(1, 90.), np.eye(1)), 2: (np.full(1, 3.), np.eye(1))}
ret, unc = cluster(np.array([[0.], [3.]]), np.array([.4, .2, .4]), th)
assert np.all(unc < .5), unc
""")
seed('global-maximum-shift','C19',X+'_base.py',
 """        var_d -= var_d.max(axis=0, initial=-np.inf)
        var_d = np.exp(var_d)
        var_d += np.finfo(np.float64).eps
        var_d /= var_d.sum(axis=0)
        self.var_d = var_d
""",
 """        var_d -= var_d.max(initial=-np.inf)
        var_d = np.exp(var_d)
        var_d += np.finfo(np.float64).eps
        var_d /= var_d.sum(axis=0)
        self.var_d = var_d
""",
 "an observation far from every component",
 "its responsibilities underflow to a uniform vector",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.concatenate([np.random.default_rng(0).normal(0, .1, size=(30, 1)), np.random.default_rng(1).normal(5, .1, size=(30, 1)), [[40.]]])
m = DirichletProcessMixture(total_iter=3, burn_in=0, rng=1, mu_prior=np.array([0.]), psi_prior=np.eye(1) * .1, nu_prior=3)
m.fit_variational(y, n_groups=2)
th = [[np.array([0.]), 5., np.eye(1), 9.], [np.array([5.]), 5., np.eye(1), 9.]]
m.var_theta = th
m._update_var_d()
assert m.var_d[:, -1].max() > .99, m.var_d[:, -1]
""")
seed('elbo-psi-not-inverted','C21',X+'_base.py',
 "            np.linalg.inv(self.psi_prior), self.nu_prior\n",
 "            self.psi_prior, self.nu_prior\n",
 "a prior scale whose determinant is not one",
 "the normalizing constant of the atoms' prior in the bound belongs to the inverse scale",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(12, 1))
m = DirichletProcessMixture(total_iter=2, burn_in=0, rng=1, mu_prior=np.zeros(1), psi_prior=np.eye(1) * 5, nu_prior=3, lambda_prior=1)
m.fit_variational(y, n_groups=1)
a = m._e_log_p_theta() - m._e_log_q_theta()
# with the posterior put back to the prior the two terms cancel
m.var_theta = [[np.zeros(1), 1., np.linalg.inv(np.eye(1) * 5), 3.]]
assert abs(m._e_log_p_theta() - m._e_log_q_theta()) < 1e-8
""")
seed('new-point-count-factor','C24',X+'_base.py',
 "            log_d_ji -= dim / (2 * v_lambda_j)\n",
 "            log_d_ji -= dim / 2 * v_lambda_j\n",
 "a clustering query at explicitly given points",
 "groups are penalised by their count, so new points go to small groups",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
r = np.random.default_rng(0)
y = np.concatenate([r.normal(0, 1, size=(60, 1)), r.normal(9, 1, size=(6, 1))])
m = DirichletProcessMixture(total_iter=30, burn_in=0, rng=1)
m.fit_variational(y, n_groups=2)
assert np.array_equal(m.var_map_cluster(), m.var_map_cluster(y))
""")
seed('fitted-before-training','C25',X+'_base.py',
 """        for i in range_iterator:
            self._gibbs_step()
            self._update_map_params()
            if i % self.subsample_steps == 0:
                self._save_params()
        if self.show_progress:
            print("Finished training.")
        self.gibbs_fitted = True
""",
 """        self.gibbs_fitted = True
        for i in range_iterator:
            self._gibbs_step()
            self._update_map_params()
            if i % self.subsample_steps == 0:
                self._save_params()
        if self.show_progress:
            print("Finished training.")
""",
 "a fit that stops with an exception or an interrupt after the burn-in",
 "queries answer from the unfinished run instead of being refused",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
from pyrichlet.exceptions import NotFittedError
y = np.random.default_rng(0).normal(size=(12, 1))
m = DirichletProcessMixture(total_iter=9, burn_in=2, rng=1)
real, n = m.weight_model.random, [0]
def random(*a, **k):
    n[0] += 1
    if n[0] == 7:
        raise KeyboardInterrupt
    return real(*a, **k)
m.weight_model.random = random
try:
    m.fit_gibbs(y, init_groups=2)
except KeyboardInterrupt:
    pass
try:
    m.gibbs_eap_density()
except NotFittedError:
    pass
else:
    raise AssertionError("answered")
""")
seed('frame-shared','C26',X+'_base.py',
 """            self.y = np.array(y)
            self._column_names = y.columns
""",
 """            self.y = y.to_numpy()
            self._column_names = y.columns
""",
 "a fit to a data frame of one dtype that the caller changes in place afterwards",
 "the fitted data change with the caller's frame",
 """
import pandas as pd
from pyrichlet.mixture_models import DirichletProcessMixture
a = np.random.default_rng(0).normal(size=(12, 2))
f = pd.DataFrame(a, copy=False)
m = DirichletProcessMixture(total_iter=5, burn_in=0, rng=1)
m.fit_variational(f, n_groups=2)
before = m.var_eap_density()
a[:] = 7.0
assert np.array_equal(before, m.var_eap_density())
""")
seed('prior-atoms-own-stream','C27',X+'_base.py',
 """                nu=self.nu_prior,
                rng=self.rng
            )
            return np.atleast_1d(mu), np.atleast_2d(sigma)
""",
 """                nu=self.nu_prior
            )
            return np.atleast_1d(mu), np.atleast_2d(sigma)
""",
 "a Gibbs run with a component that no observation occupies",
 "atoms drawn from the prior come from a generator of their own, so a seeded run is not repeated",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(12, 1))
def run():
    m = DirichletProcessMixture(total_iter=9, burn_in=2, rng=1, alpha=3)
    m.fit_gibbs(y, init_groups=2)
    return [s["theta"][j][0] for s in m.get_sim_params() for j in range(len(s["w"]))]
assert all(np.array_equal(a, b) for a, b in zip(run(), run()))
""")
seed('stale-second-draw','C04',W+'_dirichlet_process.py',
 """        super().complete(size)
        if len(self.v) < size:
            self.v""",
 """        super().complete(size)
        if len(self.w) < size:
            size += len(self.v) - len(self.w) if len(self.v) else 0
            self.v""",
 "a second unfitted draw no longer than the first",
 "the earlier weights are returned again",
 """
from pyrichlet.weight_models import DirichletProcess
m = DirichletProcess(alpha=1, rng=1)
a = np.array(m.random(4))
b = np.array(m.random(4))
assert not np.array_equal(a, b)
""")
seed('gumbel-draws-shared','C28',X+'_utils.py',
 """        ret = []
        for i in range(size):
            ret.append(np.argmax(logp -
                                 np.log(-np.log(rng.uniform(size=len(logp))))))
""",
 """        ret = []
        noise = rng.uniform(size=len(logp) + size - 1)
        for i in range(size):
            ret.append(np.argmax(
                logp - np.log(-np.log(noise[i:i + len(logp)]))))
""",
 "several categorical draws in one call",
 "each draw has the right law but neighbouring draws share their noise, so they are not independent",
 """
from pyrichlet.mixture_models._utils import gumbel_max_sampling
x = gumbel_max_sampling(np.log(np.array([.5, .5])), size=20000, rng=np.random.default_rng(0))
assert abs(np.mean(x[1:] == x[:-1]) - .5) < .03, np.mean(x[1:] == x[:-1])
""")
WM='pyrichlet/weight_models/'
seed('complete-checks-when-growing','C02',WM+'_dirichlet_process.py',
 """        super().complete(size)
        if len(self.v) < size:
""",
 """        if len(self.v) < size:
            super().complete(size)
""",
 "a size that is not an integer and not above the number of weights held",
 "complete(2.0) is accepted instead of raising TypeError once two weights exist",
 """
from pyrichlet.weight_models import DirichletProcess
m = DirichletProcess(alpha=1, rng=1)
m.random(3)
try:
    m.complete(2.0)
except TypeError:
    pass
else:
    raise AssertionError("accepted a size that is not an integer")
""")
seed('tail-capped','C03',WM+'_base.py',
 """        while self.w.sum() < x:
            self.complete(len(self.w) + 1)
""",
 """        for _ in range(1000):
            if self.w.sum() >= x:
                break
            self.complete(len(self.w) + 1)
""",
 "weights so small that more than 1000 of them are needed",
 "tail returns weights that total less than requested",
 """
from pyrichlet.weight_models import DirichletProcess
m = DirichletProcess(alpha=900, rng=1)
assert m.tail(0.9).sum() >= 0.9, m.w.sum()
""")
seed('responsibility-dtype','C09',WM+'_dirichlet_process.py',
 """        self.variational_params = np.empty((self.variational_k, 2),
                                           dtype=np.float64)
""",
 """        self.variational_params = np.empty(
            (self.variational_k, 2), dtype=np.asarray(variational_d).dtype)
""",
 "0/1 responsibilities stored as integers and a concentration that is not an integer",
 "the fitted law's parameters are truncated to integers",
 """
from pyrichlet.weight_models import DirichletProcess
m = DirichletProcess(alpha=0.7, rng=1)
m.fit_variational(np.array([[1, 0, 1], [0, 1, 0]]))
assert np.allclose(m.variational_params, [[3, 1.7], [2, 0.7]]), m.variational_params
""")
seed('group-capped','C12',X+'_base.py',
 """            mask_j = self.d == j
""",
 """            mask_j = np.flatnonzero(self.d == j)[:256]
""",
 "a group of more than 256 observations",
 "the atom is drawn from the posterior of the group's first 256 observations",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.concatenate((np.zeros(300), np.full(700, 100.)))[:, None] + np.random.default_rng(0).normal(size=(1000, 1))
m = DirichletProcessMixture(alpha=1e-6, rng=1, total_iter=3, burn_in=1, mu_prior=np.zeros(1), psi_prior=np.eye(1) * 1e7, nu_prior=1000, lambda_prior=1e-3)
m.fit_gibbs(y, init_groups=1)
for s in m.sim_params:
    assert len(np.unique(s["d"])) == 1
    assert abs(s["theta"][int(s["d"][0])][0][0] - 70) < 30, s["theta"]
""")
seed('affinity-counter-wraps','C18',X+'_base.py',
 """        self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
""",
 """        self.affinity_matrix = np.zeros((len(self.y), len(self.y)),
                                        dtype=np.uint8)
""",
 "more than 255 saved draws",
 "the co-clustering counts wrap around, so the affinity of the training data is not the fraction of draws",
 """
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(5, 1))
m = DirichletProcessMixture(alpha=1, rng=1, total_iter=300, burn_in=10)
m.fit_gibbs(y)
assert np.allclose(np.diag(m.gibbs_eap_affinity_matrix()), 1)
""")
seed('query-frame-aligned','C26',X+'_base.py',
 """            if isinstance(y, pd.DataFrame):
                _y = y.to_numpy()
""",
 """            if isinstance(y, pd.DataFrame):
                if list(y.columns) != list(self._column_names) and \\
                        set(y.columns) == set(self._column_names):
                    y = y[list(self._column_names)]
                _y = y.to_numpy()
""",
 "a queried frame whose columns carry the fitted frame's names in another order",
 "its columns are exchanged, so frames and arrays with the same values get different answers",
 """
import pandas as pd
from pyrichlet.mixture_models import DirichletProcessMixture
y = np.random.default_rng(0).normal(size=(8, 2)) * [1, 5]
m = DirichletProcessMixture(alpha=1, rng=1, total_iter=6, burn_in=2)
m.fit_gibbs(pd.DataFrame(y, columns=["a", "b"]))
q = np.array([[.3, 4.], [1., -6.]])
assert np.allclose(m.gibbs_map_density(pd.DataFrame(q, columns=["b", "a"])), m.gibbs_map_density(q))
""")
def main():
    only=set(sys.argv[1:])
    work='/tmp/seedwork'
    subprocess.run(['rm','-rf',work]); subprocess.run(['cp','-a','/repo',work],check=True)
    base=subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).strip()
    for id,prop,file,old,new,needs,breaks,demo in SEEDS:
        if only and id not in only: continue
        d=f'{ROOT}/{id}'; os.makedirs(d,exist_ok=True)
        p=f'{work}/{file}'; s=open(p).read()
        n=s.count(old)
        if n!=1:
            if n==0: print('NOT FOUND',id); continue
            print('multiple',n,id)
        s2=s.replace(old,new,1); open(p,'w').write(s2)
        diff=subprocess.check_output(['git','-C',work,'diff'],text=True)
        open(d+'/patch.diff','w').write(diff)
        subprocess.run(['git','-C',work,'checkout','-q','--','.'],check=True)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        open(d+'/demo.py','w').write(HEAD+demo)
        open(d+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+'/demo.sh',0o755)
        # original lines?
        bl=subprocess.check_output(['git','-C','/repo','blame','-l','-s',file],text=True).splitlines()
        minus=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for m in minus:
            ok=[b for b in bl if b.split(') ',1)[-1]==m or b.endswith(m)]
            orig=any(b.lstrip('^').startswith(base[:39]) or b.lstrip('^').startswith(base) for b in ok)
            if not orig: print(id,'NOT ORIGINAL LINE:',m)
    subprocess.run(['rm','-rf',work])
main()
