"""Concrete contracts of the mixture models (C12-C26)."""
import copy
from .common import *
from .zoo import *
from .weights import post_pits, reps, close_any
from scipy import stats, special
import pandas as pd
from pyrichlet import mixture_models as M
from pyrichlet.exceptions import NotFittedError

MIX = {
    "DirichletProcess": "DirichletProcessMixture", "PitmanYorProcess": "PitmanYorMixture", "GeometricProcess": "GeometricProcessMixture",
    "BetaInBeta": "BetaInBetaMixture", "BetaInDirichlet": "BetaInDirichletMixture", "BetaBernoulli": "BetaBernoulliMixture",
    "BetaBinomial": "BetaBinomialMixture", "DirichletDistribution": "DirichletDistributionMixture", "EqualWeighting": "EqualWeightedMixture",
    "FrequencyWeighting": "FrequencyWeightedMixture"}
GCFG = {
    "DirichletProcess": [dict(alpha=0.7)], "PitmanYorProcess": [dict(pyd=0.2, alpha=0.5)], "GeometricProcess": [dict(a=3, b=2)],
    "BetaInBeta": [dict(x=0.3, alpha=0.8, a=2, b=1)], "BetaInDirichlet": [dict(a=1.5, alpha=0.6)], "BetaBernoulli": [dict(p=0.7, alpha=0.6)],
    "BetaBinomial": [dict(n=3, alpha=0.7)], "DirichletDistribution": [dict(n=4, alpha=0.8)], "EqualWeighting": [dict(n=3)], "FrequencyWeighting": [dict(n=3)]}


def data(rng, D, n=None):
    n = n or [10, 14, 19][D - 1]
    y = rng.normal(size=(n, D)) * np.linspace(0.5, 1.5, D)
    y[: n // 2] += 3
    if D > 1:
        y[:, 1] += 0.8 * y[:, 0]
    return y + 2


def priors(rng, D, kind):
    if kind == 0:
        return {}
    A = rng.normal(size=(D, D))
    return dict(mu_prior=rng.normal(size=D) * 2 - 1, lambda_prior=[0.3, 2.0, 1][kind % 3], psi_prior=A @ A.T + 0.5 * np.eye(D), nu_prior=D + [0.5, 3, 1][kind % 3])


def mixture(name, cfg, rng=1, **kw):
    cls = getattr(M, MIX[name])
    return cls(**cfg, rng=rng, **kw)


def eff_priors(pr, y):
    D = y.shape[1]
    return (np.asarray(pr.get("mu_prior", y.mean(0)), float), float(pr.get("lambda_prior", 1)),
            np.atleast_2d(np.asarray(pr.get("psi_prior", np.cov(y.T)), float)), float(pr.get("nu_prior", D)))


def niw_post(y, mu, lam, psi, nu):
    n = len(y)
    yb = y.mean(0)
    S = (y - yb).T @ (y - yb)
    return (lam * mu + n * yb) / (lam + n), lam + n, psi + S + lam * n / (lam + n) * np.outer(yb - mu, yb - mu), nu + n


def lognorm(x, mu, cov):
    """log N(x; mu, cov) row-wise, independent of the library code"""
    x = np.atleast_2d(x)
    D = x.shape[1]
    L = np.linalg.cholesky(np.atleast_2d(cov))
    z = np.linalg.solve(L, (x - mu).T)
    return -0.5 * (z ** 2).sum(0) - np.log(np.diag(L)).sum() - D / 2 * np.log(2 * np.pi)


def chain(name, cfg, pr, y, T, seed=3, init="kmeans", gen=None, **kw):
    m = mixture(name, cfg, rng=seed, total_iter=T, burn_in=0, subsample_steps=1, **{**pr, **kw}) if name not in () else None
    if gen is not None:
        set_rng(m, gen)
    m.fit_gibbs(y.copy(), init_method=init)
    return m


class ScipyRec:
    """records scipy's invwishart / multivariate normal draws"""

    def __enter__(self):
        self.iw, self.mv = [], []
        self.o1, self.o2 = stats.invwishart.rvs, stats.multivariate_normal.rvs

        def rv1(df, scale, *a, **k):
            r = self.o1(df, scale, *a, **k)
            self.iw.append((float(df), np.atleast_2d(np.array(scale, float)), np.atleast_2d(np.array(r, float))))
            return r

        def rv2(mean=None, cov=1, *a, **k):
            r = self.o2(mean, cov, *a, **k)
            self.mv.append((np.atleast_1d(np.array(mean, float)), np.atleast_2d(np.array(cov, float)), np.atleast_1d(np.array(r, float))))
            return r
        stats.invwishart.rvs, stats.multivariate_normal.rvs = rv1, rv2
        return self

    def __exit__(self, *a):
        for o in (stats.invwishart, stats.multivariate_normal):
            if "rvs" in vars(o):
                del o.rvs
        return False


SETS = [("DirichletProcess", 1, 0), ("DirichletProcess", 2, 1), ("DirichletProcess", 3, 2), ("PitmanYorProcess", 2, 0), ("GeometricProcess", 2, 3),
        ("DirichletDistribution", 2, 1), ("EqualWeighting", 1, 4), ("FrequencyWeighting", 2, 2), ("BetaInBeta", 2, 0), ("BetaBinomial", 1, 1),
        ("BetaBernoulli", 2, 2), ("BetaInDirichlet", 1, 0)]


def setup(ctx, name, D, kind, tag="", n=None):
    rng = ctx.rng("mix", name, D, kind, tag)
    if n is None and rng.uniform() < 0.15:
        n = int(rng.choice([65, 130, 270]))
    y = data(rng, D, n)
    return y, priors(rng, D, kind), rng


# ------------------------------------------------------------------- C12, C13
def c12(ctx):
    T = reps(ctx, 60, 400)

    def run(ctx, name, cfg, D, kind, init):
        y, pr, rng = setup(ctx, name, D, kind)
        with ScipyRec() as rec:
            m = chain(name, cfg, pr, y, T, init=init)
        mu0, lam0, psi0, nu0 = eff_priors(pr, y)
        S = m.sim_params
        if len(S) != T:
            raise Undecided("not one saved draw per step")
        U1, U2 = [], []
        iw = {round(float(r[0, 0]), 9): (df, sc) for df, sc, r in rec.iw}
        mv = {round(float(r[0]), 9): (me, co) for me, co, r in rec.mv}
        for t in range(1, T):
            d = np.asarray(S[t - 1]["d"])
            th, tp = S[t]["theta"], S[t - 1]["theta"]
            occ = np.unique(d)
            for j in occ:
                p = niw_post(y[d == j], mu0, lam0, psi0, nu0)
                mu, sig = np.atleast_1d(th[j][0]), np.atleast_2d(th[j][1])
                ctx.ok(j not in tp or not (np.array_equal(mu, np.atleast_1d(tp[j][0])) or np.array_equal(sig, np.atleast_2d(tp[j][1]))), "the atom of every occupied group is redrawn in every step", j=j, t=t, n=int(np.sum(d == j)))
                ctx.ok(mu.shape == (D,) and sig.shape == (D, D), "atom shapes", j=j)
                k1 = round(float(sig[0, 0]), 9)
                if k1 in iw:
                    ctx.close(iw[k1][0], p[3], "degrees of freedom nu + n", j=j, n=int(np.sum(d == j)))
                    ctx.close(iw[k1][1], p[2], "scale of the group's posterior", rtol=1e-6, j=j, n=int(np.sum(d == j)))
                k2 = round(float(mu[0]), 9)
                if k2 in mv:
                    ctx.close(mv[k2][0], p[0], "mean of the group's posterior", rtol=1e-6, j=j)
                    ctx.close(mv[k2][1], sig / p[1], "mean's covariance is sigma / (lambda + n)", rtol=1e-6, j=j)
                z = mu - p[0]
                U1.append(stats.chi2.cdf(p[1] * z @ np.linalg.solve(sig, z), D))
                c = rng.normal(size=D)
                U2.append(stats.chi2.cdf((c @ p[2] @ c) / (c @ sig @ c) if D == 1 else 1 / ((c @ np.linalg.inv(p[2]) @ c)) * (c @ np.linalg.inv(sig) @ c), 0)
                          if False else stats.chi2.cdf((c @ p[2] @ c) / (c @ sig @ c), p[3] - D + 1))
            for j in tp:
                if j not in occ and j in th:
                    ctx.ok(np.array_equal(th[j][0], tp[j][0]) and np.array_equal(th[j][1], tp[j][1]), "atoms of unoccupied groups are untouched", j=j)
            for j in tp:
                ctx.ok(j in th, "no atom is lost", j=j)
        for u, what in ((U1, "mean given covariance"), (U2, "covariance")):
            p = ks_uniform(u)
            ctx.ok(p > P_MIN, "atom %s follows the posterior law" % what, pvalue=p, n=len(u), mean_pit=float(np.mean(u)))
        ctx.close(m.y, y, "data untouched")
        ctx.close(m.mu_prior, mu0, "prior mean untouched")
        ctx.close(m.psi_prior, psi0, "prior scale untouched")
        ctx.ok(m.lambda_prior == lam0 and m.nu_prior == nu0, "prior counts untouched")
    for name, D, kind in SETS:
        for cfg in GCFG[name]:
            ctx.case("atoms %s D=%d prior=%d" % (label(name, cfg), D, kind), run, name, cfg, D, kind, "kmeans")
            ctx.case("atoms %s D=%d prior=%d random init" % (label(name, cfg), D, kind), run, name, cfg, D, kind, "random")

    def direct(ctx, D, n, kind):
        """one real step from a state with the given group sizes"""
        name, cfg = "DirichletProcess", dict(alpha=1)
        y, pr, rng = setup(ctx, name, D, kind, "direct", n=n)
        m = mixture(name, cfg, rng=2, total_iter=2, burn_in=1, **pr)
        if not (hasattr(m, "_update_atoms") and hasattr(m, "_initialize_common_params")):
            raise Undecided("no separate atom update")
        m.fit_gibbs(y)
        mu0, lam0, psi0, nu0 = eff_priors(pr, y)
        ctx.force()
        for d in ([0] * n, list(range(min(n, 9))) * (n // min(n, 9)) + [0] * (n % min(n, 9)), [0] * (n - 1) + [4], [3] * (n // 2) + [1] * (n - n // 2)):
            d = np.array(d)
            m.d = d.copy()
            before = {j: (np.array(a[0]), np.array(a[1])) for j, a in m.theta.items()}
            with ScipyRec() as rec:
                m._update_atoms()
            for j in np.unique(d):
                p = niw_post(y[d == j], mu0, lam0, psi0, nu0)
                sig = np.atleast_2d(m.theta[j][1])
                mu = np.atleast_1d(m.theta[j][0])
                hit = [e for e in rec.iw if np.allclose(e[2], sig)]
                if not hit:
                    raise Undecided("covariance is no recorded draw")
                ctx.close(hit[0][0], p[3], "degrees of freedom", n=int(np.sum(d == j)))
                ctx.close(hit[0][1], p[2], "posterior scale", n=int(np.sum(d == j)), rtol=1e-6)
                hit = [e for e in rec.mv if np.allclose(e[2], mu)]
                if not hit:
                    raise Undecided("mean is no recorded draw")
                ctx.close(hit[0][0], p[0], "posterior mean", rtol=1e-6)
                ctx.close(hit[0][1], sig / p[1], "posterior mean covariance", rtol=1e-6)
            for j in before:
                if j not in d:
                    ctx.ok(np.array_equal(m.theta[j][0], before[j][0]) and np.array_equal(m.theta[j][1], before[j][1]), "other atoms untouched", j=j)
            ctx.ok(np.array_equal(m.d, d), "assignments untouched")
    for D in (1, 2, 3):
        for kind in (0, 1, 2):
            ctx.case("one atom update D=%d prior=%d" % (D, kind), direct, D, 6, kind)
    ctx.case("one atom update, large groups", direct, 2, 700, 0)


def c13(ctx):
    T = reps(ctx, 150, 600)

    def run(ctx, name, cfg, D, kind):
        y, pr, rng = setup(ctx, name, D, kind, "slice")
        m = chain(name, cfg, pr, y, T, seed=11)
        S = m.sim_params
        if len(S) != T:
            raise Undecided("not one saved draw per step")
        Uu, Ud, Uw = [], [], {}
        same = [0, 0]
        for t in range(T):
            w, u, d, th = np.asarray(S[t]["w"], float), np.asarray(S[t]["u"]), np.asarray(S[t]["d"]), S[t]["theta"]
            ctx.ok(d.shape == (len(y),) and u.shape == (len(y),), "one slice and one label per observation", t=t)
            ctx.ok(np.sum(w) >= 1 - np.min(u) - 1e-9, "the weights cover one minus the smallest slice", t=t, total=w.sum(), min_u=u.min())
            ctx.ok(np.all(d >= 0) and np.all(d < len(w)), "labels have weights", t=t)
            adm = w[None, :] > u[:, None]
            bad = [i for i in range(len(y)) if adm[i].any() and not adm[i, d[i]]]
            ctx.ok(not bad, "labels are admissible components", t=t, i=bad, w=w, u=u, d=d)
            L = np.array([lognorm(y, th[j][0], th[j][1]) for j in range(len(w))]).T
            L[~adm] = -np.inf
            P = np.exp(L - L.max(1, keepdims=True))
            P /= P.sum(1, keepdims=True)
            for i in range(len(y)):
                if adm[i].any():
                    c = np.cumsum(P[i])
                    Ud.append(c[d[i]] - P[i, d[i]] * rng.uniform())
            if t:
                dp = np.asarray(S[t - 1]["d"])
                ctx.ok(np.all(u <= w[dp] * (1 + 1e-9) + 1e-15) and np.all(u >= 0), "each slice lies under its observation's weight", t=t, u=u, wd=w[dp])
                Uu += list(np.clip(u / (w[dp] + 1e-300), 0, 1))
                up = np.asarray(S[t - 1]["u"])
                same[0] += int(np.sum((u == up) | (u == w[dp])))
                if name in ("DirichletProcess", "PitmanYorProcess", "GeometricProcess"):
                    same[1] += w[0] == S[t - 1]["w"][0]
                if name in ("DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaBinomial", "BetaBernoulli") and name in GCFG:
                    cut = dp.max() + 3
                    us, badm = post_pits(name, cfg, None, w[:cut], dp)
                    ctx.ok(badm is None, badm or "", t=t)
                    for j, x in us:
                        Uw.setdefault(j if not isinstance(j, int) or j < 4 else 4, []).append(x)
                elif name == "FrequencyWeighting":
                    ctx.close(w, np.bincount(dp) / len(dp), "weights are the frequencies of the current assignments", t=t)
        ctx.ok(same[0] <= 2, "every step draws new slices", repeated=same[0])
        ctx.ok(same[1] <= 2, "every step draws new weights", repeated=same[1])
        for u, what in ((Uu, "slices are uniform under the weight"), (Ud, "labels are drawn with the right probabilities")):
            p = ks_uniform(u)
            ctx.ok(p > P_MIN, what, pvalue=p, n=len(u), mean_pit=float(np.mean(u)))
        for j, u in Uw.items():
            u = [x for x in u if np.isfinite(x)]
            if len(u) > 25:
                p = ks_uniform(u)
                ctx.ok(p > P_MIN, "weights are redrawn from the posterior given the current assignments (stick %s)" % j, pvalue=p, n=len(u), mean_pit=float(np.mean(u)))
    for name, D, kind in SETS:
        for cfg in GCFG[name]:
            ctx.case("slice %s D=%d prior=%d" % (label(name, cfg), D, kind), run, name, cfg, D, kind, _limit=40)

    def steps(ctx, k):
        """direct weight / label updates from prescribed states"""
        name, cfg = ("DirichletProcess", dict(alpha=0.8)) if k % 2 else ("PitmanYorProcess", dict(pyd=0.1, alpha=0.4))
        y, pr, rng = setup(ctx, name, 1 + k % 3, k, "steps", n=1 if k % 5 == 4 else 9)
        m = mixture(name, cfg, rng=k, total_iter=2, burn_in=1, **(pr if len(y) > 1 else priors(rng, 1 + k % 3, 1)))
        m.fit_gibbs(y, init_method="random")
        if not (hasattr(m, "_update_weights") and hasattr(m, "_update_d")):
            raise Undecided("no separate updates")
        ctx.force()
        for it in range(12):
            d = rng.integers(0, 4, len(y))
            m.d = d.copy()
            m._update_weights()
            w, u = np.array(m.weight_model.get_weights(), float), np.array(m.u)
            ctx.ok(np.array_equal(np.asarray(m.weight_model.d), d), "the weighting model is refitted to the current assignments", d=d)
            ctx.ok(np.all(u <= w[d] * (1 + 1e-9) + 1e-15), "slices under the weights", u=u, wd=w[d])
            ctx.ok(w.sum() >= 1 - u.min() - 1e-9, "coverage", total=w.sum(), u=u.min())
            ctx.ok(np.array_equal(m.d, d), "a weight update keeps the labels")
            m._update_d()
            ctx.ok(np.array_equal(m.weight_model.get_weights(), w) and np.array_equal(m.u, u), "a label update keeps weights and slices")
            ctx.ok(np.shape(m.d) == (len(y),) and np.all(w[m.d] > u - 1e-15), "labels admissible", d=m.d, w=w, u=u)
    for k in range(reps(ctx, 10, 60)):
        ctx.case("single updates %d" % k, steps, k)


# ------------------------------------------------------------------- C14, C15
def loglik(S, y):
    w, d, th = np.asarray(S["w"], float), np.asarray(S["d"]), S["theta"]
    s = sum(lognorm(y[d == j], th[j][0], th[j][1]).sum() for j in np.unique(d))
    return s + np.log(w[d]).sum()


class Watch:
    """snapshots of the saved records at every weight refit"""

    def __init__(self, m):
        self.m, self.bad, self.steps = m, [], 0
        self.snap, self.map_obj, self.map_snap = [], None, None
        wm = m.weight_model
        orig = wm.fit

        def fit(d):
            self.steps += 1
            self.look()
            return orig(d)
        wm.fit = fit

    def look(self):
        m = self.m
        S = m.sim_params
        if len(S) < len(self.snap):
            self.snap = []
        for i, f in enumerate(self.snap):
            if f != freeze(S[i]):
                self.bad.append("saved draw %d changed" % i)
        self.snap += [freeze(s) for s in S[len(self.snap):]]
        if m.map_sim_params is not None:
            if m.map_sim_params is self.map_obj and freeze(self.map_obj) != self.map_snap:
                self.bad.append("the MAP record changed")
            self.map_obj, self.map_snap = m.map_sim_params, freeze(m.map_sim_params)


def complete_record(ctx, S, n, what):
    for k in ("w", "theta", "u", "d"):
        ctx.ok(k in S, "%s records %s" % (what, k))
    w = np.asarray(S["w"])
    ctx.ok(all(j in S["theta"] for j in range(len(w))), "%s has an atom for every weight" % what, k=len(w), atoms=sorted(map(int, S["theta"])))
    ctx.ok(len(S["d"]) == n and len(S["u"]) == n, "%s has one label and slice per observation" % what)
    ctx.ok(max(S["d"]) < len(w), "%s labels have weights" % what)
    ctx.ok(isinstance(S["theta"], dict) and getattr(S["theta"], "default_factory", None) is None, "%s holds a plain copy of the atoms" % what)


def c14(ctx):
    PL = [(7, 0, 1), (9, 2, 1), (10, 3, 2), (8, 1, 3), (12, 5, 4), (5, 4, 1), (6, 0, 10), (11, 4, 7)]

    def run(ctx, name, cfg, D, kind, plan, init):
        T, B, s = plan
        y, pr, rng = setup(ctx, name, D, kind, "save")
        m = mixture(name, cfg, rng=5, total_iter=T, burn_in=B, subsample_steps=s, **pr)
        wa = Watch(m)
        tot = 0
        aff = np.zeros((len(y), len(y)))
        for rnd in range(3):
            warm = rnd > 0
            if kind % 2 and rnd == 2:
                warm = False
            wa.steps = 0
            old = [freeze(x) for x in m.sim_params]
            m.fit_gibbs(y, warm_start=warm, init_method=init)
            wa.look()
            ctx.ok(not wa.bad, "saved records never change", bad=wa.bad[:3])
            ctx.ok(wa.steps == T, "exactly total_iter steps", steps=wa.steps, total_iter=T)
            per = -(-(T - B) // s)
            tot = per if not warm else tot + per
            S = m.sim_params
            ctx.ok(len(S) == tot, "ceil((total_iter - burn_in) / subsample_steps) draws", n=len(S), expected=tot, plan=plan, warm=warm)
            if warm:
                ctx.ok([freeze(x) for x in S[:len(old)]] == old, "a warm start keeps the earlier draws")
            ctx.ok(m.total_saved_steps == len(S), "counter of saved draws", total=m.total_saved_steps, n=len(S))
            ctx.ok(list(m.get_n_groups()) == [len(np.unique(x["d"])) for x in S], "group counts match the draws", got=list(m.get_n_groups()))
            ctx.ok(list(m.get_n_theta()) == [len(x["theta"]) for x in S], "atom counts match the draws", got=list(m.get_n_theta()))
            aff = sum((np.asarray(x["d"])[:, None] == np.asarray(x["d"])[None, :]).astype(float) for x in S)
            ctx.close(m.affinity_matrix, aff, "co-clustering counts match the draws")
            for x in S:
                complete_record(ctx, x, len(y), "a saved draw")
                w, u, d = np.asarray(x["w"], float), np.asarray(x["u"]), np.asarray(x["d"])
                adm = w[None, :] > u[:, None]
                ctx.ok(all(w[d[i]] > u[i] or not adm[i].any() for i in range(len(y))), "weights, slices and labels belong to one step", w=w, u=u, d=d)
            for a, b in zip(S, S[1:]):
                ctx.ok(freeze(a["u"]) != freeze(b["u"]), "different draws are different steps")
            # draws of the right steps: the same stream without burn-in and thinning
    for i, (name, D, kind) in enumerate(SETS):
        for cfg in GCFG[name]:
            for k in range(reps(ctx, 2, 8)):
                plan = PL[(i + 3 * k) % len(PL)]
                ctx.case("saving %s plan=%s %d" % (label(name, cfg), plan, k), run, name, cfg, D, kind, plan, ["kmeans", "random"][k % 2])

    def long(ctx, name, cfg):
        """hundreds of saved draws"""
        rng = ctx.rng("long", name)
        y = rng.normal(size=(4, 1))
        m = mixture(name, cfg, rng=5, total_iter=310, burn_in=2, mu_prior=np.zeros(1), psi_prior=np.eye(1), nu_prior=2, lambda_prior=1)
        m.fit_gibbs(y)
        S = m.sim_params
        ctx.ok(len(S) == 308, "ceil((total_iter - burn_in) / subsample_steps) draws", n=len(S))
        ds = np.array([np.asarray(x["d"]) for x in S])
        ctx.close(m.affinity_matrix, (ds[:, :, None] == ds[:, None, :]).sum(0), "co-clustering counts match the draws")
        ctx.ok(list(m.get_n_groups()) == [len(np.unique(d)) for d in ds], "group counts match the draws")
    for name in ("DirichletProcess", "DirichletDistribution"):
        ctx.case("saving many draws %s" % name, long, name, GCFG[name][0])

    def labels(ctx, k):
        """hundreds of components"""
        rng = ctx.rng("labels", k)
        y = rng.normal(size=(60, 1))
        m = mixture("DirichletProcess", dict(alpha=150), rng=5 + k, total_iter=4, burn_in=1, mu_prior=np.zeros(1), psi_prior=np.eye(1), nu_prior=2, lambda_prior=1)
        m.fit_gibbs(y, init_method="random")
        for x in m.sim_params:
            complete_record(ctx, x, len(y), "a saved draw")
            ctx.ok(np.all(np.asarray(x["d"]) >= 0) and np.all(np.asarray(x["w"])[x["d"]] > np.asarray(x["u"]) - 1e-12), "weights, slices and labels belong to one step", labels=x["d"])
        ctx.ok(list(m.get_n_groups()) == [len(np.unique(x["d"])) for x in m.sim_params], "group counts match the draws")
        ctx.ok(list(m.get_n_theta()) == [len(x["theta"]) for x in m.sim_params], "atom counts match the draws")
    for k in range(2):
        ctx.case("saving hundreds of components %d" % k, labels, k)

    def which(ctx, name, cfg, D, plan):
        T, B, s = plan
        y, pr, rng = setup(ctx, name, D, 0, "which")
        A = mixture(name, cfg, rng=9, total_iter=T, burn_in=0, subsample_steps=1, **pr)
        A.fit_gibbs(y)
        Bm = mixture(name, cfg, rng=9, total_iter=T, burn_in=B, subsample_steps=s, **pr)
        Bm.fit_gibbs(y)
        a = [(freeze(np.asarray(x["w"])), freeze(np.asarray(x["u"])), freeze(np.asarray(x["d"]))) for x in A.sim_params]
        b = [(freeze(np.asarray(x["w"])), freeze(np.asarray(x["u"])), freeze(np.asarray(x["d"]))) for x in Bm.sim_params]
        if len(a) != T:
            raise Undecided("chain has no draw per step")
        idx = list(range(B, T))[::s]
        ctx.ok(b == [a[i] for i in idx], "the saved draws are every subsample_steps-th step after burn-in", plan=plan,
               got=[a.index(x) if x in a else None for x in b], expected=idx)
    for name in ("DirichletProcess", "DirichletDistribution", "PitmanYorProcess"):
        for plan in PL:
            ctx.case("which draws %s %s" % (name, plan), which, name, GCFG[name][0], 2, plan)


def c15(ctx):
    def run(ctx, name, cfg, D, kind, B, init, k):
        y, pr, rng = setup(ctx, name, D, kind, "map%d" % k)
        T = [12, 30, 5, 18][k % 4]
        m = mixture(name, cfg, rng=21 + k, total_iter=T, burn_in=0, subsample_steps=1, **pr)
        wa = Watch(m)
        first = []
        if hasattr(m, "_gibbs_step"):
            orig = m._gibbs_step

            def step():
                if not first:
                    first.append(dict(w=np.array(m.weight_model.get_weights()), theta={j: (np.array(a[0]), np.array(a[1])) for j, a in m.theta.items()}, d=np.array(m.d), u=np.array(m.u)))
                return orig()
            m._gibbs_step = step
        m.fit_gibbs(y, init_method=init)
        wa.look()
        ctx.ok(not wa.bad, "the MAP record never changes", bad=wa.bad[:3])
        for rnd in range(2):
            mp = m.map_sim_params
            complete_record(ctx, mp, len(y), "the MAP record")
            lls = [loglik(S, y) for S in m.sim_params]
            if first:
                lls0 = [loglik(first[0], y)] + lls
            else:
                lls0 = lls
            ml = loglik(mp, y)
            if np.isfinite(max(lls0)):
                ctx.ok(ml >= max(lls0) - 1e-7 * (1 + abs(ml)), "the MAP state has the largest log-likelihood visited", map=ml, best=max(lls0), at=int(np.argmax(lls0)), n=len(lls0))
                ctx.close(m.map_log_likelihood, ml, "the recorded MAP log-likelihood is that of the MAP state", rtol=1e-6)
            keys = [tuple(freeze(np.asarray(S[q])) for q in ("w", "d", "u")) for S in m.sim_params + first]
            if first:
                me = tuple(freeze(np.asarray(mp[q])) for q in ("w", "d", "u"))
                ctx.ok(me in keys, "the MAP state is one visited state")
                if me in keys:
                    S = (m.sim_params + first)[keys.index(me)]
                    ctx.ok(all(np.array_equal(mp["theta"][j][0], S["theta"][j][0]) and np.array_equal(mp["theta"][j][1], S["theta"][j][1]) for j in range(len(np.asarray(mp["w"]))) if j in S["theta"]),
                           "the MAP record's atoms are those of that state")
            if rnd == 0:
                m.fit_gibbs(y, warm_start=True)
                wa.look()
                ctx.ok(not wa.bad, "the MAP record never changes", bad=wa.bad[:3])
    for k in range(reps(ctx, 3, 16)):
        for i, (name, D, kind) in enumerate(SETS):
            ctx.case("map %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, kind, 0, ["kmeans", "random", "kmeans"][(i + k) % 3], k)

    def burn(ctx, name, cfg, D, k):
        y, pr, rng = setup(ctx, name, D, 0, "burn")
        out = []
        for B, s in ((0, 1), (7, 1), (14, 3)):
            m = mixture(name, cfg, rng=31 + k, total_iter=15, burn_in=B, subsample_steps=s, **pr)
            m.fit_gibbs(y)
            out.append((m.map_log_likelihood, freeze(np.asarray(m.map_sim_params["w"])), freeze(np.asarray(m.map_sim_params["d"]))))
        ctx.ok(out[0] == out[1] == out[2], "burn-in and thinning do not change which states compete for the MAP", lls=[o[0] for o in out])
    for k in range(reps(ctx, 6, 30)):
        for name in ("DirichletProcess", "DirichletDistribution", "GeometricProcess"):
            ctx.case("map burn-in %s %d" % (name, k), burn, name, GCFG[name][0], 1 + k % 3, k)


# ------------------------------------------------------------------------ C16
def gstate(m):
    return {"sim": [freeze({k: np.asarray(v) if k != "theta" else {int(j): [np.asarray(a) for a in at] for j, at in v.items()} for k, v in S.items()}) for S in m.sim_params],
            "n_groups": list(m.n_groups), "n_atoms": list(m.n_atoms), "total": m.total_saved_steps, "aff": freeze(np.asarray(m.affinity_matrix)),
            "map": freeze({k: np.asarray(v) if k != "theta" else {int(j): [np.asarray(a) for a in at] for j, at in v.items()} for k, v in m.map_sim_params.items()}),
            "ll": float(m.map_log_likelihood), "mu": freeze(np.asarray(m.mu_prior, float)), "psi": freeze(np.asarray(m.psi_prior, float)), "nu": float(m.nu_prior)}


def vstate(m):
    return {"var_d": freeze(np.asarray(m.var_d)), "theta": freeze([[np.asarray(x, float) for x in t] for t in m.var_theta]), "k": m.var_k, "conv": bool(m.var_converged),
            "mu": freeze(np.asarray(m.mu_prior, float)), "psi": freeze(np.asarray(m.psi_prior, float)), "nu": float(m.nu_prior),
            "wp": freeze(np.asarray(m.weight_model.variational_params, float)) if m.weight_model.variational_params is not None else None}


def c16(ctx):
    def gibbs(ctx, name, cfg, D, kind, k):
        rng = ctx.rng("cold", name, D, kind, k)
        pr = priors(rng, D, kind)
        if kind == 3:
            pr.pop("mu_prior")
        if kind == 4:
            pr = dict(psi_prior=pr["psi_prior"])
        D1 = D if "mu_prior" in pr or "psi_prior" in pr else [1, 2, 3][k % 3]
        # an earlier data set of another or of the same size
        y1, y2 = data(rng, D1, 13 if k % 2 else 11) * 3 + 5, data(rng, D, 11)
        init = ["kmeans", "random", "kmeans"][k % 3]
        A = mixture(name, cfg, rng=3, total_iter=6, burn_in=1, **pr)
        B = mixture(name, cfg, rng=3, total_iter=6, burn_in=1, **pr)
        if k % 4 == 3 and name in ("DirichletProcess", "DirichletDistribution", "PitmanYorProcess", "GeometricProcess"):
            A.fit_variational(y1, n_groups=cfg.get("n", 3))
        A.fit_gibbs(y1, init_method=init)
        if k % 2:
            A.fit_gibbs(y1, warm_start=True)
            A.gibbs_map_density()
        if name == "BetaInBeta":
            B.weight_model.p = A.weight_model.p
        set_rng(A, Rec(40 + k))
        set_rng(B, Rec(40 + k))
        ig = [None, 3][k % 2] if name in INF else None
        A.fit_gibbs(y2, init_groups=ig, init_method=init)
        B.fit_gibbs(y2, init_groups=ig, init_method=init)
        a, b = gstate(A), gstate(B)
        for q in b:
            ctx.ok(a[q] == b[q], "a cold Gibbs fit does not depend on earlier fits (%s)" % q, field=q, init=init, earlier_dim=D1, got=str(a[q])[:200], fresh=str(b[q])[:200])
        mu0, lam0, psi0, nu0 = eff_priors(pr, y2)
        ctx.close(A.mu_prior, mu0, "prior mean of the fitted data or as given")
        ctx.close(A.psi_prior, psi0, "prior scale of the fitted data or as given")
        ctx.ok(float(A.nu_prior) == nu0 and float(A.lambda_prior) == lam0, "prior counts of the fitted data or as given", nu=A.nu_prior)
    for k in range(reps(ctx, 5, 24)):
        for i, (name, D, kind) in enumerate(SETS):
            ctx.case("cold gibbs %s D=%d %d" % (name, D, k), gibbs, name, GCFG[name][0], D, (kind + k) % 5, k)

    def warm(ctx, name, cfg, D, kind, k):
        """a warm start continues the chain, but on the data it is given"""
        rng = ctx.rng("warm", name, D, kind, k)
        pr = priors(rng, D, kind)
        if k % 2:
            pr = dict(lambda_prior=2.0)
        y1 = data(rng, D, 10)
        y2 = data(rng, D, 10) * 2 + 3
        m = mixture(name, cfg, rng=3, total_iter=5, burn_in=1, **pr)
        m.fit_gibbs(y1)
        for y in (y2, y2 + 1, y1):
            m.fit_gibbs(y, warm_start=True)
            ctx.close(m.y, y, "a warm start fits the data it is given")
            mu0, lam0, psi0, nu0 = eff_priors(pr, y)
            ctx.close(m.mu_prior, mu0, "prior mean of the fitted data or as given (warm start)")
            ctx.close(m.psi_prior, psi0, "prior scale of the fitted data or as given (warm start)")
            ctx.ok(float(m.nu_prior) == nu0 and float(m.lambda_prior) == lam0, "prior counts of the fitted data or as given (warm start)", nu=m.nu_prior)
    for k in range(reps(ctx, 2, 8)):
        for i, (name, D, kind) in enumerate(SETS):
            ctx.case("warm gibbs %s D=%d %d" % (name, D, k), warm, name, GCFG[name][0], D, kind % 3, k)

    def var(ctx, name, cfg, D, kind, k):
        rng = ctx.rng("coldv", name, D, kind, k)
        pr = priors(rng, D, kind)
        D1 = D if "mu_prior" in pr else [1, 2, 3][k % 3]
        y1, y2 = data(rng, D1, 17 if k % 3 else 14) * 2 - 4, data(rng, D, 14)
        init = ["kmeans", "random"][k % 2]
        ng = cfg.get("n", 3)
        A = mixture(name, cfg, rng=3, total_iter=9, burn_in=1, **pr)
        B = mixture(name, cfg, rng=3, total_iter=9, burn_in=1, **pr)
        A.fit_variational(y1, n_groups=cfg.get("n", 2 + k % 3), init_method=["random", "kmeans"][k % 2], tol=[1e9, 1e-12][k % 2])
        if k % 3 == 2:
            A.fit_gibbs(y1)
        set_rng(A, Rec(50 + k))
        set_rng(B, Rec(50 + k))
        A.fit_variational(y2, n_groups=ng, init_method=init, tol=[1e-12, 1e-3][k % 2])
        B.fit_variational(y2, n_groups=ng, init_method=init, tol=[1e-12, 1e-3][k % 2])
        a, b = vstate(A), vstate(B)
        for q in b:
            ctx.ok(a[q] == b[q], "a cold variational fit does not depend on earlier fits (%s)" % q, init=init, got=str(a[q])[:200], fresh=str(b[q])[:200])
        mu0, lam0, psi0, nu0 = eff_priors(pr, y2)
        ctx.close(A.mu_prior, mu0, "prior mean")
        ctx.close(A.psi_prior, psi0, "prior scale")
    for k in range(reps(ctx, 6, 24)):
        for i, name in enumerate(["DirichletProcess", "PitmanYorProcess", "GeometricProcess", "DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]):
            ctx.case("cold variational %s %d" % (name, k), var, name, GCFG[name][0], 1 + (i + k) % 3, (i + k) % 3, k)


# ------------------------------------------------------------------- C17, C18
def mixdens(x, S, dim=None, comp=None):
    w, th = np.asarray(S["w"], float), S["theta"]
    js = range(len(w)) if comp is None else [comp]
    x = np.atleast_2d(x)
    out = np.zeros(len(x))
    for j in js:
        mu, sg = np.atleast_1d(th[j][0]), np.atleast_2d(th[j][1])
        if dim is not None:
            dd = np.atleast_1d(dim)
            mu, sg = mu[dd], sg[np.ix_(dd, dd)]
        out += w[j] * np.exp(lognorm(x, mu, sg))
    return out


def qstate(m):
    st = gstate(m) if m.sim_params else {}
    st["y"] = freeze(m.y)
    return st


def reuse(ctx, how, asks, n=12, T=6, lists=False):
    """the answers of a model that was asked, refitted and asked again are those of a model never asked before"""
    def run(ctx, name, cfg, D, k):
        rng = ctx.rng("reuse", how, name, D, k)
        pr = priors(rng, D, 1 + k % 2)
        y1, y2 = data(rng, D, n), data(rng, D, n)[::-1] * [1.0, 1.7][k % 2]
        x1, x2 = rng.normal(size=(5, D)) * 3, rng.normal(size=(5, D)) * 3

        def fit(m, y, **kw):
            if how == "gibbs":
                m.fit_gibbs(y, init_method=["kmeans", "random"][k % 2], **kw)
            else:
                m.fit_variational(y, n_groups=cfg.get("n", 3), init_method=["kmeans", "random"][k % 2], tol=-1.0, **kw)

        def ask(m, x):
            out = {}
            for q, f in asks.items():
                r = f(m, x, D)
                out[q] = [np.array(z, float) for z in (r if isinstance(r, tuple) else (r,))]
            return out

        def new(seed, ys, p=None):
            m = mixture(name, cfg, rng=3, total_iter=T, burn_in=1, **pr)
            if p is not None:
                m.weight_model.p = p
            set_rng(m, Rec(seed))
            for y, kw in ys:
                fit(m, y, **kw)
            return m

        def same(A, B, x, what):
            b = ask(B, x)
            for q, f in asks.items():
                if isinstance(x, np.ndarray):
                    f(A, x + 1, D)
                r = f(A, x, D)
                for g, e in zip(r if isinstance(r, tuple) else (r,), b[q]):
                    ctx.ok(np.shape(g) == np.shape(e) and np.allclose(g, e, rtol=1e-6, atol=1e-9), "%s of a model asked before (%s)" % (q, what), got=g, fresh_model=e)
        A = new(60 + k, [(y1, {})])
        ask(A, x1)
        same(A, new(60 + k, [(y1, {})]), x2, "other points")
        buf = x1.copy()
        ask(A, buf)
        buf[:] = x2 + 0.5
        same(A, new(60 + k, [(y1, {})]), buf, "the same array with other values")
        if lists:
            buf = x1.tolist()
            for q, f in asks.items():
                buf[:] = x1.tolist()
                f(A, buf, D)
                buf[:] = (x2 - 0.5).tolist()
                e = ask(new(60 + k, [(y1, {})]), x2 - 0.5)[q]
                r = f(A, buf, D)
                for g, e in zip(r if isinstance(r, tuple) else (r,), e):
                    ctx.ok(np.shape(g) == np.shape(e) and np.allclose(g, e, rtol=1e-6, atol=1e-9), "%s at a list changed by the caller after an earlier query" % q, got=g, fresh_model=e)
        set_rng(A, Rec(90 + k))
        p = A.weight_model.p if name == "BetaInBeta" else None
        fit(A, y2)
        same(A, new(90 + k, [(y2, {})], p), x2, "refitted")
        same(A, new(90 + k, [(y2, {})], p), x1, "refitted, other points")
        fit(A, y2, warm_start=True)
        same(A, new(90 + k, [(y2, {}), (y2, dict(warm_start=True))], p), x1, "warm start")
    for k in range(reps(ctx, 2, 8)):
        for i, (name, D, _) in enumerate(SETS if how == "gibbs" else VSETS):
            if (i + k) % 2 == 0 or ctx.tier != "quick":
                ctx.case("asked again %s %s D=%d %d" % (how, name, D, k), run, name, GCFG[name][0], D, k)


def c17(ctx):
    reuse(ctx, "gibbs", {"MAP density": lambda m, x, D: m.gibbs_map_density(x), "EAP density": lambda m, x, D: m.gibbs_eap_density(x), "EAP density of the data": lambda m, x, D: m.gibbs_eap_density(),
                         "MAP density of the data": lambda m, x, D: m.gibbs_map_density(), "marginal density": lambda m, x, D: m.gibbs_eap_density(x[:, 0], dim=[0]),
                         "marginal MAP density": lambda m, x, D: m.gibbs_map_density(x[:, D - 1], dim=[D - 1]), "recent draws": lambda m, x, D: m.gibbs_eap_density(x, periods=2),
                         "component density": lambda m, x, D: m.gibbs_map_density(x, component=0)})
    def run(ctx, name, cfg, D, kind, k):
        y, pr, rng = setup(ctx, name, D, kind, "dens%d" % k)
        m = mixture(name, cfg, rng=4 + k, total_iter=[3, 9, 14][k % 3], burn_in=2, subsample_steps=1 + k % 2, **pr)
        m.fit_gibbs(y, init_method=["kmeans", "random"][k % 2])
        st = qstate(m)
        S = m.sim_params
        mp = m.map_sim_params

        def chk(x, xr, dim, comp, tag):
            kw = {}
            if dim is not None:
                kw["dim"] = dim
            if comp is not None:
                kw["component"] = comp
            e = mixdens(xr, mp, dim, comp)
            g = m.gibbs_map_density(x, **kw) if x is not None else m.gibbs_map_density(**kw)
            ctx.ok(np.shape(g) == (len(xr),), "one value per point", tag=tag, shape=np.shape(g), n=len(xr))
            ctx.close(g, e, "MAP density (%s)" % tag, rtol=1e-6, dim=dim, component=comp)
            ctx.ok(np.all(np.isfinite(g)) and np.all(np.asarray(g) >= 0), "finite and non-negative")
            ks = min(len(np.asarray(s["w"])) for s in S)
            if comp is None or comp < ks:
                for per in (None, 1, 2, len(S), len(S) + 5):
                    sel = S if per is None else S[-min(per, len(S)):]
                    e = np.mean([mixdens(xr, s, dim, comp) for s in sel], axis=0)
                    kw2 = dict(kw) if per is None else dict(kw, periods=per)
                    g = m.gibbs_eap_density(x, **kw2) if x is not None else m.gibbs_eap_density(**kw2)
                    ctx.close(g, e, "EAP density (%s)" % tag, rtol=1e-6, dim=dim, component=comp, periods=per)
        chk(None, y, None, None, "training data")
        x = rng.normal(size=(6, D)) * 3
        chk(x, x, None, None, "new points")
        chk(x.tolist(), x, None, None, "list")
        chk(pd.DataFrame(x), x, None, None, "frame")
        chk(x[:1], x[:1], None, None, "one point")
        k_ = len(np.asarray(mp["w"]))
        for comp in {0, k_ - 1, k_ // 2}:
            chk(x, x, None, int(comp), "component")
        far = x + 1e3
        ctx.ok(np.all(np.isfinite(m.gibbs_map_density(far))), "far points")
        for dim in range(D):
            x1 = rng.normal(size=5) * 3
            chk(x1, x1[:, None], dim, None, "one dimension")
            chk(x1, x1[:, None], np.int64(dim), None, "one dimension")
            chk(x1, x1[:, None], [dim], None, "one dimension as a list")
            chk(pd.Series(x1), x1[:, None], dim, 0, "one dimension, component")
            chk(x1[:1], x1[:1, None], dim, None, "one dimension, one point")
        if D > 1:
            for dd in ([0, 1], [1, 0], [D - 1, 0]):
                x2 = rng.normal(size=(4, 2)) * 3
                chk(x2, x2, dd, None, "two dimensions")
                chk(x2, x2, np.array(dd), None, "two dimensions")
                chk(x2, x2, tuple(dd), None, "two dimensions as a tuple")
                chk(x2, x2, dd, 0, "two dimensions, component")
        if D == 1:
            chk(1.3, np.array([[1.3]]), None, None, "scalar")
            chk(2, np.array([[2.0]]), None, None, "integer scalar")
        ctx.ok(qstate(m) == st, "queries do not alter the fitted object")
    for k in range(reps(ctx, 2, 10)):
        for name, D, kind in SETS:
            ctx.case("densities %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, kind, k)


def mapcluster(x, S):
    w, th = np.asarray(S["w"], float), S["theta"]
    with np.errstate(all="ignore"):
        L = np.array([np.log(w[j]) + lognorm(x, th[j][0], th[j][1]) for j in range(len(w))]).T
    P = np.exp(L - L.max(1, keepdims=True))
    P /= P.sum(1, keepdims=True)
    g = P.argmax(1)
    srt = np.sort(P, axis=1)
    clear = srt[:, -1] - (srt[:, -2] if P.shape[1] > 1 else 0) > 1e-6
    return g, 1 - P.max(1), clear, P


def c18(ctx):
    reuse(ctx, "gibbs", {"MAP clusters": lambda m, x, D: m.gibbs_map_cluster(x, full=True), "MAP clusters of the data": lambda m, x, D: m.gibbs_map_cluster(full=True),
                         "affinity": lambda m, x, D: m.gibbs_eap_affinity_matrix(x), "affinity of the data": lambda m, x, D: m.gibbs_eap_affinity_matrix()})

    def swaps(ctx, k):
        """few observations: steps that swap labels but keep every group size"""
        rng = ctx.rng("swaps", k)
        n = 4
        m = mixture("DirichletProcess", dict(alpha=1), rng=5 + k, total_iter=60, burn_in=0, mu_prior=np.zeros(1), psi_prior=4 * np.eye(1), nu_prior=2)
        m.fit_gibbs(rng.normal(size=(n, 1)) * 0.3)
        ds = [np.asarray(s["d"]) for s in m.sim_params]
        ctx.close(m.gibbs_eap_affinity_matrix(), np.mean([d[:, None] == d[None, :] for d in ds], axis=0), "affinity of the training data", n=n)
    for k in range(reps(ctx, 4, 16)):
        ctx.case("label swaps %d" % k, swaps, k)

    def long(ctx, k):
        """hundreds of saved draws"""
        rng = ctx.rng("long", k)
        y = rng.normal(size=(4, 1))
        m = mixture("DirichletProcess", dict(alpha=1), rng=5 + k, total_iter=300, burn_in=0, mu_prior=np.zeros(1), psi_prior=np.eye(1), nu_prior=2, lambda_prior=1)
        m.fit_gibbs(y)
        ds = np.array([np.asarray(s["d"]) for s in m.sim_params])
        ctx.close(m.gibbs_eap_affinity_matrix(), (ds[:, :, None] == ds[:, None, :]).mean(0), "affinity of the training data", draws=len(ds))
    for k in range(2):
        ctx.case("affinity of many draws %d" % k, long, k)

    def run(ctx, name, cfg, D, kind, k):
        y, pr, rng = setup(ctx, name, D, kind, "cl%d" % k)
        m = mixture(name, cfg, rng=6 + k, total_iter=[5, 12, 8][k % 3], burn_in=2, subsample_steps=1 + k % 2, **pr)
        m.fit_gibbs(y, init_method=["kmeans", "random"][k % 2])
        st = qstate(m)
        S, mp = m.sim_params, m.map_sim_params
        x = np.concatenate((rng.normal(size=(7, D)) * 3, y[:3], rng.normal(size=(2, D)) * 300))
        z = rng.normal(size=y.shape) * 3       # as many new points as observations
        for q, xr in ((None, y), (x, x), (z, z), (x.tolist(), x), (pd.DataFrame(x), x), (x[:1], x[:1]), (x[9:10] if len(x) > 9 else x[:1], x[9:10])):
            g, unc, clear, P = mapcluster(xr, mp)
            full = m.gibbs_map_cluster(q, full=True) if q is not None else m.gibbs_map_cluster(full=True)
            lab = m.gibbs_map_cluster(q) if q is not None else m.gibbs_map_cluster()
            ctx.ok(isinstance(full, tuple) and len(full) == 2, "labels and uncertainties")
            ctx.ok(np.array_equal(full[0], lab), "both forms give the same labels")
            ctx.ok(np.shape(lab) == (len(xr),) and np.shape(full[1]) == (len(xr),), "one label per point", shape=np.shape(lab))
            ctx.close(full[1], unc, "uncertainty is one minus the posterior probability", rtol=1e-6, atol=1e-8)
            if clear.all():
                ctx.ok(np.array_equal(np.asarray(lab), np.unique(g, return_inverse=True)[1].ravel()), "MAP labels renumbered in component order", got=lab, raw=g)
        A = m.gibbs_eap_affinity_matrix()
        e = np.mean([(np.asarray(s["d"])[:, None] == np.asarray(s["d"])[None, :]) for s in S], axis=0)
        ctx.close(A, e, "affinity of the training data")
        for q in (z, y, x):
            A = m.gibbs_eap_affinity_matrix(q)
            cl = [mapcluster(q, s) for s in S]
            if all(c[2].all() for c in cl):
                e = np.mean([(c[0][:, None] == c[0][None, :]) for c in cl], axis=0)
                ctx.close(A, e, "affinity of new points", n=len(q))
        for B in (A, m.gibbs_eap_affinity_matrix(), m.gibbs_eap_affinity_matrix(y)):
            B = np.asarray(B)
            ctx.close(B, B.T, "symmetric")
            ctx.ok(np.all(B >= 0) and np.all(B <= 1 + 1e-12), "within [0, 1]")
            ctx.close(np.diag(B), np.ones(len(B)), "one on the diagonal")
        ctx.close(m.gibbs_eap_affinity_matrix(x[:1]), [[1.0]], "a single point")
        ctx.ok(qstate(m) == st, "queries do not alter the fitted object")
        if k % 2 == 0:
            m.fit_gibbs(y, warm_start=True)
            e = np.mean([(np.asarray(s["d"])[:, None] == np.asarray(s["d"])[None, :]) for s in m.sim_params], axis=0)
            ctx.close(m.gibbs_eap_affinity_matrix(), e, "affinity after a warm start")
    for k in range(reps(ctx, 3, 12)):
        for name, D, kind in SETS:
            ctx.case("clusters %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, kind, k)


# ---------------------------------------------------------- variational: C19-24
VSETS = [("DirichletProcess", 1, 0), ("DirichletProcess", 2, 1), ("DirichletProcess", 3, 2), ("PitmanYorProcess", 2, 0), ("GeometricProcess", 2, 2),
         ("DirichletDistribution", 3, 1), ("EqualWeighting", 2, 0), ("FrequencyWeighting", 1, 2), ("GeometricProcess", 3, 1), ("PitmanYorProcess", 1, 1)]


def elogdet(Wm, nu):
    D = len(Wm)
    return D * np.log(2) + np.linalg.slogdet(Wm)[1] + sum(special.digamma((nu - i) / 2) for i in range(D))


def responsibilities(y, theta, elw):
    D = y.shape[1]
    L = np.empty((len(theta), len(y)))
    for j, (mj, lj, Wj, nj) in enumerate(theta):
        z = y - mj
        L[j] = elw[j] + elogdet(Wj, nj) / 2 - D / (2 * lj) - nj / 2 * np.einsum("ij,jk,ik->i", z, Wj, z)
    r = np.exp(L - L.max(0))
    return r / r.sum(0), L


def vfitm(name, cfg, pr, y, T, seed=3, init="kmeans", ng=3, tol=-1.0, **kw):
    m = mixture(name, cfg, rng=seed, total_iter=T, burn_in=0, **pr)
    m.fit_variational(y, n_groups=cfg.get("n", ng), init_method=init, tol=tol, **kw)
    return m


def c19(ctx):
    def run(ctx, name, cfg, D, kind, init, k):
        y, pr, rng = setup(ctx, name, D, kind, "resp%d" % k)
        ng = 2 + k % 3
        for T in (1, 2, 5):
            a = vfitm(name, cfg, pr, y, T, init=init, ng=ng)
            b = vfitm(name, cfg, pr, y, T + 1, init=init, ng=ng)
            elw = [a.weight_model.variational_mean_log_w_j(j) for j in range(len(a.var_theta))]
            r, L = responsibilities(y, a.var_theta, elw)
            g = np.asarray(b.var_d)
            ctx.ok(g.shape == r.shape, "one responsibility per group and observation", shape=g.shape)
            ctx.ok(np.all(g > 0), "positive")
            ctx.close(g.sum(0), np.ones(len(y)), "responsibilities total one", rtol=1e-12)
            ctx.close(g, r, "responsibilities are the normalized exponentiated expected log-joint", rtol=1e-6, atol=1e-12)
            a.total_iter = 1
            a.fit_variational(y, warm_start=True, tol=-1.0)
            ctx.close(a.var_d, g, "a warm start performs the next update", rtol=1e-6, atol=1e-12)
    for k in range(reps(ctx, 3, 15)):
        for name, D, kind in VSETS:
            ctx.case("responsibilities %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, kind, ["kmeans", "random"][k % 2], k)

    def far(ctx, D):
        y, pr, rng = setup(ctx, "DirichletProcess", D, 1, "far")
        y = np.concatenate((y, y[:2] + 1e4))
        a = vfitm("DirichletProcess", dict(alpha=1), pr, y, 2, init="random")
        ctx.ok(np.all(np.isfinite(a.var_d)) and np.all(a.var_d > 0), "finite responsibilities for outliers")
        ctx.close(a.var_d.sum(0), np.ones(len(y)), "total one")
    for D in (1, 2, 3):
        ctx.case("outliers D=%d" % D, far, D)

    def outlier(ctx, D, scale, k):
        """responsibilities of observations far away from most groups, whose densities underflow"""
        y, pr, rng = setup(ctx, "DirichletProcess", D, 1 + k % 2, "outlier%d" % k)
        y = y.copy()
        y[:3] *= scale * rng.choice([-1, 1], size=(3, 1))
        pr = dict(pr, mu_prior=np.zeros(D), lambda_prior=0.5, nu_prior=D + 9., psi_prior=np.eye(D) * 0.1)
        for T in (1, 3):
            a = vfitm("DirichletProcess", dict(alpha=1), pr, y, T, init="kmeans", ng=2 + k % 3)
            b = vfitm("DirichletProcess", dict(alpha=1), pr, y, T + 1, init="kmeans", ng=2 + k % 3)
            r, L = responsibilities(y, a.var_theta, [a.weight_model.variational_mean_log_w_j(j) for j in range(len(a.var_theta))])
            ctx.close(b.var_d, r, "responsibilities are the normalized exponentiated expected log-joint", rtol=1e-5, atol=1e-9, depth=float((L.max() - L.max(0)).max()))
    for k in range(reps(ctx, 4, 16)):
        for scale in (8, 30, 100):
            ctx.case("far observations D=%d scale %d %d" % (1 + k % 3, scale, k), outlier, 1 + k % 3, scale, k)


def c20(ctx):
    def run(ctx, name, cfg, D, kind, init, k):
        y, pr, rng = setup(ctx, name, D, kind, "nw%d" % k)
        m = vfitm(name, cfg, pr, y, 1 + k % 4, init=init, ng=2 + k % 3)
        mu0, lam0, psi0, nu0 = eff_priors(pr, y)

        def chk(r, theta, tag):
            ctx.ok(len(theta) == len(r), "one law per group")
            for j in range(len(r)):
                n = r[j].sum()
                if n < 1e-12:
                    continue
                xb = r[j] @ y / n
                S = (r[j] * (y - xb).T) @ (y - xb)
                mj, lj, Wj, nj = theta[j]
                ctx.close(lj, lam0 + n, "lambda + n (%s)" % tag, j=j)
                ctx.close(nj, nu0 + n, "nu + n (%s)" % tag, j=j)
                ctx.close(mj, (lam0 * mu0 + n * xb) / (lam0 + n), "mean (%s)" % tag, j=j, rtol=1e-6)
                P = psi0 + S + lam0 * n / (lam0 + n) * np.outer(xb - mu0, xb - mu0)
                ctx.close(np.linalg.inv(np.atleast_2d(Wj)), P, "inverse scale (%s)" % tag, j=j, rtol=1e-5, atol=1e-6)
        chk(np.asarray(m.var_d), m.var_theta, "fit")
        if hasattr(m, "_update_var_theta"):
            for kind2 in range(3):
                r = rng.dirichlet(np.ones(4) * [0.2, 1, 10][kind2], size=len(y)).T
                if kind2 == 0:
                    d = np.arange(len(y)) % 4
                    r = np.eye(4)[d].T
                m.var_d, m.var_k = r.copy(), 4
                m._update_var_theta()
                ctx.ok(np.array_equal(m.var_d, r), "responsibilities untouched")
                chk(r, m.var_theta, "prescribed responsibilities")
                if kind2 == 0:
                    for j in range(4):
                        p = niw_post(y[d == j], mu0, lam0, psi0, nu0)
                        mj, lj, Wj, nj = m.var_theta[j]
                        ctx.close(mj, p[0], "coincides with the Gibbs posterior mean", rtol=1e-6)
                        ctx.close(np.linalg.inv(np.atleast_2d(Wj)), p[2], "coincides with the Gibbs posterior scale", rtol=1e-6)
                        ctx.close([lj, nj], [p[1], p[3]], "coincides with the Gibbs posterior counts")
    for k in range(reps(ctx, 4, 20)):
        for name, D, kind in VSETS:
            ctx.case("NW update %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, (kind + k) % 3, ["kmeans", "random"][k % 2], k)


def kl_nw(m, l, W_, n, m0, l0, W0, n0):
    D = len(m)
    kl = D / 2 * (l0 / l - np.log(l0 / l) - 1) + l0 * n / 2 * (m - m0) @ W_ @ (m - m0)
    kl += n0 / 2 * (np.linalg.slogdet(W0)[1] - np.linalg.slogdet(W_)[1]) + n / 2 * (np.trace(np.linalg.solve(W0, W_)) - D)
    kl += special.multigammaln(n0 / 2, D) - special.multigammaln(n / 2, D) + (n - n0) / 2 * sum(special.digamma((n - i) / 2) for i in range(D))
    return kl


def exact_elbo(m, y, mu0, lam0, psi0, nu0):
    D = y.shape[1]
    r = np.asarray(m.var_d)
    ll = 0.0
    for j, (mj, lj, Wj, nj) in enumerate(m.var_theta):
        z = y - mj
        ll += (r[j] * 0.5 * (elogdet(Wj, nj) - D * np.log(2 * np.pi) - D / lj - nj * np.einsum("ij,jk,ik->i", z, Wj, z))).sum()
    wm = m.weight_model
    ll += wm.variational_mean_log_p_d__w(r) + wm.variational_mean_log_p_w() - wm.variational_mean_log_q_w()
    ll -= (r * np.log(r)).sum()
    for mj, lj, Wj, nj in m.var_theta:
        ll -= kl_nw(mj, lj, Wj, nj, mu0, lam0, np.linalg.inv(psi0), nu0)
    return ll


def c21(ctx):
    def run(ctx, name, cfg, D, kind, init, k):
        y, pr, rng = setup(ctx, name, D, kind, "elbo%d" % k)
        mu0, lam0, psi0, nu0 = eff_priors(pr, y)
        m = mixture(name, cfg, rng=2 + k, total_iter=6, burn_in=0, **pr)
        seen = []
        if not hasattr(m, "_calc_elbo"):
            raise Undecided("the bound is not a separate function")
        orig = m._calc_elbo

        def calc():
            v = orig()
            seen.append((v, exact_elbo(m, m.y, mu0, lam0, psi0, nu0)))
            return v
        m._calc_elbo = calc
        m.fit_variational(y, n_groups=cfg.get("n", 2 + k % 3), init_method=init, tol=-1.0)
        if not seen:
            raise Undecided("the bound was not evaluated")
        for t, (g, e) in enumerate(seen):
            ctx.close(g, e, "the monitored bound is the exact mean-field bound", t=t, rtol=1e-7, atol=1e-6)
        if name != "FrequencyWeighting":
            es = [e for _, e in seen]
            ctx.ok(np.all(np.diff(es) > -1e-5 * (1 + abs(es[-1]))), "the bound does not decrease", bounds=np.array(es))
        st = vstate(m)
        orig()
        ctx.ok(vstate(m) == st, "evaluating the bound changes nothing")
        # prescribed (non-optimal) variational states
        ctx.force()
        for _ in range(2):
            K = len(m.var_theta)
            m.var_d = rng.dirichlet(np.ones(K) * 0.7, size=len(y)).T + 1e-12
            m.var_d = m.var_d / m.var_d.sum(0)
            th = []
            for j in range(K):
                A = rng.normal(size=(D, D))
                th.append([rng.normal(size=D), rng.uniform(.5, 9), np.linalg.inv(A @ A.T + np.eye(D)), D + rng.uniform(0, 8)])
            m.var_theta = th
            if name not in ("EqualWeighting",):
                m.weight_model.fit_variational(rng.dirichlet(np.ones(K), size=5).T)
            ctx.close(orig(), exact_elbo(m, m.y, mu0, lam0, psi0, nu0), "the bound of a prescribed variational state", rtol=1e-7, atol=1e-6)
    for k in range(reps(ctx, 3, 15)):
        for name, D, kind in VSETS:
            ctx.case("bound %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, (kind + k) % 3, ["kmeans", "random"][k % 2], k)


def c22(ctx):
    def run(ctx, name, cfg, D, kind, k):
        y, pr, rng = setup(ctx, name, D, kind, "stop%d" % k)
        ng = cfg.get("n", 2 + k % 2)
        ref = mixture(name, cfg, rng=8, total_iter=40, burn_in=0, **pr)
        if not (hasattr(ref, "_calc_elbo")):
            raise Undecided("the bound is not a separate function")

        def watch(m):
            E = []
            orig = m._calc_elbo

            def calc():
                v = orig()
                E.append(v)
                return v
            m._calc_elbo = calc
            F = []
            of = m.weight_model.fit_variational

            def fv(r):
                F.append((freeze(np.asarray(r))))
                return of(r)
            m.weight_model.fit_variational = fv
            return E, F
        E, F = watch(ref)
        ref.fit_variational(y, n_groups=ng, tol=-1.0)
        if len(E) != 40:
            ctx.ok(len(E) == 40, "with an unreachable tolerance the cap is reached", iterations=len(E))
            return
        E = np.array(E)
        diffs = np.abs(np.diff(E))
        tols = [1e-8, float(np.median(diffs)), float(diffs[0]) * 2 + 1e-9, 1e12, float(np.sort(diffs)[-2]), 0.0, -1.0]
        for tol in tols:
            for cap in (1, 2, 7, 40):
                m = mixture(name, cfg, rng=8, total_iter=cap, burn_in=0, **pr)
                e, f = watch(m)
                m.fit_variational(y, n_groups=ng, tol=tol)
                exp_n, exp_c = cap, False
                for t in range(1, min(cap, 40)):
                    if diffs[t - 1] <= tol:
                        exp_n, exp_c = t + 1, True
                        break
                near = np.any(np.abs(diffs - tol) < 1e-7 * (1 + abs(E[-1]))) and tol > 0 and tol < 1e11
                if not near:
                    ctx.ok(len(e) == exp_n, "stops as soon as the bound changes by at most the tolerance, or at the cap", iterations=len(e), expected=exp_n, tol=tol, cap=cap)
                    ctx.ok(bool(m.var_converged) is exp_c, "flagged converged exactly when the last change was within the tolerance", flag=m.var_converged, expected=exp_c, tol=tol, cap=cap)
                    ctx.ok(type(m.var_converged) in (bool, np.bool_), "the verdict is a flag")
                ctx.ok(bool(m.var_fitted), "flagged fitted")
                if cap in (2, 7):
                    # refit with the opposite outcome
                    m.total_iter = 1
                    m.fit_variational(y, n_groups=ng, tol=1e-8)
                    ctx.ok(not m.var_converged, "one update cannot converge, also when an earlier fit did", tol=tol)
                    m.total_iter = 40
                    m.fit_variational(y, n_groups=ng, tol=1e12)
                    ctx.ok(bool(m.var_converged), "a converged refit is flagged", tol=tol)
                    m.total_iter = 1
                    m.fit_variational(y, warm_start=True, tol=1e-8)
                    ctx.ok(not m.var_converged, "a warm start of one update is not converged", tol=tol)
    for k in range(reps(ctx, 1, 4)):
        for name, D, kind in VSETS:
            ctx.case("stopping %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, kind, k)

    def order(ctx, name, cfg, D, kind, k):
        y, pr, rng = setup(ctx, name, D, kind, "order%d" % k)
        mu0, lam0, psi0, nu0 = eff_priors(pr, y)
        m = vfitm(name, cfg, pr, y, 3, ng=3)
        wm2 = make(name, cfg)
        wm2.fit_variational(np.array(m.var_d))
        for j in range(len(m.var_d)):
            ctx.close(m.weight_model.variational_mean_log_w_j(j), wm2.variational_mean_log_w_j(j), "the weights are updated after the responsibilities", j=j)
            n = m.var_d[j].sum()
            ctx.close(m.var_theta[j][1], lam0 + n, "the atoms are updated after the responsibilities", j=j)
    for k in range(2):
        for name, D, kind in VSETS:
            ctx.case("update order %s D=%d %d" % (name, D, k), order, name, GCFG[name][0], D, kind, k)


def tdens(x, mu, P, nu):
    D = x.shape[1]
    z = x - mu
    q = np.einsum("ij,jk,ik->i", z, P, z)
    return np.exp(special.gammaln((nu + D) / 2) - special.gammaln(nu / 2) + 0.5 * np.linalg.slogdet(P)[1] - D / 2 * np.log(nu * np.pi) - (nu + D) / 2 * np.log1p(q / nu))


def c23(ctx):
    reuse(ctx, "var", {"MAP density": lambda m, x, D: m.var_map_density(x), "EAP density": lambda m, x, D: m.var_eap_density(x), "EAP density of the data": lambda m, x, D: m.var_eap_density(),
                       "MAP density of the data": lambda m, x, D: m.var_map_density(), "marginal density": lambda m, x, D: m.var_eap_density(x[:, 0], dim=[0]),
                       "marginal MAP density": lambda m, x, D: m.var_map_density(x[:, D - 1], dim=[D - 1]), "component density": lambda m, x, D: m.var_eap_density(x, component=0)})
    def run(ctx, name, cfg, D, kind, k):
        y, pr, rng = setup(ctx, name, D, kind, "vd%d" % k)
        m = vfitm(name, cfg, pr, y, 3 + k, init=["kmeans", "random"][k % 2], ng=2 + k % 3)
        st = vstate(m), freeze(m.y)
        th = [[np.array(x, float) for x in t] for t in m.var_theta]
        wm = m.weight_model
        ew = [wm.variational_mean_w_j(j) for j in range(len(th))]
        try:
            mo = [wm.variational_mode_w_j(j) for j in range(len(th))]
        except ValueError:
            mo = None

        def eap(x, dim, js):
            out = np.zeros(len(x))
            for j in js:
                mj, lj, Wj, nj = th[j]
                nu = nj + 1 - D
                P = nu * lj / (1 + lj) * Wj
                dd = np.arange(D) if dim is None else np.atleast_1d(dim)
                C = np.linalg.inv(P)[np.ix_(dd, dd)]
                out += ew[j] * tdens(x, mj[dd], np.linalg.inv(C), nu)
            return out

        def mapd(x, dim, js):
            out = np.zeros(len(x))
            for j in js:
                mj, lj, Wj, nj = th[j]
                dd = np.arange(D) if dim is None else np.atleast_1d(dim)
                C = np.linalg.inv((nj - D) * Wj)[np.ix_(dd, dd)]
                out += mo[j] * np.exp(lognorm(x, mj[dd], C))
            return out

        def chk(q, x, dim, comp, tag):
            js = range(len(th)) if comp is None else [comp]
            kw = {}
            if dim is not None:
                kw["dim"] = dim
            if comp is not None:
                kw["component"] = comp
            g = m.var_eap_density(q, **kw) if q is not None else m.var_eap_density(**kw)
            ctx.close(g, eap(x, dim, js), "variational EAP density (%s)" % tag, rtol=1e-6, atol=1e-12, dim=dim, component=comp)
            ctx.ok(np.all(np.isfinite(g)) and np.all(np.asarray(g) >= 0), "finite and non-negative")
            if mo is not None and all(th[j][3] > D + 1e-6 for j in js):
                g = m.var_map_density(q, **kw) if q is not None else m.var_map_density(**kw)
                ctx.close(g, mapd(x, dim, js), "variational MAP density (%s)" % tag, rtol=1e-6, atol=1e-12, dim=dim, component=comp)
                ctx.ok(np.all(np.isfinite(g)) and np.all(np.asarray(g) >= 0), "finite and non-negative")
        chk(None, y, None, None, "training data")
        x = rng.normal(size=(5, D)) * 3
        chk(x, x, None, None, "new points")
        chk(x.tolist(), x, None, None, "list")
        chk(pd.DataFrame(x), x, None, None, "frame")
        chk(x[:1], x[:1], None, None, "one point")
        for comp in range(len(th)):
            chk(x, x, None, comp, "component")
        for dim in range(D):
            x1 = rng.normal(size=4) * 3
            chk(x1, x1[:, None], dim, None, "one dimension")
            chk(x1, x1[:, None], [dim], 0, "one dimension, component")
        chk(x, x, list(range(D)), None, "all dimensions given")
        if D > 1:
            chk(x[:, ::-1].copy(), x[:, ::-1].copy(), list(range(D))[::-1], None, "all dimensions reversed")
            for dd in ([0, 1], [1, 0], [D - 1, 0]):
                x2 = rng.normal(size=(4, 2)) * 3
                chk(x2, x2, dd, None, "two dimensions")
                chk(x2, x2, np.array(dd), len(th) - 1, "two dimensions, component")
                chk(x2, x2, tuple(dd), None, "two dimensions as a tuple")
        if D == 1:
            chk(1.5, np.array([[1.5]]), None, None, "scalar")
            # integrates to the total weight
            grid = np.linspace(-400, 400, 200001)
            tot = np.trapezoid(m.var_eap_density(grid), grid) if hasattr(np, "trapezoid") else np.trapz(m.var_eap_density(grid), grid)
            ctx.ok(abs(tot - sum(ew)) < 0.02, "the EAP density integrates to the total weight", total=tot, expected=sum(ew))
        ctx.ok((vstate(m), freeze(m.y)) == st, "queries do not alter the fitted object")
    for k in range(reps(ctx, 3, 12)):
        for name, D, kind in VSETS:
            ctx.case("variational densities %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, (kind + k) % 3, k)


def c24(ctx):
    reuse(ctx, "var", {"MAP clusters": lambda m, x, D: m.var_map_cluster(x, full=True), "MAP clusters of the data": lambda m, x, D: m.var_map_cluster(full=True),
                       "affinity": lambda m, x, D: m.var_eap_affinity_matrix(x), "affinity of the data": lambda m, x, D: m.var_eap_affinity_matrix()})
    def run(ctx, name, cfg, D, kind, k):
        y, pr, rng = setup(ctx, name, D, kind, "vc%d" % k)
        m = vfitm(name, cfg, pr, y, 4 + 3 * k, init=["kmeans", "random"][k % 2], ng=2 + k % 3)
        st = vstate(m), freeze(m.y)
        r = np.asarray(m.var_d)
        d, unc = m.var_map_cluster(full=True)
        ctx.ok(np.array_equal(d, m.var_map_cluster()), "both forms agree")
        ctx.ok(np.array_equal(d, r.argmax(0)), "largest responsibility", got=d)
        ctx.close(unc, 1 - r.max(0), "uncertainty is one minus the largest responsibility", rtol=1e-9)
        A = m.var_eap_affinity_matrix()
        ctx.close(A, r.T @ r, "affinity of the training data", rtol=1e-9)
        x = np.concatenate((rng.normal(size=(6, D)) * 3, rng.normal(size=(3, D)) * 500))
        elw = [m.weight_model.variational_mean_log_w_j(j) for j in range(len(m.var_theta))]
        for q, xr in ((x, x), (x.tolist(), x), (pd.DataFrame(x), x), (x[:1], x[:1]), (y, y)):
            rr, L = responsibilities(xr, m.var_theta, elw)
            srt = np.sort(rr, 0)
            clear = srt[-1] - (srt[-2] if len(rr) > 1 else 0) > 1e-9
            d, unc = m.var_map_cluster(q, full=True)
            ctx.ok(np.array_equal(d, m.var_map_cluster(q)), "both forms agree on new points")
            ctx.ok(np.shape(d) == (len(xr),) and np.array_equal(np.asarray(d)[clear], rr.argmax(0)[clear]), "new points: largest responsibility", got=d, expected=rr.argmax(0))
            ctx.close(unc, 1 - rr.max(0), "new points: uncertainty", rtol=1e-6, atol=1e-9)
            A = np.asarray(m.var_eap_affinity_matrix(q))
            ctx.close(A, rr.T @ rr, "affinity of new points", rtol=1e-6, atol=1e-9)
            ctx.close(A, A.T, "symmetric", rtol=1e-12)
            ctx.ok(np.all(A >= 0) and np.all(A <= 1 + 1e-9), "within [0, 1]")
        ctx.ok((vstate(m), freeze(m.y)) == st, "queries do not alter the fitted object")
        if name in ("DirichletProcess", "DirichletDistribution"):
            m2 = mixture(name, cfg, rng=1, total_iter=400, burn_in=0, **pr)
            m2.fit_variational(y, n_groups=cfg.get("n", 3), tol=1e-10)
            if m2.var_converged:
                dd, uu = m2.var_map_cluster(full=True)
                de, ue = m2.var_map_cluster(y, full=True)
                ctx.close(uu, ue, "querying the training points again gives the same uncertainty", rtol=1e-2, atol=1e-3)
    for k in range(reps(ctx, 3, 12)):
        for name, D, kind in VSETS:
            ctx.case("variational clusters %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, (kind + k) % 3, k)


# ------------------------------------------------------------------- C25, C26
GQ = ["gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster", "gibbs_map_cluster"]
VQ = ["var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster", "var_map_cluster"]


def c25(ctx):
    VN = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess", "DirichletDistribution", "EqualWeighting", "FrequencyWeighting")

    def run(ctx, name, cfg, D, seq, fresh_y):
        y, pr, rng = setup(ctx, name, D, 1, "guard")
        m = mixture(name, cfg, rng=2, total_iter=4, burn_in=1, **pr)
        g = v = False
        q = y[:4] + 0.1

        def guards(when):
            for names, ok in ((GQ, g), (VQ, v)):
                for nm in names:
                    f = getattr(m, nm)
                    for args in ((), (q,)):
                        if not ok:
                            ctx.raises(NotFittedError, lambda: f(*args), "%s is refused %s" % (nm, when), seq=seq)
                        elif "spectral" not in nm:
                            try:
                                f(*args)
                                ctx.evals += 1
                            except NotFittedError:
                                ctx.fail("%s is refused although fitted, %s" % (nm, when), seq=seq)
                            except ValueError as e:
                                if "multimodal" not in str(e):
                                    raise
        guards("before any fit")
        for s in seq:
            if s == "g":
                m.fit_gibbs(y)
                g = True
            elif s == "w":
                m.fit_gibbs(y, warm_start=True)
                g = True
            elif s == "1":
                # the shortest fit there is: one step, one saved draw
                m.total_iter, m.burn_in = 1, 0
                m.fit_gibbs(y, init_method="random")
                m.total_iter, m.burn_in = 4, 1
                g = True
            elif s == "v":
                m.fit_variational(y, n_groups=cfg.get("n", 2))
                v = True
            elif s == "V":
                m.fit_variational(y, n_groups=cfg.get("n", 2), init_method="random", tol=1e9)
                v = True
            elif s == "x":
                for f in (lambda: m.fit_gibbs(y, init_method="nonsense"), lambda: m.fit_variational(y, n_groups=cfg.get("n", 2), init_method="nonsense"),
                          lambda: m.fit_gibbs("text"), lambda: m.fit_variational(3)):
                    try:
                        f()
                    except (TypeError, AttributeError):
                        pass
                if g or v:
                    continue
            elif s == "b":
                # an interrupted fit
                wm = m.weight_model
                orig, cnt = wm.tail, [0]

                def tail(x):
                    cnt[0] += 1
                    if cnt[0] > 3:
                        raise KeyboardInterrupt
                    return orig(x)
                wm.tail = tail
                try:
                    m.fit_gibbs(y)
                except KeyboardInterrupt:
                    pass
                wm.tail = orig
                if g:
                    continue
            elif s in "iI":
                # a fit stopped in the middle: any use of the weight model may be the last
                for last in (0, 2, 5, 9):
                    wm, cnt, names = m.weight_model, [0], []

                    def stop(f):
                        def g_(*a, **kw):
                            cnt[0] += 1
                            if cnt[0] > last:
                                raise KeyboardInterrupt
                            return f(*a, **kw)
                        return g_
                    for nm in dir(type(wm)):
                        if not nm.startswith("_") and callable(getattr(wm, nm)):
                            names.append(nm)
                            setattr(wm, nm, stop(getattr(wm, nm)))
                    try:
                        m.fit_gibbs(y) if s == "i" else m.fit_variational(y, n_groups=cfg.get("n", 2))
                        raise Undecided("the fit never used the weight model")
                    except KeyboardInterrupt:
                        pass
                    finally:
                        for nm in names:
                            delattr(wm, nm)
                    if not (g or v):
                        guards("after a stopped fit, %s of %s" % (s, seq))
                if g or v:
                    continue
            guards("after %s of %s" % (s, seq))
    for name, D, kind in SETS:
        seqs = ["g", "1g", "xg", "bg", "ig"] + (["v", "Iv", "Ig", "iv", "V", "gv", "vg", "xvw"[:2], "vgv", "gVg"] if name in VN else [])
        for seq in seqs:
            ctx.case("guards %s %s" % (name, seq), run, name, GCFG[name][0], D, seq, False)


def c26(ctx):
    reuse(ctx, "gibbs", {"MAP density": lambda m, x, D: m.gibbs_map_density(x), "EAP density": lambda m, x, D: m.gibbs_eap_density(x), "clusters": lambda m, x, D: m.gibbs_map_cluster(x, full=True),
                         "affinity": lambda m, x, D: m.gibbs_eap_affinity_matrix(x)}, lists=True)
    reuse(ctx, "var", {"MAP density": lambda m, x, D: m.var_map_density(x), "EAP density": lambda m, x, D: m.var_eap_density(x), "clusters": lambda m, x, D: m.var_map_cluster(x, full=True),
                       "affinity": lambda m, x, D: m.var_eap_affinity_matrix(x)}, lists=True)
    def containers(x2):
        D = x2.shape[1]
        out = [("array", x2.copy()), ("list", x2.tolist()), ("frame", pd.DataFrame(x2.copy(), columns=["c%d" % i for i in range(D)])), ("fortran", np.array(x2, order="F", copy=True)),
               ("frame index", pd.DataFrame(x2.copy(), index=np.arange(len(x2)) * 2 + 7)),
               ("frame columns", pd.DataFrame(x2.copy(), columns=["c%d" % i for i in range(D)][::-1])), ("frame numbered", pd.DataFrame(x2.copy(), columns=list(range(D))[::-1]))]
        if D == 1:
            out += [("1d array", x2[:, 0].copy()), ("1d list", x2[:, 0].tolist()), ("series", pd.Series(x2[:, 0].copy(), name="s")), ("series index", pd.Series(x2[:, 0].copy(), index=np.arange(len(x2))[::-1]))]
        return out

    def snap(c):
        return freeze(np.asarray(c)) if not isinstance(c, list) else freeze(c)

    def scramble(c):
        if isinstance(c, list):
            for i in range(len(c)):
                if isinstance(c[i], list):
                    c[i][0] = 99.0
                c[i] = c[i] if isinstance(c[i], list) else -77.0
        elif isinstance(c, pd.DataFrame):
            c.iloc[:, 0] = 55.0
            try:
                np.asarray(c)[:] = 55.0
            except ValueError:
                pass
        elif isinstance(c, pd.Series):
            c.iloc[:] = 55.0
        else:
            c[...] = 55.0

    def run(ctx, name, cfg, D, k):
        y, pr, rng = setup(ctx, name, D, 0, "cont%d" % k)
        q = rng.normal(size=(4, D)) * 2
        ref = None
        for tag, c in containers(y):
            m = mixture(name, cfg, rng=2, total_iter=5, burn_in=1)
            set_rng(m, Rec(8))
            before = snap(c)
            m.fit_gibbs(c)
            ctx.ok(snap(c) == before, "fitting does not modify the caller's object", container=tag)
            ctx.ok(m.y.shape == y.shape, "one-dimensional input is one feature", container=tag, shape=m.y.shape)
            ctx.close(m.y, y, "the observations are the given values", container=tag)
            d0 = m.gibbs_map_density(q)
            st = gstate(m)
            if ref is None:
                ref = st
            else:
                for key in ref:
                    ctx.ok(near(st[key], ref[key]), "containers with the same values give the same Gibbs fit", container=tag, field=key)
            e0, a0 = m.gibbs_eap_density(), m.gibbs_map_cluster()
            for qt, qc in containers(q):
                b = snap(qc)
                ctx.close(m.gibbs_map_density(qc), d0, "containers with the same values give the same answers", container=qt, rtol=1e-12)
                ctx.close(m.gibbs_eap_density(qc), m.gibbs_eap_density(q), "same EAP density", container=qt, rtol=1e-12)
                ctx.ok(np.array_equal(m.gibbs_map_cluster(qc), m.gibbs_map_cluster(q)), "same clusters", container=qt)
                ctx.close(m.gibbs_eap_affinity_matrix(qc), m.gibbs_eap_affinity_matrix(q), "same affinity", container=qt)
                ctx.ok(snap(qc) == b, "querying does not modify the caller's object", container=qt)
            scramble(c)
            ctx.close(m.y, y, "changing the caller's object afterwards does not change the fit", container=tag)
            ctx.close(m.gibbs_eap_density(), e0, "changing the caller's object afterwards does not change answers", container=tag)
            ctx.ok(np.array_equal(m.gibbs_map_cluster(), a0), "changing the caller's object afterwards does not change answers", container=tag)
            ctx.ok(gstate(m) == st, "changing the caller's object afterwards does not change the draws", container=tag)
        for bad in ("text", None, 3, {"a": 1}, (1.0, 2.0, 3.0), {1.0, 2.0}, object()):
            m = mixture(name, cfg, rng=2, total_iter=3, burn_in=1)
            ctx.raises(TypeError, lambda: m.fit_gibbs(bad), "other types are refused", value=bad)
        m.fit_gibbs(y)
        for bad in ("text", {"a": 1}, {1.0}, object()):
            for nm in ("gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_map_cluster"):
                ctx.raises(TypeError, lambda: getattr(m, nm)(bad), "other types are refused by " + nm, value=bad)
        if D == 1:
            for s in (1.5, 2):
                e = m.gibbs_map_density(np.array([[float(s)]]))
                for nm in ("gibbs_map_density", "gibbs_eap_density", "gibbs_map_cluster", "gibbs_eap_affinity_matrix"):
                    ctx.close(getattr(m, nm)(s), getattr(m, nm)(np.array([[float(s)]])), "a scalar is one point (%s)" % nm)
    for k in range(reps(ctx, 1, 5)):
        for name, D in (("DirichletProcess", 1), ("DirichletProcess", 2), ("DirichletDistribution", 3), ("PitmanYorProcess", 1), ("EqualWeighting", 2)):
            ctx.case("containers gibbs %s D=%d %d" % (name, D, k), run, name, GCFG[name][0], D, k)

    def vrun(ctx, name, cfg, D, k):
        y, pr, rng = setup(ctx, name, D, 1 if name != "DirichletProcess" else 0, "vcont%d" % k)
        q = rng.normal(size=(4, D)) * 2
        ref = None
        for tag, c in containers(y):
            m = mixture(name, cfg, rng=2, total_iter=5, burn_in=1, **pr)
            set_rng(m, Rec(8))
            before = snap(c)
            m.fit_variational(c, n_groups=cfg.get("n", 2))
            ctx.ok(snap(c) == before, "fitting does not modify the caller's object", container=tag)
            ctx.close(m.y, y, "the observations are the given values", container=tag)
            st = vstate(m)
            if ref is None:
                ref = st
            else:
                for key in ref:
                    ctx.ok(near(st[key], ref[key]), "containers with the same values give the same variational fit", container=tag, field=key)
            for qt, qc in containers(q):
                b = snap(qc)
                ctx.close(m.var_eap_density(qc), m.var_eap_density(q), "same density", container=qt, rtol=1e-9)
                ctx.ok(np.array_equal(m.var_map_cluster(qc), m.var_map_cluster(q)), "same clusters", container=qt)
                ctx.close(m.var_eap_affinity_matrix(qc), m.var_eap_affinity_matrix(q), "same affinity", container=qt, rtol=1e-9)
                ctx.ok(snap(qc) == b, "querying does not modify the caller's object", container=qt)
            e0 = m.var_eap_density()
            scramble(c)
            ctx.close(m.y, y, "changing the caller's object afterwards does not change the fit", container=tag)
            ctx.close(m.var_eap_density(), e0, "changing the caller's object afterwards does not change answers", container=tag)
        for bad in ("text", None, 3, {"a": 1}, (1.0, 2.0)):
            m = mixture(name, cfg, rng=2, total_iter=3, burn_in=1)
            ctx.raises(TypeError, lambda: m.fit_variational(bad, n_groups=cfg.get("n", 2)), "other types are refused", value=bad)
        m.fit_variational(y, n_groups=cfg.get("n", 2))
        for bad in ("text", {"a": 1}, object()):
            for nm in ("var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_map_cluster"):
                ctx.raises(TypeError, lambda: getattr(m, nm)(bad), "other types are refused by " + nm, value=bad)
        if D == 1:
            for s in (1.5, 2):
                for nm in ("var_eap_density", "var_map_cluster", "var_eap_affinity_matrix"):
                    ctx.close(getattr(m, nm)(s), getattr(m, nm)(np.array([[float(s)]])), "a scalar is one point (%s)" % nm)
    for k in range(reps(ctx, 1, 5)):
        for name, D in (("DirichletProcess", 1), ("DirichletProcess", 2), ("DirichletDistribution", 3), ("GeometricProcess", 1)):
            ctx.case("containers variational %s D=%d %d" % (name, D, k), vrun, name, GCFG[name][0], D, k)

    def prior_alias(ctx, D):
        y, pr, rng = setup(ctx, "DirichletProcess", D, 1, "pa")
        keep = {k: np.array(v, copy=True) for k, v in pr.items()}
        m = mixture("DirichletProcess", dict(alpha=1), rng=2, total_iter=5, burn_in=1, **pr)
        m.fit_gibbs(y)
        m.fit_variational(y, n_groups=2)
        for k in keep:
            ctx.ok(np.array_equal(np.asarray(pr[k]), keep[k]), "fitting does not modify the given priors", prior=k)
    for D in (1, 2, 3):
        ctx.case("priors are not modified D=%d" % D, prior_alias, D)


CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23,
          "C24": c24, "C25": c25, "C26": c26}
