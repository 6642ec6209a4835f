"""Concrete contracts of the shared machinery (C27-C29)."""
import copy
import random as pyrandom
from .common import *
from .zoo import *
from .weights import reps
from .mixture import mixture, data, priors, GCFG, gstate, vstate
from scipy import stats, special
from pyrichlet.mixture_models import _utils as U
from pyrichlet.utils import functions as F
from pyrichlet.utils.validators import rng_parser


class NoFresh:
    """while active no unseeded or global generator can be consulted unnoticed"""

    def __enter__(self):
        self.st = np.random.get_state()
        self.pst = pyrandom.getstate()
        self.old = np.random.default_rng
        self.fresh = 0

        def spy(*a, **k):
            self.fresh += 1
            return self.old(*a, **k)
        np.random.default_rng = spy
        return self

    def __exit__(self, *a):
        np.random.default_rng = self.old
        now = np.random.get_state()
        self.changed = not (self.st[0] == now[0] and np.array_equal(self.st[1], now[1]) and self.st[2:] == now[2:]) or pyrandom.getstate() != self.pst
        np.random.set_state(self.st)
        pyrandom.setstate(self.pst)
        return False


def wscript(m, name, k):
    """a scripted use of a weighting model; every random answer is collected"""
    out = []
    inf = name in INF
    dmax = (m.n if not inf and name != "FrequencyWeighting" else 4)
    d = np.array([0, min(2, dmax - 1), min(1, dmax - 1), 0, 0, min(3, dmax - 1)])
    if name != "FrequencyWeighting":
        out.append(np.array(m.random(3 + k % 3), copy=True))
        out.append(np.array(m.complete(6), copy=True))
        if not inf or name in ("DirichletProcess", "PitmanYorProcess", "BetaInBeta", "BetaBinomial"):
            out.append(np.array(m.tail(0.4), copy=True))
        out.append(m.random_assignment(7))
        out.append(m.random_assignment())
    m.fit(d)
    out.append(np.array(m.random(), copy=True))
    out.append(m.random_assignment(9))
    out.append(np.array(m.complete(len(m.get_weights()) + 2), copy=True))
    out.append(m.assignation_log_likelihood(d))
    out.append(m.weighting_log_likelihood())
    out.append(np.array(m.random(), copy=True))
    m.reset()
    if inf:
        out.append(np.array(m.random(4), copy=True))
    return [freeze(np.asarray(x, float)) if x is not None else None for x in out]


def mscript(m, name, D, y, init, k):
    out = []
    kw = {"init_groups": 3} if init == "kmeans" and k % 2 and name not in ("FrequencyWeighting",) else {}
    m.fit_gibbs(y, init_method=init, **kw)
    out.append(gstate(m))
    m.fit_gibbs(y, warm_start=True)
    out.append(gstate(m))
    out.append(freeze(m.gibbs_eap_density()))
    out.append(freeze(m.gibbs_map_cluster()))
    return out


def vscript(m, name, y, init):
    m.fit_variational(y, n_groups=3, init_method=init)
    return [vstate(m), freeze(m.var_eap_density()), freeze(m.var_map_cluster())]


def c27(ctx):
    def parser(ctx):
        g = np.random.default_rng(4)
        ctx.ok(rng_parser(g) is g, "a given generator is used itself")
        a, b = rng_parser(11), rng_parser(11)
        ctx.ok(isinstance(a, np.random.Generator) and np.array_equal(a.random(5), b.random(5)), "equal integer seeds give equal generators")
        ctx.ok(isinstance(rng_parser(None), np.random.Generator), "no seed gives a generator")
        for bad in ("seed", 1.5, np.random.RandomState(1), [1], {"a": 1}, object(), np.random, b"x", np.random.PCG64(1)):
            ctx.raises(TypeError, lambda: rng_parser(bad), "anything else is refused", value=bad)
            ctx.raises(TypeError, lambda: W.DirichletProcess(rng=bad), "anything else is refused by the models", value=bad)
            ctx.raises(TypeError, lambda: mixture("DirichletProcess", {}, rng=bad), "anything else is refused by the mixtures", value=bad)
    ctx.case("rng_parser", parser)

    def weight(ctx, name, cfg, k):
        seed = 100 + k
        res = []
        for glob in (1, 2):
            np.random.seed(glob)
            pyrandom.seed(glob)
            for given in (seed, np.random.default_rng(seed)):
                state0 = None if isinstance(given, int) else given.bit_generator.state
                m = make(name, {k_: v for k_, v in cfg.items()}) if False else getattr(W, name)(rng=given, **cfg)
                with NoFresh() as nf:
                    res.append(wscript(m, name, k))
                ctx.ok(nf.fresh == 0, "no fresh generator is made", model=label(name, cfg))
                ctx.ok(not nf.changed, "the global generators are not consulted", model=label(name, cfg))
                if state0 is not None and name not in ("EqualWeighting",):
                    ctx.ok(given.bit_generator.state != state0, "the given generator is the one used", model=label(name, cfg))
        for r in res[1:]:
            ctx.ok(r == res[0], "equal seeds and equal calls give equal results", model=label(name, cfg))
        if name not in FIN:
            other = wscript(getattr(W, name)(rng=seed + 1, **cfg), name, k)
            ctx.ok(other != res[0], "the results come from the given seed", model=label(name, cfg))
    for k in range(reps(ctx, 3, 12)):
        for name, cfg in models():
            if cfg.get("p_method") == "rejection-sampling":
                continue
            ctx.case("%s %d" % (label(name, cfg), k), weight, name, cfg, k)

    def mix(ctx, name, cfg, D, init, k):
        rng = ctx.rng("c27", name, D, init, k)
        y = data(rng, D, 9)
        pr = priors(rng, D, k % 3)
        res = []
        for glob in (1, 2):
            np.random.seed(glob)
            pyrandom.seed(glob)
            for given in (50 + k, np.random.default_rng(50 + k)):
                m = mixture(name, cfg, rng=given, total_iter=6, burn_in=2, **pr)
                with NoFresh() as nf:
                    r = mscript(m, name, D, y, init, k)
                ctx.ok(nf.fresh == 0, "no fresh generator is made while fitting", model=name, init=init)
                ctx.ok(not nf.changed, "the global generators are not consulted while fitting", model=name, init=init)
                res.append((isinstance(given, int), r))
        for kind in (True, False):
            rr = [r for t, r in res if t is kind]
            ctx.ok(near_state(rr[0], rr[1]), "equal seeds and equal calls give equal fits", model=name, init=init, seed_given=kind)

    def near_state(a, b):
        return all(near(tuple(x.values()), tuple(y.values())) if isinstance(x, dict) else near(x, y) for x, y in zip(a, b))
    VNAMES = ("DirichletProcess", "PitmanYorProcess", "GeometricProcess", "DirichletDistribution", "EqualWeighting", "FrequencyWeighting")
    for k in range(reps(ctx, 1, 5)):
        for i, name in enumerate(GCFG):
            for init in ("kmeans", "random", "variational"):
                if name == "FrequencyWeighting" or init == "variational" and name not in VNAMES:
                    continue
                ctx.case("gibbs %s %s %d" % (name, init, k), mix, name, GCFG[name][0], 1 + (i + k) % 2, init, k + i)

    def vmix(ctx, name, cfg, D, init, k):
        rng = ctx.rng("c27v", name, D, init, k)
        y = data(rng, D, 9)
        res = []
        for glob in (1, 2):
            np.random.seed(glob)
            pyrandom.seed(glob)
            m = mixture(name, cfg, rng=77 + k, total_iter=6, burn_in=2, **priors(rng, D, 0))
            with NoFresh() as nf:
                res.append(vscript(m, name, y, init))
            ctx.ok(nf.fresh == 0, "no fresh generator is made while fitting", model=name, init=init)
            ctx.ok(not nf.changed, "the global generators are not consulted while fitting", model=name, init=init)
        ctx.ok(near_state(*res), "equal seeds and equal calls give equal fits", model=name, init=init)
    for k in range(reps(ctx, 1, 4)):
        for i, name in enumerate(VNAMES):
            for init in ("kmeans", "random"):
                cfg = dict(GCFG[name][0])
                if "n" in cfg:
                    cfg["n"] = 3
                ctx.case("variational %s %s %d" % (name, init, k), vmix, name, cfg, 1 + (i + k) % 2, init, k)


def chi2_p(obs, p):
    n = obs.sum()
    keep = p > 0
    if np.any(obs[~keep] > 0):
        return 0.0
    if keep.sum() < 2:
        return 1.0
    e = n * p[keep] / p[keep].sum()
    return float(stats.chi2.sf(np.sum((obs[keep] - e) ** 2 / e), keep.sum() - 1))


def c28(ctx):
    def gumbel(ctx, k):
        rng = ctx.rng("gum", k)
        K = int(rng.integers(1, 6))
        p = rng.dirichlet(np.full(K, 1.5)) + 0.03
        if K > 2 and k % 2:
            p[int(rng.integers(0, K))] = 0
        p /= p.sum()
        c = rng.normal() * [1, 30, 300][k % 3]
        lp = np.log(p) + c
        n = 20000
        keep = lp.copy()
        L = np.tile(lp[:, None], (1, n))
        g = np.random.default_rng(1000 + k + ctx.seed)
        s = np.asarray(U.gumbel_max_sampling(L, rng=g))
        ctx.ok(s.shape == (n,) and np.array_equal(L, np.tile(keep[:, None], (1, n))), "one index for each column", shape=s.shape)
        ob = np.bincount(s, minlength=K)
        ctx.ok(len(ob) == K and chi2_p(ob, p) > P_MIN, "every column chooses with the given probabilities", counts=ob, p=p)
        pair = np.bincount(s[:-1][::2] * K + s[1:][::2], minlength=K * K)
        ctx.ok(chi2_p(pair, np.outer(p, p).ravel()) > P_MIN, "columns choose independently", counts=pair, p=p)
        m = 3000
        s = np.asarray(U.gumbel_max_sampling(lp, size=m, rng=g))
        ctx.ok(s.shape == (m,), "size gives that many indices", shape=s.shape)
        ob = np.bincount(s, minlength=K)
        ctx.ok(len(ob) == K and chi2_p(ob, p) > P_MIN, "repeated draws have the given probabilities", counts=ob, p=p)
        pair = np.bincount(s[:-1][::2] * K + s[1:][::2], minlength=K * K)
        ctx.ok(chi2_p(pair, np.outer(p, p).ravel()) > P_MIN, "repeated draws are independent", counts=pair, p=p)
        s = np.array([U.gumbel_max_sampling(lp, rng=g) for _ in range(1500)])
        ob = np.bincount(s, minlength=K)
        ctx.ok(s.shape == (1500,) and chi2_p(ob, p) > P_MIN, "a vector of log-weights gives one index with the given probabilities", counts=ob, p=p)
        # different columns have different log-weights, entries far apart
        Q = np.full((K, 200), -np.inf)
        who = rng.integers(0, K, 200)
        Q[who, np.arange(200)] = rng.normal(size=200) * 500
        ctx.ok(np.array_equal(U.gumbel_max_sampling(Q, rng=g), who), "impossible entries are never chosen", who=who)
    for k in range(reps(ctx, 8, 40)):
        ctx.case("gumbel %d" % k, gumbel, k)

    TARGETS = [("6x(1-x)", lambda x: 6 * x * (1 - x), 1.5, 0, 1, lambda x: stats.beta.cdf(x, 2, 2)),
               ("beta(5,2)", lambda x: stats.beta.pdf(x, 5, 2), float(stats.beta.pdf(0.8, 5, 2)), 0, 1, lambda x: stats.beta.cdf(x, 5, 2)),
               ("peak", lambda x: np.exp(-0.5 * ((x - 0.3) / 0.05) ** 2), 1.0, 0, 1, lambda x: (stats.norm.cdf(x, .3, .05) - stats.norm.cdf(0, .3, .05)) / (stats.norm.cdf(1, .3, .05) - stats.norm.cdf(0, .3, .05))),
               ("ramp on [2, 5)", lambda x: (x - 2.0) ** 2, 9.0, 2, 5, lambda x: (np.asarray(x) - 2) ** 3 / 27),
               ("loose bound", lambda x: np.exp(-x), 3.0, -1, 2, lambda x: (np.exp(1) - np.exp(-np.asarray(x))) / (np.exp(1) - np.exp(-2))),
               ("flat", lambda x: 1.0 + 0 * x, 1.0, -3, -1, lambda x: (np.asarray(x) + 3) / 2)]

    def rej(ctx, nm, f, my, a, b, cdf, k):
        g = np.random.default_rng(77 + k + 31 * ctx.seed)
        kw = {} if (a, b) == (0, 1) and k % 2 == 0 else {"a": a, "b": b}
        n = 20000
        x = U.rejection_sample(f, my, size=n, rng=g, **kw)
        ctx.ok(np.shape(x) == (n,), "size gives that many points", target=nm)
        ctx.ok(np.all(x >= a) and np.all(x < b), "points lie in [a, b)", target=nm)
        ctx.ok(stats.kstest(cdf(np.asarray(x)), "uniform").pvalue > P_MIN, "array draws follow the target", target=nm, p=float(stats.kstest(cdf(np.asarray(x)), "uniform").pvalue))
        xs = np.array([U.rejection_sample(f, my, rng=g, **kw) for _ in range(4000)], float)
        ctx.ok(xs.shape == (4000,) and np.all(xs >= a) and np.all(xs < b), "points lie in [a, b)", target=nm)
        ctx.ok(stats.kstest(cdf(xs), "uniform").pvalue > P_MIN, "single draws follow the target", target=nm, p=float(stats.kstest(cdf(xs), "uniform").pvalue))
        for A in (np.asarray(x), xs):
            h = len(A) // 2
            u = cdf(A)
            c = np.corrcoef(u[:h], u[h:2 * h])[0, 1]
            c1 = np.corrcoef(u[:-1], u[1:])[0, 1]
            ctx.ok(abs(c) < 7 / np.sqrt(h) and abs(c1) < 7 / np.sqrt(len(u)), "points are independent", target=nm, corr=(c, c1))
    def rare(ctx, k):
        """very few proposals are accepted: nothing else may be returned"""
        g = np.random.default_rng(5 + k + 13 * ctx.seed)
        lo, hi = [(0.4951, 0.5), (0.0, 0.003)][k % 2]

        def f(t):
            return 1.0 * ((np.asarray(t) > lo) & (np.asarray(t) < hi))
        x = np.asarray(U.rejection_sample(f, 1.0, size=200, rng=g))
        ctx.ok(x.shape == (200,) and np.all((x > lo) & (x < hi)), "every point lies where the density is positive", low=lo, high=hi, got=(float(x.min()), float(x.max())))
        x = np.array([U.rejection_sample(f, 1.0, rng=g) for _ in range(5)], float)
        ctx.ok(np.all((x > lo) & (x < hi)), "every point lies where the density is positive", low=lo, high=hi)
    for k in range(2):
        ctx.case("rejection with rare acceptance %d" % k, rare, k)
    for k in range(reps(ctx, 2, 8)):
        for nm, f, my, a, b, cdf in TARGETS:
            ctx.case("rejection %s %d" % (nm, k), rej, nm, f, my, a, b, cdf, k)

    def km(ctx, k):
        rng = ctx.rng("km", k)
        K, D = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        sizes = rng.permutation(np.arange(1, K + 1) * int(rng.integers(1, 4)) + int(rng.integers(1, 3)))
        if k % 3 == 0:
            sizes[:] = sizes[0]
        cen = rng.permutation(np.arange(K))[:, None] * 100.0 + rng.normal(size=(K, D))
        true = rng.permutation(np.repeat(np.arange(K), sizes))
        y = cen[true] + 0.1 * rng.normal(size=(len(true), D))
        y0 = y.copy()
        g = np.random.default_rng(k)
        d = np.asarray(U.kmeans_cluster_size_biased(y, K, g))
        ctx.ok(np.array_equal(y, y0), "the data are not modified")
        ctx.ok(d.shape == (len(y),) and d.dtype.kind in "iu", "one integer label for each observation", labels=d)
        pairs = set(zip(true.tolist(), d.tolist()))
        ctx.ok(len(pairs) == K and len({a for a, _ in pairs}) == K and len({b for _, b in pairs}) == K, "labels are the k-means partition", labels=d, true=true)
        cnt = np.bincount(d, minlength=K)
        ctx.ok(len(cnt) == K and np.all(np.diff(cnt) <= 0), "labels are numbered from 0 by non-increasing size", counts=cnt)
        # unstructured data: still non-increasing sizes, labels 0..K-1
        z = rng.normal(size=(25, D))
        d = U.kmeans_cluster_size_biased(z, K, np.random.default_rng(k + 1))
        cnt = np.bincount(d)
        ctx.ok(len(cnt) == K and np.all(cnt > 0) and np.all(np.diff(cnt) <= 0), "labels are numbered from 0 by non-increasing size", counts=cnt)
    for k in range(reps(ctx, 25, 120)):
        ctx.case("kmeans %d" % k, km, k)


def spd(rng, D, scale=1.0):
    A = rng.normal(size=(D, D))
    return (A @ A.T + 0.3 * np.eye(D)) * scale


def mvt_pdf(x, mu, prec, nu):
    D = len(mu)
    L = np.linalg.cholesky(prec)
    q = np.sum(((x - mu) @ L) ** 2, axis=1)
    return np.exp(special.gammaln((nu + D) / 2) - special.gammaln(nu / 2) + np.sum(np.log(np.diag(L))) - D / 2 * np.log(nu * np.pi) - (nu + D) / 2 * np.log1p(q / nu))


def mvn_pdf(x, mu, prec):
    D = len(mu)
    L = np.linalg.cholesky(prec)
    q = np.sum(((x - mu) @ L) ** 2, axis=1)
    return np.exp(np.sum(np.log(np.diag(L))) - D / 2 * np.log(2 * np.pi) - q / 2)


def partitions(n):
    def rec(n, m):
        if n == 0:
            yield []
        for i in range(min(n, m), 0, -1):
            for r in rec(n - i, i):
                yield [i] + r
    return rec(n, n)


def c29(ctx):
    def dens(ctx, D, k):
        rng = ctx.rng("dens", D, k)
        sc = [1.0, 0.02, 40.0][k % 3]
        P = spd(rng, D, sc)
        mu = rng.normal(size=D) * 2
        x = mu + rng.normal(size=(int(rng.integers(1, 7)), D)) * 1.5 / np.sqrt(sc)
        nu = float([0.5, 1, 2.5, 7, 40][int(rng.integers(0, 5))] + rng.uniform())
        keep = P.copy(), mu.copy(), x.copy()
        ctx.close(F.density_students_t(x, mu, P, nu), mvt_pdf(x, mu, P, nu), "multivariate Student-t density", rtol=1e-8, atol=0, D=D, nu=nu)
        ctx.close(F.density_normal(x, mu, P), mvn_pdf(x, mu, P), "multivariate normal density", rtol=1e-8, atol=0, D=D)
        dof = D - 1 + float(rng.uniform(0.1, 9))
        sgn, ld = np.linalg.slogdet(P)
        lb = -dof / 2 * ld - (dof * D / 2 * np.log(2) + D * (D - 1) / 4 * np.log(np.pi) + sum(special.gammaln((dof - i) / 2) for i in range(D)))
        ctx.close(U.log_wishart_normalization_term(P, dof), lb, "log Wishart normalizing constant", rtol=1e-8, D=D, dof=dof)
        el = D * np.log(2) + ld + sum(special.digamma((dof - i) / 2) for i in range(D))
        ctx.close(U.e_log_norm_wishart(P, dof), el, "Wishart expected log-determinant", rtol=1e-8, D=D, dof=dof)
        ent = -lb - (dof - D - 1) / 2 * el + dof * D / 2
        ctx.close(U.entropy_wishart(P, dof), ent, "Wishart entropy", rtol=1e-8, D=D, dof=dof)
        ctx.ok(abs(ent - stats.wishart.entropy(dof, P)) < 1e-6 * (1 + abs(ent)), "Wishart entropy (library)", D=D) if dof >= D else None
        S, lam = spd(rng, D, 1 / sc), float(rng.uniform(0.2, 4))
        mm = rng.normal(size=D)
        d2 = D + float(rng.uniform(0, 5))
        s2, ldS = np.linalg.slogdet(S)
        _, ldP = np.linalg.slogdet(P)
        iw = d2 / 2 * ldP - d2 * D / 2 * np.log(2) - special.multigammaln(d2 / 2, D) - (d2 + D + 1) / 2 * ldS - 0.5 * np.trace(P @ np.linalg.inv(S))
        nn = -0.5 * (D * np.log(2 * np.pi) + ldS - D * np.log(lam) + lam * (mm - mu) @ np.linalg.inv(S) @ (mm - mu))
        ctx.close(U.log_likelihood_normal_invw(mm, S, mu, lam, P, d2), iw + nn, "normal-inverse-Wishart log-density", rtol=1e-7, atol=1e-7, D=D)
        sub = rng.permutation(D)[: int(rng.integers(1, D + 1))]
        ctx.close(U.marginal_precision(P, sub), np.linalg.inv(np.linalg.inv(P)[np.ix_(sub, sub)]), "precision of the marginal", rtol=1e-6, D=D, sub=sub)
        ctx.ok(np.array_equal(P, keep[0]) and np.array_equal(mu, keep[1]) and np.array_equal(x, keep[2]), "arguments are not modified")
    for k in range(reps(ctx, 30, 200)):
        for D in (1, 2, 3, 4, 6):
            ctx.case("densities D=%d %d" % (D, k), dens, D, k)

    def betas(ctx, k):
        rng = ctx.rng("lb", k)
        a, b = float(rng.gamma(1) + 0.05), float(rng.gamma(1) + 0.05)
        ctx.close(F.mean_log_beta(a, b), special.digamma(a) - special.digamma(a + b), "mean of a log-Beta variable", rtol=1e-9)
        A, B = rng.gamma(1, size=4) + 0.1, rng.gamma(1, size=4) + 0.1
        ctx.close(F.mean_log_beta(A, B), special.digamma(A) - special.digamma(A + B), "mean of a log-Beta variable (array)", rtol=1e-9)
        v = float(rng.uniform(0.02, 0.98))
        ctx.close(F.log_likelihood_beta(v, a, b), (a - 1) * np.log(v) + (b - 1) * np.log1p(-v) - special.betaln(a, b), "Beta log-density", rtol=1e-8)
        n = int(rng.integers(1, 12))
        x = int(rng.integers(0, n + 1))
        lc = special.gammaln(n + 1) - special.gammaln(x + 1) - special.gammaln(n - x + 1)
        ctx.close(F.log_likelihood_binom(x, n, v), lc + x * np.log(v) + (n - x) * np.log1p(-v), "binomial log-probability", rtol=1e-7, atol=1e-8)
        ctx.close(F.log_likelihood_beta_binom(x, n, a, b), lc + special.betaln(x + a, n - x + b) - special.betaln(a, b), "beta-binomial log-probability", rtol=1e-7, atol=1e-8)
    for k in range(reps(ctx, 60, 300)):
        ctx.case("beta %d" % k, betas, k)

    def eppf(ctx, k):
        rng = ctx.rng("eppf", k)
        al = float([0.05, 1, 3.3, 20][k % 4] * rng.uniform(0.5, 1.5))
        part = rng.integers(1, 7, size=int(rng.integers(1, 6)))
        n = int(part.sum())
        ref = len(part) * np.log(al) + special.gammaln(al) - special.gammaln(al + n) + np.sum(special.gammaln(part))
        ctx.close(F.dirichlet_log_eppf(al, part), ref, "Ewens partition probability", rtol=1e-8, alpha=al, partition=part)
        ctx.close(F.dirichlet_log_eppf(al, part.tolist()), ref, "Ewens partition probability (list)", rtol=1e-8, alpha=al, partition=part)
        ctx.close(F.dirichlet_log_eppf(al, rng.permutation(part)), ref, "the partition's order is irrelevant", rtol=1e-8)
        ctx.ok(F.dirichlet_log_eppf(0, [n]) == 0 and F.dirichlet_log_eppf(0.0, [n]) == 0, "alpha = 0 puts everything together", n=n)
        ctx.ok(F.dirichlet_log_eppf(0, [n, 1]) == -np.inf, "alpha = 0 allows no second group")
    for k in range(reps(ctx, 40, 200)):
        ctx.case("eppf %d" % k, eppf, k)

    def total(ctx, n, al):
        tot = 0.0
        for part in partitions(n):
            mult = special.gammaln(n + 1) - sum(special.gammaln(p + 1) for p in part) - sum(special.gammaln(part.count(s) + 1) for s in set(part))
            tot += np.exp(mult + F.dirichlet_log_eppf(al, np.array(part)))
        ctx.close(tot, 1.0, "the partition probabilities total one", rtol=1e-8, n=n, alpha=al)
    for n in range(1, 8):
        for al in (0.3, 1, 4.5):
            ctx.case("eppf total n=%d alpha=%s" % (n, al), total, n, al)


CHECKS = {"C27": c27, "C28": c28, "C29": c29}
