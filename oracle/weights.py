"""Concrete contracts of the weighting models (C01-C11)."""
from .common import *
from .zoo import *
from scipy import stats, special
from pyrichlet.exceptions import NotFittedError

EPS = 1e-9


def reps(ctx, quick, thorough):
    return thorough if ctx.tier == "thorough" else quick


# ------------------------------------------------------------ C01/C02/C03/C06
def check_w(ctx, name, m, ret, **kw):
    w = m.get_weights()
    ctx.ok(ret is not None and np.array_equal(np.asarray(ret), w), "the call returns the stored weights", ret=ret, w=w, **kw)
    w = np.asarray(w, float)
    ctx.ok(w.ndim == 1 and np.all(np.isfinite(w)) and np.all(w >= 0) and np.all(w <= 1 + EPS), "weights in [0, 1]", w=w, **kw)
    ctx.ok(np.all(np.cumsum(w) <= 1 + EPS), "running total at most one", w=w, **kw)
    if len(w) and w.sum() > 0:
        if name in FIN:
            ctx.ok(abs(w.sum() - 1) < EPS, "finite model totals one", w=w, **kw)
        nw = m.get_normalized_weights()
        ctx.close(nw, w / w.sum(), "normalized weights", **kw)
        ctx.ok(abs(np.sum(nw) - 1) < EPS, "normalized weights total one", nw=nw, **kw)
        cw = m.get_normalized_cumulative_weights()
        ctx.close(cw, np.cumsum(w / w.sum()), "normalized cumulative weights", **kw)
        ctx.ok(np.all(np.diff(cw) >= -EPS), "cumulative weights do not decrease", cw=cw, **kw)
        ctx.ok(m.get_size() == len(w), "get_size is the number of weights", size=m.get_size(), w=w)


def history(ctx, name, cfg, seed, steps):
    m = make(name, cfg, seed)
    rng = ctx.rng("hist", name, str(cfg), seed)
    fin = name in FIN
    lab = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else None
    log = []
    for _ in range(steps):
        w0 = np.array(m.get_weights(), float)
        d0 = np.array(m.d)
        op = rng.choice(["random", "random", "complete", "complete", "tail", "fit", "fit", "reset", "norm", "assign", "bad", "ll"])
        kw = dict(history=log[-12:], seed=seed)
        if op == "fit":
            d = rand_d(rng, hi=lab)
            log.append("fit(%s)" % d.tolist())
            dd = d.copy()
            arg = d if rng.integers(2) else d.tolist()
            m.fit(arg)
            ctx.ok(np.array_equal(np.asarray(m.get_weights(), float), w0), "fit changes no weight", w=m.get_weights(), before=w0, **kw)
            ctx.ok(np.array_equal(d, dd), "fit leaves the caller's array alone", **kw)
        elif op == "reset":
            log.append("reset()")
            m.reset()
            ctx.ok(np.array_equal(np.asarray(m.get_weights(), float), w0), "reset changes no weight", w=m.get_weights(), before=w0, **kw)
            ctx.ok(len(m.d) == 0, "reset forgets the assignments", d=m.d, **kw)
        elif op == "random":
            fitted = len(d0) > 0
            size = None if (fitted and rng.integers(2)) else int(rng.choice([1, 2, 3, 6, 11]))
            log.append("random(%s)" % size)
            if size is None and not fin and not fitted:
                continue
            r = m.random(size) if size is not None or rng.integers(2) else m.random()
            check_w(ctx, name, m, r, **kw)
            n = len(m.get_weights())
            if not fin:
                if not fitted:
                    ctx.ok(n == size, "an unfitted draw has the requested size", size=size, n=n, **kw)
                else:
                    need = int(d0.max()) + 1
                    if size is None:
                        ctx.ok(n >= need, "a fitted draw covers every label", need=need, n=n, **kw)
                    else:
                        ctx.ok(n >= size and (n >= need or n == size), "a fitted draw covers the labels or the requested size",
                               need=need, size=size, n=n, **kw)
            ctx.ok(np.array_equal(m.d, d0), "a draw keeps the assignments", d=m.d, before=d0, **kw)
        elif op == "complete":
            size = int(rng.choice([1, 2, 4, 7, 13]))
            size = np.int64(size) if rng.integers(3) == 0 else size
            if rng.integers(3) == 0 and len(w0) and not fin:
                size = len(w0) + int(rng.integers(-1, 2))
                size = max(size, 1)
            log.append("complete(%s)" % size)
            p0 = {k: np.array(v, copy=True) for k, v in vars(m).items() if k == "p"}
            r = m.complete(size)
            check_w(ctx, name, m, r, **kw)
            w = np.asarray(m.get_weights(), float)
            if not fin:
                ctx.ok(len(w) == (max(len(w0), size) if len(w0) else size), "complete returns max(m, n) weights", size=size, m=len(w0), n=len(w), **kw)
                ctx.ok(np.array_equal(w[:len(w0)], w0), "complete keeps the weights already drawn", w=w, before=w0, **kw)
                if len(w0):
                    for k, v in p0.items():
                        ctx.ok(np.array_equal(getattr(m, k), v), "complete keeps the shared parameter", name=k, got=getattr(m, k), before=v, **kw)
            ctx.ok(np.array_equal(m.d, d0), "complete keeps the assignments", **kw)
        elif op == "tail":
            x = float(rng.choice([0, 0.3, 0.8, 0.95, rng.uniform(0, 0.97)]))
            if slow_tail(name, cfg, m, x):
                continue
            log.append("tail(%r)" % x)
            r = m.tail(x)
            check_w(ctx, name, m, r, **kw)
            w = np.asarray(m.get_weights(), float)
            ctx.ok(len(w) > 0 and w.sum() >= x - 1e-12, "tail covers the requested mass", x=x, total=w.sum(), w=w, **kw)
            if not fin:
                ctx.ok(np.array_equal(w[:len(w0)], w0), "tail keeps the weights already drawn", w=w, before=w0, **kw)
        elif op == "norm" and len(w0):
            log.append("get_normalized_weights()")
            m.get_normalized_weights()
            m.get_normalized_cumulative_weights()
            ctx.ok(np.array_equal(np.asarray(m.get_weights(), float), w0), "normalizing changes no weight", **kw)
        elif op == "assign" and len(w0) and w0.sum() > 0:
            size = [None, 1, 5, 40, 0][rng.integers(5)]
            log.append("random_assignment(%s)" % size)
            a = m.random_assignment(size) if size is not None or rng.integers(2) else m.random_assignment()
            ctx.ok(np.shape(a) == (() if size is None else (size,)), "random_assignment shape", size=size, got=np.shape(a), **kw)
            a_ = np.atleast_1d(a)
            ctx.ok(np.all(a_ >= 0) and np.all(a_ < len(w0)), "assignments are valid labels", a=a_, k=len(w0), **kw)
            ctx.ok(np.array_equal(np.asarray(m.get_weights(), float), w0), "assigning changes no weight", **kw)
        elif op == "bad":
            x = [1, 1.0, -0.1, 1.5, -1, 1e300, float("inf"), 2][rng.integers(8)]
            log.append("tail(%r)" % x)
            ctx.raises(ValueError, lambda: m.tail(x), "tail outside [0, 1) is refused", x=x, **kw)
            if not fin:
                s = [2.5, "3", 3.0, np.float64(2.0), [4]][rng.integers(5)]
                log.append("complete(%r)" % (s,))
                ctx.raises(TypeError, lambda: m.complete(s), "a size that is no integer is refused", size=s, **kw)
                if len(m.d) == 0:
                    log.append("random(None)")
                    ctx.raises(ValueError, lambda: m.random(), "an unfitted draw needs a size", **kw)
            if name == "DirichletDistribution":
                keep = m.d
                m.fit([0, cfg.get("n", 1)])
                ctx.raises(ValueError, lambda: m.random(), "labels outside the range are refused", **kw)
                m.fit(keep) if len(keep) else m.reset()
            ctx.ok(np.array_equal(np.asarray(m.get_weights(), float), w0), "a refused call changes no weight", w=m.get_weights(), before=w0, **kw)
        elif op == "ll" and len(d0):
            log.append("assignation_log_likelihood()")
            m.assignation_log_likelihood()
            w = np.asarray(m.get_weights(), float)
            if not fin:
                ctx.ok(np.array_equal(w[:len(w0)], w0), "evaluating a likelihood keeps the weights", w=w, before=w0, **kw)


def c_history(ctx):
    for k in range(reps(ctx, 6, 60)):
        for name, cfg in models():
            ctx.case("history %s seed=%d" % (label(name, cfg), k), history, name, cfg, 1000 * ctx.seed + k, 30)
            if not ctx.more():
                return


def c01(ctx):
    c_history(ctx)

    def stick_range(ctx, name, cfg, k):
        m = make(name, cfg, k)
        rng = ctx.rng("sr", name, k)
        for it in range(8):
            if it % 2:
                m.fit(rand_d(rng))
            else:
                m.reset()
            m.random(int(rng.integers(1, 6)))
            m.complete(int(rng.integers(1, 12)))
            w = np.asarray(m.get_weights(), float)
            rest = 1 - np.concatenate(([0], np.cumsum(w)[:-1]))
            ctx.ok(np.all(w <= rest + EPS), "each weight is at most the mass left over", w=w)
            if hasattr(m, "v") and isinstance(m.v, np.ndarray) and len(m.v) == len(w):
                v = m.v
                ctx.ok(np.all((v >= 0) & (v <= 1)), "stick fractions in [0, 1]", v=v)
                ctx.close(w, v * np.concatenate(([1], np.cumprod(1 - v)[:-1])), "weights are the stick-breaking products", rtol=1e-9, atol=1e-300)
    for name, cfg in models(INF):
        for k in range(reps(ctx, 3, 20)):
            ctx.case("sticks %s %d" % (label(name, cfg), k), stick_range, name, cfg, k)


def c02(ctx):
    c_history(ctx)

    def no_redraw(ctx, name, cfg, k):
        # latent per-stick variables and parameters are left alone by complete
        m = make(name, cfg, k)
        rng = ctx.rng("nr", name, k)
        if k % 2:
            m.fit(rand_d(rng))
        m.random(int(rng.integers(1, 5)))
        before = {a: np.array(v, copy=True) for a, v in vars(m).items()
                  if isinstance(v, (int, float, np.floating)) or (isinstance(v, np.ndarray) and a != "d")}
        w0 = np.array(m.get_weights())
        for size in (len(w0), 1, len(w0) + 3, len(w0) + 1, np.int64(len(w0) + 9)):
            m.complete(size)
            for a, v in before.items():
                cur = getattr(m, a, v)
                if isinstance(cur, np.ndarray) and cur.ndim == 1:
                    ctx.ok(len(cur) >= min(len(v), len(cur)) and np.array_equal(cur[:len(v)], v[:len(cur)]) and len(cur) >= len(v),
                           "complete keeps what was drawn", attribute=a, got=cur, before=v, size=size)
                elif not isinstance(cur, np.ndarray):
                    ctx.ok(np.array_equal(np.asarray(cur), v), "complete keeps the parameter", attribute=a, got=cur, before=v, size=size)
    for name, cfg in models(INF):
        for k in range(reps(ctx, 4, 30)):
            ctx.case("no redraw %s %d" % (label(name, cfg), k), no_redraw, name, cfg, k)

    def empty(ctx, name, cfg, n):
        m = make(name, cfg, 5)
        r = m.complete(n)
        ctx.ok(r is not None and len(r) == n and len(m.get_weights()) == n, "completing an empty structure", n=n, got=r)
        if n > 2 and name in ("DirichletProcess", "PitmanYorProcess"):
            v = sticks(np.asarray(r))
            ctx.ok(len(np.unique(np.round(v, 12))) == n, "freshly drawn sticks are distinct", v=v)
    for name, cfg in models(INF):
        for n in (1, 2, 5, np.int64(3)):
            ctx.case("empty complete %s %r" % (label(name, cfg), n), empty, name, cfg, n)


def c03(ctx):
    c_history(ctx)

    def tails(ctx, name, cfg, k):
        rng = ctx.rng("tails", name, str(cfg), k)
        m = make(name, cfg, k)
        if rng.integers(2):
            hi = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else None
            m.fit(rand_d(rng, hi=hi))
            if rng.integers(2):
                m.random()
        for x in [0, 0.0, float(rng.uniform(0, .99)), 0.5, float(rng.uniform(.9, .995))]:
            w0 = np.array(m.get_weights(), float)
            st0 = [v.bit_generator.state for v in vars(m).values() if isinstance(v, np.random.Generator)]
            for bad in (1, 1.0, -1e-9, 1.25, -3):
                ctx.raises(ValueError, lambda: m.tail(bad), "refused", x=bad)
            st1 = [v.bit_generator.state for v in vars(m).values() if isinstance(v, np.random.Generator)]
            ctx.ok(st0 == st1 and np.array_equal(w0, m.get_weights()), "a refused tail draws nothing")
            if slow_tail(name, cfg, m, x):
                continue
            r = m.tail(x)
            ctx.ok(r is not None and np.array_equal(r, m.get_weights()), "tail returns the stored weights", r=r)
            ctx.ok(np.sum(r) >= x - 1e-12, "tail covers x", x=x, total=np.sum(r), w=r)
            if name in INF:
                ctx.ok(np.array_equal(r[:len(w0)], w0), "tail keeps the prefix", w=r, before=w0)
    for name, cfg in models():
        for k in range(reps(ctx, 6, 60)):
            ctx.case("tail %s %d" % (label(name, cfg), k), tails, name, cfg, k)

    def geo(ctx, a, b, x):
        for s in range(reps(ctx, 10, 60)):
            m = make("GeometricProcess", dict(a=a, b=b), s)
            p = getattr(m, "p", 0.5)
            if p < 2e-2:
                continue
            r = m.tail(x)
            ctx.ok(r.sum() >= x, "geometric tail covers x", x=x, total=r.sum(), p=m.p)
    for a, b in [(1, 1), (1, 9), (9, 1), (30, 1), (2, 2)]:
        for x in (0, 0.1, 0.5, 0.9, 0.99, 0.999):
            ctx.case("geometric tail a=%s b=%s x=%s" % (a, b, x), geo, a, b, x)


def c06(ctx):
    c_history(ctx)

    def refit(ctx, name, cfg, k):
        rng = ctx.rng("refit", name, str(cfg), k)
        hi = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else 6
        d1, d2 = rand_d(rng, hi=hi), rand_d(rng, hi=hi)
        if k % 3 == 0:
            d1 = np.concatenate((d1, d1, [hi - 1]))
        A = make(name, cfg, 7)
        B = make(name, cfg, 7)
        ga, gb = Rec(k), Rec(k)
        set_rng(A, Rec(99))
        A.fit(d1)
        if k % 2:
            A.random()
        if k == 4:
            # fitted to no assignments at all: back to prior draws
            A.fit(np.array([], dtype=int))
            same_law(ctx, name, cfg, A, make(name, cfg, 7), None, "fitted to nothing", k)
        A.fit(d2)
        B.fit(d2)
        same_law(ctx, name, cfg, A, B, d2, "refitted", k)
        A.reset()
        B2 = make(name, cfg, 7)
        if name in INF:
            ctx.raises(ValueError, lambda: A.random(), "unfitted after reset needs a size")
        same_law(ctx, name, cfg, A, B2, None, "reset", k)
    for name, cfg in models():
        for k in range(reps(ctx, 6, 40)):
            ctx.case("refit %s %d" % (label(name, cfg), k), refit, name, cfg, k)

    def alias(ctx, name, cfg):
        n = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else 4
        d = np.arange(12) % n
        m = make(name, cfg, 3)
        m.fit(d)
        keep = d.copy()
        d[:] = 0
        ctx.ok(np.array_equal(np.asarray(m.d), keep), "the fitted assignments are a copy", d=m.d)
        d[:] = keep
        m.random()
        m.complete(3)
        ctx.ok(np.array_equal(d, keep), "drawing leaves the caller's array alone")
    for name, cfg in models():
        ctx.case("alias %s" % label(name, cfg), alias, name, cfg)

    def refuse(ctx):
        for cfg in CFG["DirichletDistribution"]:
            m = make("DirichletDistribution", cfg)
            n = cfg["n"]
            m.fit([n])
            ctx.raises(ValueError, lambda: m.random(), "label n", n=n)
            m.fit([0] * 5 + [n + 3])
            ctx.raises(ValueError, lambda: m.random(), "label n+3", n=n)
            m.fit([n - 1, 0])
            ctx.ok(len(m.random()) == n, "labels in range are accepted")
            m.fit([n + 1])
            m.reset()
            ctx.ok(len(m.random()) == n, "reset forgets bad labels")
    ctx.case("dirichlet refuses labels", refuse)


STICKY = {"BetaInDirichlet", "BetaBernoulli", "BetaBinomial"}


def same_law(ctx, name, cfg, A, B, d, what, k):
    """A (with a past) draws from the same law as B (fresh, same fit).

    Compared through identical generator streams: for models whose latent
    state carries over by design only the counts entering the draw count."""
    ga, gb = Rec(1234 + k), Rec(1234 + k)
    set_rng(A, ga)
    set_rng(B, gb)
    if name == "BetaInDirichlet" and d is not None:
        for a in ("_d_base",):
            if hasattr(B, a) and not np.array_equal(getattr(A, a, None), getattr(B, a)):
                ctx.force()
                setattr(A, a, np.array(getattr(B, a), copy=True))
    size = 5
    for attr in ("p",):
        if name == "BetaInBeta":
            if A.p != B.p:
                ctx.force()
            A.p = B.p
    wa = np.array(A.random(size), float)
    wb = np.array(B.random(size), float)
    ctx.close(wa, wb, "a %s model draws like a fresh one with the same stream" % what, d=d, rtol=1e-9)


# ------------------------------------------------------------------------ C07
def c07(ctx):
    def one(ctx, name, cfg, k):
        rng = ctx.rng("ra", name, str(cfg), k)
        m = make(name, cfg, k)
        if rng.integers(2):
            hi = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else None
            m.fit(rand_d(rng, hi=hi))
        m.random(int(rng.integers(1, 7)))
        if name in INF and rng.integers(2) and not slow_tail(name, cfg, m, .9):
            m.tail(0.9)
        w0 = np.array(m.get_weights(), float)
        cw = np.cumsum(w0 / w0.sum())
        for size in (None, 0, 1, 7, 500):
            g = Rec(k + 17)
            set_rng(m, g)
            a = m.random_assignment(size) if size is not None else m.random_assignment()
            ctx.ok(np.shape(a) == (() if size is None else (size,)), "shape", size=size, got=np.shape(a))
            ctx.ok(np.array_equal(m.get_weights(), w0), "weights unchanged")
            a_ = np.atleast_1d(a)
            ctx.ok(np.all((a_ >= 0) & (a_ < len(w0)) & (a_ == np.floor(a_))), "valid labels", a=a_)
            us = [e for e in g.log if e[0] == "uniform"]
            if len(g.log) == 1 and len(us) == 1 and us[0][2].size == a_.size and float(us[0][1]["low"]) == 0 and float(us[0][1]["high"]) == 1:
                u = us[0][2].ravel()
                lo = np.concatenate(([0], cw))[a_]
                hi_ = cw[a_]
                ctx.ok(np.all((u >= lo - EPS) & (u <= hi_ + EPS)), "the variate lies between the cumulative weights of its label", u=u, a=a_, cw=cw)
            else:
                raise Undecided("assignments are not one uniform each")
    for k in range(reps(ctx, 8, 80)):
        for name, cfg in models():
            ctx.case("assign %s %d" % (label(name, cfg), k), one, name, cfg, k)

    def stat(ctx, name, cfg):
        m = make(name, cfg, 3)
        m.random(5)
        w = np.asarray(m.get_weights(), float)
        p = w / w.sum()
        n = 4000
        a = np.atleast_1d(m.random_assignment(n))
        for j in range(len(p)):
            pv = stats.binomtest(int(np.sum(a == j)), n, float(min(max(p[j], 0), 1))).pvalue
            ctx.ok(pv > P_MIN, "label frequencies follow the normalized weights", j=j, p=p, freq=np.bincount(a, minlength=len(p)) / n, pvalue=pv)
        s = np.array([int(m.random_assignment()) for _ in range(1500)])
        for j in range(len(p)):
            pv = stats.binomtest(int(np.sum(s == j)), 1500, float(min(max(p[j], 0), 1))).pvalue
            ctx.ok(pv > P_MIN, "single labels follow the normalized weights", j=j, p=p, pvalue=pv)
    for name, cfg in models():
        ctx.case("assign stat %s" % label(name, cfg), stat, name, cfg)


# ----------------------------------------------------------------- C04 laws
def beta_cdf(v, a, b):
    return stats.beta.cdf(v, a, b)


def prior_pits(name, cfg, m, w):
    """probability integral transforms of the sticks of one prior draw: list
    of (kind, u) plus Bernoulli observations (obs, prob)"""
    v = sticks_of(m, w)
    al = cfg.get("alpha", 1)
    us, bern, bad = [], [], None
    if name == "DirichletProcess":
        us = list(beta_cdf(v, 1, al))
    elif name == "PitmanYorProcess":
        d = cfg.get("pyd", 0)
        us = [beta_cdf(x, 1 - d, al + (j + 1) * d) for j, x in enumerate(v)]
    elif name == "GeometricProcess":
        us = [beta_cdf(v[0], cfg.get("a", 1), cfg.get("b", 1))]
        if not np.allclose(v, v[0], rtol=1e-5):
            bad = "geometric sticks are not one common value"
    elif name == "BetaInBeta":
        x = cfg.get("x", 0)
        if x == 1:
            us = [beta_cdf(v[0], cfg.get("a", 1), cfg.get("b", 1))]
            if not np.allclose(v, v[0], rtol=1e-5):
                bad = "sticks are not one common value for x = 1"
        else:
            c = x / (1 - x)
            p = m.p
            us = list(beta_cdf(v, 1 + c * p, al + c * (1 - p)))
            if x > 0:
                us.append(beta_cdf(p, cfg.get("a", 1), cfg.get("b", 1)))
    elif name == "BetaBernoulli":
        p = cfg.get("p", 1)
        us = [beta_cdf(v[0], 1, al)]
        for j in range(1, len(v)):
            new = not np.isclose(v[j], v[j - 1], rtol=1e-7, atol=0)
            bern.append((new, p, "new value"))
            if new:
                us.append(beta_cdf(v[j], 1, al))
    elif name == "BetaBinomial":
        n = cfg.get("n", 0)
        us = [beta_cdf(v[0], 1, al)]
        bs = np.arange(n + 1)
        for j in range(1, len(v)):
            q = stats.binom.pmf(bs, n, v[j - 1])
            us.append(float(np.sum(q * beta_cdf(v[j], 1 + bs, al + n - bs))))
    elif name == "BetaInDirichlet":
        a = cfg.get("a", 0)
        seen, cnt = [v[0]], [1]
        us = [beta_cdf(v[0], 1, al)]
        for j in range(1, len(v)):
            hit = [i for i, s in enumerate(seen) if np.isclose(s, v[j], rtol=1e-7, atol=0)]
            bern.append((not hit, a / (a + j), "new value"))
            if hit:
                # which tie: randomised probability integral transform
                bern.append((hit[0] == 0, cnt[0] / j, "tie with the first"))
                cnt[hit[0]] += 1
            else:
                us.append(beta_cdf(v[j], 1, al))
                seen.append(v[j])
                cnt.append(1)
    return us, bern, bad


PLANS = [(("r", 4),), (("c", 3),), (("r", 1), ("c", 4)), (("r", 2), ("c", 3), ("c", 5)), (("c", 1), ("c", 3)), (("r", 3), ("c", 2), ("t", 0.6)),
         (("r", 2), ("r", 4)), (("f", 0), ("r", 3), ("x", 0), ("r", 3))]


def run_plan(m, plan, k=6):
    for op, x in plan:
        if op == "r":
            m.random(x)
        elif op == "c":
            m.complete(x)
        elif op == "t" and np.all(np.asarray(m.v) > 0.02):
            m.tail(x)
        elif op == "f":
            m.fit(np.array([0, 0, 1, 3]))
        elif op == "x":
            m.reset()
    return np.asarray(m.get_weights(), float)[:k]


def prior_law(ctx, name, cfg, plan, n, k=6):
    U, B = {}, []
    g = np.random.default_rng([ctx.seed, 77, hash_str(name + str(cfg) + str(plan)) % 10**6])
    for i in range(n):
        m = getattr(W, name)(rng=g, **cfg)
        w = run_plan(m, plan, k)
        us, bern, bad = prior_pits(name, cfg, m, w)
        ctx.ok(bad is None, bad or "", w=w)
        if name in ("DirichletProcess", "PitmanYorProcess", "BetaBinomial", "BetaInBeta"):
            for j, u in enumerate(us):
                U.setdefault(j, []).append(u)
        else:
            U.setdefault(0, []).append(us[0])
            U.setdefault(1, []).extend(us[1:])
        B += bern
    for j, u in U.items():
        if len(u) < 20:
            continue
        p = ks_uniform(u)
        ctx.ok(p > P_MIN, "stick %d follows its prior law" % j, pvalue=p, plan=str(plan), n=len(u), mean_pit=float(np.mean(u)))
    # independence of consecutive sticks
    keys = sorted(U)
    if name in ("DirichletProcess", "PitmanYorProcess", "BetaBinomial"):
        for i, j in zip(keys, keys[1:]):
            if len(U[i]) == len(U[j]):
                r = np.corrcoef(U[i], U[j])[0, 1]
                ctx.ok(not abs(r) >= 6.5 / np.sqrt(len(U[i])), "sticks are independent", i=i, j=j, corr=r, plan=str(plan))
    for kind in sorted({b[2] for b in B}):
        o, p = zip(*[b[:2] for b in B if b[2] == kind])
        pv = z_test(o, p)
        ctx.ok(pv > P_MIN, "ties occur with their prior probability", pvalue=pv, observed=float(np.mean(o)), expected=float(np.mean(p)), plan=str(plan), event=kind)


def c04(ctx):
    n = reps(ctx, 250, 1500)
    for plan in PLANS:
        for name, cfg in models(INF):
            ctx.case("prior law %s %s" % (label(name, cfg), plan), prior_law, name, cfg, plan, n)
    for name, cfg in models(["BetaInDirichlet", "BetaBernoulli"]):
        for plan in ((("r", 18),), (("r", 2), ("c", 9), ("c", 18))):
            ctx.case("prior law, long, %s %s" % (label(name, cfg), plan), prior_law, name, cfg, plan, n, 18)

    def recorded(ctx, name, cfg, plan):
        """every stick is one recorded Beta value with exactly its prior parameters"""
        for s in range(reps(ctx, 6, 40)):
            m = make(name, cfg, s)
            g = Rec(s)
            set_rng(m, g)
            if name == "GeometricProcess" and plan[0][0] == "c":
                return
            w = run_plan(m, plan, 50)
            recorded_sticks(ctx, name, cfg, m, w, g, None, plan)
    for name, cfg in models(INF):
        for plan in PLANS:
            ctx.case("prior draws %s %s" % (label(name, cfg), plan), recorded, name, cfg, plan)

    def dirichlet(ctx, cfg):
        m = make("DirichletDistribution", cfg)
        g = Rec(3)
        set_rng(m, g)
        al = cfg.get("alpha", 1)
        al = np.array(al, float) if isinstance(al, list) else np.repeat(float(al), cfg["n"])
        W_ = np.array([m.random().copy() for _ in range(reps(ctx, 600, 4000))])
        ctx.ok(W_.shape[1] == cfg["n"], "n weights")
        for e in g.log:
            if e[0] == "dirichlet":
                ctx.close(e[1]["alpha"], al, "Dirichlet parameters")
        for j in range(cfg["n"]):
            if cfg["n"] > 1:
                u = beta_cdf(W_[:, j], al[j], al.sum() - al[j])
                p = ks_uniform(u)
                ctx.ok(p > P_MIN, "Dirichlet marginal", j=j, pvalue=p)
    for cfg in CFG["DirichletDistribution"]:
        ctx.case("dirichlet prior %s" % cfg, dirichlet, cfg)

    def equal(ctx, name, n):
        m = make(name, dict(n=n))
        for r in (m.random(), m.random(3), m.complete(2), m.tail(0.5)):
            ctx.close(r, np.repeat(1 / n, n), "equal weights", n=n)
    for n in (1, 2, 5, 9):
        ctx.case("equal %d" % n, equal, "EqualWeighting", n)
        ctx.case("frequency %d" % n, equal, "FrequencyWeighting", n)


def recorded_sticks(ctx, name, cfg, m, w, g, d, plan):
    """check the recorded generator calls behind the current sticks"""
    v = sticks_of(m, w)
    al = cfg.get("alpha", 1)
    n_, m_ = counts(d, max(len(w), int(max(d)) + 1)) if d is not None else (np.zeros(len(w)), np.zeros(len(w)))
    if d is not None and len(n_) < len(w):
        n_ = np.pad(n_, (0, len(w) - len(n_)))
        m_ = np.pad(m_, (0, len(w) - len(m_)))
    betas = []
    for kind, par, val in g.log:
        if kind == "beta":
            a, b = np.broadcast_to(par["a"], val.shape), np.broadcast_to(par["b"], val.shape)
            betas += list(zip(np.ravel(a), np.ravel(b), np.ravel(val)))
    if not betas:
        raise Undecided("no recorded Beta draw")
    B = np.array(betas)

    def find(x):
        return np.where(np.isclose(B[:, 2], x, rtol=1e-5, atol=1e-13) | np.isclose(1 - B[:, 2], x, rtol=1e-5, atol=1e-13))[0]

    mass = 1 - np.concatenate(([0], np.cumsum(w)[:-1]))
    used = set()
    for j in range(len(w)):
        if mass[j] < 1e-6 or not np.isfinite(v[j]) or v[j] > 1 - 1e-5 or v[j] < 1e-12:
            break
        idx = find(v[j])
        if len(idx) == 0:
            if name in ("BetaInBeta",) and cfg.get("x", 0) == 1:
                continue
            raise Undecided("stick is not a recorded Beta value")
        ab = B[idx]
        if name == "DirichletProcess":
            e = (1 + n_[j], al + m_[j])
        elif name == "PitmanYorProcess":
            dd = cfg.get("pyd", 0)
            e = (1 - dd + n_[j], al + (j + 1) * dd + m_[j])
        elif name == "GeometricProcess":
            e = (cfg.get("a", 1) + (len(d) if d is not None else 0), cfg.get("b", 1) + (np.sum(d) if d is not None else 0))
        elif name == "BetaInBeta":
            x = cfg.get("x", 0)
            if x == 1:
                e = (cfg.get("a", 1) + (len(d) if d is not None else 0), cfg.get("b", 1) + (np.sum(d) if d is not None else 0))
            else:
                c = x / (1 - x)
                e = (1 + c * m.p + n_[j], al + c * (1 - m.p) + m_[j])
        elif name == "BetaBinomial":
            n = cfg.get("n", 0)
            # Beta(1 + n_j + s, alpha + m_j + t n - s), 0 <= s <= t n, t in {0, 1, 2}
            good = False
            for a_, b_, _ in ab:
                s = a_ - 1 - n_[j]
                for t in ([1, 2] if d is None else [1, 2]):
                    if abs(s - round(s)) < 1e-9 and -1e-9 <= s <= t * n + 1e-9 and abs(b_ - (al + m_[j] + t * n - s)) < 1e-9:
                        good = True
            ctx.ok(good, "stick %d has its conjugate law" % j, params=ab[:, :2], n_j=n_[j], m_j=m_[j], n=n, alpha=al, plan=str(plan), d=d)
            continue
        elif name == "BetaBernoulli":
            lo = j
            while lo > 0 and np.isclose(v[lo - 1], v[j], rtol=1e-7):
                lo -= 1
            hi = j + 1
            while hi < len(v) and np.isclose(v[hi], v[j], rtol=1e-7):
                hi += 1
            e = (1 + n_[lo:hi].sum(), al + m_[lo:hi].sum())
        else:
            if d is None:
                e = (1, al)
            else:
                continue
        match = [i for i, (a_, b_, x_) in zip(idx, ab) if (abs(a_ - e[0]) < 1e-7 * (1 + abs(e[0])) and abs(b_ - e[1]) < 1e-7 * (1 + abs(e[1])))
                 or (abs(b_ - e[0]) < 1e-7 * (1 + abs(e[0])) and abs(a_ - e[1]) < 1e-7 * (1 + abs(e[1])) and abs(1 - x_ - v[j]) < 1e-4)]
        ctx.ok(bool(match), "stick %d is drawn from Beta%s" % (j, tuple(np.round(np.array(e, float), 9))), drawn_from=ab[:, :2], plan=str(plan), d=d, w=w)
        if name in ("DirichletProcess", "PitmanYorProcess", "BetaInBeta") and not (name == "BetaInBeta" and cfg.get("x", 0) == 1):
            fresh = [i for i in match if i not in used]
            ctx.ok(bool(fresh) or not match, "sticks are separate draws", j=j, v=v, plan=str(plan))
            used.update(fresh[:1])


# ----------------------------------------------------------------- C05 laws
def post_pits(name, cfg, m, w, d):
    v = sticks_of(m, w)
    al = cfg.get("alpha", 1)
    n_, m_ = counts(d, max(len(w), int(max(d)) + 1))
    out, bad = [], None
    K = len(w)
    if name == "DirichletProcess":
        out = [(j, beta_cdf(v[j], 1 + n_[j], al + m_[j])) for j in range(K)]
    elif name == "PitmanYorProcess":
        dd = cfg.get("pyd", 0)
        out = [(j, beta_cdf(v[j], 1 - dd + n_[j], al + (j + 1) * dd + m_[j])) for j in range(K)]
    elif name == "GeometricProcess" or (name == "BetaInBeta" and cfg.get("x", 0) == 1):
        out = [(0, beta_cdf(v[0], cfg.get("a", 1) + len(d), cfg.get("b", 1) + np.sum(d)))]
        if not np.allclose(v[:3], v[0], rtol=1e-5):
            bad = "sticks are not one common value"
    elif name == "BetaInBeta":
        x = cfg.get("x", 0)
        c = x / (1 - x)
        p = m.p
        out = [(j, beta_cdf(v[j], 1 + c * p + n_[j], al + c * (1 - p) + m_[j])) for j in range(K)]
        if x > 0:
            meth = cfg.get("p_method", "geometric")
            if meth == "geometric":
                out.append(("p", beta_cdf(p, cfg.get("a", 1) + len(d), cfg.get("b", 1) + np.sum(d))))
            elif meth == "independent":
                out.append(("p", beta_cdf(p, cfg.get("a", 1), cfg.get("b", 1))))
            elif meth == "static" and p != cfg.get("p", 0):
                bad = "static p was changed"
    elif name == "BetaBernoulli":
        j = 0
        while j < K:
            e = j + 1
            while e < K and np.isclose(v[e], v[j], rtol=1e-7, atol=0):
                e += 1
            if e < K or e >= len(n_):    # a complete block
                out.append(("b%d" % (j > 0), beta_cdf(v[j], 1 + n_[j:e].sum(), al + m_[j:e].sum())))
            if cfg.get("p", 1) == 0 and e < K:
                bad = "p = 0 ties every stick"
            j = e
    elif name == "BetaBinomial":
        n = cfg.get("n", 0)
        D = int(max(d)) + 1
        nd, md = counts(d)

        def bb(j):   # law of the binomial between sticks j-1 and j (j=0: before the first)
            a_, b_ = (1, al) if j == 0 else (1 + nd[j - 1], al + md[j - 1])
            return stats.betabinom.pmf(np.arange(n + 1), n, a_, b_)
        for j in range(min(K, D)):
            q = np.convolve(bb(j), bb(j + 1))
            s = np.arange(2 * n + 1)
            out.append((j, float(np.sum(q * beta_cdf(v[j], 1 + n_[j] + s, al + m_[j] + 2 * n - s)))))
        for j in range(D, K):
            if j > D or True:
                b = np.arange(n + 1)
                q = stats.binom.pmf(b, n, v[j - 1])
                out.append((j, float(np.sum(q * beta_cdf(v[j], 1 + b, al + n - b)))))
    elif name == "BetaInDirichlet" and cfg.get("a", 0) == 0:
        D = int(max(d)) + 1
        out = [(0, beta_cdf(v[0], 1 + n_[:D].sum(), al + m_[:D].sum()))]
        if not np.allclose(v[:2], v[0], rtol=1e-5):
            bad = "a = 0 ties every stick"
    return out, bad


DS = [[0, 0, 1], [2, 0, 0, 2, 2], [0] * 8, [3], [1, 0, 2, 1, 0, 1, 5], [4, 4, 4, 1], list(range(4)) * 3, [0]]


def post_law(ctx, name, cfg, d, plan, n):
    U = {}
    g = np.random.default_rng([ctx.seed, 78, hash_str(name + str(cfg) + str(d) + str(plan)) % 10**6])
    need = max(d) + 1
    m = None
    for i in range(n):
        if m is None or i % 2 == 0 or name == "BetaInDirichlet":
            m = getattr(W, name)(rng=g, **cfg)
        if plan == "refit":
            m.fit([0, 1, 1, 6])
            m.random()
        m.fit(np.array(d) if i % 3 else list(d))
        if plan in ("plain", "refit"):
            m.random()
        elif plan == "size+":
            m.random(need + 2)
        elif plan == "size-":
            m.random(1)
        elif plan == "then":
            m.random()
            m.complete(need + 3)
        elif plan == "tail":
            m.random()
            if not slow_tail(name, cfg, m, .8):
                m.tail(0.8)
        w = np.asarray(m.get_weights(), float)
        if plan != "size-":
            ctx.ok(len(w) >= need, "covers the labels", d=d, n=len(w), plan=plan)
        us, bad = post_pits(name, cfg, m, w[:need + 2], np.array(d))
        ctx.ok(bad is None, bad or "", w=w, d=d)
        for j, u in us:
            if np.isfinite(u) or True:
                U.setdefault(j, []).append(u)
    for j, u in U.items():
        u = [x for x in u if np.isfinite(x)]
        if len(u) < 20:
            continue
        p = ks_uniform(u)
        ctx.ok(p > P_MIN, "stick %s follows its posterior law" % j, pvalue=p, d=d, plan=plan, n=len(u), mean_pit=float(np.mean(u)))


def c05(ctx):
    n = reps(ctx, 160, 1000)
    for plan in ("plain", "refit", "size+", "then", "size-", "tail"):
        for name, cfg in models(INF):
            ds = DS if ctx.tier == "thorough" else [DS[(hash_str(name + plan) + i) % len(DS)] for i in range(3)] + [DS[1], DS[4]]
            for d in ds:
                if name == "BetaInDirichlet" and plan == "refit" and cfg.get("a", 0) > 0:
                    continue
                ctx.case("posterior law %s d=%s %s" % (label(name, cfg), d, plan), post_law, name, cfg, d, plan, n)

    def recorded(ctx, name, cfg, k):
        rng = ctx.rng("rec", name, str(cfg), k)
        m = make(name, cfg, k)
        if k % 3 == 0:
            m.fit(rand_d(rng))
            m.random()
        d = rand_d(rng)
        m.fit(d)
        g = Rec(k)
        set_rng(m, g)
        if k % 4 == 1:
            m.random(int(max(d)) + 3)
        else:
            m.random()
        w0 = np.array(m.get_weights(), float)
        if k % 2:
            m.complete(len(w0) + 3)
        recorded_sticks(ctx, name, cfg, m, np.asarray(m.get_weights(), float), g, d, "fit/random")
    def many(ctx, name, cfg):
        """hundreds of assignments to one label"""
        m = make(name, cfg, 1)
        d = np.repeat([0, 1, 2], [300, 700, 2])
        m.fit(d)
        g = Rec(3)
        set_rng(m, g)
        m.random()
        recorded_sticks(ctx, name, cfg, m, np.asarray(m.get_weights(), float), g, d, "fit/random")
    for name, cfg in models(INF):
        if name != "BetaInDirichlet":
            ctx.case("posterior draws, many observations, %s" % label(name, cfg), many, name, cfg)

    def manyd(ctx, al):
        m = make("DirichletDistribution", dict(n=3, alpha=al), 1)
        g = Rec(3)
        set_rng(m, g)
        m.fit(np.repeat([0, 1, 2], [300, 70000, 2]))
        m.random()
        par = [e[1]["alpha"] for e in g.log if e[0] == "dirichlet"]
        if len(par) != 1:
            raise Undecided("not one Dirichlet draw")
        ctx.close(par[0], np.array([300, 70000, 2.]) + np.array(al, float), "every assignment counts")
    for al in (1, [0.5, 2.0, 1.5]):
        ctx.case("posterior draws, many observations, Dirichlet %s" % (al,), manyd, al)
    for k in range(reps(ctx, 10, 80)):
        for name, cfg in models(INF):
            ctx.case("posterior draws %s %d" % (label(name, cfg), k), recorded, name, cfg, k)

    def bid(ctx, cfg, d, fresh):
        """BetaInDirichlet: base values pool the counts of their sticks; the first decision"""
        al, a = cfg.get("alpha", 1), cfg.get("a", 0)
        obs, prob = [], []
        for s in range(reps(ctx, 300, 2000)):
            m = make("BetaInDirichlet", cfg, 0)
            g = Rec(s)
            set_rng(m, g)
            m.fit(np.array(d))
            m.random()
            v = sticks_of(m, m.get_weights())
            n_, m_ = counts(d)
            first = g.log[0]
            if first[0] != "beta":
                raise Undecided("first draw is no Beta value")
            if s < 40:
                ctx.close([float(first[1]["a"]), float(first[1]["b"])], [1 + n_.sum(), al + m_.sum()], "pooled base law of a fresh fit", d=d)
                V = float(first[2])
                vals = {}
                for e in g.log[1:]:
                    if e[0] == "beta":
                        vals[round(float(np.ravel(e[2])[0]), 10)] = (float(e[1]["a"]), float(e[1]["b"]))
                own = 0
                for j in range(len(v)):
                    if np.isclose(v[j], V, rtol=1e-6):
                        continue
                    hit = [p for x, p in vals.items() if np.isclose(x, v[j], rtol=1e-6, atol=1e-12)]
                    if not hit:
                        raise Undecided("stick is no recorded value")
                    own += 1
                    cands = [(1 + n_[i], al + m_[i]) for i in range(len(v))]
                    ctx.ok(any(np.allclose(h, c) for h in hit for c in cands), "a new value has the law of one stick", got=hit, d=d)
            if len(n_) >= 2 and a > 0:
                V = float(first[2])
                lt = np.log(len(n_) - 1) + n_[0] * np.log(V) + m_[0] * np.log1p(-V)
                ln = np.log(a) + np.log(al) + special.betaln(1 + n_[0], al + m_[0])
                # the first stick's decision: read from the second recorded gumbel draw set
                second = [e for e in g.log[1:3]]
                new = second[1][0] == "beta" if len(second) > 1 else False
                obs.append(bool(new))
                prob.append(1 / (1 + np.exp(lt - ln)))
        if obs:
            pv = z_test(obs, prob)
            ctx.ok(pv > P_MIN, "probability of a new value for the first stick", pvalue=pv, observed=float(np.mean(obs)), expected=float(np.mean(prob)), d=d)
    for cfg in CFG["BetaInDirichlet"]:
        for d in ([0, 0, 1], [1, 0, 2, 1], [0], [0, 3, 3, 3, 1]):
            ctx.case("ties %s d=%s" % (cfg, d), bid, cfg, d, True)

    def bid_gibbs(ctx, cfg, seed):
        """given the ties of the previous sweep, each base value pools the counts of its sticks"""
        al = cfg.get("alpha", 1)
        rng = ctx.rng("bg", seed)
        m = make("BetaInDirichlet", cfg, seed)
        for it in range(6):
            d = rand_d(rng, hi=5, n=8)
            m.fit(d)
            if not hasattr(m, "_d_base"):
                raise Undecided("no tie labels")
            nn = int(d.max()) + 1
            base = np.concatenate((np.asarray(m._d_base, int), np.zeros(nn, int)))[:nn]
            if len(m._d_base) > nn:
                base = np.array(m._d_base[:nn], int)
            g = Rec(seed * 10 + it)
            set_rng(m, g)
            m.random()
            n_, m_ = counts(d)
            k = base.max() + 1
            bs = [e for e in g.log if e[0] == "beta"]
            flat = [(x, y) for e in bs for x, y in zip(np.ravel(np.broadcast_to(e[1]["a"], e[2].shape)), np.ravel(np.broadcast_to(e[1]["b"], e[2].shape)))]
            if len(flat) < k:
                raise Undecided("fewer Beta draws than base values")
            for jj in range(k):
                ctx.close(flat[jj], [1 + n_[base == jj].sum(), al + m_[base == jj].sum()], "base value law given the ties", base=base, d=d)
            m.complete(nn + int(rng.integers(0, 3)))
    for cfg in CFG["BetaInDirichlet"]:
        for s in range(reps(ctx, 4, 20)):
            ctx.case("tie sweeps %s %d" % (cfg, s), bid_gibbs, cfg, s)

    def bern(ctx, cfg, d):
        """the change indicators follow their conditional: two sticks only (exact)"""
        p, al = cfg.get("p", 1), cfg.get("alpha", 1)
        n_, m_ = counts(d)
        if len(n_) != 2:
            return
        l1 = 2 * np.log(al) + special.betaln(1 + n_[0], al + m_[0]) + special.betaln(1 + n_[1], al + m_[1])
        l0 = np.log(al) + special.betaln(1 + n_.sum(), al + m_.sum())
        with np.errstate(all="ignore"):
            pr = p / (p + (1 - p) * np.exp(l0 - l1))
        g = np.random.default_rng([ctx.seed, 5])
        obs = []
        for _ in range(reps(ctx, 500, 3000)):
            m = W.BetaBernoulli(rng=g, **cfg)
            m.fit(d)
            v = sticks_of(m, m.random())
            obs.append(not np.isclose(v[0], v[1], rtol=1e-7))
        pv = z_test(obs, np.repeat(pr, len(obs)))
        ctx.ok(pv > P_MIN, "probability of a change at the second stick", pvalue=pv, observed=float(np.mean(obs)), expected=float(pr), d=d)
    for cfg in CFG["BetaBernoulli"]:
        for d in ([0, 0, 1], [1, 1, 1, 1, 0], [0] * 6 + [1], [1]):
            ctx.case("changes %s d=%s" % (cfg, d), bern, cfg, d)

    def dirichlet(ctx, cfg, k):
        rng = ctx.rng("dd", str(cfg), k)
        m = make("DirichletDistribution", cfg, 1)
        al = cfg.get("alpha", 1)
        al = np.array(al, float) if isinstance(al, list) else np.repeat(float(al), cfg["n"])
        for _ in range(4):
            d = rand_d(rng, hi=cfg["n"])
            m.fit(d)
            g = Rec(k)
            set_rng(m, g)
            w = m.random()
            if len(g.log) != 1 or g.log[0][0] != "dirichlet":
                raise Undecided("not one Dirichlet draw")
            ctx.close(g.log[0][1]["alpha"], al + counts(d, cfg["n"])[0], "Dirichlet posterior parameters", d=d)
            ctx.close(w, g.log[0][2], "weights are the draw")
        ctx.close(m.alpha, al, "the prior is not changed")
    for cfg in CFG["DirichletDistribution"]:
        for k in range(4):
            ctx.case("dirichlet posterior %s %d" % (cfg, k), dirichlet, cfg, k)

    def freq(ctx, k):
        rng = ctx.rng("fq", k)
        m = make("FrequencyWeighting", dict(n=3), 1)
        for _ in range(5):
            d = rand_d(rng)
            m.fit(d)
            n_, _m = counts(d)
            ctx.close(m.random(), n_ / len(d), "empirical frequencies", d=d)
            ctx.close(m.complete(2), n_ / len(d), "empirical frequencies", d=d)
        e = make("EqualWeighting", dict(n=4), 1)
        e.fit([0, 0, 3])
        ctx.close(e.random(), np.repeat(.25, 4), "equal weights")
    for k in range(8):
        ctx.case("frequency %d" % k, freq, k)

    def order(ctx, name, cfg, k):
        rng = ctx.rng("ord", name, k)
        hi = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else 6
        d = rand_d(rng, hi=hi, n=12)
        A, B = make(name, cfg, 4), make(name, cfg, 4)
        A.fit(d)
        B.fit(rng.permutation(d))
        set_rng(A, Rec(5))
        set_rng(B, Rec(5))
        ctx.close(A.random(), B.random(), "the order of the assignments does not matter", d=d, rtol=1e-9)
    for name, cfg in models():
        for k in range(3):
            ctx.case("order %s %d" % (label(name, cfg), k), order, name, cfg, k)


# ------------------------------------------------------------------------ C08
def c08(ctx):
    def assign_ll(ctx, name, cfg, k):
        rng = ctx.rng("all", name, str(cfg), k)
        hi = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else 7
        m = make(name, cfg, k)
        m.random(int(rng.integers(1, 4)))
        if name == "FrequencyWeighting":
            d = np.concatenate((np.arange(3), rng.integers(0, 3, 9)))
            m.fit(d)
            m.random()
        for it in range(4):
            d = rand_d(rng, hi=3 if name == "FrequencyWeighting" else hi)
            w0 = np.array(m.get_weights(), float)
            if it % 2 == 0 or name == "FrequencyWeighting":
                r = m.assignation_log_likelihood(d)
            else:
                m.fit(d)
                r = m.assignation_log_likelihood()
            w = np.asarray(m.get_weights(), float)
            ctx.ok(len(w) > max(d), "the structure covers the labels", d=d, n=len(w))
            if name in INF:
                ctx.ok(np.array_equal(w[:len(w0)], w0), "weights kept", before=w0, w=w)
            ctx.close(r, float(np.sum(np.log(w[d]))), "assignment log-likelihood", d=d, w=w, rtol=1e-8)
            if name not in ("FrequencyWeighting",) and rng.integers(2):
                m.reset()
                m.random(int(rng.integers(1, 4)))
    def unused(ctx, k):
        """a component of zero weight holds no observation and does not count"""
        rng = ctx.rng("unused", k)
        d = [np.array([0, 2, 2, 3, 0]), np.array([1, 1, 4]), np.array([2])][k % 3]
        d = rng.permutation(d)
        m = make("FrequencyWeighting", {}, k)
        m.fit(d)
        w = np.asarray(m.random(), float)
        e = float(np.sum(np.log(w[d])))
        ctx.ok(np.isfinite(e), "every observed label has positive weight", d=d, w=w)
        ctx.close(m.assignation_log_likelihood(d), e, "assignment log-likelihood", d=d, w=w)
        ctx.close(m.assignation_log_likelihood(), e, "assignment log-likelihood of the fitted labels", d=d, w=w)
    for k in range(3):
        ctx.case("assignment ll with unused components %d" % k, unused, k)
    for name, cfg in models():
        for k in range(reps(ctx, 5, 40)):
            ctx.case("assignment ll %s %d" % (label(name, cfg), k), assign_ll, name, cfg, k)

    def wll(ctx, name, cfg, k):
        rng = ctx.rng("wll", name, str(cfg), k)
        hi = cfg.get("n", 1) if name in ("DirichletDistribution", "EqualWeighting") else 5
        m = make(name, cfg, k)
        al = cfg.get("alpha", 1)
        for it in range(4):
            if it % 2:
                m.fit(rand_d(rng, hi=hi))
            else:
                m.reset()
            m.random(int(rng.integers(1, 6)))
            if rng.integers(2):
                m.complete(len(m.get_weights()) + int(rng.integers(0, 4)))
            w = np.asarray(m.get_weights(), float)
            w_before = w.copy()
            got = m.weighting_log_likelihood()
            ctx.ok(np.array_equal(w_before, m.get_weights()), "evaluating keeps the weights")
            v = np.asarray(m.v, float) if hasattr(m, "v") else None
            lb = stats.beta.logpdf
            if name == "DirichletProcess":
                e = lb(v, 1, al).sum()
            elif name == "PitmanYorProcess":
                dd = cfg.get("pyd", 0)
                e = lb(v, 1 - dd, al + np.arange(1, len(v) + 1) * dd).sum()
            elif name == "GeometricProcess":
                e = lb(m.p, cfg.get("a", 1), cfg.get("b", 1))
            elif name == "BetaInBeta":
                x = cfg.get("x", 0)
                e = lb(m.p, cfg.get("a", 1), cfg.get("b", 1))
                if x < 1:
                    c = x / (1 - x)
                    e += lb(v, 1 + c * m.p, al + c * (1 - m.p)).sum()
            elif name == "BetaBernoulli":
                ch = np.concatenate(([1], [0 if v[j] == v[j - 1] else 1 for j in range(1, len(v))]))
                e = stats.binom.logpmf(ch[1:], 1, cfg.get("p", 1)).sum() + lb(v[ch == 1], 1, al).sum()
            elif name == "BetaBinomial":
                n = cfg.get("n", 0)
                b = np.asarray(m.binomials)
                if len(b) != len(v):
                    raise Undecided("latent binomials not aligned")
                e = stats.betabinom.logpmf(b[0], n, 1, al) + lb(v, 1 + b, al + n - b).sum() + stats.binom.logpmf(b[1:], n, v[:-1]).sum()
            elif name == "BetaInDirichlet":
                a = cfg.get("a", 0)
                u, c = np.unique(v, return_counts=True)
                e = lb(u, 1, al).sum()
                if a == 0:
                    e += 0.0 if len(u) == 1 else -np.inf
                else:
                    e += special.gammaln(a) - special.gammaln(a + len(v)) + len(u) * np.log(a) + special.gammaln(c).sum()
            elif name == "DirichletDistribution":
                a = np.array(al, float) if isinstance(al, list) else np.repeat(float(al), cfg["n"])
                e = special.gammaln(a.sum()) - special.gammaln(a).sum() + ((a - 1) * np.log(w)).sum()
            else:
                e = 0
            if np.isfinite(e) and w.min() > 1e-250 and (v is None or (np.all(v < 1 - 1e-6) and np.prod(1 - v) > 1e-9)):
                ctx.close(got, e, "weighting log-likelihood", v=v, rtol=1e-6, atol=1e-7)
    for name, cfg in models():
        for k in range(reps(ctx, 8, 60)):
            ctx.case("weighting ll %s %d" % (label(name, cfg), k), wll, name, cfg, k)


# ------------------------------------------------------------- variational
VAR = {"DirichletProcess": CFG["DirichletProcess"], "PitmanYorProcess": CFG["PitmanYorProcess"], "GeometricProcess": CFG["GeometricProcess"],
       "DirichletDistribution": CFG["DirichletDistribution"], "EqualWeighting": CFG["EqualWeighting"], "FrequencyWeighting": CFG["FrequencyWeighting"]}


def rmat(rng, k, kind):
    n = [0, 1, 2, 7, 30][kind % 5]
    r = rng.dirichlet(np.ones(k) * [0.3, 1, 5][kind % 3], size=n).T.reshape(k, n) if n else np.empty((k, 0))
    if kind % 4 == 3 and n:
        r = np.eye(k)[rng.integers(0, k, n)].T
    return np.ascontiguousarray(r)


def law(name, cfg, r):
    k = len(r)
    n_ = r.sum(1)
    m_ = np.array([n_[j + 1:].sum() for j in range(k)])
    al = cfg.get("alpha", 1)
    if name == "DirichletProcess":
        return np.column_stack((1 + n_, al + m_))
    if name == "PitmanYorProcess":
        d = cfg.get("pyd", 0)
        return np.column_stack((1 - d + n_, al + (np.arange(k) + 1) * d + m_))
    if name == "GeometricProcess":
        return np.array([cfg.get("a", 1) + n_.sum(), cfg.get("b", 1) + (np.arange(k) * n_).sum()])
    if name == "DirichletDistribution":
        a = np.array(al, float) if isinstance(al, list) else np.repeat(float(al), cfg["n"])
        return a + n_
    return None


def var_cases(ctx, f, tag):
    for name in VAR:
        for cfg in VAR[name]:
            for kind in range(reps(ctx, 10, 60)):
                rng = ctx.rng(tag, name, str(cfg), kind)
                k = cfg.get("n") if name == "DirichletDistribution" else int(rng.choice([1, 2, 3, 5]))
                r = rmat(rng, k, kind)
                ctx.case("%s %s r=%s kind=%d" % (tag, label(name, cfg), r.shape, kind), f, name, cfg, r, kind)


def vfit(name, cfg, r, kind, ctx=None):
    m = make(name, cfg, 1)
    if kind % 3 == 1:
        k2 = cfg.get("n") if name == "DirichletDistribution" else len(r) + 2
        m.fit_variational(np.full((k2, 4), 1 / k2))
    if kind % 7 == 5 and name in INF:
        m.random(3)
    m.fit_variational(r)
    return m


def close_any(got, e, tol=1e-8):
    return np.shape(got) == np.shape(e) and np.allclose(got, e, rtol=tol, atol=1e-10)


def c09(ctx):
    def f(ctx, name, cfg, r, kind):
        r0 = r.copy()
        m = vfit(name, cfg, r, kind)
        ctx.ok(np.array_equal(r, r0), "the responsibilities are not modified")
        e = law(name, cfg, r)
        if e is not None:
            ctx.ok(close_any(m.variational_params, e), "fitted variational law", got=m.variational_params, expected=e, r=r)
        if name == "EqualWeighting":
            ctx.ok(m.n == len(r), "n is the number of groups", n=m.n)
        ctx.ok(m.variational_k == len(r), "truncation is the number of groups", k=m.variational_k)
        ctx.ok(m.variational_d is r or np.array_equal(m.variational_d, r0), "responsibilities kept")
        # other queries do not disturb the fitted law
        for j in range(len(r) + 1):
            try:
                m.variational_mean_log_w_j(j)
                m.variational_mean_w_j(j)
                m.variational_mode_w_j(j)
            except ValueError:
                pass
        m.variational_mean_log_p_d__w(r)
        m.variational_mean_log_p_w()
        m.variational_mean_log_q_w()
        if e is not None:
            ctx.ok(close_any(m.variational_params, e), "queries keep the fitted law", got=m.variational_params, expected=e)
        ctx.ok(np.array_equal(r, r0), "queries keep the responsibilities")
    var_cases(ctx, f, "fit_variational")

    def whole(ctx, name, cfg, dtype):
        """responsibilities given as whole numbers"""
        k = cfg.get("n") if name == "DirichletDistribution" else 3
        r = np.zeros((k, 5), dtype=dtype)
        r[np.array([0, 1, 1, 0, 2]) % k, np.arange(5)] = 1
        m = getattr(W, name)(rng=1, **cfg)
        m.fit_variational(r)
        e = law(name, cfg, r.astype(float))
        if e is not None:
            ctx.ok(close_any(m.variational_params, e), "fitted variational law of 0/1 responsibilities", got=m.variational_params, expected=e, dtype=str(r.dtype))
        ctx.ok(r.dtype == dtype, "the responsibilities are not modified")
    for name in VAR:
        for cfg in VAR[name]:
            for dtype in (int, bool, np.uint8):
                ctx.case("whole-number responsibilities %s %s" % (label(name, cfg), dtype.__name__), whole, name, cfg, dtype)

    def optimal(ctx, name, cfg, r, kind):
        """coordinate optimality: the fitted law maximises E log p(d|w)+E log p(w)-E log q(w)"""
        if name in ("EqualWeighting", "FrequencyWeighting") or r.shape[1] == 0:
            return
        m = vfit(name, cfg, r, 0)

        def bound():
            return m.variational_mean_log_p_d__w(r) + m.variational_mean_log_p_w() - m.variational_mean_log_q_w()
        b0 = bound()
        p0 = np.array(m.variational_params, float)
        rng = ctx.rng("opt", name, kind)
        ctx.force()
        for _ in range(4):
            m.variational_params = p0 * np.exp(rng.normal(0, .2, p0.shape))
            ctx.ok(bound() <= b0 + 1e-8 * (1 + abs(b0)), "no other law of the family has a larger bound", at=m.variational_params, fitted=p0, bound=bound(), best=b0)
    var_cases(ctx, optimal, "optimality")


def exact_moments(name, cfg, r, m):
    """(E log w, E w, mode or None/'multi') for every j"""
    k = len(r)
    P = law(name, cfg, r)
    dg = special.digamma
    out = []
    for j in range(k):
        if name in ("DirichletProcess", "PitmanYorProcess"):
            last = name == "DirichletProcess"
            el = sum(dg(P[l, 1]) - dg(P[l].sum()) for l in range(j))
            ew = np.prod([P[l, 1] / P[l].sum() for l in range(j)])
            if not (last and j == k - 1):
                el += dg(P[j, 0]) - dg(P[j].sum())
                ew *= P[j, 0] / P[j].sum()
            mo = 1.0
            for l in range(j + 1):
                a, b = P[l]
                if l == j and last and j == k - 1:
                    break
                if a <= 1 and b <= 1:
                    mo = "multi"
                    break
                x = 0.0 if a <= 1 else (1.0 if b <= 1 else (a - 1) / (a + b - 2))
                mo *= x if l == j else 1 - x
                if mo == 0:
                    break
            out.append((el, ew, mo))
        elif name == "GeometricProcess":
            a, b = P
            el = dg(a) - dg(a + b) + j * (dg(b) - dg(a + b))
            ew = np.exp(special.betaln(a + 1, b + j) - special.betaln(a, b))
            if a <= 1 and b <= 1:
                mo = "multi"
            elif a <= 1:
                mo = 0.0
            elif b <= 1:
                mo = 1.0 * (j == 0)
            else:
                p = (a - 1) / (a + b - 2)
                mo = (1 - p) ** j * p
            out.append((el, ew, mo))
        elif name == "DirichletDistribution":
            s = P.sum()
            el = dg(P[j]) - dg(s)
            a, b = P[j], s - P[j]
            mo = "multi" if a <= 1 and b <= 1 else 0.0 if a <= 1 else 1.0 if b <= 1 else (a - 1) / (s - 2)
            out.append((el, P[j] / s, mo))
        elif name == "EqualWeighting":
            out.append((-np.log(k), 1 / k, 1 / k))
        else:
            n_ = r.sum(1)
            if r.shape[1]:
                with np.errstate(all="ignore"):
                    out.append((np.log(n_[j] / n_.sum()), n_[j] / n_.sum(), n_[j] / n_.sum()))
            else:
                out.append((-np.log(k), None, None))
    return out


def c10(ctx):
    def f(ctx, name, cfg, r, kind):
        m = vfit(name, cfg, r, kind)
        for j, (el, ew, mo) in enumerate(exact_moments(name, cfg, r, m)):
            ctx.close(m.variational_mean_log_w_j(j), el, "E log w_%d" % j, r=r, rtol=1e-7)
            if ew is not None:
                ctx.close(m.variational_mean_w_j(j), ew, "E w_%d" % j, r=r, rtol=1e-7)
            if mo == "multi":
                ctx.raises(ValueError, lambda: m.variational_mode_w_j(j), "multimodal law", j=j)
            elif mo is not None:
                ctx.close(m.variational_mode_w_j(j), mo, "mode of w_%d" % j, r=r, rtol=1e-7)
        for j in (len(r), len(r) + 1, len(r) + 7):
            if not (name == "FrequencyWeighting" and r.shape[1] == 0):
                ctx.close(m.variational_mean_w_j(j), 0, "E w beyond the truncation", j=j)
                ctx.close(m.variational_mode_w_j(j), 0, "mode beyond the truncation", j=j)
            ctx.ok(m.variational_mean_log_w_j(j) == -np.inf, "E log w beyond the truncation", j=j, got=m.variational_mean_log_w_j(j))
        if name != "PitmanYorProcess" and name != "GeometricProcess" and not (name == "FrequencyWeighting" and r.shape[1] == 0):
            ctx.close(sum(m.variational_mean_w_j(j) for j in range(len(r))), 1, "means total one", r=r)
    var_cases(ctx, f, "moments")

    def unfitted(ctx, name, cfg):
        if name == "EqualWeighting":
            return
        m = make(name, cfg)
        for j in (0, 1):
            ctx.raises(NotFittedError, lambda: m.variational_mean_log_w_j(j), "log moment before fitting", j=j)
        if name in INF:
            m.random(3)
        m.fit([0])
        ctx.raises(NotFittedError, lambda: m.variational_mean_log_w_j(0), "log moment before variational fitting")
    for name in VAR:
        for cfg in VAR[name]:
            ctx.case("unfitted %s" % label(name, cfg), unfitted, name, cfg)


def c11(ctx):
    def lognorm_beta(a, b):
        return special.gammaln(a + b) - special.gammaln(a) - special.gammaln(b)

    def terms(name, cfg, r):
        P = law(name, cfg, r)
        k = len(r)
        dg = special.digamma
        al = cfg.get("alpha", 1)
        if name in ("DirichletProcess", "PitmanYorProcess"):
            K = k - 1 if name == "DirichletProcess" else k
            lp = lq = 0.0
            for j in range(K):
                a, b = P[j]
                pa, pb = (1, al) if name == "DirichletProcess" else (1 - cfg.get("pyd", 0), al + (j + 1) * cfg.get("pyd", 0))
                e1, e2 = dg(a) - dg(a + b), dg(b) - dg(a + b)
                lp += lognorm_beta(pa, pb) + (pa - 1) * e1 + (pb - 1) * e2
                lq += lognorm_beta(a, b) + (a - 1) * e1 + (b - 1) * e2
            return lp, lq
        if name == "GeometricProcess":
            a, b = P
            e1, e2 = dg(a) - dg(a + b), dg(b) - dg(a + b)
            pa, pb = cfg.get("a", 1), cfg.get("b", 1)
            return lognorm_beta(pa, pb) + (pa - 1) * e1 + (pb - 1) * e2, lognorm_beta(a, b) + (a - 1) * e1 + (b - 1) * e2
        if name == "DirichletDistribution":
            a = np.array(al, float) if isinstance(al, list) else np.repeat(float(al), cfg["n"])
            e = dg(P) - dg(P.sum())
            ln = lambda x: special.gammaln(x.sum()) - special.gammaln(x).sum()
            return ln(a) + ((a - 1) * e).sum(), ln(P) + ((P - 1) * e).sum()
        return 0.0, 0.0

    def f(ctx, name, cfg, r, kind):
        m = vfit(name, cfg, r, kind)
        mom = exact_moments(name, cfg, r, m)
        el = np.array([x[0] for x in mom])
        lp, lq = terms(name, cfg, r)
        ctx.close(m.variational_mean_log_p_w(), lp, "E log p(w)", r=r, rtol=1e-7)
        ctx.close(m.variational_mean_log_q_w(), lq, "E log q(w)", r=r, rtol=1e-7)
        n_ = r.sum(1)
        if not (name == "FrequencyWeighting" and (r.shape[1] == 0 or np.any(n_ == 0))):
            e = float((n_ * el).sum())
            ctx.close(m.variational_mean_log_p_d__w(), e, "E log p(d|w) of the fitted responsibilities", r=r, rtol=1e-7)
            ctx.close(m.variational_mean_log_p_d__w(r), e, "E log p(d|w)", r=r, rtol=1e-7)
            ctx.close(m.variational_mean_log_p_d__w(variational_d=r), e, "E log p(d|w)", r=r, rtol=1e-7)
            rng = ctx.rng("r2", name, kind)
            r2 = rng.dirichlet(np.ones(len(r)), size=5).T
            e2 = float((r2.sum(1) * el).sum())
            ctx.close(m.variational_mean_log_p_d__w(r2), e2, "E log p(d|w) of other responsibilities", r=r, r2=r2, rtol=1e-7)
            ctx.close(m.variational_mean_log_p_d__w(), e, "other responsibilities leave the fit alone", r=r, rtol=1e-7)
        if r.shape[1] == 0:
            ctx.close(m.variational_mean_log_p_w(), m.variational_mean_log_q_w(), "prior law: both expectations agree", rtol=1e-8)
    var_cases(ctx, f, "bound terms")

    def unfitted(ctx, name, cfg):
        m = make(name, cfg)
        ctx.raises(NotFittedError, lambda: m.variational_mean_log_p_d__w(), "E log p(d|w) before fitting")
        if name != "EqualWeighting":
            ctx.raises(NotFittedError, lambda: m.variational_mean_log_p_w(), "E log p(w) before fitting")
            ctx.raises(NotFittedError, lambda: m.variational_mean_log_q_w(), "E log q(w) before fitting")
    for name in VAR:
        for cfg in VAR[name]:
            ctx.case("unfitted %s" % label(name, cfg), unfitted, name, cfg)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11}
