"""Contracts of the weighting models (C01-C11)."""
from .con import *

W = "weight_models."


def dig(x): return fapp("digamma", tt(x))
def lg(x): return fapp("lgam", tt(x))
def mlb(a, b): return sub(dig(a), dig(add(tt(a), tt(b))))


MODELS = {"DirichletProcess": "_dirichlet_process", "PitmanYorProcess": "_pitman_yor_process", "GeometricProcess": "_geometric_process", "BetaInBeta": "_beta_in_beta",
          "BetaInDirichlet": "_beta_in_dirichlet", "BetaBernoulli": "_beta_bernoulli", "BetaBinomial": "_beta_binomial", "DirichletDistribution": "_dirichlet_distribution",
          "EqualWeighting": "_equal", "FrequencyWeighting": "_frequency"}


def cl(c, name):
    return c.cls(W + MODELS[name], name)


def q(name, meth):
    return "%s%s:%s.%s" % (W, MODELS[name], name, meth)


# ------------------------------------------------------------ C09 / C10 / C11
class Law:
    """a fitted variational law: symbolic parameters and exact moments"""

    def __init__(self, c, name, fit=True, norm=False):
        self.c, self.name = c, name
        K, N = c.int("K", 1), c.int("N", 0)
        self.K, self.N = K, N
        self.r = c.arr("r", (K, N), lo=0, hi=1)
        r = self.r
        if norm:
            # responsibilities sum to one over the groups
            if c.mode == "con":
                normalise(c)
            else:
                c.assume(Forall(ZERO, N, lambda i: eq(Sum(ZERO, K, lambda j: r.at(j, i)), ONE)))
        self.n = lambda j: Sum(ZERO, N, lambda i: r.at(j, i))
        self.m = lambda j: Sum(add(tt(j), ONE), K, lambda l: self.n(l))
        kw = {}
        if name == "DirichletProcess":
            self.alpha = c.real("alpha", 0)
            kw = {"alpha": self.alpha}
        elif name == "PitmanYorProcess":
            self.d = c.real("pyd", 0, 1, True)
            c.assume(lt(self.d, ONE))
            self.alpha = c.real("alpha", neg(self.d))
            kw = {"pyd": self.d, "alpha": self.alpha}
        elif name == "GeometricProcess":
            self.a, self.b = c.real("a", 0), c.real("b", 0)
            kw = {"a": self.a, "b": self.b}
        elif name == "DirichletDistribution":
            self.al = c.arr("al", (K,), lo=0)
            kw = {"n": K, "alpha": self.al}
        elif name in ("EqualWeighting", "FrequencyWeighting"):
            kw = {"n": c.int("n0", 1)}
        self.o = c.new(cl(c, name), rng=None, **kw)
        if fit:
            c.call(self.o, "fit_variational", self.r)

    def params(self):
        """declare the fitted law by its contract (instead of running fit_variational)"""
        c, o, K = self.c, self.o, self.K
        n = self.name
        if c.mode == "con":
            c.call(o, "fit_variational", self.r)
        else:
            c.set(o, variational_d=self.r, variational_k=K)
            if n == "EqualWeighting":
                c.set(o, n=K)
        shape = {"DirichletProcess": (K, 2), "PitmanYorProcess": (K, 2), "GeometricProcess": (2,), "DirichletDistribution": (K,)}.get(n)
        if shape:
            self.vp = c.state(o, "variational_params", "vp", shape, lo=0)
        return self

    # exact moments of the declared law
    def Elog(self, j):
        j = tt(j)
        n, K = self.name, self.K
        if n == "DirichletProcess":
            g, d = lambda l: self.vp.at(l, 0), lambda l: self.vp.at(l, 1)
            return add(Sum(ZERO, j, lambda l: mlb(d(l), g(l))), ite(lt(j, sub(K, ONE)), mlb(g(j), d(j)), ZERO))
        if n == "PitmanYorProcess":
            g, d = lambda l: self.vp.at(l, 0), lambda l: self.vp.at(l, 1)
            return add(Sum(ZERO, j, lambda l: mlb(d(l), g(l))), mlb(g(j), d(j)))
        if n == "GeometricProcess":
            a, b = self.vp.at(0), self.vp.at(1)
            return add(mlb(a, b), mul(j, mlb(b, a)))
        if n == "DirichletDistribution":
            return sub(dig(self.vp.at(j)), dig(Sum(ZERO, K, lambda l: self.vp.at(l))))
        if n == "EqualWeighting":
            return neg(log_(K))
        if n == "FrequencyWeighting":
            return log_(div(self.n(j), Sum(ZERO, K, self.n)))

    def Emean(self, j):
        j = tt(j)
        n, K = self.name, self.K
        if n in ("DirichletProcess", "PitmanYorProcess"):
            g, d = lambda l: self.vp.at(l, 0), lambda l: self.vp.at(l, 1)
            last = div(g(j), add(g(j), d(j)))
            if n == "DirichletProcess":
                last = ite(lt(j, sub(K, ONE)), last, ONE)
            return mul(Prod(ZERO, j, lambda l: div(d(l), add(g(l), d(l)))), last)
        if n == "GeometricProcess":
            a, b = self.vp.at(0), self.vp.at(1)
            return exp_(sub(sub(add(lg(a + 1), lg(b + j)), lg(a + b + j + 1)), sub(add(lg(a), lg(b)), lg(a + b))))
        if n == "DirichletDistribution":
            return div(self.vp.at(j), Sum(ZERO, K, lambda l: self.vp.at(l)))
        if n == "EqualWeighting":
            return div(ONE, K)
        if n == "FrequencyWeighting":
            return div(self.n(j), Sum(ZERO, K, self.n))


def betamode(c, a, b):
    """mode of Beta(a, b), or None when it has several"""
    if branch(c, le(a, ONE), lambda: True, lambda: False):
        return branch(c, le(b, ONE), lambda: None, lambda: ZERO)
    return branch(c, le(b, ONE), lambda: ONE, lambda: div(sub(a, ONE), sub(add(a, b), const(2))))


def reg_mode(name):
    STICKS = name in ("DirichletProcess", "PitmanYorProcess")

    def said(c, L, j, want):
        if want is None:
            c.raises("several-modes", lambda: c.call(L.o, "variational_mode_w_j", j), "ValueError")
        else:
            c.eq("mode", c.call(L.o, "variational_mode_w_j", j), want)

    @contract("C10", q(name, "variational_mode_w_j"), name + "_mode")
    def mode(c):
        L = Law(c, name, fit=False).params()
        j = c.int("j", 0)
        if name == "FrequencyWeighting":
            c.assume(ge(L.N, ONE))
        if branch(c, ge(j, L.K), lambda: True, lambda: False):
            return said(c, L, j, ZERO)
        if name == "DirichletDistribution":
            # the mode of the Beta marginal
            a = L.vp.at(j)
            return said(c, L, j, betamode(c, a, sub(Sum(ZERO, L.K, lambda l: L.vp.at(l)), a)))
        if name == "GeometricProcess":
            p = betamode(c, L.vp.at(0), L.vp.at(1))
            return said(c, L, j, None if p is None else ind(eq(j, ZERO)) if p is ONE else mul(p, power(sub(ONE, p), j)))
        if not STICKS:
            return said(c, L, j, L.Emean(j))
        # product of the modes of the sticks, when each of the earlier ones leaves something over
        g, d = lambda l: L.vp.at(l, 0), lambda l: L.vp.at(l, 1)
        c.assume(Forall(ZERO, j, lambda l: gt(d(l), ONE)))
        if name == "DirichletProcess" and branch(c, eq(j, sub(L.K, ONE)), lambda: True, lambda: False):
            last = ONE
        else:
            last = betamode(c, g(j), d(j))
        rest = Prod(ZERO, j, lambda l: ite(le(g(l), ONE), ONE, div(sub(d(l), ONE), sub(add(g(l), d(l)), const(2)))))
        said(c, L, j, None if last is None else mul(rest, last))

    if STICKS:
        @contract("C10", q(name, "variational_mode_w_j"), name + "_mode_nothing_left")
        def nothing_left(c):
            L = Law(c, name, fit=False).params()
            j = c.int("j", 1)
            e = c.int("e", 0, sub(j, ONE))
            c.assume(lt(j, L.K))
            g, d = lambda l: L.vp.at(l, 0), lambda l: L.vp.at(l, 1)
            # stick e, the first whose law does not vanish at one
            c.assume(le(d(e), ONE))
            c.assume(Forall(ZERO, e, lambda l: gt(d(l), ONE)))
            said(c, L, j, branch(c, le(g(e), ONE), lambda: None, lambda: ZERO))


VAR = ["DirichletProcess", "PitmanYorProcess", "GeometricProcess", "DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]


def reg_var(name):
    @contract("C09", q(name, "fit_variational"), name + "_fit")
    def fit(c):
        L = Law(c, name)
        o, K, r = L.o, L.K, L.r
        c.eq("variational_k", c.get(o, "variational_k"), K)
        # the responsibilities are kept, not modified
        c.arr_eq("variational_d", c.get(o, "variational_d"), (K, L.N), lambda j, i: app("r", j, i))
        c.all("caller-r-unmodified", (K, L.N), lambda j, i: (r.at(j, i), app("r", j, i)))
        if name == "EqualWeighting":
            c.eq("n", c.get(o, "n"), K)
            return
        if name == "FrequencyWeighting":
            return
        vp = c.get(o, "variational_params")
        if name == "DirichletDistribution":
            c.arr_eq("params", vp, (K,), lambda j: add(L.al.at(j), L.n(j)))
            c.arr_eq("prior-unmodified", c.get(o, "alpha"), (K,), lambda j: app("al", j))
        elif name == "GeometricProcess":
            c.arr_eq("params", vp, (2,), lambda k: ite(eq(k, ZERO), add(L.a, Sum(ZERO, K, L.n)), add(L.b, Sum(ZERO, K, lambda j: mul(j, L.n(j))))))
        elif name == "DirichletProcess":
            c.arr_eq("params", vp, (K, 2), lambda j, k: ite(eq(k, ZERO), add(ONE, L.n(j)), add(L.alpha, L.m(j))))
        else:
            c.arr_eq("params", vp, (K, 2), lambda j, k: ite(eq(k, ZERO), add(sub(ONE, L.d), L.n(j)), add(L.alpha, mul(add(j, ONE), L.d), L.m(j))))

    @contract("C10", q(name, "variational_mean_log_w_j"), name + "_mean_log")
    def meanlog(c):
        L = Law(c, name, fit=False).params()
        j = c.int("j", 0)
        if name == "FrequencyWeighting":
            c.assume(ge(L.N, ONE))
        res = c.call(L.o, "variational_mean_log_w_j", j)
        c.eq("mean-log", res, branch(c, lt(j, L.K), lambda: L.Elog(j), lambda: neg(INF)))

    @contract("C10", q(name, "variational_mean_w_j"), name + "_mean")
    def mean(c):
        L = Law(c, name, fit=False).params()
        j = c.int("j", 0)
        if name == "FrequencyWeighting":
            c.assume(ge(L.N, ONE))
        res = c.call(L.o, "variational_mean_w_j", j)
        c.eq("mean", res, branch(c, lt(j, L.K), lambda: L.Emean(j), lambda: ZERO))

    reg_mode(name)

    if name not in ("EqualWeighting",):
        @contract("C10", q(name, "variational_mean_log_w_j"), name + "_unfitted")
        def unfitted(c):
            L = Law(c, name, fit=False)
            j = c.int("j", 0)
            c.raises("not-fitted", lambda: c.call(L.o, "variational_mean_log_w_j", j), "NotFittedError")

        @contract("C11", q(name, "variational_mean_log_p_w"), name + "_unfitted11")
        def unfitted11(c):
            L = Law(c, name, fit=False)
            for mth in ("variational_mean_log_p_d__w", "variational_mean_log_p_w", "variational_mean_log_q_w"):
                c.raises("not-fitted-" + mth, lambda: c.call(L.o, mth), "NotFittedError")

    @contract("C11", q(name, "variational_mean_log_p_d__w"), name + "_log_pd")
    def logpd(c):
        L = Law(c, name, fit=False, norm=name in ("EqualWeighting", "GeometricProcess")).params()
        if name == "FrequencyWeighting":
            c.assume(ge(L.N, ONE))
        want = Sum(ZERO, L.K, lambda j: mul(L.n(j), L.Elog(j)))
        c.eq("E-log-p(d|w)", c.call(L.o, "variational_mean_log_p_d__w"), want)
        if name == "FrequencyWeighting":
            c.eq("E-log-p(d|w)-given", c.call(L.o, "variational_mean_log_p_d__w", L.r), want)
        else:
            c.eq("E-log-p(d|w)-given", c.call(L.o, "variational_mean_log_p_d__w", L.r), want)

    @contract("C11", q(name, "variational_mean_log_p_w"), name + "_log_p")
    def logp(c):
        L = Law(c, name, fit=False).params()
        K = L.K
        if name == "FrequencyWeighting":
            c.assume(ge(L.N, ONE))
        res = c.call(L.o, "variational_mean_log_p_w")
        g, d = (lambda l: L.vp.at(l, 0)), (lambda l: L.vp.at(l, 1))
        if name == "DirichletProcess":
            want = Sum(ZERO, sub(K, ONE), lambda j: add(mul(sub(L.alpha, ONE), mlb(d(j), g(j))), log_(L.alpha)))
        elif name == "PitmanYorProcess":
            def term(j):
                a, b = sub(ONE, L.d), add(L.alpha, mul(add(j, ONE), L.d))
                return add(mul(sub(a, ONE), mlb(g(j), d(j))), mul(sub(b, ONE), mlb(d(j), g(j))), lg(add(a, b)), neg(lg(a)), neg(lg(b)))
            want = Sum(ZERO, K, term)
        elif name == "GeometricProcess":
            x, y = L.vp.at(0), L.vp.at(1)
            want = add(mul(L.a - 1, mlb(x, y)), mul(L.b - 1, mlb(y, x)), lg(L.a + L.b), neg(lg(L.a)), neg(lg(L.b)))
        elif name == "DirichletDistribution":
            al = lambda j: L.al.at(j)
            want = add(lg(Sum(ZERO, K, al)), Sum(ZERO, K, lambda j: sub(mul(sub(al(j), ONE), L.Elog(j)), lg(al(j)))))
        else:
            want = ZERO
        c.eq("E-log-p(w)", res, want)

    @contract("C11", q(name, "variational_mean_log_q_w"), name + "_log_q")
    def logq(c):
        L = Law(c, name, fit=False).params()
        K = L.K
        if name == "FrequencyWeighting":
            c.assume(ge(L.N, ONE))
        res = c.call(L.o, "variational_mean_log_q_w")

        def negent(x, y):
            return add(mul(x - 1, mlb(x, y)), mul(y - 1, mlb(y, x)), lg(x + y), neg(lg(x)), neg(lg(y)))
        if name == "DirichletProcess":
            want = Sum(ZERO, sub(K, ONE), lambda j: negent(L.vp.at(j, 0), L.vp.at(j, 1)))
        elif name == "PitmanYorProcess":
            want = Sum(ZERO, K, lambda j: negent(L.vp.at(j, 0), L.vp.at(j, 1)))
        elif name == "GeometricProcess":
            want = negent(L.vp.at(0), L.vp.at(1))
        elif name == "DirichletDistribution":
            v = lambda j: L.vp.at(j)
            want = add(lg(Sum(ZERO, K, v)), Sum(ZERO, K, lambda j: sub(mul(sub(v(j), ONE), L.Elog(j)), lg(v(j)))))
        else:
            want = ZERO
        c.eq("E-log-q(w)", res, want)


def branch(c, cond, a, b):
    """specification by cases (decided on the current path)"""
    if c.mode == "con":
        return a() if c.ev(cond) else b()
    return a() if c.m.branch(cond) else b()


def normalise(c):
    """columns of the sampled responsibilities sum to one"""
    a = c.inputs["r"]
    if a.shape[0]:
        a /= a.sum(0, keepdims=True)


for _n in VAR:
    reg_var(_n)
