"""Contracts of the log-likelihood methods (C08)."""
from .con import *
from .c_weights import cl, q, branch
from .c_sticks import Sticks, Urn, stickw, loop
from .c_finite import Finite


lg = lambda x: fapp("lgam", tt(x))


def lbeta(x, a, b):
    x, a, b = tt(x), tt(a), tt(b)
    B = sub(add(fapp("lgam", a), fapp("lgam", b)), fapp("lgam", add(a, b)))
    return sub(add(mul(sub(a, ONE), log_(x)), mul(sub(b, ONE), log_(sub(ONE, x)))), B)


class Live(Sticks):
    """a state with sticks strictly inside (0, 1)"""

    def __init__(self, c, name, variant=None, byw=False):
        super().__init__(c, name, lo=1, variant=variant)
        m = self.m
        if byw and c.mode == "sym":
            # the same states, described by the weights: w > 0 of total below one,
            # each stick the share of what its predecessors left over
            w = c.arr("w", (m,), lo=0)
            left = lambda j: sub(ONE, Sum(ZERO, tt(j), lambda l: w.at(l)))
            c.assume(Forall(ZERO, m, lambda j: lt(w.at(j), left(j))))
            self.w = w.at
            self.v = lambda j: div(w.at(j), left(j))
            c.set(self.o, w=w, v=c.arrf((m,), self.v))
            if name == "BetaInBeta":
                c.assume(and_(gt(self.p, ZERO), lt(self.p, ONE)))
            return
        inside(c, m, self.v)
        if name in ("GeometricProcess", "BetaInBeta"):
            c.assume(and_(gt(self.p, ZERO), lt(self.p, ONE)))


def inside(c, m, v):
    c.assume(Forall(ZERO, m, lambda j: and_(gt(v(j), ZERO), lt(v(j), ONE))))


class LiveUrn(Urn):
    def __init__(self, c):
        super().__init__(c)
        c.assume(ge(self.m, ONE))
        inside(c, self.m, self.v)


def live(c, name, variant=None, byw=False):
    return LiveUrn(c) if name == "BetaInDirichlet" else Live(c, name, variant, byw=byw)


def density(c, s):
    """log prior density of the current sticks and latent variables"""
    m, A, name = s.m, s.A, s.name
    if name == "BetaBinomial":
        # binomial 0 has the Beta-binomial law, each further one is Binomial(n, stick before it)
        n, al, b = A["n"], A["alpha"], lambda j: s.lat.at(j)
        law = lambda j: s.stick_law(b(j))
        bl = lambda p, q: sub(add(lg(p), lg(q)), lg(add(p, q)))
        x = b(ZERO)
        first = add(sub(lg(add(n, ONE)), add(lg(add(x, ONE)), lg(add(sub(n, x), ONE)))), sub(bl(add(x, ONE), add(sub(n, x), al)), bl(ONE, al)))
        return add(first, Sum(ZERO, m, lambda j: lbeta(s.v(j), law(j)["a"], law(j)["b"])),
                   Sum(ONE, m, lambda j: fapp("binlogpmf", b(j), n, s.v(sub(j, ONE)))))
    if name == "BetaBernoulli":
        # a new value where the indicator says so
        al, b = A["alpha"], lambda j: s.lat.at(j)
        new = lambda j: ne(b(j), ZERO)
        return add(lbeta(s.v(ZERO), ONE, al), Sum(ONE, m, lambda j: mul(ind(new(j)), lbeta(s.v(j), ONE, al))),
                   Sum(ONE, m, lambda j: fapp("binlogpmf", b(j), ONE, A["p"])))
    if name == "BetaInDirichlet":
        # each distinct value once, and the probability of the ties
        new = lambda j: not_(Exists(ZERO, j, lambda l: eq(s.v(l), s.v(j))))
        tied = lambda j: Sum(ZERO, m, lambda l: ind(eq(s.v(l), s.v(j))))
        k = Sum(ZERO, m, lambda j: ind(new(j)))
        want = Sum(ZERO, m, lambda j: mul(ind(new(j)), lbeta(s.v(j), ONE, s.alpha)))
        if branch(c, eq(s.a, ZERO), lambda: True, lambda: False):
            return want if branch(c, eq(k, ONE), lambda: True, lambda: False) else neg(INF)
        return add(want, lg(s.a), mul(k, log_(s.a)), neg(lg(add(s.a, m))), Sum(ZERO, m, lambda j: mul(ind(new(j)), lg(tied(j)))))
    want = ZERO
    if not (name == "GeometricProcess" or name == "BetaInBeta" and s.variant == "x=1"):
        def term(j):
            a, b = s.prior(j)
            return lbeta(s.v(j), a, b)
        want = Sum(ZERO, m, term)
    if name in ("GeometricProcess", "BetaInBeta"):
        want = add(want, lbeta(s.p, A["a"], A["b"]))
    return want


LATENTS = ("BetaBinomial", "BetaBernoulli", "BetaInDirichlet")


def reg(name, variant=None):
    tag = name + ("" if variant is None else "[%s]" % variant)

    @contract("C08", q(name, "weighting_log_likelihood"), tag + "_weighting_log_likelihood")
    def weighting(c):
        s = live(c, name, variant, byw=not (name == "GeometricProcess" or name in LATENTS or variant == "x=1"))
        m = s.m
        r = c.call(s.o, "weighting_log_likelihood")
        want = density(c, s)
        c.eq("log-density", r, want)
        c.arr_eq("weights-unchanged", c.get(s.o, "w"), (m,), lambda j: s.w(j))
        c.arr_eq("sticks-unchanged", c.get(s.o, "v"), (m,), lambda j: s.v(j))

    @contract("C08", q(name, "assignation_log_likelihood"), tag + "_assignation_log_likelihood")
    def assignation(c):
        s = live(c, name, variant)
        N = c.int("N", 1)
        d = c.arr("d", (N,), "I", 0)
        own = c.fresh_bool("own")
        if own:
            c.call(s.o, "fit", d)
        with loop(c, s, add(Max(ZERO, N, lambda i: d.at(i)), ONE)):
            r = c.call(s.o, "assignation_log_likelihood", *([] if own else [d]))
        w = c.get(s.o, "w")
        n = w.shape[0].count()
        c.true("extended", ge(n, add(Max(ZERO, N, lambda i: d.at(i)), ONE)))
        c.all("kept", (s.m,), lambda j: (w.at(j), s.w(j)))
        c.eq("log-likelihood", r, Sum(ZERO, N, lambda i: log_(w.at(d.at(i)))))
        c.all("assignments-unchanged", (N,), lambda i: (d.at(i), app("d", i, sort="I")))


def regs(variant):
    @contract("C08", q("BetaInBeta", "_structure_log_likelihood"), "BetaInBeta[%s]_structure_log_likelihood" % variant)
    def structure(c):
        """the density of the sticks and of a given value of the common parameter"""
        s = live(c, "BetaInBeta", variant)
        m = s.m
        own = c.fresh_bool("own")
        p = s.p
        if not own:
            p = c.real("pp", 0, 1)
            c.assume(and_(gt(p, ZERO), lt(p, ONE)))
        v = c.get(s.o, "v")
        r = c.call(s.o, "_structure_log_likelihood", **({} if own else {"p": p}))
        want = lbeta(p, s.A["a"], s.A["b"])
        if variant != "x=1":
            want = add(want, Sum(ZERO, m, lambda j: lbeta(s.v(j), *s.prior(j, p))))
        c.eq("log-density", r, want)
        c.eq("parameter-unchanged", c.get(s.o, "p"), s.p)
        c.arr_eq("sticks-unchanged", c.get(s.o, "v"), (m,), lambda j: s.v(j))


for _v in ["x=0", "x=1", "geometric"]:
    regs(_v)
for _n in ["DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaBinomial", "BetaBernoulli", "BetaInDirichlet"]:
    reg(_n)
for _v in ["x=0", "x=1", "geometric", "static", "independent"]:
    reg("BetaInBeta", _v)


def regf(name):
    @contract("C08", q(name, "weighting_log_likelihood"), name + "_weighting_log_likelihood")
    def weighting(c):
        s = Finite(c, name, fitted=False)
        r = c.call(s.o, "weighting_log_likelihood")
        if name != "DirichletDistribution" or not s.held:
            return c.eq("log-density", r, ZERO)
        K = s.K
        if c.mode == "con":
            c.assume(Forall(ZERO, K, lambda j: gt(s.w0(j), ZERO)))
        lg = lambda x: fapp("lgam", x)
        tot = Sum(ZERO, K, lambda j: s.al(j))
        want = add(sub(lg(tot), Sum(ZERO, K, lambda j: lg(s.al(j)))), Sum(ZERO, K, lambda j: mul(sub(s.al(j), ONE), log_(s.w0(j)))))
        c.eq("log-density", r, want)

    @contract("C08", q(name, "assignation_log_likelihood"), name + "_assignation_log_likelihood")
    def assignation(c):
        s = Finite(c, name, fitted=False)
        N = c.int("N", 1)
        d = c.arr("d", (N,), "I", 0, sub(s.K, ONE))
        if c.fresh_bool("own"):
            if name == "FrequencyWeighting":
                return
            c.call(s.o, "fit", d)
            c.start()
            r = c.call(s.o, "assignation_log_likelihood")
        else:
            r = c.call(s.o, "assignation_log_likelihood", d)
        w = c.get(s.o, "w")
        c.eq("size", w.shape[0].count(), s.K)
        if s.held:
            c.all("kept", (s.K,), lambda j: (w.at(j), s.w0(j) if name == "DirichletDistribution" else div(ONE, s.K)))
        c.eq("log-likelihood", r, Sum(ZERO, N, lambda i: log_(w.at(d.at(i)))))


for _n in ["DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]:
    regf(_n)
