"""Contracts of the finite weighting models and of the base class (C01-C08)."""
from .con import *
from .c_weights import cl, q, branch

FINITE = ["DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]


class Finite:
    """a finite model, unfitted or fitted to an arbitrary assignment vector, holding old weights or none"""

    def __init__(self, c, name, fitted=None, held=None):
        self.c, self.name = c, name
        K = self.K = c.int("K", 1)
        if name == "DirichletDistribution":
            kind = c.fresh_bool("vector-alpha")
            if kind:
                al = c.arr("al", (K,), lo=0)
                self.al = al.at
                self.o = c.new(cl(c, name), rng=None, n=K, alpha=al)
            else:
                a = c.real("alpha", 0)
                self.al = lambda j: a
                self.o = c.new(cl(c, name), rng=None, n=K, alpha=a)
        else:
            self.o = c.new(cl(c, name), rng=None, n=K)
        o = self.o
        # earlier history: weights drawn before, another vector fitted before
        if held is None:
            held = c.fresh_bool("held")
        self.held = held
        if held:
            if c.mode == "con":
                c.call(o, "random")
                c.queries(o)
                if c.rs.random() < 0.5:
                    c.call(o, "random")
                self.w0 = c.get(o, "w").at
            else:
                m = K
                w = c.arr("w0", (m,), lo=0, closed=True)
                self.wtot(w, m)
                c.set(o, w=w)
                self.w0 = w.at
        else:
            c.initial(o, "w")
        if fitted is None:
            fitted = c.fresh_bool("fitted")
        self.fitted = fitted
        if fitted:
            if c.fresh_bool("refit"):
                M2 = c.int("N0", 0)
                c.call(o, "fit", c.arr("dold", (M2,), "I", 0))
            self.N = c.int("N", 1)
            self.d = c.arr("d", (self.N,), "I", 0)
            c.call(o, "fit", self.d)
            d, N = self.d, self.N
            self.n = lambda j: Sum(ZERO, N, lambda i: ind(eq(d.at(i), tt(j))))
            self.top = Max(ZERO, N, lambda i: d.at(i))

    def wtot(self, w, m):
        c = self.c
        c.assume(eq(Sum(ZERO, m, lambda j: w.at(j)), ONE))


def total_one(c, o, label="weights"):
    w = c.get(o, "w")
    n = w.shape[0].count()
    c.all(label + ":range", (n,), lambda j: and_(ge(w.at(j), ZERO), le(w.at(j), ONE)))
    c.eq(label + ":total-one", Sum(ZERO, n, lambda j: w.at(j)), ONE)


def drawn(c, s, label="law"):
    """the weights held are a fresh draw of the model given the fitted vector"""
    w = c.get(s.o, "w")
    if s.name == "EqualWeighting" or s.name == "FrequencyWeighting" and not s.fitted:
        c.arr_eq(label, w, (s.K,), lambda j: div(ONE, s.K))
    elif s.name == "FrequencyWeighting":
        c.arr_eq(label, w, (add(s.top, ONE),), lambda j: div(s.n(j), s.N))
    else:
        c.eq(label + ":size", w.shape[0].count(), s.K)
        c.law(label, (s.K,), lambda j: w.at(j), "dirichlet", lambda j: {"alpha": add(s.al(j), s.n(j)) if s.fitted else s.al(j)})


def regf(name):
    @contract(["C01", "C04", "C05"], q(name, "random"), name + "_random")
    def random(c):
        s = Finite(c, name)
        if s.fitted and name == "DirichletDistribution":
            c.assume(lt(s.top, s.K))
        given = c.fresh_bool("given")
        n = c.int("size", 1) if given else None
        c.start()
        r = c.call(s.o, "random", n)
        w = c.get(s.o, "w")
        c.arr_eq("returned", r, (w.shape[0].count(),), lambda j: w.at(j))
        drawn(c, s)
        total_one(c, s.o)

    @contract(["C01", "C02", "C04"], q(name, "complete"), name + "_complete")
    def complete(c):
        s = Finite(c, name)
        if s.fitted and name == "DirichletDistribution":
            c.assume(lt(s.top, s.K))
        n = c.int("size", 1)
        c.start()
        r = c.call(s.o, "complete", n)
        w = c.get(s.o, "w")
        c.arr_eq("returned", r, (w.shape[0].count(),), lambda j: w.at(j))
        if s.held and name == "DirichletDistribution":
            c.arr_eq("kept", w, (s.K,), lambda j: s.w0(j))
            c.true("nothing-drawn", const(len(c.draws()) == 0))
        else:
            drawn(c, s)
        total_one(c, s.o)

    @contract(["C03", "C01"], q(name, "tail"), name + "_tail")
    def tail(c):
        s = Finite(c, name)
        if s.fitted and name == "DirichletDistribution":
            c.assume(lt(s.top, s.K))
        x = c.real("xx", 0, 1, True)
        c.assume(lt(x, ONE))
        c.start()
        r = c.call(s.o, "tail", x)
        w = c.get(s.o, "w")
        n = w.shape[0].count()
        c.arr_eq("returned", r, (n,), lambda j: w.at(j))
        c.true("covers", ge(Sum(ZERO, n, lambda j: w.at(j)), x))
        if s.held:
            c.arr_eq("kept", w, (s.K,), lambda j: s.w0(j))
        else:
            drawn(c, s)
        total_one(c, s.o)

    @contract("C03", q(name, "tail"), name + "_tail_range")
    def tail_range(c):
        s = Finite(c, name)
        x = c.real("xx", None, None)
        c.assume(or_(ge(x, ONE), lt(x, ZERO)))
        c.start()
        if c.raises("refused", lambda: c.call(s.o, "tail", x), "ValueError"):
            c.true("nothing-drawn", const(len(c.draws()) == 0))

    @contract("C06", q(name, "fit"), name + "_fit_frame")
    def fit_frame(c):
        s = Finite(c, name, fitted=True, held=True)
        N2 = c.int("N2", 0)
        d2 = c.arr("d2", (N2,), "I", 0)
        c.call(s.o, "fit", d2)
        c.arr_eq("fit-replaces", c.get(s.o, "d"), (N2,), lambda i: app("d2", i, sort="I"))
        c.arr_eq("fit-keeps-weights", c.get(s.o, "w"), (s.K,), lambda j: s.w0(j))
        c.all("caller-array", (N2,), lambda i: (d2.at(i), app("d2", i, sort="I")))
        c.call(s.o, "reset")
        c.eq("reset-clears", c.get(s.o, "d").shape[0].count(), ZERO)
        c.arr_eq("reset-keeps-weights", c.get(s.o, "w"), (s.K,), lambda j: s.w0(j))
        # and the next draw is a prior draw
        s.fitted = False
        c.start()
        c.call(s.o, "random")
        drawn(c, s, "after-reset")

    if name == "DirichletDistribution":
        @contract(["C06"], q(name, "random"), name + "_out_of_range")
        def out_of_range(c):
            s = Finite(c, name, fitted=True)
            c.assume(ge(s.top, s.K))
            c.raises("refused", lambda: c.call(s.o, "random"), "ValueError")


for _n in FINITE:
    regf(_n)
