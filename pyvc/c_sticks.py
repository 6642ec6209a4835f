"""Contracts of the weighting models: drawing, completing, fitting (C01-C08)."""
import ast
import contextlib
import numpy as np
from scipy.special import betaln
from .con import *
from .norm import Norm
from .c_weights import W, MODELS, cl, q, branch, VAR

INFINITE = ["DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaInBeta", "BetaBinomial", "BetaBernoulli", "BetaInDirichlet"]
FINITE = ["DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]


def stickw(v):
    """weights of the stick fractions v"""
    return lambda j: mul(v(j), Prod(ZERO, tt(j), lambda l: sub(ONE, v(l))))


class Sticks:
    """an infinite model in an arbitrary reachable state holding m weights"""

    def __init__(self, c, name, lo=0, m=None, variant=None):
        self.c, self.name, self.variant = c, name, variant
        A = self.A = {}
        kw = {}
        if name == "PitmanYorProcess":
            A["d"] = kw["pyd"] = c.real("pyd", 0, 1, True)
            c.assume(lt(A["d"], ONE))
            A["alpha"] = c.real("alpha", neg(A["d"]))
        else:
            A["alpha"] = c.real("alpha", 0)
        kw["alpha"] = A["alpha"]
        if name == "PitmanYorProcess":
            pass
        elif name == "GeometricProcess":
            A["a"], A["b"] = c.real("a", 0), c.real("b", 0)
            kw = {"a": A["a"], "b": A["b"]}
        elif name == "BetaInBeta":
            A["a"], A["b"] = kw["a"], kw["b"] = c.real("a", 0), c.real("b", 0)
            if variant == "x=1":
                A["x"] = kw["x"] = ONE
            elif variant == "x=0":
                A["x"] = kw["x"] = ZERO
                kw["p"] = c.real("p_given", 0, 1, True)
            else:
                A["x"] = kw["x"] = c.real("x", 0, 1)
                kw["p_method"] = variant or "geometric"
        elif name == "BetaBinomial":
            A["n"] = kw["n"] = c.int("n", 0)
        elif name == "BetaBernoulli":
            A["p"] = kw["p"] = c.real("p", 0, 1, True)
        elif name == "BetaInDirichlet":
            A["c"] = kw["a"] = c.real("conc", 0, None, True)
        self.o = o = c.new(cl(c, name), rng=None, **kw)
        self.m = c.int("m", lo)
        self.make()

    def make(self):
        """put the object in an arbitrary state (concretely: reach one by public calls)"""
        c, o, m = self.c, self.o, self.m
        if c.mode == "con":
            k = int(c.ev(m))
            c.history(o, k)
            if len(o.o.w) != k:
                c.val.vars["m"] = c.inputs["m"] = len(o.o.w)
            if hasattr(o.o, "v") and len(o.o.v) != len(o.o.w):
                raise NoValue("state")
        n = self.name
        if n in ("GeometricProcess", "BetaInBeta"):
            if c.mode == "con":
                self.p = c.get(o, "p")
            else:
                self.p = c.real("p0", 0, 1, True)
                c.set(o, p=self.p)
        if n == "GeometricProcess" or n == "BetaInBeta" and self.variant == "x=1":
            if c.mode == "sym":
                c.set(o, v=c.arrf((m,), lambda j: self.p))
            self.v = lambda j: self.p
        else:
            self.varr = c.state(o, "v", "v", (m,), lo=0, hi=1, closed=True)
            self.v = lambda j: app("v", tt(j))
        self.w = stickw(self.v)
        if c.mode == "sym":
            c.set(o, w=c.arrf((m,), self.w))
        if n == "BetaBinomial":
            # the binomial preceding each stick
            self.lat = c.state(o, "binomials", "bin", (m,), "I", 0, self.A["n"])
        if n == "BetaBernoulli":
            # 1 where the stick starts a new value
            L = branch(c, ge(m, ONE), lambda: m, lambda: ONE)
            self.lat = c.state(o, "bernoullis", "bern", (L,), "I", 0, 1)

    def stick_law(self, b):
        """Beta-binomial: law of the stick that follows the binomial b"""
        A = self.A
        return {"a": add(ONE, b), "b": sub(add(A["alpha"], A["n"]), b)}

    def prior(self, j, p=None):
        """prior Beta parameters of stick j (from 0)"""
        A, n = self.A, self.name
        if n in ("DirichletProcess", "BetaInDirichlet", "BetaBernoulli"):
            return ONE, A["alpha"]
        if n == "PitmanYorProcess":
            return sub(ONE, A["d"]), add(A["alpha"], mul(add(tt(j), ONE), A["d"]))
        if n == "BetaInBeta":
            p = self.p if p is None else p
            r = div(A["x"], sub(ONE, A["x"])) if A["x"] is not ZERO else ZERO
            return add(ONE, mul(r, p)), add(A["alpha"], mul(r, sub(ONE, p)))
        raise KeyError(n)

    def fit(self):
        """fit an arbitrary assignment vector; n(j), mm(j): counts at and above j; L = max + 1"""
        c = self.c
        self.N = c.int("N", 1)
        self.d = c.arr("d", (self.N,), "I", 0)
        d, N = self.d, self.N
        c.call(self.o, "fit", d)
        self.n = lambda j: Sum(ZERO, N, lambda i: ind(eq(d.at(i), tt(j))))
        self.mm = lambda j: Sum(ZERO, N, lambda i: ind(gt(d.at(i), tt(j))))
        self.L = add(Max(ZERO, N, lambda i: d.at(i)), ONE)
        self.sumd = Sum(ZERO, N, lambda i: d.at(i))


def state(c, name, variant=None):
    return Urn(c) if name == "BetaInDirichlet" else Sticks(c, name, variant=variant)


def sticks_ok(c, o, label="weights"):
    """the weights are the sticks' own products and a sub-probability vector"""
    w, v = c.get(o, "w", sealed=True), c.get(o, "v", sealed=True)
    n = w.shape[0].count()
    c.eq(label + ":as-many-sticks", v.shape[0].count(), n)
    c.all(label + ":fractions", (n,), lambda j: and_(ge(v.at(j), ZERO), le(v.at(j), ONE)))
    c.all(label + ":stick-products", (n,), lambda j: (w.at(j), mul(v.at(j), sub(ONE, Sum(ZERO, tt(j), lambda l: w.at(l))))))
    c.all(label + ":range", (n,), lambda j: and_(ge(w.at(j), ZERO), le(w.at(j), ONE)))
    k = c.int("k", 0, n)
    c.true(label + ":total", le(Sum(ZERO, k, lambda l: w.at(l)), ONE))


def prior_law(c, s, v, lo, n, d0=None):
    """sticks lo..n-1 of v are fresh with the prior law"""
    name = s.name
    c.law("prior-law", (n,), lambda j: v.at(j), "beta", lambda j: dict(zip("ab", s.prior(j))), when=lambda j: ge(j, lo))


def reg(name, variant=None):
    tag = name + ("" if variant is None else "[%s]" % variant)
    plain = name in ("DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaInBeta")

    @contract(["C04", "C01"], q(name, "random"), tag + "_random_prior")
    def random_prior(c):
        s = state(c, name, variant)
        n = c.int("size", 1)
        c.start()
        if name == "BetaBernoulli":
            c.seal(s.o, "v", 0, 1)
        with loop(c, s, n):
            r = c.call(s.o, "random", n)
        v, w = c.get(s.o, "v"), c.get(s.o, "w")
        c.eq("size", w.shape[0].count(), n)
        c.arr_eq("returned", r, (n,), lambda j: w.at(j))
        laws(c, s, v, ZERO, n, fitted=False, fresh=True)
        sticks_ok(c, s.o)

    @contract(["C02", "C04", "C01"], q(name, "complete"), tag + "_complete")
    def complete(c):
        s = state(c, name, variant)
        m = s.m
        n = c.int("size", 1)
        before = c.get(s.o, "p") if name in ("GeometricProcess", "BetaInBeta") else None
        c.start()
        if name == "BetaBernoulli":
            c.seal(s.o, "v", 0, 1)
        with loop(c, s, n):
            r = c.call(s.o, "complete", n)
        v, w = c.get(s.o, "v"), c.get(s.o, "w")
        full = branch(c, ge(m, n), lambda: m, lambda: n)
        c.eq("size", w.shape[0].count(), full)
        c.arr_eq("returned", r, (full,), lambda j: w.at(j))
        c.all("kept-weights", (m,), lambda j: (w.at(j), s.w(j)))
        c.all("kept-sticks", (m,), lambda j: (v.at(j), s.v(j)))
        fresh = branch(c, ge(m, ONE), lambda: False, lambda: True)
        if before is not None and not fresh:
            c.eq("kept-shared", c.get(s.o, "p"), before)
        laws(c, s, v, m, full, fitted=False, fresh=fresh)
        sticks_ok(c, s.o)

    @contract("C02", q(name, "complete"), tag + "_complete_type")
    def complete_type(c):
        s = state(c, name, variant)
        w0 = c.get(s.o, "w")
        for k, bad in enumerate(("real", "str")):
            x = c.real("badsize", 0, 9) if bad == "real" else "3"
            if c.raises("refused-" + bad, lambda: c.call(s.o, "complete", x), "TypeError"):
                w = c.get(s.o, "w")
                c.arr_eq("unchanged-" + bad, w, (s.m,), lambda j: s.w(j))

    def random_posterior(c):
        s = state(c, name, variant)
        s.fit()
        L = s.L
        n = c.int("size", 1)
        if name == "BetaBernoulli":
            assume_bernoullis(c, s.o)
        c.start()
        given = c.fresh_bool("given")
        n = n if given else None
        s.fitted, s.given = True, given
        if name == "BetaBernoulli":
            c.seal(s.o, "v", 0, 1)
        if name == "BetaInDirichlet":
            c.named_picks()
        sweep = c.counting(UrnSweep(s, L), UrnSweep.which) if name == "BetaInDirichlet" else contextlib.nullcontext()
        old = np.array(s.o.o._d_base) if c.mode == "con" and name == "BetaInDirichlet" else None
        with loop(c, s, n), sweep:
            r = c.call(s.o, "random", n) if given else c.call(s.o, "random")
        if old is not None:
            urn_replay(c, s, old)
        v, w = c.get(s.o, "v"), c.get(s.o, "w")
        cnt = w.shape[0].count()
        c.arr_eq("returned", r, (cnt,), lambda j: w.at(j))
        c.true("size:at-least-requested", ge(cnt, n) if given else ge(cnt, L))
        if given:
            c.true("size:data-or-requested", or_(ge(cnt, L), eq(cnt, n)))
        laws(c, s, v, ZERO, cnt, fitted=True, fresh=True)
        sticks_ok(c, s.o)

    contract(["C05", "C01"], q(name, "random"), tag + "_random_posterior")(random_posterior)

    @contract("C06", q(name, "fit"), tag + "_fit_frame")
    def fit_frame(c):
        s = state(c, name, variant)
        s.fit()
        N2 = c.int("N2", 0)
        d2 = c.arr("d2", (N2,), "I", 0)
        c.call(s.o, "fit", d2)
        got = c.get(s.o, "d")
        c.arr_eq("fit-replaces", got, (N2,), lambda i: app("d2", i, sort="I"))
        c.arr_eq("fit-keeps-weights", c.get(s.o, "w"), (s.m,), lambda j: s.w(j))
        c.all("caller-array", (N2,), lambda i: (d2.at(i), app("d2", i, sort="I")))
        c.call(s.o, "reset")
        c.eq("reset-clears", c.get(s.o, "d").shape[0].count(), ZERO)
        c.arr_eq("reset-keeps-weights", c.get(s.o, "w"), (s.m,), lambda j: s.w(j))
        c.raises("unfitted-needs-size", lambda: c.call(s.o, "random"), "ValueError")

    @contract("C03", q(name, "tail"), tag + "_tail_range")
    def tail_range(c):
        s = state(c, name, variant)
        x = c.real("xx", None, None)
        c.assume(or_(ge(x, ONE), lt(x, ZERO)))
        c.start()
        if c.raises("refused", lambda: c.call(s.o, "tail", x), "ValueError"):
            c.true("nothing-drawn", const(len(c.draws()) == 0))
            c.arr_eq("unchanged", c.get(s.o, "w"), (s.m,), lambda j: s.w(j))

    @contract(["C03", "C01"], q(name, "tail"), tag + "_tail")
    def tail(c):
        s = state(c, name, variant)
        x = c.real("xx", 0, 1, True)
        c.assume(lt(x, ONE))
        inv = UrnTailInv(s) if name == "BetaInDirichlet" else TailInv(s, law=name not in LATENT)
        c.start()
        with c.invariant(inv):
            r = c.call(s.o, "tail", x)
        w = c.get(s.o, "w")
        n = w.shape[0].count()
        c.arr_eq("returned", r, (n,), lambda j: w.at(j))
        c.true("covers", ge(Sum(ZERO, n, lambda j: w.at(j)), x))
        c.true("kept-size", ge(n, s.m))
        c.all("kept", (s.m,), lambda j: (w.at(j), s.w(j)))
        v = c.get(s.o, "v")
        c.all("kept-sticks", (s.m,), lambda j: (v.at(j), s.v(j)))
        fresh = branch(c, ge(s.m, ONE), lambda: False, lambda: True)
        if getattr(inv, "law", False):
            laws(c, s, v, s.m, n, fitted=False, fresh=fresh)
        sticks_ok(c, s.o)

    if name == "BetaBinomial":
        @contract("C04", q(name, "tail"), tag + "_tail_law")
        def tail_law(c):
            s = state(c, name, variant)
            x = c.real("xx", 0, 1, True)
            c.assume(lt(x, ONE))
            c.start()
            with c.invariant(TailInv(s, weights=False)):
                c.call(s.o, "tail", x)
            v = c.get(s.o, "v")
            n = v.shape[0].count()
            c.all("kept-sticks", (s.m,), lambda j: (v.at(j), s.v(j)))
            laws(c, s, v, s.m, n, fitted=False, fresh=branch(c, ge(s.m, ONE), lambda: False, lambda: True))


def urn_replay(c, s, old):
    """concrete reading of UrnSweep: the update recomputed from the variates the generator handed out"""
    L = int(c.ev(s.L))
    d = np.array([int(c.ev(s.d.at(const(i)))) for i in range(int(c.ev(s.N)))])
    a, alpha = float(c.ev(s.a)), float(c.ev(s.alpha))
    n = np.array([(d == j).sum() for j in range(L)])
    m = np.array([(d > j).sum() for j in range(L)])
    log = list(c.draws())

    def variate(label, p, q):
        if not log or log[0].kind != "beta" or np.size(log[0].value) != 1:
            raise NoValue("variates drawn in another pattern")
        x = log.pop(0)
        got = [float(np.ravel(x.params[k])[0]) for k in "ab"]
        if not np.allclose(got, [p, q], rtol=1e-9, atol=1e-12):
            c.bad(label, "drawn with %s, expected %s" % (got, [p, q]))
        return float(np.ravel(x.value)[0])
    ties = [int(old[j]) if j < len(old) else 0 for j in range(L)]
    v = []
    for j in range(max(ties) + 1):
        at = [q for q in range(L) if ties[q] == j]
        v.append(variate("sweep-entry:values", 1 + sum(n[q] for q in at), alpha + sum(m[q] for q in at)))
    for i in range(L):
        if a == 0:
            ties[i] = 0
            continue
        others = [t for q, t in enumerate(ties) if q != i]
        if not log or log[0].kind != "uniform" or np.ndim(log[0].value) != 1:
            raise NoValue("variates drawn in another pattern")
        u = log.pop(0).value
        lw, new = [], False
        for j in range(len(u)):
            k = others.count(j)
            if k:
                with np.errstate(all="ignore"):
                    lw.append(np.log(k) + n[i] * np.log(v[j]) + m[i] * np.log(1 - v[j]))
            elif not new:
                new = True
                lw.append(np.log(a) + np.log(alpha) + betaln(1 + n[i], alpha + m[i]))
            else:
                lw.append(-np.inf)
        if not new or others and max(others) >= len(u):
            c.bad("sweep:choice:candidates", "%d candidates for the value of stick %d, the others carry %s" % (len(u), i, others))
        g = np.array(lw) - np.log(-np.log(u))
        if np.isnan(g).any() or len(g) > 1 and np.diff(np.sort(g))[-1] < 1e-6:
            raise NoValue("near tie")
        t = ties[i] = int(np.argmax(g))
        if t not in others:
            if not log or log[0].kind == "uniform" and np.ndim(log[0].value) == 1:
                c.bad("sweep:own-value", "no variate is drawn for the new value of stick %d" % i)
            x = variate("sweep:own-value", 1 + n[i], alpha + m[i])
            v[t:t + 1] = [x]
    got = np.asarray(s.o.o._d_base)[:L].tolist()
    c.checked += 1
    if got != ties:
        c.bad("sweep:choice", "sticks carry values %s, expected %s" % (got, ties))
    if not np.array_equal(np.asarray(s.o.o.v)[:L], [v[t] for t in ties]):
        c.bad("sweep:values", "sticks %s, expected %s" % (s.o.o.v[:L], [v[t] for t in ties]))


def laws(c, s, v, lo, n, fitted, fresh, label="law"):
    """law of the sticks lo..n-1; fresh: the shared latent variables were redrawn too"""
    name, A = s.name, s.A
    o = s.o
    if name == "BetaInDirichlet":
        # the law of every single step is an invariant of the loops (UrnInv, UrnSweep)
        if c.mode == "sym":
            m, k, db, vb, cnt, v, nc = s.read()
            c.all(label + ":tied", (m,), lambda j: (v.at(j), vb.at(db.at(j))))
            if fitted:
                s.carried(c, label + ":carried") if not s.given else None
                c.all(label + ":fractions", (m,), lambda j: and_(ge(v.at(j), ZERO), le(v.at(j), ONE)))
        return
    if name in ("DirichletProcess", "PitmanYorProcess"):
        def par(j):
            a, b = s.prior(j)
            if fitted:
                a, b = add(a, s.n(j)), add(b, s.mm(j))
            return {"a": a, "b": b}
        c.law(label, (n,), lambda j: v.at(j), "beta", par, when=lambda j: ge(j, lo))
        return
    if name == "BetaBinomial":
        b = c.get(o, "binomials")
        if fitted:
            lo = binomial_posterior(c, s, v, b, n)
        c.law(label, (n,), lambda j: v.at(j), "beta", lambda j: s.stick_law(b.at(j)), when=lambda j: ge(j, lo))
        latent_law(c, s, lo, n, fresh and not fitted, "latent" if label == "law" else label + "-latent")
        return
    if name == "BetaBernoulli":
        b = c.get(o, "bernoullis")
        if fitted:
            lo = bernoulli_posterior(c, s, v, b, n)
        # each change starts a value of its own, and so does the first stick
        starts = lambda j: or_(eq(b.at(j), ONE), eq(j, ZERO)) if fresh and not fitted else eq(b.at(j), ONE)
        c.law(label, (n,), lambda j: v.at(j), "beta", lambda j: {"a": ONE, "b": A["alpha"]}, when=lambda j: and_(ge(j, lo), starts(j)))
        latent_law(c, s, lo, n, fresh and not fitted, "latent" if label == "law" else label + "-latent")
        return
    if name == "GeometricProcess" or name == "BetaInBeta" and s.variant == "x=1":
        p = c.get(o, "p")
        c.all("one-common-value", (n,), lambda j: (v.at(j), p))
        if name == "GeometricProcess" and not any(True for _ in c.draws()):
            # completing keeps the realisation's p
            c.eq("p-kept", p, s.p)
            return
        if fresh:
            a, b = A["a"], A["b"]
            if fitted:
                a, b = add(a, s.N), add(b, s.sumd)
            c.law("law", (1,), lambda j: p, "beta", lambda j: {"a": a, "b": b})
        return
    if name == "BetaInBeta":
        p = c.get(o, "p")

        def par(j):
            a, b = s.prior(j, p)
            if fitted:
                a, b = add(a, s.n(j)), add(b, s.mm(j))
            return {"a": a, "b": b}
        c.law(label, (n,), lambda j: v.at(j), "beta", par, when=lambda j: ge(j, lo))
        if not fresh:
            return
        if s.variant == "x=0":
            return
        if fitted and s.variant == "static":
            return
        if fitted and s.variant == "geometric":
            c.law("p-law", (1,), lambda j: p, "beta", lambda j: {"a": add(A["a"], s.N), "b": add(A["b"], s.sumd)})
        else:
            c.law("p-law", (1,), lambda j: p, "beta", lambda j: {"a": A["a"], "b": A["b"]})
        return


LATENT = {"BetaBinomial": "binomials", "BetaBernoulli": "bernoullis"}


def loop(c, s, size=None):
    """the loop of complete, where the model has one"""
    if s.name == "BetaBinomial":
        return c.invariant(ChainInv(s, size))
    return c.invariant(UrnInv(s, size)) if s.name == "BetaInDirichlet" else contextlib.nullcontext()


def latent_law(c, s, lo, n, fresh, label="latent"):
    """law of the latent variables of the sticks lo..n-1 that follow the prior"""
    A, name = s.A, s.name
    v, b = c.get(s.o, "v"), c.get(s.o, LATENT[name])
    c.eq(label + ":as-many", b.shape[0].count(), v.shape[0].count())
    if name == "BetaBinomial":
        c.law(label, (n,), lambda j: b.at(j), "binomial", lambda j: {"n": A["n"], "p": v.at(sub(j, ONE))}, when=lambda j: and_(ge(j, lo), ge(j, ONE)))
        if fresh:
            c.law(label + ":first", (1,), lambda j: b.at(j), "binomial", lambda j: {"n": A["n"], "p": ("beta", {"a": ONE, "b": A["alpha"]})})
    else:
        c.law(label, (n,), lambda j: b.at(j), "binomial", lambda j: {"n": ONE, "p": A["p"]}, when=lambda j: and_(ge(j, lo), ge(j, ONE)))
        c.all(label + ":tied", (n,), lambda j: or_(not_(and_(ge(j, lo), ge(j, ONE), eq(b.at(j), ZERO))), eq(v.at(j), v.at(sub(j, ONE)))))


def binomial_posterior(c, s, v, b, n):
    """the sticks of the data given the binomials around them (the last one's right-hand binomial is
    not kept); returns the first stick beyond the data"""
    A, L = s.A, s.L
    nn = A["n"]
    last = sub(L, ONE)
    c.true("posterior:size", ge(n, L))
    c.true("posterior:latent-size", ge(b.shape[0].count(), L))
    c.law("posterior", (L,), lambda j: v.at(j), "beta", lambda j: {
        "a": add(add(ONE, s.n(j)), add(b.at(j), b.at(add(j, ONE)))),
        "b": sub(add(add(A["alpha"], s.mm(j)), mul(const(2), nn)), add(b.at(j), b.at(add(j, ONE))))}, when=lambda j: lt(j, last))
    lo = add(add(ONE, s.n(last)), b.at(last))
    tot = add(add(add(ONE, A["alpha"]), add(s.n(last), s.mm(last))), mul(const(2), nn))
    c.law("posterior:last", (1,), lambda j: v.at(last), "beta", lambda j: {"a": lambda a: and_(ge(a, lo), le(a, add(lo, nn))), "b": lambda x: and_(ge(x, sub(tot, add(lo, nn))), le(x, sub(tot, lo)))})
    c.law("posterior:latent", (L,), lambda j: b.at(j), "binomial", lambda j: {"n": nn, "p": ("beta", {"a": add(ONE, s.n(sub(j, ONE))), "b": add(A["alpha"], s.mm(sub(j, ONE)))})}, when=lambda j: ge(j, ONE))
    c.law("posterior:latent-first", (1,), lambda j: b.at(j), "binomial", lambda j: {"n": nn, "p": ("beta", {"a": ONE, "b": A["alpha"]})})
    return L


def assume_bernoullis(c, o):
    """assumed contract of the Gibbs sweep over the change indicators (its loops carry the neighbours
    of each position): a fresh 0/1 vector of the requested length"""
    def sweep(size):
        b = c.arr("sweep", (tt(size),), "I", 0, 1)
        c.set(o, bernoullis=b)
        return b
    c.assumed(o, "_random_bernoullis", sweep)


def sweep_law(s):
    """full conditional of the change indicator j given the other ones: the sticks s..j-1 are tied to the one
    before j and j..e-1 to j; (probability of a change, where the floats do not clip)"""
    A = s.A
    bl = lambda x, y: sub(add(fapp("lgam", x), fapp("lgam", y)), fapp("lgam", add(x, y)))
    pool = lambda lo, hi: bl(add(ONE, Sum(lo, hi, s.n)), add(A["alpha"], Sum(lo, hi, s.mm)))

    def law(j, lo, hi):
        x = sub(sub(pool(lo, hi), add(pool(lo, j), pool(j, hi))), log_(A["alpha"]))
        return div(A["p"], add(A["p"], mul(sub(ONE, A["p"]), exp_(x)))), [ge(x, const(-700)), le(x, const(700))]
    return law


@contract(["C05", "C01"], q("BetaBernoulli", "_random_bernoullis"), "BetaBernoulli_sweep")
def bernoulli_sweep(c):
    s = state(c, "BetaBernoulli")
    s.fit()
    c.start()
    r = c.call(s.o, "_random_bernoullis", s.L)
    b = c.get(s.o, "bernoullis")
    c.arr_eq("returned", r, (s.L,), lambda j: b.at(j))
    c.eq("size", b.shape[0].count(), s.L)
    c.all("indicators", (s.L,), lambda j: or_(eq(b.at(j), ZERO), eq(b.at(j), ONE)))
    c.eq("first-is-tied-to-nothing", b.at(ZERO), ZERO)
    c.sweep("full-conditional", b, s.L, sweep_law(s))


def bernoulli_posterior(c, s, v, b, n):
    """the sticks of the data: sticks tied to one value pool their counts"""
    A, L = s.A, s.L
    c.true("posterior:size", ge(n, L))
    if c.mode == "con":
        c.sweep("posterior:indicators", b, L, sweep_law(s))
    C = lambda j: Sum(ZERO, add(tt(j), ONE), lambda l: b.at(l))
    pool = lambda j, f: Sum(ZERO, L, lambda l: mul(ind(eq(C(l), C(j))), f(l)))
    c.law("posterior", (L,), lambda j: v.at(j), "beta", lambda j: {"a": add(ONE, pool(j, s.n)), "b": add(A["alpha"], pool(j, s.mm))}, injective=False)
    c.all("posterior:tied", (L,), lambda j: or_(not_(and_(ge(j, ONE), eq(b.at(j), ZERO))), eq(v.at(j), v.at(sub(j, ONE)))))
    c.law("posterior:own-value", (L,), lambda j: v.at(j), "beta", lambda j: {}, when=lambda j: or_(eq(j, ZERO), eq(b.at(j), ONE)))
    return L


def chain(c, s, n, n0, v0, b0, law=True):
    """put the model in the state that keeps the n0 sticks v0 with their latent variables b0 and holds
    n sticks, the further ones drawn from the prior (without `law`: any fractions)"""
    m, A, ids = c.m, s.A, {}
    if not law:
        k = m.ident("chain")
        hv = lambda j: app("hv!%d" % k, tt(j))
        hb = lambda j: app("hb!%d" % k, tt(j), sort="I")
        m.assume(Forall(ZERO, n0, lambda j: eq(hv(j), v0(j))))
        m.assume(Forall(ZERO, n0, lambda j: eq(hb(j), b0(j))))
        m.assume(Forall(ZERO, n, lambda j: and_(ge(hv(j), ZERO), le(hv(j), ONE))))
        vh, bh = hv, hb
        c.set(s.o, **{"v": c.arrf((n,), vh), LATENT[s.name]: c.arrf((n,), bh, "I")})
        return vh, bh

    def vh(j):
        return ite(lt(j, n0), v0(j), app("draw", const(ids["v"].id), *(ids["v"].loop + (sub(j, n0),))))

    def bh(j):
        return ite(lt(j, n0), b0(j), app("draw", const(ids["b"].id), *(ids["b"].loop + (sub(j, n0),)), sort="I"))
    more = (dim(sub(n, n0)),)
    ids["b"] = m.add_draw("binomial", lambda j: {"n": tt(A["n"]), "p": vh(sub(add(tt(j), n0), ONE))}, more, None, "specification")
    ids["v"] = m.add_draw("beta", lambda j: s.stick_law(bh(add(tt(j), n0))), more, None, "specification")
    c.set(s.o, **{"v": c.arrf((n,), vh), LATENT[s.name]: c.arrf((n,), bh, "I")})
    return vh, bh


class ChainInv:
    """invariant of the loop of complete where each stick depends on the one before it: what was
    there at loop entry is kept, the further sticks and their latent variables follow the prior"""

    def __init__(self, s, size=None, law=True):
        self.s, self.size, self.law = s, size, law

    def entry(self, c):
        s, o = self.s, self.s.o
        v, b = c.get(o, "v"), c.get(o, LATENT[s.name])
        self.n0, self.v0, self.b0 = v.shape[0].count(), v.snap(), b.snap()
        c.eq("loop-entry:as-many", b.shape[0].count(), self.n0)
        c.true("loop-entry:nonempty", ge(self.n0, ONE))

    def havoc(self, c):
        s, o, m, A = self.s, self.s.o, c.m, self.s.A
        self.n = n = var("loopn!%d" % m.ident("loopn"), "I")
        n0, v0, b0 = self.n0, self.v0, self.b0
        m.assume(ge(n, n0))
        if self.size is not None:
            m.assume(or_(eq(n, n0), le(n, self.size)))
        vh, bh = chain(c, s, n, n0, v0, b0, self.law)
        self.vh, self.bh = vh, bh

    def writes(self, c):
        a = self.s.o.attrs
        return [(a, "v"), (a, LATENT[self.s.name])]

    def step(self, c):
        s, o = self.s, self.s.o
        v, b = c.get(o, "v"), c.get(o, LATENT[s.name])
        n2 = v.shape[0].count()
        c.true("loop:size", gt(n2, self.n))
        if self.size is not None:
            c.true("loop:not-beyond", le(n2, self.size))
        c.all("loop:kept", (self.n,), lambda j: (v.at(j), self.vh(j)))
        c.all("loop:kept-latent", (self.n,), lambda j: (b.at(j), self.bh(j)))
        if self.law:
            laws(c, s, v, self.n, n2, fitted=False, fresh=False, label="loop:law")
        else:
            c.all("loop:fractions", (n2,), lambda j: and_(ge(v.at(j), ZERO), le(v.at(j), ONE)))


class TailInv:
    """invariant of the loop of tail: the sticks of loop entry are kept, the further ones are
    independent draws from the prior (or repeat the common p), the weights are the stick products"""

    def __init__(self, s, law=True, weights=True):
        self.s, self.law, self.weights = s, law, weights
        self.inner = (lambda: ChainInv(s, law=law)) if s.name == "BetaBinomial" else None
        self.common = s.name == "GeometricProcess" or s.name == "BetaInBeta" and s.variant == "x=1"

    def entry(self, c):
        o = self.s.o
        v = c.get(o, "v")
        self.n0, self.v0 = v.shape[0].count(), v.snap()
        if self.common:
            self.p = c.get(o, "p")
            c.all("loop-entry:common", (self.n0,), lambda j: (self.v0(j), self.p))
        if self.weights:
            sticks_ok(c, o, "loop-entry:weights")
        c.true("loop-entry:nonempty", ge(self.n0, ONE))
        self.pn = c.get(o, "p") if self.s.name in ("GeometricProcess", "BetaInBeta") else None
        if self.s.name in LATENT:
            b = c.get(o, LATENT[self.s.name])
            self.b0 = b.snap()
            c.eq("loop-entry:as-many-latent", b.shape[0].count(), self.n0)

    def havoc(self, c):
        s, o, m = self.s, self.s.o, c.m
        self.n = n = var("loopn!%d" % m.ident("loopn"), "I")
        m.assume(ge(n, self.n0))
        if self.common:
            f = lambda j: self.p
        elif s.name in LATENT:
            f, self.bh = chain(c, s, n, self.n0, self.v0, self.b0, self.law)
        else:
            q = self.pn
            d = m.add_draw("beta", lambda j: dict(zip("ab", s.prior(add(tt(j), self.n0), q))), (dim(sub(n, self.n0)),), None, "specification")
            f = lambda j: ite(lt(j, self.n0), self.v0(j), app("draw", const(d.id), *(d.loop + (sub(j, self.n0),))))
        self.vh = f
        v = c.arrf((n,), f)
        c.set(o, v=v, w=c.arrf((n,), stickw(f)))

    def writes(self, c):
        a = self.s.o.attrs
        return [(a, "v"), (a, "w")] + ([(a, LATENT[self.s.name])] if self.s.name in LATENT else [])

    def step(self, c):
        s, o = self.s, self.s.o
        v, w = c.get(o, "v"), c.get(o, "w")
        n2 = v.shape[0].count()
        c.true("loop:size", ge(n2, self.n))
        c.all("loop:kept", (self.n,), lambda j: (v.at(j), self.vh(j)))
        if s.name in LATENT:
            b = c.get(o, LATENT[s.name])
            c.all("loop:kept-latent", (self.n,), lambda j: (b.at(j), self.bh(j)))
        if self.law:
            laws(c, s, v, self.n, n2, fitted=False, fresh=False, label="loop:law")
        if self.weights:
            sticks_ok(c, o, "loop:weights")


# Beta-in-Dirichlet: sticks are values of an urn (Blackwell-MacQueen) over Beta(1, alpha)
class Urn(Sticks):
    """an arbitrary reachable state: m sticks, each one of the k distinct values; cnt(i): how many
    sticks carry value i (a value may be carried by none)"""

    def __init__(self, c):
        self.c, self.name, self.variant, self.A = c, "BetaInDirichlet", None, {}
        self.fitted = False
        self.a, self.alpha = c.real("conc", 0, None, True), c.real("alpha", 0)
        self.o = o = c.new(cl(c, "BetaInDirichlet"), rng=None, a=self.a, alpha=self.alpha)
        self.m = m = c.int("m", 0)
        if c.mode == "con":
            k = int(c.ev(m))
            c.history(o, k)
            if len(o.o.w) != k:
                c.val.vars["m"] = c.inputs["m"] = len(o.o.w)
            if len(getattr(o.o, "v", ())) != len(o.o.w):
                raise NoValue("state")
            self.varr = c.state(o, "v", "v", (m,), lo=0, hi=1, closed=True)
            self.v = lambda j: app("v", tt(j))
        else:
            self.k = k = c.int("k", 0)
            c.assume(or_(and_(eq(m, ZERO), eq(k, ZERO)), ge(k, ONE)))
            self.put(m, k, *self.fns("", m, k))
            self.v = lambda j: app("vb", app("db", tt(j), sort="I"))
        self.w = stickw(self.v)
        if c.mode == "sym":
            c.set(o, w=c.arrf((m,), self.w))

    def fns(self, tag, m, k):
        """value numbers, values and counts"""
        M = self.c.m
        db, vb, cnt = [(lambda n, so: lambda j: app(n + tag, tt(j), sort=so))(n, so) for n, so in (("db", "I"), ("vb", "R"), ("cnt", "I"))]
        self.facts(m, k, db, vb, cnt, M.assume)
        return db, vb, cnt

    def facts(self, m, k, db, vb, cnt, say):
        say(Forall(ZERO, m, lambda j: and_(ge(db(j), ZERO), lt(db(j), k))))
        say(Forall(ZERO, k, lambda i: and_(ge(vb(i), ZERO), le(vb(i), ONE))))
        say(Forall(ZERO, k, lambda i: ge(cnt(i), ZERO)))

    def put(self, m, k, db, vb, cnt):
        c, o = self.c, self.o
        c.guard(isinstance(c.peek(o, "_count_base"), PyList) and all(isinstance(c.peek(o, x), Arr) and c.peek(o, x).ndim == 1 for x in ("v", "_v_base", "_d_base")), "another representation of the urn")
        self.counts = PyList(interp.SymList(k, lambda i: cnt(i)))
        c.set(o, v=c.arrf((m,), lambda j: vb(db(j))), _v_base=c.arrf((k,), vb), _d_base=c.arrf((m,), db, "I"), _count_base=self.counts)

    def carried(self, c, label):
        """the counts are the numbers of sticks that carry the values"""
        n, k, db, vb, cnt, v, nc = self.read()
        c.all(label, (k,), lambda i: (cnt(i), Sum(ZERO, n, lambda j: ind(eq(db.at(j), tt(i))))))

    def read(self):
        """(m, k, db, vb, cnt, v) of the object now"""
        c, o = self.c, self.o
        v, vb, db, cl_ = (c.get(o, x) for x in ("v", "_v_base", "_d_base", "_count_base"))
        n = c.length(cl_)
        cnt = lambda i: tt(c.entry(cl_, i))
        return v.shape[0].count(), vb.shape[0].count(), db, vb, cnt, v, n


class UrnInv:
    """invariant of the loop of complete: every stick so far carries one of the values, earlier sticks and
    values are kept.  Every iteration: the next stick takes value i with probability proportional to the
    number of sticks that carry it, and with probability proportional to a a new Beta(1, alpha) value"""

    def __init__(self, s, size=None):
        self.s, self.size = s, size

    def entry(self, c):
        s = self.s
        n, k, db, vb, cnt, v, nc = s.read()
        self.n0, self.k0, self.db0, self.vb0 = n, k, db.snap(), vb.snap()
        self.check(c, "loop-entry", n, k, db, vb, cnt, v, nc)
        c.true("loop-entry:some-value", ge(k, ONE))
        if s.fitted:
            self.s.carried(c, "loop-entry:carried")
        if k is ONE:
            c.law("loop-entry:first-value", (1,), lambda i: vb.at(i), "beta", lambda i: {"a": ONE, "b": s.alpha})

    def check(self, c, label, n, k, db, vb, cnt, v, nc):
        c.eq(label + ":counts", nc, k)
        c.eq(label + ":numbers", db.shape[0].count(), n)
        c.all(label + ":number-range", (n,), lambda j: and_(ge(db.at(j), ZERO), lt(db.at(j), k)))
        c.all(label + ":fractions", (k,), lambda i: and_(ge(vb.at(i), ZERO), le(vb.at(i), ONE)))
        c.all(label + ":count-range", (k,), lambda i: ge(cnt(i), ZERO))
        c.all(label + ":tied", (n,), lambda j: (v.at(j), vb.at(db.at(j))))

    def havoc(self, c):
        s, m = self.s, c.m
        t = m.ident("urn")
        self.n = n = var("urnn!%d" % t, "I")
        self.k = k = var("urnk!%d" % t, "I")
        m.assume(ge(n, self.n0))
        if self.size is not None:
            m.assume(or_(eq(n, self.n0), le(n, self.size)))
        m.assume(ge(k, self.k0))
        self.fns = db, vb, cnt = s.fns("!%d" % t, n, k)
        m.assume(Forall(ZERO, self.n0, lambda j: eq(db(j), self.db0(j))))
        m.assume(Forall(ZERO, self.k0, lambda i: eq(vb(i), self.vb0(i))))
        s.put(n, k, db, vb, cnt)

    def writes(self, c):
        a = self.s.o.attrs
        return [(a, x) for x in ("v", "_v_base", "_d_base", "_count_base")] + [(self.s.counts, "items")]

    def step(self, c):
        s, n, k = self.s, self.n, self.k
        db1, vb1, cnt1 = self.fns
        n2, k2, db, vb, cnt, v, nc = s.read()
        self.check(c, "loop", n2, k2, db, vb, cnt, v, nc)
        c.eq("loop:one-stick", n2, add(n, ONE))
        c.all("loop:kept", (n,), lambda j: (db.at(j), db1(j)))
        c.all("loop:kept-values", (k,), lambda i: (vb.at(i), vb1(i)))
        new = db.at(n)
        tot = add(Sum(ZERO, k, lambda i: cnt1(i)), s.a)
        c.true("loop:choice-range", le(new, k))
        di = c.drawinfo(Norm(c.m.facts).simp(new))
        if di is None or di[0] != "choice":
            c.fail("loop:choice", "the value number is no choice variate: %s" % show(new, 300))
        else:
            d = di[4]
            p = lambda i: subst(d.params(i)["p"], dict(zip(d.loop, di[3])))
            c.eq("loop:choice", d.shape[0].n, add(k, ONE))
            c.all("loop:choice-law", (k,), lambda i: (p(i), div(cnt1(i), tot)))
            c.eq("loop:choice-law-new", p(k), div(s.a, tot))
        if branch(c, eq(new, k), lambda: True, lambda: False):
            c.eq("loop:new-value", k2, add(k, ONE))
            c.law("loop:new-law", (1,), lambda j: vb.at(add(k, j)), "beta", lambda j: {"a": ONE, "b": s.alpha})
            c.all("loop:recount", (k2,), lambda i: (cnt(i), ite(eq(i, k), ONE, cnt1(i))))
        else:
            c.eq("loop:no-new-value", k2, k)
            c.all("loop:recount", (k,), lambda i: (cnt(i), add(cnt1(i), ind(eq(i, new)))))


class UrnTailInv(UrnInv):
    """the loop of tail, on the urn; the loops of complete inside it have the invariant of UrnInv"""

    def __init__(self, s):
        super().__init__(s)
        self.inner = lambda: UrnInv(s)

    def entry(self, c):
        super().entry(c)
        sticks_ok(c, self.s.o, "loop-entry:weights")

    def havoc(self, c):
        super().havoc(c)
        db, vb, cnt = self.fns
        c.set(self.s.o, w=c.arrf((self.n,), stickw(lambda j: vb(db(j)))))

    def writes(self, c):
        return super().writes(c) + [(self.s.o.attrs, "w")]

    def step(self, c):
        n, k = self.n, self.k
        db1, vb1, cnt1 = self.fns
        n2, k2, db, vb, cnt, v, nc = self.s.read()
        self.check(c, "loop", n2, k2, db, vb, cnt, v, nc)
        c.true("loop:grows", and_(ge(n2, n), ge(k2, k)))
        c.all("loop:kept", (n,), lambda j: (db.at(j), db1(j)))
        c.all("loop:kept-values", (k,), lambda i: (vb.at(i), vb1(i)))
        sticks_ok(c, self.s.o, "loop:weights")


class UrnSweep:
    """invariant of the update of the value numbers given the data: every stick carries one of the values.
    Every iteration: stick i leaves its value and takes one of the values the other sticks carry, with
    probability proportional to their number times the likelihood of its data, or a new value with
    probability proportional to a times the marginal likelihood; a new value comes from its posterior"""

    general = True

    def __init__(self, s, L):
        self.s, self.L = s, L

    @staticmethod
    def which(code):
        def base(q):
            return isinstance(q, ast.Attribute) and q.attr == "_d_base"
        return any(base(q) and isinstance(q.ctx, ast.Store) or isinstance(q, ast.Subscript) and isinstance(q.ctx, ast.Store) and base(q.value) for st in code for q in ast.walk(st))

    def parameters(self):
        return [self.s.a, self.s.alpha]

    def arrays(self, c):
        o = self.s.o
        db, vb = c.get(o, "_d_base"), c.get(o, "_v_base")
        c.guard(all(isinstance(x, Arr) and x.ndim == 1 for x in (db, vb)), "another representation of the urn")
        return db, vb

    def entry(self, c):
        s, L = self.s, self.L
        db, vb = self.arrays(c)
        k = vb.shape[0].count()
        c.eq("sweep-entry:numbers", db.shape[0].count(), L)
        # every stick in turn; with a = 0 they share one value, number 0
        c.true("sweep-entry:every-stick", or_(eq(self.count, L), and_(eq(s.a, ZERO), Forall(ZERO, L, lambda j: eq(db.at(j), ZERO)))))
        c.all("sweep-entry:number-range", (L,), lambda j: and_(ge(db.at(j), ZERO), lt(db.at(j), k)))
        c.all("sweep-entry:fractions", (k,), lambda j: and_(ge(vb.at(j), ZERO), le(vb.at(j), ONE)))
        # given the ties so far (sticks without one start with value 0)
        c.all("sweep-entry:ties", (L,), lambda l: (db.at(l), ite(lt(l, s.m), app("db", tt(l), sort="I"), ZERO)))
        c.law("sweep-entry:values", (k,), lambda j: vb.at(j), "beta", lambda j: {
            "a": add(ONE, Sum(ZERO, L, lambda l: mul(ind(eq(db.at(l), tt(j))), s.n(l)))),
            "b": add(s.alpha, Sum(ZERO, L, lambda l: mul(ind(eq(db.at(l), tt(j))), s.mm(l))))})

    def havoc(self, c, i):
        s, m = self.s, c.m
        t = m.ident("sweep")
        self.k = k = var("sweepk!%d" % t, "I")
        m.assume(ge(k, ONE))
        self.db = db = lambda j: app("sweepd!%d" % t, tt(j), sort="I")
        self.vb = vb = lambda j: app("sweepv!%d" % t, tt(j))
        m.assume(Forall(ZERO, self.L, lambda j: and_(ge(db(j), ZERO), lt(db(j), k))))
        m.assume(Forall(ZERO, k, lambda j: and_(ge(vb(j), ZERO), le(vb(j), ONE))))
        c.set(s.o, _d_base=c.arrf((self.L,), db, "I"), _v_base=c.arrf((k,), vb))

    def writes(self, c):
        a = self.s.o.attrs
        return [(a, "_d_base"), (a, "_v_base")]

    def step(self, c, i):
        s, L, k, db, vb = self.s, self.L, self.k, self.db, self.vb
        db2, vb2 = self.arrays(c)
        k2 = vb2.shape[0].count()
        c.eq("sweep:numbers", db2.shape[0].count(), L)
        c.all("sweep:number-range", (L,), lambda j: and_(ge(db2.at(j), ZERO), lt(db2.at(j), k2)))
        c.all("sweep:fractions", (k2,), lambda j: and_(ge(vb2.at(j), ZERO), le(vb2.at(j), ONE)))
        c.all("sweep:others-kept", (L,), lambda j: or_(eq(tt(j), i), eq(db2.at(j), db(j))))
        new = tt(db2.at(i))
        others = lambda j: Sum(ZERO, L, lambda l: ind(and_(ne(l, i), eq(db(l), tt(j)))))
        if branch(c, eq(s.a, ZERO), lambda: True, lambda: False):
            # all sticks share one value
            c.eq("sweep:one-value", new, ZERO)
            c.eq("sweep:values-kept", k2, k)
            c.all("sweep:values-kept", (k,), lambda j: (vb2.at(j), vb(j)))
            return
        n, m = s.n(i), s.mm(i)
        tied = lambda j: add(log_(others(j)), mul(n, log_(vb(j))), mul(m, log_(sub(ONE, vb(j)))))
        lgam = lambda x: fapp("lgam", x)
        p, q = add(ONE, n), add(s.alpha, m)
        own = add(log_(s.a), log_(s.alpha), lgam(p), lgam(q), neg(lgam(add(p, q))))

        def enough(hi):
            return {"candidates": Forall(ZERO, L, lambda l: or_(eq(l, i), lt(db(l), hi))),
                    "new-candidate": or_(eq(others(sub(hi, ONE)), ZERO), Exists(ZERO, hi, lambda j: eq(others(j), ZERO)))}

        def spec(label, j, lw, hi):
            for x in c.cases(lw(j)):
                if infinite(x):
                    c.true(label + ":impossible", and_(eq(others(j), ZERO), Exists(ZERO, j, lambda q: eq(others(q), ZERO))))
                else:
                    c.suppose(eq(others(j), ZERO), lambda: c.eq(label + ":new-value", x, own))
                    c.suppose(ne(others(j), ZERO), lambda: c.eq(label + ":tied", x, tied(j)))
        c.gumbelpick("sweep:choice", new, enough, spec)
        alone = eq(others(new), ZERO)
        c.true("sweep:values-kept", and_(ge(k2, k), Forall(ZERO, k, lambda j: or_(eq(vb2.at(j), vb(j)), and_(eq(tt(j), new), alone)))))
        c.suppose(alone, lambda: c.law("sweep:own-value", (1,), lambda j: vb2.at(add(new, j)), "beta", lambda j: {"a": p, "b": q}))


for _n in ["DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaBinomial", "BetaBernoulli", "BetaInDirichlet"]:
    reg(_n)
for _v in ["x=0", "x=1", "geometric", "static", "independent"]:
    reg("BetaInBeta", _v)
