"""Contracts of the distribution helper functions (C29) and auxiliary samplers (C28)."""
from .con import *
from .norm import Norm

U = "utils.functions"
X = "mixture_models._utils"
PI = app("pi")
lg = lambda x: fapp("lgam", tt(x))
dig = lambda x: fapp("digamma", tt(x))


def logdet_of(A, D):
    return app("logdet", lam([tt(D), tt(D)], lambda i, j: A.at(i, j)))


def inv_of(A, D):
    L = lam([tt(D), tt(D)], lambda i, j: A.at(i, j))
    return Arr([tt(D), tt(D)], lambda i, j: app("inv", L, tt(i), tt(j)), "R")


def quad(x, m, P, D):
    """(x - m)' P (x - m)"""
    return Sum(ZERO, D, lambda k: Sum(ZERO, D, lambda l: mul(sub(x(k), m(k)), P.at(k, l), sub(x(l), m(l)))))


def mvn_logpdf(x, m, S, D):
    """log N(x; m, S): x a function of the coordinate, m (D,), S (D, D)"""
    D = tt(D)
    return app("mvn", lam([D], lambda k: tt(x(k))), lam([D], lambda k: tt(m.at(k))), lam([D, D], lambda k, l: tt(S.at(k, l))))


def log_multigamma(a, D):
    return add(mul(div(mul(D, sub(D, ONE)), const(4)), log_(PI)), Sum(ZERO, D, lambda i: lg(add(a, div(sub(ONE, add(i, ONE)), const(2))))))


@contract("C29", U + ":density_students_t")
def students_t(c):
    N, D = c.int("N", 1), c.int("D", 1)
    x, mu, P = c.arr("x", (N, D)), c.arr("mu", (D,)), c.spd("P", D)
    nu = c.real("nu", 0)
    r = c.func(U, "density_students_t", x, mu, P, nu)
    h = div(add(nu, D), const(2))

    def dens(i):
        q = quad(lambda k: x.at(i, k), mu.at, P, D)
        lognorm = add(sub(lg(h), lg(div(nu, const(2)))), div(logdet_of(P, D), const(2)), neg(mul(div(D, const(2)), log_(mul(nu, PI)))))
        return exp_(sub(lognorm, mul(h, log_(add(ONE, div(q, nu))))))
    c.arr_eq("density", r, (N,), dens)


@contract("C29", U + ":density_normal")
def normal(c):
    N, D = c.int("N", 1), c.int("D", 1)
    x, mu, P = c.arr("x", (N, D)), c.arr("mu", (D,)), c.spd("P", D)
    r = c.func(U, "density_normal", x, mu, P)

    def dens(i):
        q = quad(lambda k: x.at(i, k), mu.at, P, D)
        return exp_(sub(sub(div(logdet_of(P, D), const(2)), mul(div(D, const(2)), log_(mul(const(2), PI)))), div(q, const(2))))
    c.arr_eq("density", r, (N,), dens)


@contract("C29", U + ":mean_log_beta")
def mean_log_beta(c):
    a, b = c.real("a", 0), c.real("b", 0)
    c.eq("mean", c.func(U, "mean_log_beta", a, b), sub(dig(a), dig(add(a, b))))
    N = c.int("N", 0)
    A, B = c.arr("A", (N,), lo=0), c.arr("B", (N,), lo=0)
    c.arr_eq("elementwise", c.func(U, "mean_log_beta", A, B), (N,), lambda i: sub(dig(A.at(i)), dig(add(A.at(i), B.at(i)))))


@contract("C29", U + ":dirichlet_log_eppf")
def eppf(c):
    K = c.int("K", 1)
    n = c.arr("n", (K,), "I", 1)
    a = c.real("alpha", 0, None, True)
    r = c.func(U, "dirichlet_log_eppf", a, n)
    if c.mode == "con":
        zero = float(c.ev(a)) == 0
    else:
        zero = c.m.branch(eq(a, ZERO))
    tot = Sum(ZERO, K, lambda j: n.at(j))
    if zero:
        one = int(c.ev(K)) == 1 if c.mode == "con" else c.m.branch(eq(K, ONE))
        c.eq("degenerate", r, ZERO if one else neg(INF))
    else:
        # Gamma(alpha) alpha^K / Gamma(alpha + n) prod_j Gamma(n_j)
        c.eq("log-probability", r, add(lg(a), mul(K, log_(a)), neg(lg(add(a, tot))), Sum(ZERO, K, lambda j: lg(n.at(j)))))


@contract("C29", U + ":log_likelihood_beta")
def ll_beta(c):
    v, a, b = c.real("v", 0, 1), c.real("a", 0), c.real("b", 0)
    if c.mode == "sym":
        c.assume(lt(v, ONE))
        c.assume(gt(v, ZERO))
    B = sub(add(lg(a), lg(b)), lg(add(a, b)))
    c.eq("log-density", c.func(U, "log_likelihood_beta", v, a, b), sub(add(mul(sub(a, ONE), log_(v)), mul(sub(b, ONE), log_(sub(ONE, v)))), B))


@contract("C29", U + ":log_likelihood_binom")
def ll_binom(c):
    n = c.int("n", 0)
    x = c.int("x", 0, n)
    p = c.real("p", 0, 1)
    c.eq("log-probability", c.func(U, "log_likelihood_binom", x, n, p), fapp("binlogpmf", x, n, p))


@contract("C29", U + ":log_likelihood_beta_binom")
def ll_betabinom(c):
    n = c.int("n", 0)
    x = c.int("x", 0, n)
    a, b = c.real("a", 0), c.real("b", 0)
    bl = lambda p, q: sub(add(lg(p), lg(q)), lg(add(p, q)))
    choose = sub(lg(add(n, ONE)), add(lg(add(x, ONE)), lg(add(sub(n, x), ONE))))
    c.eq("log-probability", c.func(U, "log_likelihood_beta_binom", x, n, a, b), add(choose, sub(bl(add(x, a), add(sub(n, x), b)), bl(a, b))))


@contract("C29", X + ":log_wishart_normalization_term")
def wishart_norm(c):
    D = c.int("D", 1)
    W = c.spd("W", D)
    nu = c.real("nu", sub(D, ONE))
    r = c.func(X, "log_wishart_normalization_term", W, nu)
    # log B(W, nu) = -nu/2 log|W| - nu D/2 log 2 - log Gamma_D(nu/2)
    c.eq("log-constant", r, wishart_lognorm(W, nu, D))


def wishart_lognorm(W, nu, D):
    return neg(add(mul(div(nu, const(2)), logdet_of(W, D)), mul(div(mul(nu, D), const(2)), log_(const(2))), log_multigamma(div(nu, const(2)), D)))


def e_logdet(W, nu, D):
    return add(Sum(ZERO, D, lambda i: dig(div(sub(nu, i), const(2)))), mul(D, log_(const(2))), logdet_of(W, D))


@contract("C29", X + ":e_log_norm_wishart")
def wishart_elog(c):
    D = c.int("D", 1)
    W = c.spd("W", D)
    nu = c.real("nu", sub(D, ONE))
    c.eq("expected-log-determinant", c.func(X, "e_log_norm_wishart", W, nu), e_logdet(W, nu, D))


@contract("C29", X + ":entropy_wishart")
def wishart_entropy(c):
    D = c.int("D", 1)
    W = c.spd("W", D)
    nu = c.real("nu", sub(D, ONE))
    r = c.func(X, "entropy_wishart", W, nu)
    c.eq("entropy", r, add(neg(wishart_lognorm(W, nu, D)), neg(mul(div(sub(sub(nu, D), ONE), const(2)), e_logdet(W, nu, D))), div(mul(nu, D), const(2))))


@contract("C29", X + ":log_likelihood_normal_invw")
def niw(c):
    D = c.int("D", 1)
    mu, mu0 = c.arr("mu", (D,)), c.arr("mu0", (D,))
    S, psi = c.spd("Sigma", D), c.spd("Psi", D)
    lam0 = c.real("lam0", 0)
    nu0 = c.real("nu0", sub(D, ONE))
    r = c.func(X, "log_likelihood_normal_invw", mu, S, mu0, lam0, psi, nu0)
    L1 = lam([D], lambda k: mu.at(k))
    L0 = lam([D], lambda k: mu0.at(k))
    C = lam([D, D], lambda k, l: div(S.at(k, l), lam0))
    # inverse-Wishart(Sigma; nu0, Psi) N(mu; mu0, Sigma / lambda0)
    iw = app("invwishart_logpdf", lam([D, D], lambda k, l: S.at(k, l)), nu0, lam([D, D], lambda k, l: psi.at(k, l)))
    c.eq("log-density", r, add(iw, app("mvn", L1, L0, C)))


# ------------------------------------------------------------ C28: auxiliary samplers
@contract("C28", X + ":gumbel_max_sampling")
def gumbel_matrix(c):
    K, N = c.int("K", 1), c.int("N", 1)
    logp = c.arr("logp", (K, N))
    g = c.rng()
    c.start()
    r = c.func(X, "gumbel_max_sampling", logp, rng=g)
    c.gumbelmax("argmax", r, K, N, lambda j, i: app("logp", tt(j), tt(i)))
    c.all("log-weights-unchanged", (K, N), lambda j, i: (logp.at(j, i), app("logp", j, i)))


@contract("C28", X + ":gumbel_max_sampling", "gumbel_impossible_entries")
def gumbel_impossible(c):
    K, N = c.int("K", 1), c.int("N", 1)
    p = c.arr("p", (K, N), "I", 0, 3)
    logp = Arr([K, N], lambda j, i: log_(p.at(j, i)), "R")
    g = c.rng()
    c.start()
    r = c.func(X, "gumbel_max_sampling", logp, rng=g)
    c.gumbelmax("argmax", r, K, N, lambda j, i: log_(p.at(j, i)))


@contract("C28", X + ":gumbel_max_sampling")
def gumbel_sized(c):
    K, n = c.int("K", 1), c.int("n", 1)
    logp = c.arr("logp", (K,))
    g = c.rng()
    c.start()
    r = c.func(X, "gumbel_max_sampling", logp, n, rng=g)
    c.gumbelmax("argmax", r, K, n, lambda j, i: app("logp", tt(j)))


@contract("C28", X + ":kmeans_cluster_size_biased")
def kmeans_labels(c):
    N, D, K = c.int("N", 1), c.int("D", 1), c.int("K", 1)
    c.assume(le(K, N))
    y = c.arr("y", (N, D))
    L = c.arr("L", (N,), "I", 0, sub(K, ONE))
    g = c.rng()
    c.cluster_labels(L, N)
    c.start()
    r = c.func(X, "kmeans_cluster_size_biased", y, K, g)
    c.clustered(K, y, (N, D))
    c.eq("one-label-each", r.shape[0].count(), N)
    size = lambda i: Sum(ZERO, N, lambda q: ind(eq(L.at(q), L.at(i))))
    groups = Sum(ZERO, add(Max(ZERO, N, lambda q: L.at(q)), ONE), lambda l: ind(Exists(ZERO, N, lambda q: eq(L.at(q), l))))
    c.all("labels-from-zero", (N,), lambda i: and_(ge(r.at(i), ZERO), lt(r.at(i), groups)))
    c.all("same-partition", (N, N), lambda i, j: eq(eq(r.at(i), r.at(j)), eq(L.at(i), L.at(j))))
    c.all("by-size", (N, N), lambda i, j: implies(lt(r.at(i), r.at(j)), ge(size(i), size(j))))


# rejection sampling: points under the graph of the target
def rename_draws(t, ids):
    """the term with the variates of record i read from record ids[i]"""
    if not isinstance(t, T):
        return t

    def one(x):
        if x.op == "app" and x.args[0] == "draw" and int(x.args[1].args[0]) in ids:
            d = ids[int(x.args[1].args[0])]
            return app("draw", const(d.id), *(d.loop + (x.args[-len(d.shape):] if d.shape else ())), sort=x.sort)
    return replace(t, one)


class AcceptInv:
    """invariant of the retry loop: the points and their heights are fresh pairs, everything else the
    loop carries is the function of them that it was at loop entry"""

    def __init__(self, lo, hi, top, n=None):
        self.lo, self.hi, self.top, self.n = lo, hi, top, n

    def kinds(self, c, v):
        """law of a local: 'x' for points, 'y' for heights"""
        m = c.m
        if isinstance(v, Arr):
            if v.ndim != 1 or v.kind != "R":
                return None
            t = v.at(fresh("sk", "I"))
        elif isinstance(v, T) and v.sort == "R":
            t = v
        else:
            return None
        di = c.drawinfo(Norm(m.facts).simp(t))
        if di is None or di[0] != "uniform":
            return None
        for k, lo, hi in (("x", self.lo, self.hi), ("y", ZERO, self.top)):
            if m.decider(m.facts, eq(di[1]["low"], lo)) is True and m.decider(m.facts, eq(di[1]["high"], hi)) is True:
                return k, di
        return None

    def changed(self):
        import ast
        out = set()
        for s in ast.walk(ast.Module(self.loop.body, [])):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                out.add(s.id)
            elif isinstance(s, (ast.Subscript, ast.Attribute)) and isinstance(s.ctx, ast.Store):
                b = s.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
        return sorted(out & set(self.env.vars))

    def entry(self, c):
        self.role, self.rec, self.more = {}, {}, {}
        for nm in self.changed():
            k = self.kinds(c, self.env.vars[nm])
            if k is None:
                self.more[nm] = self.env.vars[nm]
            elif k[0] in self.role:
                raise Unsupported("several vectors of points")
            else:
                self.role[k[0]], self.rec[k[0]] = nm, k[1]
        if set(self.role) != {"x", "y"}:
            c.fail("proposals", "the loop does not redraw points uniform on [a, b) and heights uniform on [0, max)")
            raise Infeasible()
        v = self.env.vars[self.role["x"]]
        c.law("loop-entry:points", self.dims(), lambda *i: self.now("x", *i), "uniform", lambda *i: {"low": self.lo, "high": self.hi})
        c.law("loop-entry:heights", self.dims(), lambda *i: self.now("y", *i), "uniform", lambda *i: {"low": ZERO, "high": self.top})

    def dims(self):
        return () if self.n is None else (self.n,)

    def now(self, k, *i):
        v = self.env.vars[self.role[k]]
        return v.at(*i) if isinstance(v, Arr) else tt(v)

    def havoc(self, c):
        m, V = c.m, self.env.vars
        shape = () if self.n is None else (dim(self.n),)
        new = {k: m.add_draw("uniform", lambda *i, p=p: {"low": p[0], "high": p[1]}, shape, None, "specification") for k, p in (("x", (self.lo, self.hi)), ("y", (ZERO, self.top)))}
        ids = {self.rec[k][2]: new[k] for k in new}
        self.new = new
        self.X, self.Y = [(lambda d: lambda *i: app("draw", const(d.id), *(d.loop + tuple(tt(q) for q in i))))(new[k]) for k in "xy"]
        for k in "xy":
            f = (self.X, self.Y)["xy".index(k)]
            m.setd(V, self.role[k], f() if self.n is None else c.arrf((self.n,), f))
        for nm, v in self.more.items():
            m.setd(V, nm, self.renamed(v, ids))

    def renamed(self, v, ids):
        if isinstance(v, Arr):
            f = v.snap()
            return Arr(v.shape, lambda *i: rename_draws(f(*i), ids), v.kind)
        if isinstance(v, T):
            return rename_draws(v, ids)
        raise Unsupported("the loop carries %r" % (v,))

    def writes(self, c):
        V = self.env.vars
        out = [(V, nm) for nm in list(self.role.values()) + list(self.more)]
        for nm in list(self.role.values()) + list(self.more):
            if isinstance(V[nm], Arr):
                out.append((V[nm].cell, "fn"))
        return out

    def step(self, c):
        dims = self.dims()
        c.law("retry:points", dims, lambda *i: self.now("x", *i), "uniform", lambda *i: {"low": self.lo, "high": self.hi})
        c.law("retry:heights", dims, lambda *i: self.now("y", *i), "uniform", lambda *i: {"low": ZERO, "high": self.top})
        # a point and its height are drawn in the same round
        idx = [fresh("sk", "I") for _ in dims]
        mark = c.m.mark()
        try:
            for i, n in zip(idx, dims):
                c.m.assume(and_(ge(i, ZERO), lt(i, n)))
            for x in c.cases(self.now("x", *idx)):
                for y in c.cases(self.now("y", *idx)):
                    a, b = c.drawinfo(x), c.drawinfo(y)
                    if a is None or b is None:
                        continue
                    old = (a[2] == self.new["x"].id, b[2] == self.new["y"].id)
                    if old[0] != old[1]:
                        c.fail("retry:together", "the %s of a rejected point is not redrawn" % ("height" if old[1] else "abscissa"))
                    else:
                        c.record("retry:together", "proved")
        except Infeasible:
            pass
        finally:
            c.m.undo(mark)
        ids = {self.rec[k][2]: k for k in "xy"}
        for nm, v in self.more.items():
            # still the same function of the points and heights
            w = self.env.vars[nm]

            def same(*i):
                t = v.snap()(*i) if isinstance(v, Arr) else v
                at = lambda k: lambda *q: self.now(k, *q)
                return replace_draws(t, {j: at(k) for j, k in ids.items()}, self.n is not None)
            if isinstance(v, Arr):
                if not isinstance(w, Arr) or w.ndim != 1:
                    raise Unsupported("the loop carries %r" % (w,))
                c.all("retry:derived", [d.count() for d in v.shape], lambda *i: (w.at(*i), same(*i)))
            else:
                c.eq("retry:derived", w, same())


def replace_draws(t, f, indexed):
    def one(x):
        if x.op == "app" and x.args[0] == "draw" and int(x.args[1].args[0]) in f:
            return f[int(x.args[1].args[0])](*(x.args[-1:] if indexed else ()))
    return replace(t, one)


def reg_rejection():
    def setup(c):
        lo, top = c.real("lo"), c.real("top", 0)
        hi = c.real("hi", lo)
        return lo, hi, top, c.target("f", top)

    @contract("C28", X + ":rejection_sample", "rejection_one")
    def one(c):
        lo, hi, top, f = setup(c)
        g = c.rng()
        c.start()
        inv = AcceptInv(lo, hi, top)
        with c.invariant(inv):
            r = c.func(X, "rejection_sample", f, top, lo, hi, rng=g)
        c.true("range", and_(ge(r, lo), le(r, hi)))
        c.accepted(inv, r, (), "f")

    @contract("C28", X + ":rejection_sample", "rejection_many")
    def many(c):
        lo, hi, top, f = setup(c)
        n = c.int("n", 1)
        g = c.rng()
        c.start()
        inv = AcceptInv(lo, hi, top, n)
        with c.invariant(inv):
            r = c.func(X, "rejection_sample", f, top, lo, hi, size=n, rng=g)
        c.eq("size", r.shape[0].count(), n)
        c.all("range", (n,), lambda i: and_(ge(r.at(i), lo), le(r.at(i), hi)))
        c.accepted(inv, r, (n,), "f")


reg_rejection()
