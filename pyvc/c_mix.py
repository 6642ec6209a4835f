"""Contracts of the mixture models (C12-C26)."""
from .con import *
from .c_help import X, PI, lg, dig, quad, logdet_of, inv_of, e_logdet, wishart_lognorm, log_multigamma, mvn_logpdf

B = "mixture_models._base"
KINDS = {"DirichletProcessMixture": "_dirichlet_process_mixture"}


class Mix:
    """a mixture with given priors holding data y (N x D)"""

    def __init__(self, c, data=True, name="DirichletProcessMixture", **kw):
        self.c = c
        self.N, self.D = N, D = c.int("N", 1), c.int("D", 1)
        self.mu0 = c.arr("mu0", (D,))
        self.lam0 = c.real("lam0", 0)
        self.psi = c.spd("psi", D)
        self.nu0 = c.real("nu0", sub(D, ONE))
        self.o = c.new(c.cls("mixture_models." + KINDS[name], name), mu_prior=self.mu0, lambda_prior=self.lam0, psi_prior=self.psi, nu_prior=self.nu0, rng=None, **kw)
        self.y = c.arr("y", (N, D))
        if data:
            c.set(self.o, y=self.y)

    def labels(self, K=None):
        """assignments d_i in [0, K)"""
        c = self.c
        self.K = c.int("K", 1) if K is None else K
        self.d = c.arr("d", (self.N,), "I", 0, sub(self.K, ONE))
        c.set(self.o, d=self.d)
        self.n = lambda j: Sum(ZERO, self.N, lambda i: ind(eq(self.d.at(i), tt(j))))

    def member(self, j):
        return lambda i: ind(eq(self.d.at(i), tt(j)))

    def chain(self):
        """an arbitrary state of a started Gibbs chain: K labels, atoms 0..T-1, weights, slices"""
        c = self.c
        self.S = S = c.weights(self.o)
        N0 = c.int("N0", 0)         # co-clustering totals of an earlier run, of any size
        c.set(self.o, affinity_matrix=c.arr("A0", (N0, N0)))
        c.call(self.o, "_initialize_gibbs_params", 1, "random")
        self.labels()
        S.restart()
        self.T = c.int("T", 1)
        self.mu, self.sg = c.atoms(self.o, self.T, self.D, some=True)
        c.set(self.o, u=c.arr("u", (self.N,), lo=0, hi=1))
        c.start()

    def distinct(self):
        """number of different labels"""
        top = add(Max(ZERO, self.N, lambda i: app("d", i, sort="I")), ONE)
        return Sum(ZERO, top, lambda k: ind(Exists(ZERO, self.N, lambda i: eq(app("d", i, sort="I"), k))))

    def moments(self, r):
        """(total, mean, scatter about the mean) under the nonnegative weights r(i)"""
        N, y = self.N, self.y
        n = Sum(ZERO, N, r)
        mean = lambda k: div(Sum(ZERO, N, lambda i: mul(r(i), y.at(i, k))), n)
        scatter = lambda k, l: Sum(ZERO, N, lambda i: mul(r(i), sub(y.at(i, k), mean(k)), sub(y.at(i, l), mean(l))))
        return n, mean, scatter

    def posterior(self, r):
        """normal-inverse-Wishart posterior (mean, precision, scale matrix, degrees of freedom)"""
        n, mean, scatter = self.moments(r)
        lam0, mu0, D = self.lam0, self.mu0, self.D
        L = add(lam0, n)
        m = Arr([D], lambda k: div(add(mul(lam0, mu0.at(k)), mul(n, mean(k))), L), "R")
        P = Arr([D, D], lambda k, l: add(self.psi.at(k, l), scatter(k, l), mul(div(mul(lam0, n), L), sub(mean(k), mu0.at(k)), sub(mean(l), mu0.at(l)))), "R")
        return m, L, P, add(self.nu0, n)

    def unchanged(self, *names):
        c, o = self.c, self.o
        for n in names:
            if n == "y":
                c.arr_eq("data-unchanged", c.get(o, "y"), (self.N, self.D), lambda i, k: app("y", i, k))
            elif n == "d":
                c.arr_eq("assignments-unchanged", c.get(o, "d"), (self.N,), lambda i: app("d", i, sort="I"))
            elif n == "priors":
                c.eq("lambda-prior-unchanged", c.get(o, "lambda_prior"), self.lam0)
                c.eq("nu-prior-unchanged", c.get(o, "nu_prior"), self.nu0)
                c.arr_eq("mu-prior-unchanged", c.get(o, "mu_prior"), (self.D,), lambda k: app("mu0", k))
                c.arr_eq("psi-prior-unchanged", c.get(o, "psi_prior"), (self.D, self.D), lambda k, l: add(app("psi", k, l), app("psi", l, k)))


@contract("C12", X + ":posterior_norm_invw_params")
def posterior_params(c):
    m = Mix(c)
    r = c.func(X, "posterior_norm_invw_params", m.y, m.mu0, m.lam0, m.psi, m.nu0)
    mean, L, P, nu = m.posterior(lambda i: ONE)
    c.eq("precision", c.entry(r, "lambda"), L)
    c.eq("degrees-of-freedom", c.entry(r, "nu"), nu)
    c.arr_eq("mean", c.entry(r, "mu"), (m.D,), mean.at)
    c.arr_eq("scale", c.entry(r, "psi"), (m.D, m.D), P.at)
    c.all("data-unchanged", (m.N, m.D), lambda i, k: (m.y.at(i, k), app("y", i, k)))


@contract("C12", X + ":random_normal_invw")
def random_niw(c):
    m = Mix(c)
    c.start()
    r = c.func(X, "random_normal_invw", m.mu0, m.lam0, m.psi, m.nu0, rng=c.get(m.o, "rng"))
    mu, sg = c.at1(r[0]), c.at2(r[1])
    c.matlaw("covariance", sg, "invwishart", {"df": m.nu0, "scale": m.psi})
    c.matlaw("mean", mu, "mvn", {"mean": m.mu0, "cov": Arr([m.D, m.D], lambda k, l: div(sg.at(k, l), m.lam0), "R")})


@contract("C12", B + ":BaseGaussianMixture._update_atoms")
def update_atoms(c):
    m = Mix(c)
    m.labels()
    mu, sg = c.atoms(m.o, m.K, m.D)
    j = c.int("j", 0, sub(m.K, ONE))
    c.start()
    c.call(m.o, "_update_atoms")
    occupied = c.decide(Exists(ZERO, m.N, lambda i: eq(m.d.at(i), j)))
    a = c.atom(m.o, j)
    if occupied:
        mean, L, P, nu = m.posterior(m.member(j))
        c.matlaw("covariance", a[1], "invwishart", {"df": nu, "scale": P})
        c.matlaw("mean", a[0], "mvn", {"mean": mean, "cov": Arr([m.D, m.D], lambda k, l: div(a[1].at(k, l), L), "R")})
    else:
        c.arr_eq("empty-mean-kept", a[0], (m.D,), mu(j).at)
        c.arr_eq("empty-covariance-kept", a[1], (m.D, m.D), sg(j).at)
    m.unchanged("y", "d", "priors")


# ------------------------------------------------------------ variational side
class Var(Mix):
    """a mixture with a variational state of K groups (one entry of var_theta per group)"""

    def __init__(self, c, theta=True, resp=True, over=None, **kw):
        super().__init__(c, **kw)
        self.K = K = c.int("K", 1)
        N, D = self.N, self.D
        c.set(self.o, var_k=K)
        if resp:
            self.r = c.arr("r", (K, N), lo=0, hi=1)
            c.set(self.o, var_d=self.r)
        if theta:
            self.m_, self.l_, self.W_, self.n_ = c.vartheta(self.o, K, D, over=None if over is None else over(D))

    def total(self, j):
        return Sum(ZERO, self.N, lambda i: self.r.at(j, i))

    def elog(self, j):
        return e_logdet(self.W_(j), self.n_(j), self.D)

    def logjoint(self, j, x, elogw):
        """E[log w_j] + E[log|Lambda_j|]/2 - D/(2 lambda_j) - nu_j/2 (x-m_j)' W_j (x-m_j)"""
        D = self.D
        return add(elogw(j), div(self.elog(j), const(2)), neg(div(D, mul(const(2), self.l_(j)))),
                   neg(mul(div(self.n_(j), const(2)), quad(x, self.m_(j).at, self.W_(j), D))))


@contract("C20", B + ":BaseGaussianMixture._update_var_theta")
def update_var_theta(c):
    v = Var(c, theta=False)
    c.assume(Forall(ZERO, v.K, lambda j: gt(v.total(j), ZERO)))
    c.start()
    c.call(v.o, "_update_var_theta")
    th = c.get(v.o, "var_theta")
    c.eq("groups", c.length(th), v.K)
    j = c.int("j", 0, sub(v.K, ONE))
    t = c.items(c.entry(th, j))
    mean, L, P, nu = v.posterior(lambda i: v.r.at(j, i))
    c.arr_eq("mean", t[0], (v.D,), mean.at)
    c.eq("precision", t[1], L)
    c.arr_eq("scale-is-inverse-of-posterior-scale", t[2], (v.D, v.D), inv_of(P, v.D).at)
    c.eq("degrees-of-freedom", t[3], nu)
    c.arr_eq("responsibilities-unchanged", c.get(v.o, "var_d"), (v.K, v.N), lambda j, i: app("r", j, i))
    v.unchanged("y", "priors")


@contract("C19", B + ":BaseGaussianMixture._update_var_d")
def update_var_d(c):
    v = Var(c, resp=False)
    K, N = v.K, v.N
    elogw = c.weightfun(v.o, "variational_mean_log_w_j", "elogw", K)
    c.start()
    c.call(v.o, "_update_var_d")
    r = c.get(v.o, "var_d")
    eps = c.eps()
    G = lambda j, i: v.logjoint(j, lambda k: v.y.at(i, k), elogw)
    e = lambda j, i: exp_(sub(G(j, i), Max(ZERO, K, lambda l: G(l, i))))
    tot = lambda i: Sum(ZERO, K, lambda l: add(e(l, i), eps))
    c.eq("groups", r.shape[0].count(), K)
    c.eq("observations", r.shape[1].count(), N)
    c.all("responsibility", (K, N), lambda j, i: (r.at(j, i), div(add(e(j, i), eps), tot(i))))
    v.unchanged("y", "priors")


@contract("C19", B + ":BaseGaussianMixture._update_var_d", "responsibilities_are_a_distribution")
def responsibilities(c):
    v = Var(c, resp=False)
    c.weightfun(v.o, "variational_mean_log_w_j", "elogw", v.K)
    c.call(v.o, "_update_var_d")
    r = c.get(v.o, "var_d")
    c.positive("positive", (v.K, v.N), lambda j, i: r.at(j, i))
    c.all("sum-to-one", (v.N,), lambda i: (Sum(ZERO, v.K, lambda j: r.at(j, i)), ONE))


# the terms of the evidence lower bound, each the closed-form expectation
def e_log_p_x(v):
    return mul(const(Fraction(1, 2)), Sum(ZERO, v.K, lambda j: Sum(ZERO, v.N, lambda i: mul(v.r.at(j, i), sub(sub(sub(v.elog(j), div(v.D, v.l_(j))),
        mul(v.n_(j), quad(lambda k: v.y.at(i, k), v.m_(j).at, v.W_(j), v.D))), mul(v.D, log_(mul(const(2), PI))))))))


def e_log_p_theta(v):
    """sum_j E[log N(mu_j; mu0, (lam0 Lambda_j)^-1) Wishart(Lambda_j; psi^-1, nu0)]"""
    D, K = v.D, v.K
    P = v.psi
    Winv = inv_of(P, D)

    def term(j):
        normal = mul(const(Fraction(1, 2)), add(mul(D, log_(div(v.lam0, mul(const(2), PI)))), v.elog(j), neg(div(mul(D, v.lam0), v.l_(j))), neg(mul(v.lam0, v.n_(j), quad(v.m_(j).at, v.mu0.at, v.W_(j), D)))))
        logB = neg(add(mul(div(v.nu0, const(2)), neg(logdet_of(P, D))), mul(div(mul(v.nu0, D), const(2)), log_(const(2))), log_multigamma(div(v.nu0, const(2)), D)))
        trace = Sum(ZERO, D, lambda k: Sum(ZERO, D, lambda l: mul(P.at(k, l), v.W_(j).at(l, k))))
        wishart = add(logB, mul(div(sub(sub(v.nu0, D), ONE), const(2)), v.elog(j)), neg(mul(div(v.n_(j), const(2)), trace)))
        return add(normal, wishart)
    return Sum(ZERO, K, term)


def e_log_q_theta(v):
    D = v.D

    def term(j):
        entropy = add(neg(wishart_lognorm(v.W_(j), v.n_(j), D)), neg(mul(div(sub(sub(v.n_(j), D), ONE), const(2)), v.elog(j))), div(mul(v.n_(j), D), const(2)))
        return sub(add(div(v.elog(j), const(2)), mul(div(D, const(2)), log_(div(v.l_(j), mul(const(2), PI)))), neg(div(D, const(2)))), entropy)
    return Sum(ZERO, v.K, term)


def e_log_q_d(v):
    return Sum(ZERO, v.K, lambda j: Sum(ZERO, v.N, lambda i: mul(v.r.at(j, i), log_(v.r.at(j, i)))))


def elbo_term(meth, f, name):
    @contract("C21", B + ":BaseGaussianMixture." + meth, name)
    def term(c):
        v = Var(c)
        c.assume(Forall(ZERO, v.K, lambda j: Forall(ZERO, v.N, lambda i: gt(v.r.at(j, i), ZERO))))
        c.eq("expectation", c.call(v.o, meth), f(v))
    return term


for _m, _f in [("_e_q_log_p_x", e_log_p_x), ("_e_log_p_theta", e_log_p_theta), ("_e_log_q_d", e_log_q_d), ("_e_log_q_theta", e_log_q_theta)]:
    elbo_term(_m, _f, "elbo" + _m)


@contract("C21", B + ":BaseGaussianMixture._calc_elbo")
def calc_elbo(c):
    v = Var(c)
    c.assume(Forall(ZERO, v.K, lambda j: Forall(ZERO, v.N, lambda i: gt(v.r.at(j, i), ZERO))))
    pd_, seen = c.weightcall(v.o, "variational_mean_log_p_d__w", "E_log_p_d", 1, "variational_d")
    pw, _ = c.weightcall(v.o, "variational_mean_log_p_w", "E_log_p_w")
    qw, _ = c.weightcall(v.o, "variational_mean_log_q_w", "E_log_q_w")
    r = c.call(v.o, "_calc_elbo")
    want = add(e_log_p_x(v), pd_, pw, e_log_p_theta(v), neg(e_log_q_d(v)), neg(qw), neg(e_log_q_theta(v)))
    c.eq("evidence-lower-bound", r, want)
    for a in seen:
        c.arr_eq("responsibilities-passed", a, (v.K, v.N), lambda j, i: app("r", j, i))
    c.arr_eq("responsibilities-unchanged", c.get(v.o, "var_d"), (v.K, v.N), lambda j, i: app("r", j, i))
    v.unchanged("y", "priors")


# ------------------------------------------------------------ Gibbs steps
@contract("C13", B + ":BaseGaussianMixture._update_weights")
def update_weights(c):
    m = Mix(c)
    m.labels()
    S = c.weights(m.o)
    c.start()
    c.call(m.o, "_update_weights")
    tr = S.trace
    c.true("refit-redraw-extend", const([t[0] for t in tr] == ["fit", "random", "tail"]))
    c.arr_eq("refitted-to-the-assignments", tr[0][1], (m.N,), lambda i: app("d", i, sort="I"))
    u = c.get(m.o, "u")
    eps = c.eps()
    c.eq("one-slice-per-observation", u.shape[0].count(), m.N)
    c.law("slice", (m.N,), lambda i: u.at(i), "uniform", lambda i: {"low": eps, "high": add(app("wr1", app("d", i, sort="I")), eps)})
    c.eq("extended-beyond-the-smallest-slice", tr[2][1], sub(ONE, Min(ZERO, m.N, lambda i: u.at(i))))
    m.unchanged("y", "d", "priors")


@contract("C13", B + ":BaseGaussianMixture._update_d")
def update_d(c):
    m = Mix(c)
    m.chain()
    M = m.S.size
    c.call(m.o, "_update_d")
    a = lambda j: c.atom(m.o, j)
    logn = lambda j, i: mvn_logpdf(lambda k: m.y.at(i, k), c.at1(a(j)[0]), c.at2(a(j)[1]), m.D)
    c.gumbelmax("label", c.get(m.o, "d"), M, m.N, lambda j, i: add(logn(j, i), log_(ind(gt(app("w", tt(j)), app("u", tt(i)))))))
    c.true("weights-not-redrawn", const(len(m.S.trace) == 0))
    c.arr_eq("slices-unchanged", c.get(m.o, "u"), (m.N,), lambda i: app("u", i))
    j = c.int("j", 0, sub(m.T, ONE))
    c.arr_eq("atom-means-kept", a(j)[0], (m.D,), m.mu(j).at)
    c.arr_eq("atom-covariances-kept", a(j)[1], (m.D, m.D), m.sg(j).at)
    j = c.int("jn", m.T)
    if c.decide(lt(j, M)):
        c.matlaw("missing-covariance-from-the-prior", c.at2(a(j)[1]), "invwishart", {"df": m.nu0, "scale": m.psi})
        c.matlaw("missing-mean-from-the-prior", c.at1(a(j)[0]), "mvn", {"mean": m.mu0, "cov": Arr([m.D, m.D], lambda k, l: div(c.at2(a(j)[1]).at(k, l), m.lam0), "R")})
    m.unchanged("y", "priors")


@contract("C13", B + ":BaseGaussianMixture._update_weights", "no_admissible_component_missing")
def admissible(c):
    """a component beyond the represented ones weighs at most what is left, which no slice undercuts"""
    m = Mix(c)
    m.labels()
    S = c.weights(m.o)
    c.call(m.o, "_update_weights")
    u = c.get(m.o, "u")
    w = S.w
    left = sub(ONE, Sum(ZERO, S.size, lambda j: w.at(j)))
    c.all("unrepresented-weight-below-every-slice", (m.N,), lambda i: le(left, u.at(i)))


def snapshot_clauses(c, m, e, tag=""):
    """the saved record e holds the state (w, u, d, theta) of the chain `m`"""
    M = m.S0
    c.arr_eq("weights" + tag, c.entry(e, "w"), (M,), lambda j: app("w", tt(j)))
    c.arr_eq("slices" + tag, c.entry(e, "u"), (m.N,), lambda i: app("u", tt(i)))
    c.arr_eq("assignments" + tag, c.entry(e, "d"), (m.N,), lambda i: app("d", tt(i), sort="I"))
    th = c.entry(e, "theta")
    j = c.int("j", 0, sub(M, ONE))
    a = c.entry(th, j)
    if c.decide(lt(j, m.T)):
        c.arr_eq("atom-mean" + tag, a[0], (m.D,), m.mu(j).at)
        c.arr_eq("atom-covariance" + tag, a[1], (m.D, m.D), m.sg(j).at)
    else:
        c.matlaw("missing-covariance-from-the-prior" + tag, c.at2(a[1]), "invwishart", {"df": m.nu0, "scale": m.psi})
        c.matlaw("missing-mean-from-the-prior" + tag, c.at1(a[0]), "mvn", {"mean": m.mu0, "cov": Arr([m.D, m.D], lambda k, l: div(c.at2(a[1]).at(k, l), m.lam0), "R")})
    return th


@contract("C14", B + ":BaseGaussianMixture._save_params")
def save_params(c):
    m = Mix(c)
    m.chain()
    m.S0 = m.S.size
    s0 = c.int("saved", 0)
    A = c.arr("A", (m.N, m.N))
    c.set(m.o, total_saved_steps=s0, affinity_matrix=A)
    c.call(m.o, "_save_params")
    sp = c.get(m.o, "sim_params")
    c.eq("one-draw-saved", c.length(sp), ONE)
    e = c.entry(sp, ZERO)
    th = snapshot_clauses(c, m, e)
    c.eq("steps-counted", c.get(m.o, "total_saved_steps"), add(s0, ONE))
    c.eq("group-count-entry", c.length(c.get(m.o, "n_groups")), ONE)
    c.eq("groups", c.entry(c.get(m.o, "n_groups"), ZERO), m.distinct())
    c.eq("atom-count-entry", c.length(c.get(m.o, "n_atoms")), ONE)
    c.eq("atoms", c.entry(c.get(m.o, "n_atoms"), ZERO), c.length(th))
    c.arr_eq("co-clustering", c.get(m.o, "affinity_matrix"), (m.N, m.N), lambda i, k: add(app("A", tt(i), tt(k)), ind(eq(m.d.at(i), m.d.at(k)))))
    m.unchanged("y", "d", "priors")


@contract("C14", B + ":BaseGaussianMixture._save_params", "saved_draws_never_change")
def saved_immutable(c):
    m = Mix(c)
    m.chain()
    m.S0 = m.S.size
    c.call(m.o, "_save_params")
    e = c.entry(c.get(m.o, "sim_params"), ZERO)
    c.call(m.o, "_gibbs_step")
    c.call(m.o, "_save_params")
    sp = c.get(m.o, "sim_params")
    c.eq("draws", c.length(sp), const(2))
    c.equal_objects("first-draw-kept", c.entry(sp, ZERO), e)
    snapshot_clauses(c, m, e, "-kept")
    c.eq("counts-kept", c.entry(c.get(m.o, "n_groups"), ZERO), m.distinct())


def divided(c, meth, parts):
    """guard: `meth` does exactly one of each of `parts` and no other step"""
    m = Mix(c)
    calls = []
    c.ghost(m.o, {p: (lambda p: lambda G, *a: calls.append(p))(p) for p in parts}, real=(meth,))
    c.call(m.o, meth)
    c.guard(sorted(calls) == sorted(parts), "another division of labour: " + meth)


def gibbs_divided(c):
    divided(c, "_gibbs_step", ["_update_atoms", "_update_weights", "_update_d"])


def fit_ghost(c, m):
    return c.ghost(m.o, {
        "_initialize_common_params": lambda G, *a, **k: None,
        "_initialize_gibbs_params": lambda G, *a, **k: G.inc("starts"),
        "_gibbs_step": lambda G: G.inc("steps"),
        "_update_map_params": lambda G: None,
        "_save_params": lambda G: G.append("saved", G.get("steps")),
    }, starts=0, steps=0, saved=[])


@contract("C14", B + ":BaseGaussianMixture.fit_gibbs")
def fit_gibbs_counts(c):
    T_, B_, s = c.int("total_iter", 1), c.int("burn_in", 0), c.int("subsample_steps", 1)
    c.assume(gt(T_, B_))
    m = Mix(c, data=False, total_iter=T_, burn_in=B_, subsample_steps=s)
    warm = c.fresh_bool("warm")
    gibbs_divided(c)
    G = fit_ghost(c, m)
    c.call(m.o, "fit_gibbs", m.y, warm_start=warm, show_progress=False)
    c.eq("steps", G.get("steps"), T_)
    c.eq("starts", G.get("starts"), ZERO if warm else ONE)
    saved = G.get("saved")
    n = sub(T_, B_)
    c.eq("number-of-draws", c.length(saved), app("idiv", sub(add(n, s), ONE), s, sort="I"))
    q = c.int("q", 0, sub(c.length(saved), ONE))
    c.eq("saved-step", c.entry(saved, q), add(B_, mul(q, s), ONE))
    c.true("fitted", tt(c.get(m.o, "gibbs_fitted")))


# ------------------------------------------------------------ C15: the MAP record
def run_loglik(c, m):
    """log f(y | d, theta) + log f(d | w) of the current state (labels below T)"""
    ll = lambda i: mvn_logpdf(lambda k: m.y.at(i, k), at_atom(m.mu, m.d.at(i), m.D), at_atom2(m.sg, m.d.at(i), m.D), m.D)
    return add(Sum(ZERO, m.N, ll), var("dloglik1", "R"))


def at_atom(mu, j, D):
    return Arr([D], lambda k: mu(j).at(k), "R")


def at_atom2(sg, j, D):
    return Arr([D, D], lambda k, l: sg(j).at(k, l), "R")


@contract("C15", B + ":BaseGaussianMixture._update_map_params")
def update_map(c):
    m = Mix(c)
    m.chain()
    m.S0 = m.S.size
    c.assume(le(m.K, m.T))
    first = c.fresh_bool("first")
    if first:
        c.set(m.o, map_log_likelihood=neg(INF))
        L0 = neg(INF)
    else:
        L0 = c.real("L0")
        c.assume(gt(L0, neg(INF)))
        c.set(m.o, map_log_likelihood=L0, map_sim_params=c.opaque("earlier record"))
        e0 = c.get(m.o, "map_sim_params")
    R = run_loglik(c, m)
    if c.mode == "sym":
        c.assume(gt(R, neg(INF)))       # real-valued: positive densities and weights
    c.call(m.o, "_update_map_params")
    e = c.get(m.o, "map_sim_params")
    if first or not c.same_object(e, e0):
        if not first:
            c.true("replaced-only-when-greater", gt(R, L0))
        c.eq("log-likelihood-recorded", c.get(m.o, "map_log_likelihood"), R)
        snapshot_clauses(c, m, e)
        c.call(m.o, "_gibbs_step")
        c.equal_objects("record-kept", c.get(m.o, "map_sim_params"), e)
        snapshot_clauses(c, m, e, "-kept")
    else:
        c.true("kept-only-when-not-exceeded", le(R, L0))
        c.eq("log-likelihood-kept", c.get(m.o, "map_log_likelihood"), L0)
        c.equal_objects("record-kept", c.get(m.o, "map_sim_params"), e0)
    m.unchanged("y", "priors")


@contract("C15", B + ":BaseGaussianMixture.fit_gibbs")
def fit_gibbs_maps(c):
    """the record is compared with the initial state and with the state after every step"""
    T_, B_, s = c.int("total_iter", 1), c.int("burn_in", 0), c.int("subsample_steps", 1)
    c.assume(gt(T_, B_))
    m = Mix(c, data=False, total_iter=T_, burn_in=B_, subsample_steps=s)
    warm = c.fresh_bool("warm")
    gibbs_divided(c)
    start_divided(c)
    G = c.ghost(m.o, {
        "_initialize_common_params": lambda G, *a, **k: None,
        "_initialize_gibbs_params": lambda G, *a, **k: G.set("steps", 0),
        "_gibbs_step": lambda G: G.inc("steps"),
        "_update_map_params": lambda G: G.append("mapped", G.get("steps")),
        "_save_params": lambda G: None,
    }, steps=0, mapped=[])
    c.call(m.o, "fit_gibbs", m.y, warm_start=warm, show_progress=False)
    mp = G.get("mapped")
    off = 1 if warm else 0
    c.eq("states-compared", c.length(mp), add(T_, const(1 - off)))
    q = c.int("q", 0, sub(c.length(mp), ONE))
    c.eq("compared-state", c.entry(mp, q), add(q, const(off)))


def start_divided(c):
    """guard: starting a chain does not touch the record or save draws"""
    m = Mix(c)
    c.weights(m.o)
    calls = []
    f = lambda p: lambda G, *a: calls.append(p)
    c.ghost(m.o, {p: f(p) for p in ("_update_map_params", "_save_params", "_gibbs_step")}, real=MIXTURE_PRIVATE)
    c.call(m.o, "_initialize_gibbs_params", 1, "random")
    c.guard(not calls, "another division of labour: _initialize_gibbs_params")


# ------------------------------------------------------------ C16: cold starts
@contract("C16", B + ":BaseGaussianMixture._initialize_common_params", "priors_from_the_data_being_fitted")
def data_priors(c):
    D, N1, N2 = c.int("D", 1), c.int("N1", 2), c.int("N2", 2)
    D1 = c.int("D1", 1)
    y1, y2 = c.arr("y1", (N1, D1)), c.arr("y2", (N2, D))
    gm, gp, gn = c.fresh_bool("mu-given"), c.fresh_bool("psi-given"), c.fresh_bool("nu-given")
    kw = {}
    mu0, psi, nu0, lam0 = c.arr("mu0", (D,)), c.spd("psi", D), c.real("nu0", sub(D, ONE)), c.real("lam0", 0)
    if gm:
        kw["mu_prior"] = mu0
    if gp:
        kw["psi_prior"] = psi
    if gn:
        kw["nu_prior"] = nu0
    o = c.new(c.cls("mixture_models._dirichlet_process_mixture", "DirichletProcessMixture"), lambda_prior=lam0, rng=None, **kw)
    if c.fresh_bool("fitted-before"):
        c.call(o, "_initialize_common_params", y1)
    c.call(o, "_initialize_common_params", y2)
    mean = lambda k: div(Sum(ZERO, N2, lambda i: app("y2", i, tt(k))), N2)
    c.arr_eq("mean-prior", c.get(o, "mu_prior"), (D,), (lambda k: app("mu0", tt(k))) if gm else mean)
    cov = lambda k, l: div(Sum(ZERO, N2, lambda i: mul(sub(app("y2", i, tt(k)), mean(k)), sub(app("y2", i, tt(l)), mean(l)))), sub(N2, ONE))
    c.arr_eq("scale-prior", c.at2(c.get(o, "psi_prior")), (D, D), (lambda k, l: add(app("psi", tt(k), tt(l)), app("psi", tt(l), tt(k)))) if gp else cov)
    c.eq("degrees-of-freedom-prior", c.get(o, "nu_prior"), nu0 if gn else D)
    c.eq("precision-prior", c.get(o, "lambda_prior"), lam0)
    c.arr_eq("data", c.get(o, "y"), (N2, D), lambda i, k: app("y2", tt(i), tt(k)))


@contract("C16", B + ":BaseGaussianMixture._initialize_gibbs_params", "nothing_survives_a_cold_start")
def cold_gibbs(c):
    m = Mix(c)
    m.chain()
    groups = c.fresh_bool("groups-given")
    # an arbitrary earlier history
    c.set(m.o, map_log_likelihood=c.real("L0"), map_sim_params=c.opaque("earlier record"), total_saved_steps=c.int("saved", 0),
          affinity_matrix=c.arr("A", (m.N, m.N)), sim_params=c.list([c.opaque("earlier draw")]), n_groups=c.list([const(3)]), n_atoms=c.list([const(4)]))
    k = c.int("k", 1)
    c.ghost(m.o, {"_update_map_params": lambda G: None}, real=MIXTURE_PRIVATE)      # compared with the record after the reset
    c.call(m.o, "_initialize_gibbs_params", k if groups else None, "random")
    for n in ("sim_params", "n_groups", "n_atoms"):
        c.eq(n + "-emptied", c.length(c.get(m.o, n)), ZERO)
    c.eq("count-reset", c.get(m.o, "total_saved_steps"), ZERO)
    c.isnone("record-dropped", c.get(m.o, "map_sim_params"))
    c.eq("record-likelihood-reset", c.get(m.o, "map_log_likelihood"), neg(INF))
    c.eq("no-atoms", c.length(c.get(m.o, "theta")), ZERO)
    c.arr_eq("co-clustering-reset", c.get(m.o, "affinity_matrix"), (m.N, m.N), lambda i, j: ZERO)
    names = [t[0] for t in m.S.trace]
    c.true("weights-reset-first", const(names[:1] == ["reset"]))
    c.true("weights-drawn", const("random" in names))
    c.law("slices", (m.N,), lambda i: c.get(m.o, "u").at(i), "uniform", lambda i: {"low": c.eps(), "high": ONE})
    d = c.get(m.o, "d")
    c.eq("labels", d.shape[0].count(), m.N)
    m.unchanged("y", "priors")


@contract("C16", B + ":BaseGaussianMixture._initialize_variational_params", "cold_variational_start_random")
def cold_var_random(c):
    v = Var(c)                      # an arbitrary earlier variational state
    S = c.weights(v.o)
    K2 = c.int("K2", 1)
    c.start()
    c.call(v.o, "_initialize_variational_params", K2, "random")
    c.eq("groups", c.get(v.o, "var_k"), K2)
    th = c.get(v.o, "var_theta")
    c.eq("one-law-per-group", c.length(th), K2)
    j = c.int("j", 0, sub(K2, ONE))
    t = c.items(c.entry(th, j))
    c.eq("precision", t[1], v.lam0)
    c.eq("degrees-of-freedom", t[3], v.nu0)
    r = c.get(v.o, "var_d")
    c.arr_eq("equal-responsibilities", r, (K2, v.N), lambda j, i: div(ONE, K2))
    tr = S.trace
    c.true("weights-refitted", const([t[0] for t in tr] == ["fit_variational"]))
    c.arr_eq("weights-fitted-to-them", tr[-1][1], (K2, v.N), lambda j, i: div(ONE, K2))
    v.unchanged("y", "priors")


@contract("C16", B + ":BaseGaussianMixture._initialize_variational_params", "cold_variational_start_kmeans")
def cold_var_kmeans(c):
    v = Var(c)
    S = c.weights(v.o)
    K2 = c.int("K2", 1)
    d = c.arr("km", (v.N,), "I", 0, sub(K2, ONE))
    c.assume(Forall(ZERO, K2, lambda j: Exists(ZERO, v.N, lambda i: eq(d.at(i), j))))     # k-means leaves no group empty
    seen = []
    c.stubfunc("mixture_models._utils", "kmeans_cluster_size_biased", lambda y, k, rng: (seen.append((y, k)), d)[1])
    c.start()
    c.call(v.o, "_initialize_variational_params", K2, "kmeans")
    c.eq("groups", c.get(v.o, "var_k"), K2)
    c.eq("kmeans-groups", seen[0][1], K2)
    c.arr_eq("kmeans-data", seen[0][0], (v.N, v.D), lambda i, k: app("y", tt(i), tt(k)))
    th = c.get(v.o, "var_theta")
    c.eq("one-law-per-group", c.length(th), K2)
    j = c.int("j", 0, sub(K2, ONE))
    t = c.items(c.entry(th, j))
    mean, L, P, nu = v.posterior(lambda i: ind(eq(app("km", i, sort="I"), j)))
    c.arr_eq("mean", t[0], (v.D,), mean.at)
    c.eq("precision", t[1], L)
    c.eq("degrees-of-freedom", t[3], nu)
    c.arr_eq("scale-is-inverse-of-posterior-scale", t[2], (v.D, v.D), inv_of(P, v.D).at)
    r = c.get(v.o, "var_d")
    tr = S.trace
    c.true("weights-refitted", const([t[0] for t in tr][-1:] == ["fit_variational"]))
    c.arr_eq("weights-fitted-to-the-responsibilities", tr[-1][1], (K2, v.N), lambda j, i: r.at(j, i))
    v.unchanged("y", "priors")


# ------------------------------------------------------------ C22: variational fitting
@contract("C22", B + ":BaseGaussianMixture.fit_variational")
def fit_variational(c):
    T_ = c.int("total_iter", 1)
    m = Mix(c, data=False, total_iter=T_, burn_in=0)
    tol = c.real("tol", 0)
    c.assume(lt(tol, INF))
    el = c.arr("elbo", (T_,))
    c.assume(Forall(ZERO, T_, lambda k: and_(lt(add(el.at(k), tol), INF), lt(sub(tol, el.at(k)), INF))))    # finite

    def calc(G):
        G.inc("bounds")
        return app("elbo", sub(tt(G.get("updates")), ONE))
    divided(c, "_maximize_variational", ["_update_var_d", "_update_var_w", "_update_var_theta"])
    G = c.ghost(m.o, {
        "_initialize_common_params": lambda G, *a, **k: None,
        "_initialize_variational_params": lambda G, *a, **k: G.inc("starts"),
        "_maximize_variational": lambda G: G.inc("updates"),
        "_calc_elbo": calc,
    }, starts=0, updates=0, bounds=0)
    warm = c.fresh_bool("warm")
    c.set(m.o, var_converged=c.fresh_bool("converged-before"), var_fitted=c.fresh_bool("fitted-before"))
    c.call(m.o, "fit_variational", m.y, n_groups=c.int("k", 1), warm_start=warm, show_progress=False, tol=tol)
    n = G.get("updates")
    diff = lambda k: abs_(sub(app("elbo", tt(k)), app("elbo", sub(tt(k), ONE))))
    c.eq("starts", G.get("starts"), ZERO if warm else ONE)
    c.true("at-least-one-update", ge(n, ONE))
    c.true("at-most-the-cap", le(n, T_))
    c.all("no-earlier-convergence", (sub(n, ONE),), lambda k: or_(eq(k, ZERO), gt(diff(k), tol)))
    c.true("stops-on-convergence-or-at-the-cap", or_(eq(n, T_), and_(ge(n, const(2)), le(diff(sub(n, ONE)), tol))))
    cv = tt(c.get(m.o, "var_converged"))
    want = and_(ge(n, const(2)), le(diff(sub(n, ONE)), tol))
    c.true("converged-flag", or_(and_(cv, want), and_(not_(cv), not_(want))))
    c.true("fitted-flag", tt(c.get(m.o, "var_fitted")))


@contract("C22", B + ":BaseGaussianMixture._maximize_variational")
def maximize(c):
    m = Mix(c)
    G = c.ghost(m.o, {
        "_update_var_d": lambda G: G.append("order", 1),
        "_update_var_w": lambda G: G.append("order", 2),
        "_update_var_theta": lambda G: G.append("order", 3),
    }, real=("_maximize_variational",), order=[])
    c.call(m.o, "_maximize_variational")
    o = G.get("order")
    c.eq("one-update-each", c.length(o), const(3))
    for q in range(3):
        c.eq("responsibilities-weights-atoms", c.entry(o, const(q)), const(q + 1))


# ------------------------------------------------------------ C17: Gibbs densities
def dens(x, m, S, D):
    return exp_(mvn_logpdf(x, m, S, D))


DIMS = ["all", "several", "one"]


def pick_dim(c, D, which):
    """the `dim` argument, the number of coordinates it keeps and the kept coordinates"""
    if which == "all":
        return None, D, lambda k: tt(k)
    if which == "one":
        e = c.int("dim", 0, sub(D, ONE))
        return e, ONE, lambda k: e
    q = c.int("q", 1, D)
    a = c.arr("dims", (q,), "I", 0, sub(D, ONE))
    return a, q, lambda k: app("dims", tt(k), sort="I")


def marginal(m, S, q, keep):
    return Arr([q], lambda k: m.at(keep(k)), "R"), Arr([q, q], lambda k, l: S.at(keep(k), keep(l)), "R")


def map_density(which):
    @contract("C17", B + ":BaseGaussianMixture.gibbs_map_density", "gibbs_map_density[%s]" % which)
    def f(c):
        m = Mix(c)
        M = c.int("M", 1)
        w = c.arr("w", (M,), lo=0, hi=1)
        mu, sg = c.atoms(m.o, M, m.D)
        c.set(m.o, gibbs_fitted=True, map_sim_params=c.dict(w=w, theta=c.get(m.o, "theta")))
        dim, q, keep = pick_dim(c, m.D, which)
        n = c.int("n", 1)
        x = c.arr("x", (n, q))
        comp = c.int("component", 0, sub(M, ONE)) if c.fresh_bool("one-component") else None
        own = which == "all" and c.fresh_bool("training-data")
        r = c.call(m.o, "gibbs_map_density", None if own else x, dim=dim, component=comp)
        pt = (lambda i: lambda k: app("y", i, k)) if own else (lambda i: lambda k: app("x", i, k))

        def term(j, i):
            a, b = marginal(mu(j), sg(j), q, keep)
            return mul(app("w", tt(j)), dens(pt(tt(i)), a, b, q))
        c.arr_eq("density", r, (m.N if own else n,), (lambda i: term(comp, i)) if comp is not None else (lambda i: Sum(ZERO, M, lambda j: term(j, i))))
        c.arr_eq("weights-unchanged", c.entry(c.get(m.o, "map_sim_params"), "w"), (M,), lambda j: app("w", tt(j)))
        m.unchanged("y", "priors")
    return f


def eap_density(which):
    @contract("C17", B + ":BaseGaussianMixture.gibbs_eap_density", "gibbs_eap_density[%s]" % which)
    def f(c):
        m = Mix(c)
        S, M, w, mu, sg = c.saved(m.o, m.D)
        c.set(m.o, gibbs_fitted=True)
        dim, q, keep = pick_dim(c, m.D, which)
        n = c.int("n", 1)
        x = c.arr("x", (n, q))
        comp = None
        if c.fresh_bool("one-component"):
            comp = c.int("component", 0)
            c.assume(Forall(ZERO, S, lambda s: lt(comp, M(s))))
        per = c.int("periods", 1) if c.fresh_bool("some-periods") else None
        first = ZERO if per is None else max_(ZERO, sub(S, per))
        r = c.call(m.o, "gibbs_eap_density", x, dim=dim, component=comp, periods=per)

        def term(s, j, i):
            a, b = marginal(mu(s, j), sg(s, j), q, keep)
            return mul(w(s, j), dens(lambda k: app("x", tt(i), tt(k)), a, b, q))
        c.arr_eq("density", r, (n,), lambda i: div(Sum(first, S, lambda s: Sum(ZERO, M(s), lambda j: term(s, j, i)) if comp is None else term(s, comp, i)), sub(S, first)))
        c.eq("draws-kept", c.length(c.get(m.o, "sim_params")), S)
        m.unchanged("y", "priors")
    return f


for _d in DIMS:
    map_density(_d)
    eap_density(_d)


# ------------------------------------------------------------ C18: Gibbs clusterings
def posterior_label(pt, M, w, mu, sg, D):
    """(label, probability of a component) of the point pt under the mixture"""
    a = lambda j: add(mvn_logpdf(pt, mu(j), sg(j), D), log_(w(j)))
    lab = Argmax(ZERO, M, a)
    prob = lambda j: div(exp_(a(j)), Sum(ZERO, M, lambda l: exp_(a(l))))
    return lab, prob


@contract("C18", B + ":BaseGaussianMixture.gibbs_map_cluster")
def map_cluster(c):
    m = Mix(c)
    M = c.int("M", 1)
    w = c.arr("w", (M,), lo=0, hi=1, closed=False)
    mu, sg = c.atoms(m.o, M, m.D)
    c.set(m.o, gibbs_fitted=True, map_sim_params=c.dict(w=w, theta=c.get(m.o, "theta")))
    own = c.fresh_bool("training-data")
    n = m.N if own else c.int("n", 1)
    x = None if own else c.arr("x", (n, m.D))
    full = c.fresh_bool("full")
    r = c.call(m.o, "gibbs_map_cluster", x, full=full)
    g = r[0] if full else r
    pl = lambda i: posterior_label(lambda k: app("y" if own else "x", tt(i), tt(k)), M, lambda j: app("w", tt(j)), mu, sg, m.D)
    used = lambda j: ind(Exists(ZERO, n, lambda i: eq(pl(i)[0], tt(j))))
    c.arr_eq("label", g, (n,), lambda i: Sum(ZERO, pl(i)[0], used))
    if full:
        c.arr_eq("uncertainty", r[1], (n,), lambda i: sub(ONE, pl(i)[1](pl(i)[0])))
    m.unchanged("y", "priors")


@contract("C18", B + ":BaseGaussianMixture.gibbs_eap_affinity_matrix")
def eap_affinity_training(c):
    m = Mix(c)
    A, s = c.arr("A", (m.N, m.N)), c.int("saved", 1)
    c.set(m.o, gibbs_fitted=True, affinity_matrix=A, total_saved_steps=s)
    r = c.call(m.o, "gibbs_eap_affinity_matrix")
    c.arr_eq("fraction-of-draws", r, (m.N, m.N), lambda i, k: div(app("A", tt(i), tt(k)), s))
    c.arr_eq("counts-unchanged", c.get(m.o, "affinity_matrix"), (m.N, m.N), lambda i, k: app("A", tt(i), tt(k)))


@contract("C18", B + ":BaseGaussianMixture.gibbs_eap_affinity_matrix")
def eap_affinity_new(c):
    m = Mix(c)
    S, M, w, mu, sg = c.saved(m.o, m.D)
    c.set(m.o, gibbs_fitted=True)
    n = c.int("n", 1)
    x = c.arr("x", (n, m.D))
    r = c.call(m.o, "gibbs_eap_affinity_matrix", x)
    lab = lambda s, i: posterior_label(lambda k: app("x", tt(i), tt(k)), M(s), lambda j: w(s, j), lambda j: mu(s, j), lambda j: sg(s, j), m.D)[0]
    c.arr_eq("fraction-of-draws", r, (n, n), lambda i, k: div(Sum(ZERO, S, lambda s: ind(eq(lab(s, i), lab(s, k)))), S))
    c.all("one-on-the-diagonal", (n,), lambda i: (r.at(i, i), ONE))
    c.all("symmetric", (n, n), lambda i, k: (r.at(i, k), r.at(k, i)))
# ------------------------------------------------------------ C24: variational clusterings
def one_of(c, v):
    """the queried points: the training data or new points"""
    own = c.fresh_bool("training-data")
    n = v.N if own else c.int("n", 1)
    x = None if own else c.arr("x", (n, v.D))
    return own, n, x


def responsibility(v, elogw, eps, pt):
    """(r_j, joint_j) of a new point under the variational law"""
    G = lambda j: v.logjoint(j, pt, elogw)
    top = Max(ZERO, v.K, G)
    e = lambda j: add(exp_(sub(G(j), top)), eps)
    tot = Sum(ZERO, v.K, e)
    return lambda j: div(e(j), tot), G


@contract("C24", B + ":BaseGaussianMixture.var_map_cluster")
def var_map_cluster(c):
    v = Var(c)
    elogw = c.weightfun(v.o, "variational_mean_log_w_j", "elogw", v.K)
    c.set(v.o, var_fitted=True)
    own, n, x = one_of(c, v)
    full = c.fresh_bool("full")
    c.start()
    r = c.call(v.o, "var_map_cluster", x, full=full)
    g = r[0] if full else r

    def spec(i):
        if own:
            q = lambda j: v.r.at(j, i)
            return Argmax(ZERO, v.K, q), q
        q, G = responsibility(v, elogw, c.eps(), lambda k: app("x", tt(i), tt(k)))
        return Argmax(ZERO, v.K, G), q
    c.arr_eq("label", g, (n,), lambda i: spec(i)[0])
    if full:
        c.arr_eq("uncertainty", r[1], (n,), lambda i: sub(ONE, spec(i)[1](spec(i)[0])))
    c.arr_eq("responsibilities-unchanged", c.get(v.o, "var_d"), (v.K, v.N), lambda j, i: app("r", j, i))
    v.unchanged("y", "priors")


@contract("C24", B + ":BaseGaussianMixture.var_eap_affinity_matrix")
def var_eap_affinity(c):
    v = Var(c)
    elogw = c.weightfun(v.o, "variational_mean_log_w_j", "elogw", v.K)
    c.set(v.o, var_fitted=True)
    own, n, x = one_of(c, v)
    c.start()
    r = c.call(v.o, "var_eap_affinity_matrix", x)
    resp = (lambda j, i: v.r.at(j, i)) if own else (lambda j, i: responsibility(v, elogw, c.eps(), lambda k: app("x", tt(i), tt(k)))[0](j))
    c.arr_eq("affinity", r, (n, n), lambda i, k: Sum(ZERO, v.K, lambda j: mul(resp(j, i), resp(j, k))))
    c.all("symmetric", (n, n), lambda i, k: (r.at(i, k), r.at(k, i)))
    c.arr_eq("responsibilities-unchanged", c.get(v.o, "var_d"), (v.K, v.N), lambda j, i: app("r", j, i))
    v.unchanged("y", "priors")


# ------------------------------------------------------------ C23: variational densities
def student(x, m, s, P, nu, D):
    """Student t density with nu degrees of freedom, location m and precision matrix s * P"""
    h = div(add(nu, D), const(2))
    lognorm = add(sub(lg(h), lg(div(nu, const(2)))), div(add(logdet_of(P, D), mul(D, log_(s))), const(2)), neg(mul(div(D, const(2)), log_(mul(nu, PI)))))
    return exp_(sub(lognorm, mul(h, log_(add(ONE, div(mul(s, quad(x, m.at, P, D)), nu))))))


def normal_prec(x, m, s, P, D):
    """normal density with mean m and precision matrix s * P"""
    return exp_(sub(sub(div(add(logdet_of(P, D), mul(D, log_(s))), const(2)), mul(div(D, const(2)), log_(mul(const(2), PI)))), div(mul(s, quad(x, m.at, P, D)), const(2))))


def kept_precision(which, A, D, q, keep):
    """precision of the kept coordinates of a vector of precision A"""
    if which == "all":
        return A
    V = inv_of(A, D)
    return inv_of(Arr([q, q], lambda k, l: V.at(keep(k), keep(l)), "R"), q)


def var_density(which, kind):
    @contract("C23", B + ":BaseGaussianMixture.var_%s_density" % kind, "var_%s_density[%s]" % (kind, which))
    def f(c):
        v = Var(c, over=lambda D: D if kind == "map" else sub(D, ONE))
        S = c.weights(v.o)
        K, D = v.K, v.D
        c.set(v.o, var_fitted=True)
        dim, q, keep = pick_dim(c, D, which)
        if which == "several":      # no coordinate twice
            c.assume(Forall(ZERO, q, lambda a: Forall(ZERO, a, lambda b: not_(eq(keep(a), keep(b))))))
        n = c.int("n", 1)
        x = c.arr("x", (n, q))
        comp = c.int("component", 0, sub(K, ONE)) if c.fresh_bool("one-component") else None
        own = which == "all" and c.fresh_bool("training-data")
        c.start()
        r = c.call(v.o, "var_%s_density" % kind, None if own else x, dim=dim, component=comp)
        pt = (lambda i: lambda k: app("y", i, k)) if own else (lambda i: lambda k: app("x", i, k))

        def term(j, i):
            m = Arr([q], lambda k: v.m_(j).at(keep(k)), "R")
            W, nu, l = v.W_(j), v.n_(j), v.l_(j)
            if kind == "map":
                return mul(app("modew0", tt(j)), normal_prec(pt(tt(i)), m, sub(nu, D), kept_precision(which, W, D, q, keep), q))
            dof = sub(add(nu, ONE), D)
            return mul(app("ew0", tt(j)), student(pt(tt(i)), m, div(mul(dof, l), add(ONE, l)), kept_precision(which, W, D, q, keep), dof, q))
        c.arr_eq("density", r, (v.N if own else n,), (lambda i: term(comp, i)) if comp is not None else (lambda i: Sum(ZERO, K, lambda j: term(j, i))))
        c.arr_eq("responsibilities-unchanged", c.get(v.o, "var_d"), (K, v.N), lambda j, i: app("r", j, i))
        v.unchanged("y", "priors")
    return f


for _d in DIMS:
    var_density(_d, "eap")
    var_density(_d, "map")


