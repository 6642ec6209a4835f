"""Contracts of the mixtures' front door: construction, data containers, fitted flags, generators
(C16, C25, C26, C27)."""
from .con import *
from .c_mix import B, Mix, Var, KINDS

GIBBS = ["gibbs_eap_density", "gibbs_map_density", "gibbs_eap_affinity_matrix", "gibbs_eap_spectral_consensus_cluster", "gibbs_map_cluster"]
VARIATIONAL = ["var_eap_density", "var_map_density", "var_eap_affinity_matrix", "var_eap_spectral_consensus_cluster", "var_map_cluster"]

# mixture -> (module, {parameter: how an arbitrary valid value is made}, its weight model)
P = {"pos": lambda c, n: c.real(n, 0), "unit": lambda c, n: c.real(n, 0, 1), "count": lambda c, n: c.int(n, 1), "nat": lambda c, n: c.int(n, 0)}
CTORS = {
    "DirichletProcessMixture": ("_dirichlet_process_mixture", {"alpha": "pos"}, "DirichletProcess"),
    "PitmanYorMixture": ("_pitman_yor_process_mixture", {"pyd": "unit", "alpha": "pos"}, "PitmanYorProcess"),
    "GeometricProcessMixture": ("_geometric_process_mixture", {"a": "pos", "b": "pos"}, "GeometricProcess"),
    "DirichletDistributionMixture": ("_dirichlet_distribution_mixture", {"n": "count"}, "DirichletDistribution"),
    "EqualWeightedMixture": ("_equal_weighted_mixture", {"n": "count"}, "EqualWeighting"),
    "FrequencyWeightedMixture": ("_frequency_weighted_mixture", {"n": "count"}, "FrequencyWeighting"),
    "BetaInBetaMixture": ("_beta_in_beta_mixture", {"x": "unit", "alpha": "pos", "a": "pos", "b": "pos"}, "BetaInBeta"),
    "BetaInDirichletMixture": ("_beta_in_dirichlet_mixture", {"alpha": "pos", "a": "pos"}, "BetaInDirichlet"),
    "BetaBinomialMixture": ("_beta_binomial_mixture", {"n": "nat", "alpha": "pos"}, "BetaBinomial"),
    "BetaBernoulliMixture": ("_beta_bernoulli_mixture", {"p": "unit", "alpha": "pos"}, "BetaBernoulli"),
}
WEIGHTS = {"DirichletProcess": "_dirichlet_process", "PitmanYorProcess": "_pitman_yor_process", "GeometricProcess": "_geometric_process", "DirichletDistribution": "_dirichlet_distribution",
           "EqualWeighting": "_equal", "FrequencyWeighting": "_frequency", "BetaInBeta": "_beta_in_beta", "BetaInDirichlet": "_beta_in_dirichlet", "BetaBinomial": "_beta_binomial",
           "BetaBernoulli": "_beta_bernoulli"}


def cls_of(c, name):
    return c.cls("mixture_models." + CTORS[name][0], name)


def where(name):
    return "mixture_models.%s:%s.__init__" % (CTORS[name][0], name)


def params(c, name):
    return {k: P[v](c, k) for k, v in CTORS[name][1].items()}


# ------------------------------------------------------------ C16: what the constructor is given is used
def construct(name):
    @contract("C16", where(name), "given_parameters_are_used[%s]" % name)
    def f(c):
        D = c.int("D", 1)
        mu0, psi, nu0, lam0 = c.arr("mu0", (D,)), c.spd("psi", D), c.real("nu0", sub(D, ONE)), c.real("lam0", 0)
        T_, B_, s = c.int("total_iter", 1), c.int("burn_in", 0), c.int("subsample_steps", 1)
        c.assume(gt(T_, B_))
        kw = params(c, name)
        o = c.new(cls_of(c, name), mu_prior=mu0, lambda_prior=lam0, psi_prior=psi, nu_prior=nu0, total_iter=T_, burn_in=B_, subsample_steps=s, rng=None, **kw)
        c.arr_eq("mean-prior", c.get(o, "mu_prior"), (D,), lambda k: app("mu0", tt(k)))
        c.eq("precision-prior", c.get(o, "lambda_prior"), lam0)
        c.arr_eq("scale-prior", c.get(o, "psi_prior"), (D, D), lambda k, l: add(app("psi", tt(k), tt(l)), app("psi", tt(l), tt(k))))
        c.eq("degrees-of-freedom-prior", c.get(o, "nu_prior"), nu0)
        for n, v in [("total_iter", T_), ("burn_in", B_), ("subsample_steps", s)]:
            c.eq(n, c.get(o, n), v)
        w = c.get(o, "weight_model")
        for n, v in kw.items():
            c.eq("weights-" + n, c.get(w, n), v)
    return f


# ------------------------------------------------------------ C25: refused before the fit
def fresh_refuses(name):
    @contract("C25", where(name), "fresh_object_refuses[%s]" % name)
    def f(c):
        o = c.new(cls_of(c, name), rng=None, **params(c, name))
        x = c.arr("x", (c.int("n", 1), c.int("D", 1))) if c.fresh_bool("new-points") else None
        for q in GIBBS + VARIATIONAL:
            c.raises(q, lambda: c.call(o, q, x), "NotFittedError")
    return f


for _n in CTORS:
    construct(_n)
    fresh_refuses(_n)


def refuses(q):
    @contract("C25", B + ":BaseGaussianMixture." + q, "refused[%s]" % q)
    def f(c):
        """whatever else was fitted, is stored or was saved by an unfinished fit"""
        v = Var(c)
        M = c.int("M", 1)
        c.atoms(v.o, M, v.D)
        w = c.arr("w", (M,), lo=0, hi=1)
        state = c.dict(w=w, theta=c.get(v.o, "theta"))
        other = c.fresh_bool("other-fit-completed")
        mine, its = ("gibbs_fitted", "var_fitted") if q in GIBBS else ("var_fitted", "gibbs_fitted")
        c.set(v.o, map_sim_params=state, sim_params=c.list([state]), total_saved_steps=c.int("saved", 1), affinity_matrix=c.arr("A", (v.N, v.N)), **{mine: False, its: other})
        x = c.arr("x", (c.int("n", 1), v.D)) if c.fresh_bool("new-points") else None
        c.raises("refused", lambda: c.call(v.o, q, x), "NotFittedError")
    return f


def accepted(q):
    @contract("C25", B + ":BaseGaussianMixture." + q, "accepted[%s]" % q)
    def f(c):
        """once the matching fit has completed, also when a fit of the other kind is under way or done"""
        v = Var(c, over=lambda D: D)
        c.weights(v.o)
        S, M, w, mu, sg = c.saved(v.o, v.D)
        other = c.fresh_bool("other-fit-completed")
        mine, its = ("gibbs_fitted", "var_fitted") if q in GIBBS else ("var_fitted", "gibbs_fitted")
        c.set(v.o, map_sim_params=c.entry(c.get(v.o, "sim_params"), ZERO), total_saved_steps=S, affinity_matrix=c.arr("A", (v.N, v.N)), **{mine: True, its: other})
        x = c.arr("x", (c.int("n", 1), v.D)) if c.fresh_bool("new-points") else None
        r = c.attempt(lambda: c.call(v.o, q, x))
        c.true("accepted", const(not isinstance(r, Exc)))
    return f


for _q in GIBBS + VARIATIONAL:
    refuses(_q)
    if "spectral" not in _q:
        accepted(_q)


def flags(c, o, g, v):
    c.eq("gibbs-flag", c.get(o, "gibbs_fitted"), const(g))
    c.eq("variational-flag", c.get(o, "var_fitted"), const(v))


@contract("C25", B + ":BaseGaussianMixture.fit_gibbs", "flags_after_fit_gibbs")
def flags_gibbs(c):
    """completed: Gibbs queries enabled, the others as before; broken off anywhere: nothing enabled"""
    T_, B_ = c.int("total_iter", 1), c.int("burn_in", 0)
    c.assume(gt(T_, B_))
    m = Mix(c, data=False, total_iter=T_, burn_in=B_)
    g0, v0 = c.fresh_bool("gibbs-before"), c.fresh_bool("variational-before")
    c.set(m.o, gibbs_fitted=g0, var_fitted=v0)
    where_ = c.int("fails-in", 0, 4)
    c.ghost(m.o, {
        "_initialize_common_params": lambda G, *a, **k: c.throw("TypeError") if c.decide(eq(where_, ZERO)) else None,
        "_initialize_gibbs_params": lambda G, *a, **k: c.throw("ValueError") if c.decide(eq(where_, ONE)) else None,
        "_gibbs_step": lambda G: c.throw("ValueError") if c.decide(eq(where_, const(2))) else None,
        "_update_map_params": lambda G: None,
        "_save_params": lambda G: c.throw("ValueError") if c.decide(eq(where_, const(3))) else None,
    })
    r = c.attempt(lambda: c.call(m.o, "fit_gibbs", m.y, warm_start=c.fresh_bool("warm"), show_progress=False))
    if isinstance(r, Exc):
        flags(c, m.o, g0, v0)
    else:
        flags(c, m.o, True, v0)


@contract("C25", B + ":BaseGaussianMixture.fit_variational", "flags_after_fit_variational")
def flags_variational(c):
    T_ = c.int("total_iter", 1)
    m = Mix(c, data=False, total_iter=T_, burn_in=0)
    g0, v0 = c.fresh_bool("gibbs-before"), c.fresh_bool("variational-before")
    c.set(m.o, gibbs_fitted=g0, var_fitted=v0)
    where_ = c.int("fails-in", 0, 4)
    G = c.ghost(m.o, {
        "_initialize_common_params": lambda G, *a, **k: c.throw("TypeError") if c.decide(eq(where_, ZERO)) else None,
        "_initialize_variational_params": lambda G, *a, **k: c.throw("ValueError") if c.decide(eq(where_, ONE)) else None,
        "_maximize_variational": lambda G: c.throw("ValueError") if c.decide(eq(where_, const(2))) else G.inc("k"),
        "_calc_elbo": lambda G: c.throw("ValueError") if c.decide(eq(where_, const(3))) else app("elbo", tt(G.get("k"))),
    }, k=0)
    c.arr("elbo", (add(T_, ONE),))
    r = c.attempt(lambda: c.call(m.o, "fit_variational", m.y, n_groups=c.int("k", 1), warm_start=c.fresh_bool("warm"), show_progress=False))
    if isinstance(r, Exc):
        flags(c, m.o, g0, v0)
    else:
        flags(c, m.o, g0, True)


def both(c, o):
    g0, v0 = c.fresh_bool("gibbs-before"), c.fresh_bool("variational-before")
    c.set(o, gibbs_fitted=g0, var_fitted=v0)
    return g0, v0


def frame(name, prepare, act):
    @contract("C25", B + ":BaseGaussianMixture." + name, "flags_kept[%s]" % name)
    def f(c):
        m = prepare(c)
        g0, v0 = both(c, m.o)
        act(c, m)
        flags(c, m.o, g0, v0)
    return f


def chain(c):
    m = Mix(c)
    m.chain()
    return m


def variational(c):
    v = Var(c)
    c.weights(v.o)
    return v


def positive_r(c):
    v = variational(c)
    c.assume(Forall(ZERO, v.K, lambda j: Forall(ZERO, v.N, lambda i: gt(v.r.at(j, i), ZERO))))
    return v


frame("_initialize_common_params", lambda c: Mix(c, data=False), lambda c, m: c.call(m.o, "_initialize_common_params", m.y))
frame("_initialize_gibbs_params", chain, lambda c, m: c.call(m.o, "_initialize_gibbs_params", 1, "random"))
frame("_initialize_variational_params", variational, lambda c, m: c.call(m.o, "_initialize_variational_params", c.int("K2", 1), "random"))
frame("_gibbs_step", chain, lambda c, m: c.call(m.o, "_gibbs_step"))
frame("_save_params", chain, lambda c, m: c.call(m.o, "_save_params"))
frame("_maximize_variational", positive_r, lambda c, m: c.call(m.o, "_maximize_variational"))


# ------------------------------------------------------------ C26: data containers
FORMS = {"list": 2, "array": 2, "frame": 2, "flat-list": 1, "flat-array": 1, "series": 1}


def data(c, form, name, D):
    """a container of the form; its values as a function of observation and coordinate; its length"""
    n = c.int("n_" + name, 2)
    if FORMS[form] == 2:
        a = c.arr(name, (n, D))
        return c.container(form, a), n, lambda i, k: app(name, tt(i), tt(k))
    a = c.arr(name, (n,))
    return c.container(form.replace("flat-", ""), a), n, lambda i, k: app(name, tt(i))


def fitting(form):
    @contract("C26", B + ":BaseGaussianMixture._initialize_common_params", "fit_data[%s]" % form)
    def f(c):
        D = ONE if FORMS[form] == 1 else c.int("D", 1)
        o = c.new(cls_of(c, "DirichletProcessMixture"), rng=None)
        x, n, v = data(c, form, "x", D)
        c.call(o, "_initialize_common_params", x)
        c.arr_eq("observations", c.get(o, "y"), (n, D), v)
        mean = lambda k: div(Sum(ZERO, n, lambda i: v(i, k)), n)
        c.arr_eq("mean-prior", c.get(o, "mu_prior"), (D,), mean)
        c.untouched("caller-data-unchanged", x)
        c.overwrite(x)
        c.arr_eq("observations-kept", c.get(o, "y"), (n, D), v)
        c.arr_eq("mean-prior-kept", c.get(o, "mu_prior"), (D,), mean)
    return f


for _f in FORMS:
    fitting(_f)


@contract("C26", B + ":BaseGaussianMixture._initialize_common_params", "other_types_refused_in_fitting")
def refuse_fit(c):
    m = Mix(c)
    for k in ("none", "string", "tuple", "dict", "object", "number", "float"):
        c.raises(k, lambda: c.call(m.o, "_initialize_common_params", c.odd(k)), "TypeError")
    m.unchanged("y")


def gibbs_ready(c):
    m = Mix(c)
    S, M, w, mu, sg = c.saved(m.o, m.D)
    c.set(m.o, gibbs_fitted=True, map_sim_params=c.entry(c.get(m.o, "sim_params"), ZERO))
    return m


def var_ready(c):
    v = Var(c, over=lambda D: D)
    c.weights(v.o)
    c.set(v.o, var_fitted=True)
    return v


def ready(c, q):
    return gibbs_ready(c) if q in GIBBS else var_ready(c)


def query_form(q, form):
    @contract("C26", B + ":BaseGaussianMixture." + q, "query[%s,%s]" % (q, form))
    def f(c):
        m = ready(c, q)
        if FORMS[form] == 1:
            c.assume(eq(m.D, ONE))
        x, n, v = data(c, form, "x", m.D)
        plain = Arr([n, m.D], lambda i, k: v(i, k), "R")
        want = c.call(m.o, q, plain)
        got = c.call(m.o, q, x)
        c.arr_eq("same-answer", got, [d.count() for d in want.shape], want.snap())
        c.untouched("caller-data-unchanged", x)
        m.unchanged("y")
    return f


def query_odd(q):
    @contract("C26", B + ":BaseGaussianMixture." + q, "other_types_refused[%s]" % q)
    def f(c):
        m = ready(c, q)
        for k in ("string", "tuple", "dict", "object"):
            c.raises(k, lambda: c.call(m.o, q, c.odd(k)), "TypeError")
    return f


def query_point(q):
    @contract("C26", B + ":BaseGaussianMixture." + q, "scalar_point[%s]" % q)
    def f(c):
        m = ready(c, q)
        c.assume(eq(m.D, ONE))
        p = c.real("p")
        want = c.call(m.o, q, Arr([ONE, ONE], lambda i, k: p, "R"))
        got = c.call(m.o, q, p)
        c.arr_eq("same-answer", got, [d.count() for d in want.shape], want.snap())
    return f


for _q in GIBBS + VARIATIONAL:
    if "spectral" not in _q:
        for _f in FORMS:
            if _f != "array":
                query_form(_q, _f)
        query_odd(_q)
        query_point(_q)


@contract("C26", B + ":BaseGaussianMixture.gibbs_map_density", "query_array_unchanged")
def query_array(c):
    """a two-dimensional array is not modified by any query, nor kept"""
    g, v = gibbs_ready(c), None
    x, n, val = data(c, "array", "x", g.D)
    for q in GIBBS:
        if "spectral" not in q:
            c.call(g.o, q, x)
            c.untouched(q, x)
    g.unchanged("y")


@contract("C26", B + ":BaseGaussianMixture.var_map_density", "query_array_unchanged_variational")
def query_array_var(c):
    v = var_ready(c)
    x, n, val = data(c, "array", "x", v.D)
    for q in VARIATIONAL:
        if "spectral" not in q:
            c.call(v.o, q, x)
            c.untouched(q, x)
    v.unchanged("y")
    c.arr_eq("responsibilities-unchanged", c.get(v.o, "var_d"), (v.K, v.N), lambda j, i: app("r", j, i))


# ------------------------------------------------------------ C27: generators
@contract("C27", "utils.validators:rng_parser")
def parser(c):
    g = c.generator()
    c.equal_objects("given-generator-used", c.func("utils.validators", "rng_parser", g), g)
    s = c.int("seed", 0)
    c.seeded("seed-used", c.func("utils.validators", "rng_parser", s), s)
    c.seeded("none", c.func("utils.validators", "rng_parser", None), None)
    for k in ("string", "tuple", "dict", "object", "float", "randomstate", "seedsequence"):
        c.raises("refused-" + k, lambda: c.func("utils.validators", "rng_parser", c.odd(k)), "TypeError")


def generators(name):
    mod, kw, wname = CTORS[name]

    @contract("C27", where(name), "generator[%s]" % name)
    def f(c):
        p = params(c, name)
        K, W = cls_of(c, name), c.cls("weight_models." + WEIGHTS[wname], wname)
        g = c.generator()
        o = c.make(K, rng=g, **p)
        c.equal_objects("mixture-uses-the-given-generator", c.get(o, "rng"), g)
        c.equal_objects("weights-use-the-given-generator", c.get(c.get(o, "weight_model"), "_rng"), g)
        c.equal_objects("model-uses-the-given-generator", c.get(c.make(W, rng=g, **p), "_rng"), g)
        s = c.int("seed", 0)
        o = c.make(K, rng=s, **p)
        c.seeded("mixture-uses-the-seed", c.get(o, "rng"), s)
        if wname != "GeometricProcess" or c.mode == "sym":      # its constructor draws
            c.seeded("weights-use-the-seed", c.get(c.get(o, "weight_model"), "_rng"), s)
            c.seeded("model-uses-the-seed", c.get(c.make(W, rng=s, **p), "_rng"), s)
        for k in ("string", "tuple", "object", "float", "randomstate"):
            c.raises("mixture-refuses-" + k, lambda: c.make(K, rng=c.odd(k), **p), "TypeError")
            c.raises("model-refuses-" + k, lambda: c.make(W, rng=c.odd(k), **p), "TypeError")
    return f


for _n in CTORS:
    generators(_n)
