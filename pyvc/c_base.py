"""Contracts of the methods every weighting model inherits (C01, C07, C08)."""
from .con import *
from .c_weights import cl, q, branch, MODELS


def model(c, name):
    """a model holding n >= 1 weights: any nonnegative vector of positive total (concretely: a draw)"""
    kw = {"DirichletProcess": lambda: {"alpha": c.real("alpha", 0)},
          "PitmanYorProcess": lambda: {"pyd": c.real("pyd", 0, 1), "alpha": c.real("alpha", 0)},
          "GeometricProcess": lambda: {"a": c.real("a", 0), "b": c.real("b", 0)},
          "BetaInBeta": lambda: {"x": c.real("x", 0, 1), "alpha": c.real("alpha", 0), "a": c.real("a", 0), "b": c.real("b", 0)},
          "BetaBinomial": lambda: {"n": c.int("nn", 0), "alpha": c.real("alpha", 0)},
          "BetaBernoulli": lambda: {"p": c.real("p", 0, 1), "alpha": c.real("alpha", 0)},
          "BetaInDirichlet": lambda: {"a": c.real("conc", 0), "alpha": c.real("alpha", 0)},
          "DirichletDistribution": lambda: {"n": c.int("n0", 1), "alpha": c.real("alpha", 0)},
          "EqualWeighting": lambda: {"n": c.int("n0", 1)},
          "FrequencyWeighting": lambda: {"n": c.int("n0", 1)}}[name]()
    o = c.new(cl(c, name), rng=None, **kw)
    n = c.int("m", 1)
    if c.mode == "con":
        c.history(o, int(c.ev(n)))
        k = len(o.o.w)
        c.val.vars["m"] = c.inputs["m"] = k
    w = c.state(o, "w", "w0", (n,), lo=0, closed=True)
    c.assume(gt(Sum(ZERO, n, lambda j: w.at(j)), ZERO))
    return o, n, w


for _n in MODELS:
    def reg(name):
        @contract("C01", "weight_models._base:BaseWeight.get_normalized_cumulative_weights", name + "_normalized")
        def normalized(c):
            o, n, w = model(c, name)
            tot = Sum(ZERO, n, lambda j: w.at(j))
            r = c.call(o, "get_normalized_weights")
            c.arr_eq("normalized", r, (n,), lambda j: div(w.at(j), tot))
            c.eq("normalized:total-one", Sum(ZERO, n, lambda j: r.at(j)), ONE)
            c.all("normalized:nonnegative", (n,), lambda j: ge(r.at(j), ZERO))
            C = c.call(o, "get_normalized_cumulative_weights")
            c.eq("cumulative:size", C.shape[0].count(), n)
            c.all("cumulative", (n,), lambda j: (C.at(j), div(Sum(ZERO, add(j, ONE), lambda l: w.at(l)), tot)))
            c.all("cumulative:nondecreasing", (sub(n, ONE),), lambda j: le(C.at(j), C.at(add(j, ONE))))
            c.eq("cumulative:last", C.at(sub(n, ONE)), ONE)
            g = c.call(o, "get_weights")
            c.arr_eq("get_weights", g, (n,), lambda j: w.at(j))
            c.eq("get_size", c.call(o, "get_size"), n)
            c.arr_eq("unchanged", c.get(o, "w"), (n,), lambda j: app("w0", j))

        for many in (False, True):
            def mk_(many):
                @contract("C07", "weight_models._base:BaseWeight.random_assignment", name + "_random_assignment" + ("_many" if many else ""))
                def random_assignment(c):
                    o, n, w = model(c, name)
                    tot = Sum(ZERO, n, lambda j: w.at(j))
                    C = lambda j: div(Sum(ZERO, add(tt(j), ONE), lambda l: w.at(l)), tot)
                    N = c.int("size", 0) if many else None
                    c.start()
                    r = c.call(o, "random_assignment", N) if many else c.call(o, "random_assignment")
                    if many:
                        c.eq("size", r.shape[0].count(), N)
                        i = c.int("i", 0)
                        c.assume(lt(i, N))
                        at, lo, hi = c.uniforms()
                        u, lab = at(i), r.at(i)
                    else:
                        c.true("single", const(not isinstance(r, Arr) or r.ndim == 0))
                        at, lo, hi = c.uniforms()
                        u, lab = at(), c.num(r)
                    c.eq("uniform:from", lo, ZERO)
                    c.eq("uniform:to", hi, ONE)
                    c.arr_eq("weights-unchanged", c.get(o, "w"), (n,), lambda j: app("w0", j))
                    # labels are valid indices
                    if c.mode == "sym":
                        c.assume(and_(ge(u, ZERO), lt(u, ONE)))
                        f = lambda l: ind(gt(u, C(l)))
                        c.lemma("last-covers", (), lambda: (f(sub(n, ONE)), ZERO))
                        c.lemma("split-last", (), lambda: (Sum(ZERO, n, f), add(Sum(ZERO, sub(n, ONE), f), f(sub(n, ONE)))))
                        c.true("valid-index", and_(ge(lab, ZERO), le(lab, sub(n, ONE))))
                    # the interval of label j
                    j = c.int("label", 0)
                    if c.mode == "con":
                        j = const(int(c.ev(lab)))
                        c.true("valid-index", and_(ge(j, ZERO), lt(j, n)))
                        c.true("interval", and_(or_(eq(j, ZERO), lt(C(sub(j, ONE)), u + 1e-12)), le(u, C(j) + 1e-12)))
                        return
                    c.assume(lt(j, n))
                    c.assume(le(u, C(j)))
                    c.assume(or_(eq(j, ZERO), lt(C(sub(j, ONE)), u)))
                    c.lemma("above-iff-before", (n,), lambda l: (ind(gt(u, C(l))), ind(lt(l, j))))
                    c.eq("interval", lab, j)
                return random_assignment
            mk_(many)
    reg(_n)
