"""Contracts: one text, two readings.

A contract is a function f(c).  Read symbolically, c interprets the repository
source (pyvc.interp) for every input and turns each clause into obligations
that are discharged by pyvc.prove; read concretely, c runs the real code under
CPython on sampled inputs and evaluates the same clauses (replay of failed
obligations and cross-check of the verifier's library contracts).
"""
import ast
import collections
import copy
import math
import os
import random
import re
import signal
import sys
import time
import traceback

import numpy as np

from fractions import Fraction
from .sym import *
from . import smt, interp, kept
from .interp import Interp
from .prove import Prover
from .evalt import Val, NoValue

REPO = interp.REPO
CONTRACTS = []
real_default_rng = np.random.default_rng


class Contract:
    def __init__(self, prop, func, f, name, modular, opts):
        self.prop, self.func, self.f, self.name, self.modular, self.opts = prop, func, f, name, modular, opts


def contract(prop, func, name=None, **opts):
    """register a contract of `func` (module:Class.method) for one or several properties"""
    def deco(f):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            CONTRACTS.append(Contract(p, func, f, name or f.__name__, False, opts))
        return f
    return deco


class Reject(Exception):
    """a concrete sample outside the precondition"""


class Exc:
    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg

    def __repr__(self):
        return "Exc(%s)" % self.exc


class ClauseFailed(Exception):
    pass


def infinite(t):
    """1 or -1 when t is that infinity plus something finite, else None"""
    p = pd(t)
    for m, k in p.items():
        if len(m) == 1 and m[0][0] is INF and m[0][1] == 1:
            rest = [x for n in p if n is not m for x, _ in n]
            if not any(s in (INF, NAN) for x in rest for s in subterms(x)):
                return 1 if k > 0 else -1
    return None


def goal_eq(a, b):
    """equation as a goal: the difference is kept whole (indicators are split by the prover)"""
    a, b = tt(a), tt(b)
    if a is b:
        return TRUE
    if a.sort == "B":
        return eq(a, b)
    if any(s.op in ("inf", "nan") or s in (INF, NAN) for x in (a, b) for s in subterms(x)):
        if infinite(a) and infinite(a) == infinite(b):
            return TRUE
        return eq(a, b)
    d = sub(a, b)
    if d.op == "const":
        return eq(a, b)
    return mk("eq0", (d,), "B")


def same(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


# =================================================================== base class
def Argmax(lo, hi, f):
    return binder("argmax", tt(lo), tt(hi), f)


def scalar_(v):
    return interp.scalar(v) if isinstance(v, T) else v


class Base:
    """what contracts see in both readings"""

    def int(self, name, lo=None, hi=None):
        v = var(name, "I")
        self._bounds(v, lo, hi)
        return v

    def real(self, name, lo=None, hi=None, closed=False):
        v = var(name, "R")
        self._bounds(v, lo, hi, closed)
        return v

    def arr(self, name, dims, kind="R", lo=None, hi=None, closed=False):
        """input array: entries are name(i, j..)"""
        dims = [tt(d) for d in dims]
        f = lambda *i: app(name, *[tt(x) for x in i], sort="B" if kind == "B" else kind)
        self._array(name, dims, kind, lo, hi, closed, f)
        return Arr(dims, f, kind)

    def arrf(self, dims, f, kind="R"):
        """array given by a formula"""
        return Arr([tt(d) for d in dims], lambda *i: tt(f(*[tt(x) for x in i])), kind)

    def spd(self, name, D):
        """symmetric positive definite D x D input: entries name(i, j) + name(j, i)"""
        D = tt(D)
        self._spd(name, D)
        return Arr([D, D], lambda i, j: add(app(name, tt(i), tt(j)), app(name, tt(j), tt(i))), "R")

    def atoms(self, o, K, D, attr="theta", some=False):
        """atoms 0..K-1 of an arbitrary earlier state: mean (D,), covariance (D, D); with `some`
        exactly those exist"""
        D = tt(D)
        mu = lambda j: Arr([D], lambda k: app("atom_mu", tt(j), tt(k)), "R")
        sg = lambda j: Arr([D, D], lambda k, l: add(app("atom_cov", tt(j), tt(k), tt(l)), app("atom_cov", tt(j), tt(l), tt(k))), "R")
        self._atoms(o, tt(K), D, attr, mu, sg, some)
        return mu, sg

    def vartheta(self, o, K, D, attr="var_theta", over=None):
        """normal-Wishart parameters of K groups: mean, precision, scale, degrees of freedom
        (vt_n plus `over`; vt_n > 0 when `over` is given, else degrees of freedom > D - 1)"""
        K, D = tt(K), tt(D)
        m = lambda j: Arr([D], lambda k: app("vt_m", tt(j), tt(k)), "R")
        l = lambda j: app("vt_l", tt(j))
        W = lambda j: Arr([D, D], lambda k, q: add(app("vt_W", tt(j), tt(k), tt(q)), app("vt_W", tt(j), tt(q), tt(k))), "R")
        n = lambda j: add(app("vt_n", tt(j)), tt(0 if over is None else over))
        self._vartheta(o, K, D, attr, m, l, W, n, over)
        return m, l, W, n

    # specification helpers
    def saved(self, o, D, attr="sim_params"):
        """an arbitrary list of saved draws: draw q has weights w(q, .) and as many atoms"""
        S, D = self.int("S", 1), tt(D)
        M = lambda q: app("sM", tt(q), sort="I")
        w = lambda q, j: app("sw", tt(q), tt(j))
        mu = lambda q, j: Arr([D], lambda k: app("smu", tt(q), tt(j), tt(k)), "R")
        sg = lambda q, j: Arr([D, D], lambda k, l: add(app("scov", tt(q), tt(j), tt(k), tt(l)), app("scov", tt(q), tt(j), tt(l), tt(k))), "R")
        self._saved(o, S, D, attr, M, w, mu, sg)
        return S, M, w, mu, sg

    def S(self, lo, hi, f): return Sum(tt(lo), tt(hi), f)
    def P(self, lo, hi, f): return Prod(tt(lo), tt(hi), f)

    def items(self, x):
        """the entries of a list or tuple"""
        return list(x.items) if isinstance(x, PyList) else list(x)

    def eps(self):
        """the machine epsilon of double precision"""
        return const(Fraction(1, 2 ** 52))

    def atom(self, o, j, attr="theta"):
        """(mean, covariance) of atom j"""
        return self.entry(self.get(o, attr), j)

    def positive(self, label, dims, f):
        """every f(i...) is strictly positive (concretely: the float is > 0, no tolerance)"""
        if self.mode == "sym":
            return self.all(label, dims, lambda *i: gt(f(*i), ZERO))
        for i in np.ndindex(*[int(self.ev(d)) for d in dims]):
            self.checked += 1
            x = self.ev(self.num(f(*[const(k) for k in i])))
            if not x > 0:
                self.bad(label, "value %r at %s is not positive" % (x, i))

    def arr_eq(self, label, a, dims, f):
        if not isinstance(a, Arr):
            return self.fail(label + ":type", "not an array: %r" % (a,))
        if a.ndim != len(dims):
            return self.fail(label + ":ndim", "array of %d dimensions" % a.ndim)
        for d, n in zip(a.shape, dims):
            self.eq(label + ":shape", d.count(), n)
        self.all(label, dims, lambda *i: (a.at(*i), f(*i)))


# ============================================================ symbolic reading
MIXTURE_PRIVATE = ["_initialize_common_params", "_initialize_gibbs_params", "_initialize_variational_params", "_get_run_params", "_save_params", "_update_map_params", "_update_weights",
                   "_update_atoms", "_update_d", "_gibbs_step", "_d_log_likelihood_vector", "_run_log_likelihood", "_y_log_likelihood", "_d_log_likelihood", "_w_log_likelihood",
                   "_theta_log_likelihood", "_maximize_variational", "_calc_elbo", "_update_var_w", "_update_var_theta", "_update_var_d", "_e_q_log_p_x", "_e_q_log_p_d__w", "_e_log_p_w",
                   "_e_log_p_theta", "_e_log_q_d", "_e_loq_q_w", "_e_log_q_theta"]


PLAIN = ("const", "poly", "ge0", "eq0", "not", "and", "or")


def reach(st, env):
    """the statement and the functions its code may call: methods of the objects in scope and functions of the modules, by name"""
    out, todo = [st], [st]
    classes = {v.cls for v in env.vars.values() if isinstance(v, interp.Obj) and isinstance(v.cls, interp.ClassVal)}
    e = env
    scopes = []
    while e is not None:
        scopes.append(e.vars)
        e = e.parent
    while todo:
        n = todo.pop()
        for q in ast.walk(n):
            found = []
            if isinstance(q, ast.Attribute):
                found = [c.attrs.get(q.attr) for k in classes for c in k.mro()]
            elif isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load):
                found = [v.get(q.id) for v in scopes]
            for f in found:
                if isinstance(f, interp.FuncVal) and f.node not in out:
                    out.append(f.node)
                    todo.append(f.node)
    return out


class Sym(Base):
    mode = "sym"

    def __init__(self, con, seconds=60.0, repo=REPO):
        self.con = con
        smt.reset()
        self.m = Machine()
        self.m.decider = smt.decide
        smt.DRAWS = self.m
        self.ip = Interp(self.m, repo)
        self.obl = {}
        self.order = []
        self.npaths = 0
        self.reached = {}
        self.deadline = time.time() + seconds
        self.d0 = self.nbase = 0
        self.backends = {}
        self.seconds = seconds
        self.models = []
        self.raws = {}

    def model(self, facts, label):
        """a candidate input for the failing path, used to steer the replay"""
        if len(self.models) >= 6:
            return
        for b in (3, 8, 40, 300):
            try:
                m = smt.model(facts, b, 1500)
            except Exception:
                return
            if m is not None:
                m["label"] = label
                self.models.append(m)
                return

    def run(self):
        err = None
        self.ip.preload()
        try:
            outs = self.m.explore(lambda fr: self.one(fr), limit=400)
            self.npaths = len(outs)
        except Unsupported as e:
            err = "unsupported: %s at %s" % (e, self.m.where)
        except TooBig as e:
            err = "too big: %s" % e
        except RecursionError:
            pass
            err = "recursion"
        return err

    def one(self, fr):
        if time.time() > self.deadline:
            raise Unsupported("contract time budget")
        self.d0 = len(self.m.draws)
        self.ip.onset = None
        self.seals = {}
        try:
            self.con.f(self)
        except Raised as e:
            if smt.check(self.m.facts, 1000) == "unsat":
                raise Infeasible()
            self.fail("no-exception", "%s raised on path %s" % (e, [show(c, 200) for c in fr.conds]))
        return True

    # inputs
    def _bounds(self, v, lo, hi, closed=True):
        if lo is not None:
            self.m.assume(ge(v, tt(lo)) if closed or v.sort == "I" else gt(v, tt(lo)))
        if hi is not None:
            self.m.assume(le(v, tt(hi)) if closed or v.sort == "I" else lt(v, tt(hi)))

    def _array(self, name, dims, kind, lo, hi, closed, f):
        def nest(k, idx):
            if k == len(dims):
                t = f(*idx)
                c = []
                if lo is not None:
                    c.append(ge(t, tt(lo)) if closed or kind == "I" else gt(t, tt(lo)))
                if hi is not None:
                    c.append(le(t, tt(hi)) if closed or kind == "I" else lt(t, tt(hi)))
                return and_(*c)
            return Forall(ZERO, dims[k], lambda b: nest(k + 1, idx + [b]))
        if lo is not None or hi is not None:
            self.m.assume(nest(0, []))

    def _spd(self, name, D):
        pass

    def _vartheta(self, o, K, D, attr, m, l, W, n, over):
        self.m.assume(Forall(ZERO, K, lambda j: and_(gt(l(j), ZERO), gt(n(j), sub(D, ONE) if over is None else tt(over)))))
        self.set(o, **{attr: PyList(interp.SymList(K, lambda j: PyList([m(j), l(j), W(j), n(j)])))})

    def weightfun(self, o, meth, name, K):
        """the weight model's method `meth` as an arbitrary function of the group"""
        w = self.get(o, "weight_model")
        self.m.setd(w.attrs, meth, interp.Stub(meth, lambda ip, a, k: app(name, tt(a[0]))))
        return lambda j: app(name, tt(j))

    def weightcall(self, o, meth, name, nargs=0, kw=None):
        """the weight model's method `meth` returning an arbitrary number; the arguments passed"""
        w = self.get(o, "weight_model")
        seen = []

        def f(ip, a, k):
            a = list(a) + list(k.values())
            if len(a) > nargs:
                raise Unsupported("arguments of " + meth)
            seen.extend(a)
            return var(name, "R")
        self.m.setd(w.attrs, meth, interp.Stub(meth, f))
        return var(name, "R"), seen

    def length(self, l):
        return tt(interp.bi_len(self.ip, [l], {}))

    def _atoms(self, o, K, D, attr, mu, sg, some):
        if some:
            f = getattr(self.get(o, attr), "factory", None)
            if f is None:
                raise Unsupported("no atom generator")
            self.set(o, **{attr: interp.DefDict(("base", lambda k: (mu(k), sg(k)), lambda k: and_(ge(k, ZERO), lt(k, K)), K), f)})
            return
        self.set(o, **{attr: interp.DefDict(("base", lambda k: (mu(k), sg(k))), "factory")})

    def dict(self, **items):
        return PyDict({interp.dkey(k): v for k, v in items.items()})

    def _saved(self, o, S, D, attr, M, w, mu, sg):
        self.m.assume(Forall(ZERO, S, lambda q: ge(M(q), ONE)))
        self.m.assume(Forall(ZERO, S, lambda q: Forall(ZERO, M(q), lambda j: gt(w(q, j), ZERO))))
        draw = lambda q: self.dict(w=Arr([M(q)], lambda j: w(q, j), "R"), theta=interp.DefDict(("base", lambda k: (mu(q, k), sg(q, k)), lambda k: and_(ge(k, ZERO), lt(k, M(q))), M(q))))
        self.set(o, **{attr: PyList(interp.SymList(S, draw))})

    def assume(self, f):
        self.m.assume(tt(f))
        if smt.check(self.m.facts, 300) == "unsat":
            raise Infeasible()

    def fresh_bool(self, name):
        return self.m.branch(var(name, "B"))

    def cls(self, mod, name):
        return self.ip.get("pyrichlet." + mod, name)

    def rng(self):
        return Opaque("rng", "Generator")

    def opaque(self, name, pytype=None):
        return Opaque(name, pytype)

    def new(self, cls, *a, **k):
        if "rng" in k and k["rng"] is None:
            k["rng"] = self.rng()
        o = self.ip.call(cls, list(a), k)
        self.ip.keep(o)
        return o

    def raw(self, cls, **attrs):
        """instance without running the constructor"""
        o = Obj(cls, attrs, cls.name)
        self.raws[id(o)] = o
        return o

    def set(self, o, **attrs):
        for k, v in attrs.items():
            if isinstance(o, Obj) and k not in o.attrs and id(o) not in self.raws:
                raise Unsupported("no attribute " + k)
            self.ip.setattr(o, k, v)
        self.ip.keep(o, only=self.ip.kept_other)

    def get(self, o, name, sealed=False):
        try:
            v = self.ip.getattr(o, name)
            return v if sealed else self.unseal(v)
        except Raised as e:
            if e.exc == "AttributeError" and isinstance(o, Obj):
                raise Unsupported("no attribute " + name)
            raise

    def state(self, o, attr, name, dims, kind="R", lo=None, hi=None, closed=False):
        """attribute of an object in an arbitrary state that satisfies the stated bounds
        (concretely: the state the real code reached)"""
        if attr not in o.attrs:
            raise Unsupported("no attribute " + attr)
        a = self.arr(name, dims, kind, lo, hi, closed)
        self.set(o, **{attr: a})
        return a

    def initial(self, o, *names):
        """precondition: these attributes have the values the constructor gave them"""
        for k in names:
            if isinstance(o.attrs.get(k), Kept) and o.attrs[k].value is not None:
                self.set(o, **{k: o.attrs[k].value})

    def peek(self, o, name):
        """the value of an attribute, or the value the constructor gave it"""
        v = o.attrs.get(name)
        return v.value if isinstance(v, Kept) else v

    def has(self, o, name):
        return name in o.attrs

    def entry(self, d, j):
        return self.ip.getitem(d, j if isinstance(j, str) else tt(j))

    def at1(self, x):
        from . import npstub
        return npstub.atleast_1d(x)

    def at2(self, x):
        from . import npstub
        return npstub.atleast_2d(x)

    def decide(self, f):
        """case distinction"""
        return self.m.branch(tt(f))

    def start(self):
        self.d0 = len(self.m.draws)
        self.nbase = len(self.m.facts)

    def draws(self):
        return self.m.draws[self.d0:]

    def call(self, o, meth, *a, **k):
        if isinstance(a, tuple) and meth is not None:
            if isinstance(o, Obj) and meth not in o.attrs and o.cls.lookup(meth) is None:
                raise Unsupported("no method %s" % meth)
            f = self.ip.getattr(o, meth)
        else:
            f = o
        return self.unseal(self.ip.call(f, list(a), k))

    seals = {}

    def seal(self, o, attr, lo, hi):
        """every vector stored in the attribute from now on is named: its elements become v!k(j), with
        the defining terms kept in self.seals (and used wherever the contract looks at values) and the
        bounds lo..hi, once proved, as a fact.  The name stands for any vector with these bounds, so
        what is proved of it holds of the vector stored."""
        m = self.m

        def stored(v):
            if not isinstance(v, Arr) or v.ndim != 1 or v.imap is not None or v.kind != "R" or m.loops or not v.shape[0].plain():
                return
            n = v.shape[0].count()
            if n.op == "const":
                return
            j = var("seal!j", "I")
            body = v.at(j)
            if body.op == "app" and body.args[0] != "draw" or height(body) == 0 and not top_inds(body):
                return
            bounds = Forall(ZERO, n, lambda l: and_(ge(subst(body, {j: l}), tt(lo)), le(subst(body, {j: l}), tt(hi))))
            if not Prover(min(20.0, max(1.0, self.deadline - time.time()))).prove(m.facts, self.expand(bounds)):
                return
            rest = tuple(sorted((x for x in fv(body) if x is not j and x.sort == "I" and not x.args[0].startswith("_b")), key=key))
            name = "seal!%d" % m.ident("seal")
            self.seals[name] = ((j,) + rest, body)
            v.cell.fn = lambda l: app(name, tt(l), *rest)
            m.assume(Forall(ZERO, n, lambda l: and_(ge(v.at(l), tt(lo)), le(v.at(l), tt(hi)))))
        self.ip.onset = (o, attr, stored)

    def expand(self, t):
        """t with the named vectors replaced by their definitions"""
        if not self.seals or not isinstance(t, T):
            return t

        def f(s):
            if s.op == "app" and s.args[0] in self.seals:
                vs, body = self.seals[s.args[0]]
                return self.expand(subst(body, dict(zip(vs, [self.expand(x) for x in s.args[1:]]))))
            return None
        return replace(t, f)

    def unseal(self, v):
        if self.seals and isinstance(v, Arr):
            fn = v.snap()
            return Arr(v.shape, lambda *i: self.expand(fn(*i)), v.kind, v.meta)
        return v

    def func(self, mod, name, *a, **k):
        try:
            f = self.ip.get("pyrichlet." + mod, name)
        except (Raised, KeyError, AttributeError, FileNotFoundError):
            raise Unsupported("no function %s.%s" % (mod, name))
        return self.ip.call(f, list(a), k)

    def attempt(self, thunk):
        try:
            return thunk()
        except Raised as e:
            return Exc(e.exc, e.msg)

    def list(self, items):
        return PyList(items)

    # while loops ----------------------------------------------------------
    def invariant(self, inv):
        """inv has havoc(c) (put the state in an arbitrary state satisfying the invariant),
        entry(c) and step(c) (obligations) and writes(c) (locations the loop may change);
        `inner`, if any, makes the invariant of the loops inside the public methods the loop calls"""
        c = self

        class Ctx:
            def __enter__(s):
                c.ip.while_any = lambda ip, st, env: c._while(inv, st, env)

            def __exit__(s, *a):
                c.ip.while_any = None
        return Ctx()

    def counting(self, inv, which):
        """invariant of the counting loop whose body `which` recognises (a test of the syntax trees of the body and
        of the methods it calls)"""
        c = self

        class Ctx:
            def __enter__(s):
                c.ip.for_any = lambda st, env, d, bind: (c._for(inv, st, env, d, bind),) if which(reach(st, env)) else None

            def __exit__(s, *a):
                c.ip.for_any = None
        return Ctx()

    def named_picks(self):
        """the results of argmax stand as numbers of their own"""
        self.m.picks = {}

    def _inputs(self, inv, st, env, names):
        """everything the body of a loop reads, but for what the invariant describes; None if not comparable"""
        own = {(id(x), k) for x, k in inv.writes(self)}
        attrs = {q.attr for n in reach(st, env) for q in ast.walk(n) if isinstance(q, ast.Attribute)}
        seen = {}

        class Other(Exception):
            pass

        def fp(v):
            if v is None or isinstance(v, (bool, int, float, str, T)):
                return v
            if isinstance(v, Arr):
                if any(d.mask is not None for d in v.shape):
                    raise Other(repr(v)[:100])
                at = v.at(*[var("fp!%d" % k, "I") for k in range(v.ndim)])
                return ("arr", v.kind, tuple(tt(d.n) for d in v.shape), at)
            if isinstance(v, PyList) and isinstance(v.items, list):
                return ("list",) + tuple(fp(x) for x in v.items)
            if isinstance(v, tuple):
                return ("tuple",) + tuple(fp(x) for x in v)
            if isinstance(v, interp.Obj):
                if id(v) in seen:
                    return ("again", seen[id(v)])
                seen[id(v)] = len(seen)
                if v.cls is None:
                    return ("object", v.name) + tuple((k, fp(x)) for k, x in sorted(v.attrs.items()))
                if not isinstance(v.cls, interp.ClassVal):
                    raise Other(repr(v)[:100])
                return ("obj", v.cls) + tuple((k, fp(x)) for k, x in sorted(v.attrs.items()) if (id(v.attrs), k) not in own and k in attrs)
            if isinstance(v, interp.Opaque):
                if id(v) in seen:
                    return ("again", seen[id(v)])
                seen[id(v)] = len(seen)
                return ("opaque", v.name)
            if isinstance(v, (interp.ClassVal, interp.ModuleVal, interp.ExtMod)):
                return v
            raise Other(repr(v)[:100])
        loads = sorted({q.id for q in ast.walk(st) if isinstance(q, ast.Name)} - names)
        try:
            return (id(st),) + tuple((x, fp(env.vars[x])) for x in loads if x in env.vars)
        except Other:
            return None

    def _for(self, inv, st, env, d, bind):
        m, ip = self.m, self.ip
        if not d.plain():
            raise Unsupported("loop over a selection")
        inv.env, inv.loop, inv.count = env, st, d.count()
        inv.entry(self)
        known = set(env.vars)
        names = {q.id for q in ast.walk(st) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
        N = d.count()

        def forget():
            for x in names:
                if x in env.vars:
                    m.setd(env.vars, x, Poison("set by the loop"))

        def one(fr):
            d0 = self.d0
            i = var("it!%d" % m.ident("it"), "I")
            m.assume(ge(i, ZERO))
            m.assume(lt(i, N))
            # the arrays in the written places belong to nobody else
            at = [x.get(k) for x, k in inv.writes(self)]
            for a in at:
                if isinstance(a, Arr) and any(isinstance(b, Arr) and b.cell is a.cell for x, k in inv.writes(self) for q, b in x.items() if b is not a):
                    raise Unsupported("shared array")
            inv.havoc(self, i)
            cells = [x[k].cell for x, k in inv.writes(self) if isinstance(x.get(k), Arr)]
            if smt.check(m.facts, 500) == "unsat":
                raise Infeasible()
            forget()
            t0, s0 = m.mark(), stamp()
            bind(i)
            self.d0 = len(m.draws)
            try:
                r = ip.exec_body(st.body, env)
            except Raised as e:
                self.fail("loop-body-no-exception", "%s raised in the loop body" % e.exc)
                return
            if r is not None and r[0] != "continue":
                raise Unsupported("the loop is left early")
            ok = [(id(x), k) for x, k in inv.writes(self)] + [(id(x), "fn") for x in cells]
            for e in m.trail[t0:]:
                if len(e) > 2 and e[1] is env.vars and (e[2] not in known or e[2] in names):
                    continue
                if e[0] in ("dict", "attr") and getattr(e[1], "stamp", 0) < s0 and (id(e[1]), e[2]) not in ok:
                    raise Unsupported("the loop writes %r" % (e[2],))
            inv.step(self, i)
            self.d0 = d0
            return True
        key = self._inputs(inv, st, env, names) if getattr(inv, "general", False) else None
        if key is None:
            m.explore(one)
        elif not any(k == key and f <= set(m.facts) for k, f in self.__dict__.setdefault("loops_done", [])):
            # from the facts of the contract and those on the parameters: once for all paths on which the loop works on the same values
            about = {x for p in inv.parameters() for x in subterms(tt(p)) if x.op == "var"}
            facts, m.facts = m.facts, m.facts[:self.nbase] + [f for f in m.facts[self.nbase:] if {x for x in subterms(f) if x.op not in PLAIN} <= about]
            self.loops_done.append((key, set(m.facts)))
            try:
                m.explore(one)
            finally:
                m.facts = facts
        inv.havoc(self, N)
        forget()
        return None

    def _while(self, inv, st, env):
        m, ip = self.m, self.ip
        if getattr(inv, "inner", None) and any(q.endswith((".complete", ".random")) for q in ip.stack):
            inv = inv.inner()
        inv.env, inv.loop = env, st
        inv.entry(self)
        known = set(env.vars)
        early = []

        def one(fr):
            d0 = self.d0
            inv.havoc(self)
            if not ip.truth(ip.ev(st.test, env)):
                raise Infeasible()
            if smt.check(m.facts, 500) == "unsat":
                raise Infeasible()
            t0 = m.mark()
            s0 = stamp()
            try:
                r = ip.exec_body(st.body, env)
            except Raised as e:
                self.fail("loop-body-no-exception", "%s raised in the loop body" % e.exc)
                return
            if r is not None and r[0] != "continue":
                early.append(r[0])       # this iteration is the last: taken up after the loop
                self.d0 = d0
                return True
            ok = [(id(x), k) for x, k in inv.writes(self)]
            for e in m.trail[t0:]:
                if len(e) > 2 and e[1] is env.vars and e[2] not in known:
                    continue            # a local variable of the body
                if e[0] in ("dict", "attr") and getattr(e[1], "stamp", 0) < s0 and (id(e[1]), e[2]) not in ok:
                    raise Unsupported("the loop writes %r" % (e[2],))
            inv.step(self)
            self.d0 = d0
            return True
        m.explore(one)
        leave = bool(early) and m.choose()
        inv.havoc(self)
        if leave:
            # the invariant held before an iteration that ends the loop from inside
            if not ip.truth(ip.ev(st.test, env)):
                raise Infeasible()
            r = ip.exec_body(st.body, env)
            if r is None or r[0] == "continue":
                raise Infeasible()
            return None if r[0] == "break" else r
        if ip.truth(ip.ev(st.test, env)):
            raise Infeasible()
        if st.orelse:
            return ip.exec_body(st.orelse, env)
        return None

    # clauses ------------------------------------------------------------
    def record(self, label, status, reason="", pr=None, goal=None, definite=True):
        o = self.obl.setdefault(label, {"name": label, "status": "proved", "paths": 0, "reason": "", "s": 0.0, "used": set(), "definite": True})
        if status != "proved" and not definite:
            o["definite"] = False
        if label not in self.order:
            self.order.append(label)
        o["paths"] += 1
        if status != "proved" and o["status"] == "proved":
            o["status"], o["reason"] = status, reason[:1500]
        if pr is not None:
            o["used"] |= pr.used
        return o

    def oblige(self, label, goal, extra=()):
        t0 = time.time()
        pr = Prover(min(30.0, max(1.0, self.deadline - t0)))
        ok = pr.prove(self.m.facts + list(extra), goal)
        if not ok:
            self.model(self.m.facts + list(extra) + [not_(goal)], label)
            self.model(self.m.facts + list(extra), label)
        definite = bool(pr.fail) and not any(w in pr.fail for w in ("budget", "hvF", "hvN", "Limit", "too big"))
        o = self.record(label, "proved" if ok else "unknown", "" if ok else "residue: %s | path: %s" % (pr.fail, [show(c, 150) for c in self.m.frames[-1].conds][:8]), pr, definite=definite)
        o["s"] += time.time() - t0
        return ok

    def fail(self, label, why):
        if smt.check(self.m.facts, 1000) == "unsat":
            return
        self.model(self.m.facts, label)
        self.record(label, "unknown", why)

    def num(self, x, label=None):
        """scalar value"""
        if isinstance(x, Arr) and x.ndim == 0:
            x = x.at()
        if isinstance(x, Poison):
            raise Unsupported(x.why)
        return tt(x)

    def eq(self, label, a, b):
        if isinstance(a, Exc) or isinstance(b, Exc):
            return self.fail(label, "exception %s" % (a if isinstance(a, Exc) else b).exc)
        try:
            a, b = self.num(a), self.num(b)
        except TypeError:
            return self.fail(label, "not a number: %r" % (a,))
        if a.sort == "B" and b.sort != "B":
            a = ind(a)
        if b.sort == "B" and a.sort != "B":
            b = ind(b)
        self.oblige(label, goal_eq(a, b))

    def true(self, label, c):
        self.oblige(label, tt(c))

    def all(self, label, dims, f):
        vs = [fresh("sk", "I") for _ in dims]
        ex = []
        for v, d in zip(vs, dims):
            ex += [ge(v, ZERO), lt(v, tt(d))]
        k = len(self.m.trail)
        # element functions may branch: run under the range facts
        mark = self.m.mark()
        try:
            for x in ex:
                self.m.assume(x)
            try:
                r = f(*vs)
            except Infeasible:
                return
            if isinstance(r, tuple):
                a, b = r
                a, b = self.num(a), self.num(b)
                if a.sort == "B" and b.sort != "B":
                    a = ind(a)
                if b.sort == "B" and a.sort != "B":
                    b = ind(b)
                r = goal_eq(a, b)
            self.oblige(label, r)
        except Infeasible:
            return
        finally:
            self.m.undo(mark)

    def lemma(self, label, dims, f):
        """prove an intermediate statement, then use it"""
        self.all(label, dims, f)
        if self.obl.get(label, {}).get("status") != "proved":
            return

        def nest(k, idx):
            if k == len(dims):
                r = f(*idx)
                return goal_eq(*r) if isinstance(r, tuple) else tt(r)
            return Forall(ZERO, tt(dims[k]), lambda b: nest(k + 1, idx + [b]))
        self.m.assume(nest(0, []))

    def variate(self, d, *idx):
        return app("draw", const(d.id), *(tuple(d.loop) + tuple(tt(i) for i in idx)))

    def variate_param(self, d, name):
        return d.params(*[fresh("sk", "I") for _ in d.shape])[name]

    def uniforms(self):
        """the variates drawn since start(), in order of use: (at(i), low, high)"""
        ds = self.draws()
        if len(ds) != 1 or ds[0].kind != "uniform" or ds[0].loop:
            raise Unsupported("variates drawn in another pattern: %s" % [d.kind for d in ds])
        d = ds[0]
        return lambda *i: self.variate(d, *(i if d.shape else ())), self.variate_param(d, "low"), self.variate_param(d, "high")

    def raises(self, label, thunk, exc):
        try:
            thunk()
        except Raised as e:
            if interp.exc_matches(e.exc, exc, self.ip):
                self.record(label, "proved")
                return True
            self.fail(label, "raised %s instead of %s" % (e.exc, exc))
            return False
        self.fail(label, "no %s raised" % exc)
        return False

    def equal_objects(self, label, a, b):
        """same object"""
        if a is b:
            self.record(label, "proved")
        else:
            self.fail(label, "a different object")

    def same_object(self, a, b):
        return a is b

    def isnone(self, label, a):
        if a is None:
            self.record(label, "proved")
        else:
            self.fail(label, "not None")

    # random variates ------------------------------------------------------
    def drawinfo(self, t):
        """(kind, params dict, id, index) of an elementary variate"""
        if t.op != "app" or t.args[0] != "draw":
            return None
        d = self.m.bydraw.get(int(t.args[1].args[0]))
        if d is None:
            return None
        nl = len(d.loop)
        loops, idx = t.args[2:2 + nl], t.args[2 + nl:]
        p = d.params(*idx) if d.kind != "choice" else {}
        p = {k: subst(v, dict(zip(d.loop, loops))) for k, v in p.items()}
        return d.kind, p, d.id, tuple(t.args[2:]), d

    def cases(self, t, depth=0):
        """yield t with its indicators decided, one feasible case at a time (facts assumed)"""
        t = tt(t)
        from .norm import Norm
        t = Norm(self.m.facts).simp(t)
        cs = [s.args[0] for s in subterms(t) if s.op == "ind" and not any(v.args[0].startswith("_b") for v in fv(s))]
        if not cs:
            yield t
            return
        c = sorted(cs, key=lambda x: (len(key(x)), key(x)))[0]
        for f in (c, not_(c)):
            mark = self.m.mark()
            try:
                self.m.assume(f)
                if smt.check(self.m.facts, 500) == "unsat":
                    continue
                yield from self.cases(t, depth + 1)
            except Infeasible:
                continue
            finally:
                self.m.undo(mark)

    def sweep(self, label, b, L, law):
        """the 0/1 vector b of L entries was updated entry by entry: entry j (from 1) is a Bernoulli variate
        with parameter law(j, s, e), where s < j is the last entry before j that is 1 after its own update
        (0 if there is none) and e > j is the first entry after j that is 1 before its update (L if there
        is none); law returns (parameter, facts under which it is specified)"""
        from .prove import Prover
        J, s, e = fresh("sk", "I"), fresh("s", "I"), fresh("e", "I")
        mark = self.m.mark()
        try:
            start = [d for d in self.draws() if d.kind == "binomial" and not d.loop and len(d.shape) == 1]
            if not start:
                raise Unsupported("no vector of indicators to start from")
            old = lambda l: app("draw", const(start[0].id), l, sort="I")
            for f in (ge(J, ONE), lt(J, L), ge(s, ZERO), lt(s, J), gt(e, J), le(e, L)):
                self.m.assume(f)
            if smt.check(self.m.facts, 500) == "unsat":
                return
            for t in self.cases(b.at(J)):
                di = self.drawinfo(t)
                if di is None or di[0] != "binomial":
                    self.fail(label, "entry is no Bernoulli variate: %s" % show(t, 300))
                    continue
                d = di[4]
                if not d.loop:
                    self.fail(label, "entry is not updated: %s" % show(t, 300))
                    continue
                self.oblige(label + ":n", eq(di[1]["n"], ONE))
                got = di[1]["p"]
                m2 = self.m.mark()
                try:
                    old_facts = set(self.m.facts)
                    for f in d.facts:
                        self.m.assume(subst(f, dict(zip(d.loop, di[3]))))
                    new = lambda l: subst(t, {J: l})
                    self.m.assume(or_(eq(s, ZERO), ne(new(s), ZERO)))
                    self.m.assume(Forall(ZERO, J, lambda l: or_(le(l, s), eq(new(l), ZERO))))
                    self.m.assume(or_(eq(e, L), ne(old(e), ZERO)))
                    self.m.assume(Forall(ZERO, e, lambda l: or_(le(l, J), eq(old(l), ZERO))))
                    known = {}
                    for x in sorted({x for x in subterms(got) if x.op == "app" and x.args[0] == "scan"}, key=key):
                        for val in (sub(sub(J, ONE), s), sub(sub(e, J), ONE), sub(J, s), sub(e, J)):
                            inst = [implies(and_(ge(val, ZERO), lt(val, f.args[2])), subst(f.args[3], {f.args[0]: val})) for f in self.m.facts if f.op == "forall" and f not in old_facts]
                            l = sub(sub(J, ONE), x)
                            inst.append(implies(and_(gt(l, s), ge(l, ZERO), lt(l, J)), eq(new(l), ZERO)))
                            l = add(add(J, ONE), x)
                            inst.append(implies(and_(gt(l, J), lt(l, e)), eq(old(l), ZERO)))
                            if Prover(5.0).prove(self.m.facts + inst, eq(x, val)):
                                known[x] = val
                                break
                        else:
                            raise Unsupported("the extent of an inner loop")
                    got = replace(got, lambda x: known.get(x))
                    want, given = law(J, s, e)
                    # the special functions of equal arguments are equal: opaque from here on
                    lgs = lambda *ts: {x for t in ts for x in subterms(t) if x.op == "app" and x.args[0] == "lgam"}
                    name = {x: fresh("lgam", "R") for x in sorted(lgs(want, *given), key=key)}
                    for x in sorted(lgs(got) - set(name), key=key):
                        for y in [y for y in name if y in lgs(want)]:
                            if self.same_argument(x.args[1], y.args[1]):
                                name[x] = name[y]
                                break
                    rep = lambda t: replace(t, lambda x: name.get(x))
                    for f in given:
                        self.m.assume(rep(f))
                    self.oblige(label, goal_eq(rep(got), rep(want)))
                finally:
                    self.m.undo(m2)
        except Infeasible:
            pass
        finally:
            self.m.undo(mark)

    def same_argument(self, x, y):
        """x = y, sums of equal length being compared entry by entry"""
        from .prove import Prover
        v = fresh("sk", "I")

        def split(t):
            """(rest, [(length, entry v)]) of a term"""
            rest, sums = ZERO, []
            for m, c in (t.args if t.op == "poly" else [(((t, Fraction(1)),), Fraction(1))]):
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum":
                    b, lo, hi, body = m[0][0].args
                    n, e = sub(hi, lo), mul(const(c), subst(body, {b: add(lo, v)}))
                    for q in sums:
                        if q[0] is n:
                            q[1] = add(q[1], e)
                            break
                    else:
                        sums.append([n, e])
                else:
                    r = const(c)
                    for a, k in m:
                        r = mul(r, power(a, const(k)))
                    rest = add(rest, r)
            return rest, sums
        (r1, s1), (r2, s2) = split(x), split(y)
        if len(s1) != len(s2) or sub(r1, r2) is not ZERO:
            return False
        for n, e in s1:
            o = [q for q in s2 if q[0] is n]
            if len(o) != 1 or not Prover(5.0).prove(self.m.facts + [ge(v, ZERO), lt(v, n)], goal_eq(e, o[0][1])):
                return False
        return True

    def matlaw(self, label, a, kind, params):
        """the array a is one variate of `kind` (a vector or matrix), drawn with the given parameters
        (scalars, or arrays)"""
        ks = [fresh("sk", "I") for _ in a.shape]
        mark = self.m.mark()
        try:
            for v, d in zip(ks, a.shape):
                self.m.assume(ge(v, ZERO))
                self.m.assume(lt(v, d.count()))
            if smt.check(self.m.facts, 500) == "unsat":
                return None
            did = None
            for t in self.cases(a.at(*ks)):
                di = self.drawinfo(t)
                if di is None or di[0] != kind:
                    return self.fail(label, "value is not a fresh %s variate: %s" % (kind, show(t, 400)))
                nl = len(di[4].loop)
                for x, y in zip(di[3][nl:], ks):
                    self.oblige(label + ":entry", eq(x, y))
                did = (di[2], di[3][:nl])
                for k, w in params.items():
                    got = di[1][k]
                    if isinstance(w, Arr):
                        if got.op != "lam" or len(got.args[0]) != w.ndim:
                            self.fail(label + ":" + k, "shape")
                            continue
                        vs, ds, body = open_lam(got, tuple(fresh("sk", "I") for _ in w.shape))
                        for x, y in zip(ds, w.shape):
                            self.oblige(label + ":" + k, eq(x, y.count()))
                        self.oblige(label + ":" + k, goal_eq(body, tt(w.at(*vs))), [f for v, d in zip(vs, w.shape) for f in (ge(v, ZERO), lt(v, d.count()))])
                    else:
                        self.oblige(label + ":" + k, goal_eq(got, tt(w)))
            return did
        except Infeasible:
            return None
        finally:
            self.m.undo(mark)

    def law(self, label, dims, f, kind, params, injective=True, when=None):
        """for all indices: f(idx) is an elementary variate of `kind` with the given
        parameters; variates at different indices are different"""
        vs = [fresh("sk", "I") for _ in dims]
        mark = self.m.mark()
        try:
            for v, d in zip(vs, dims):
                self.m.assume(ge(v, ZERO))
                self.m.assume(lt(v, tt(d)))
            if when is not None:
                self.m.assume(tt(when(*vs)))
            if smt.check(self.m.facts, 500) == "unsat":
                return
            want = params(*vs)
            for t in self.cases(f(*vs)):
                di = self.drawinfo(t)
                if di is None:
                    self.fail(label, "value is not a fresh variate: %s" % show(t, 400))
                    continue
                if di[0] != kind:
                    self.fail(label, "drawn from %s, not %s" % (di[0], kind))
                    continue
                self.parameters(label, di[1], want)
                if injective and len(vs) == 1:
                    self.injective(label + ":independent", vs[0], dims[0], f, di, when)
        except Infeasible:
            pass
        finally:
            self.m.undo(mark)

    def parameters(self, label, got, want):
        """a wanted parameter is a term, a predicate or (kind, parameters) of a variate"""
        for k, w in want.items():
            if isinstance(w, tuple):
                for t in self.cases(got[k]):
                    di = self.drawinfo(t)
                    if di is None or di[0] != w[0]:
                        self.fail(label, "parameter %s is no %s variate: %s" % (k, w[0], show(t, 300)))
                        continue
                    self.parameters(label, di[1], w[1])
            elif callable(w):
                self.oblige(label, w(got[k]))
            else:
                self.oblige(label, goal_eq(got[k], tt(w)))

    def suppose(self, cond, clauses):
        """the clauses hold in case of cond"""
        mark = self.m.mark()
        try:
            self.m.assume(tt(cond))
            if smt.check(self.m.facts, 500) != "unsat":
                clauses()
        except Infeasible:
            pass
        finally:
            self.m.undo(mark)

    def gumbel_entry(self, label, t, j):
        """t is an argmax of log-weights plus independent standard Gumbel noise, one variate per candidate:
        (end of the range of candidates, log-weight of candidate j, its variate); None when it is not"""
        if t.op != "argmax":
            return self.fail(label, "not an argmax: %s" % show(t, 300))
        b, lo, hi, body = t.args
        self.oblige(label + ":range", eq(lo, ZERO))
        body = subst(body, {b: j})
        us = [x for x in subterms(body) if self.drawinfo(x) is not None and self.drawinfo(x)[0] in ("uniform", "gumbel", "exponential")]
        if len(us) != 1:
            return self.fail(label, "%d variates in the maximised expression %s" % (len(us), show(body, 300)))
        u = us[0]
        di = self.drawinfo(u)
        noise = {"uniform": neg(log_(neg(log_(u)))), "gumbel": u, "exponential": neg(log_(u))}.get(di[0])
        for k, w in {"uniform": {"low": ZERO, "high": ONE}, "gumbel": {"loc": ZERO, "scale": ONE}, "exponential": {"scale": ONE}}[di[0]].items():
            self.oblige(label + ":noise-law", goal_eq(di[1][k], w))
        return hi, body, noise, u, di

    def gumbelmax(self, label, r, K, N, logp):
        """for every i < N: r_i is the index j < K maximising logp(j, i) plus standard Gumbel noise,
        one independent variate for every pair"""
        i = fresh("sk", "I")
        mark = self.m.mark()
        try:
            self.oblige(label + ":count", eq(r.shape[0].count(), tt(N)))
            self.m.assume(ge(i, ZERO))
            self.m.assume(lt(i, tt(N)))
            if smt.check(self.m.facts, 500) == "unsat":
                return
            for t in self.cases(r.at(i)):
                j = fresh("sk", "I")
                m2 = self.m.mark()
                try:
                    self.m.assume(ge(j, ZERO))
                    self.m.assume(lt(j, tt(K)))
                    e = self.gumbel_entry(label, t, j)
                    if e is None:
                        continue
                    hi, body, noise, u, di = e
                    self.oblige(label + ":range", eq(hi, tt(K)))
                    self.oblige(label, goal_eq(body, add(tt(logp(j, i)), noise)))
                    i2, j2 = fresh("sk", "I"), fresh("sk", "I")
                    dj = self.drawinfo(subst(u, {i: i2, j: j2}))
                    self.oblige(label + ":independent", or_(*[ne(x, y) for x, y in zip(di[3], dj[3])]), [or_(ne(i, i2), ne(j, j2))])
                finally:
                    self.m.undo(m2)
        except Infeasible:
            pass
        finally:
            self.m.undo(mark)

    def gumbelpick(self, label, t, enough, spec):
        """the number t is drawn among candidates 0..n-1 by maximising log-weight plus Gumbel noise;
        enough(n): the candidates suffice; spec(j, x): the log-weight x of candidate j is right"""
        t, given = (self.m.picks or {}).get(t, (t, list(self.m.facts)))
        # what it depends on was decided before it was drawn: once for the paths that differ afterwards
        memo = self.__dict__.setdefault("picked", set())
        if (label, t, tuple(given)) in memo:
            return
        memo.add((label, t, tuple(given)))
        facts, self.m.facts = self.m.facts, given
        mark = self.m.mark()
        try:
            for t in self.cases(t):
                j, j2 = fresh("sk", "I"), fresh("sk", "I")
                e = self.gumbel_entry(label, t, j)
                if e is None:
                    continue
                hi, body, noise, u, di = e
                for q, goal in enough(hi).items():
                    self.oblige(label + ":" + q, tt(goal))
                dj = self.drawinfo(subst(u, {j: j2}))
                self.oblige(label + ":independent", or_(*[ne(x, y) for x, y in zip(di[3], dj[3])]), [ne(j, j2)])
                self.oblige(label + ":fresh", TRUE if any(d is di[4] for d in self.m.draws[self.d0:]) else FALSE)
                m2 = self.m.mark()
                try:
                    self.m.assume(ge(j, ZERO))
                    self.m.assume(lt(j, hi))
                    self.m.assume(gt(hi, ONE))   # one candidate alone is taken whatever its weight
                    spec(label, j, lambda k: subst(sub(body, noise), {j: tt(k)}), hi)
                finally:
                    self.m.undo(m2)
        except Infeasible:
            pass
        finally:
            self.m.undo(mark)
            self.m.facts = facts

    def cluster_labels(self, L, n):
        """k-means (of n rows) returns the labels L"""
        self.m.kmeans = (L, tt(n))

    def clustered(self, k, y, dims):
        """k-means was asked for k clusters of the rows y, once"""
        ev = [e for e in self.m.events if e[0] == "kmeans"]
        if len(ev) != 1:
            return self.fail("k-means-once", "k-means run %d times" % len(ev))
        self.eq("groups", ev[0][1], k)
        self.arr_eq("rows", self.arrf(dims, ev[0][3]), dims, lambda *i: y.at(*i))

    def target(self, name, top):
        """an arbitrary function of a number (elementwise on arrays)"""
        return interp.Stub(name, lambda ip, a, k: interp.N.ew(lambda x: app(name, interp.N.n_(x)), *a, kind="R"))

    def accepted(self, inv, r, dims, f):
        """the result is the points of the loop, each with its own height under the target"""
        if not hasattr(inv, "X"):
            raise Unsupported("no retry loop")
        at = (lambda *i: r.at(*i)) if dims else (lambda: self.num(r))
        if dims:
            self.all("points", dims, lambda *i: (at(*i), inv.X(*i)))
            self.all("accepted", dims, lambda *i: le(inv.Y(*i), app(f, inv.X(*i))))
        else:
            self.eq("points", at(), inv.X())
            self.true("accepted", le(inv.Y(), app(f, inv.X())))

    def stubfunc(self, mod, name, f):
        """the module function replaced by f (its contract) for the rest of this contract"""
        v = self.ip.load("pyrichlet." + mod).env.vars
        if name not in v:
            raise Unsupported("no function %s.%s" % (mod, name))
        self.m.setd(v, name, interp.Stub(name, lambda ip, a, k: f(*a, **k)))

    def assumed(self, o, meth, f):
        """the internal method replaced by f, its assumed contract (concretely: the real one runs)"""
        if o.cls.lookup(meth) is None:
            raise Unsupported("no method " + meth)
        self.m.setd(o.attrs, meth, interp.Stub(meth, lambda ip, a, k: f(*a, **k)))

    def guard(self, ok, why):
        """the contract only speaks about code divided in this way"""
        if not ok:
            raise Unsupported(why)

    def ghost(self, o, effects, real=(), **init):
        """replace the methods in `effects` by their effect on ghost state; the other steps (except
        `real`), the weight model and the generator must not be used directly; returns get(name)"""
        m = self.m

        def beyond(name):
            def f(ip, a, k):
                raise Unsupported("another division of labour: " + name)
            return interp.Stub(name, f)
        for name in MIXTURE_PRIVATE:
            if name not in effects and name not in real and (name in o.attrs or o.cls.lookup(name) is not None):
                m.setd(o.attrs, name, beyond(name))
        if not real:
            m.setd(o.attrs, "weight_model", Opaque("weights"))
            m.setd(o.attrs, "rng", Opaque("rng"))
        g = Obj("standin", {}, "ghost")
        for k, v in init.items():
            m.setd(g.attrs, k, PyList([]) if v == [] else v)

        class G:
            get = staticmethod(lambda k: g.attrs[k])

            @staticmethod
            def set(k, v):
                m.setd(g.attrs, k, scalar_(v))

            @staticmethod
            def inc(k):
                m.setd(g.attrs, k, scalar_(add(tt(g.attrs[k]), ONE)))

            @staticmethod
            def append(k, v):
                self.ip.call(self.ip.getattr(g.attrs[k], "append"), [v], {})
        for name, f in effects.items():
            if isinstance(o, Obj) and name not in o.attrs and o.cls.lookup(name) is None:
                raise Unsupported("no method %s" % name)
            m.setd(o.attrs, name, interp.Stub(name, (lambda f: lambda ip, a, k: f(G, *a, **k))(f)))
        return G

    def weights(self, o, labels=None):
        """the weight model replaced by its interface contract; returns the handle"""
        return SymWeights(self, o)

    def throw(self, exc):
        raise Raised(exc, "raised by a stand-in")

    def container(self, form, a):
        """a caller's object of the given form holding the values of a (n x D, or n values)"""
        a = a.copy()
        f, n = a.snap(), a.shape[0].n
        if form == "array":
            x = a
        elif form == "list":
            D = a.shape[1].n if a.ndim == 2 else None
            x = PyList(SymList(n, (lambda i: PyList(SymList(D, lambda k: f(i, k)))) if a.ndim == 2 else (lambda i: f(i))))
        else:
            x = Opaque(form, {"series": "Series", "frame": "DataFrame"}[form], interp.N.Frame(a))
        self.held = getattr(self, "held", {})
        self.held[id(x)] = (x, a, f, x.items if isinstance(x, PyList) else None)
        return x

    def untouched(self, label, x):
        """the caller's object still holds its values"""
        _, a, f, items = self.held[id(x)]
        if items is not None:
            if x.items is items:
                self.record(label, "proved")
            else:
                self.fail(label, "the list was changed")
            return
        if a.cell.fn is f and a.vshape is None:
            self.record(label, "proved")
            return
        self.all(label, [d.n for d in a.shape], lambda *i: (a.at(*i), f(*i)))

    def overwrite(self, x):
        """the caller changes every value of its object"""
        _, a, f, items = self.held[id(x)]
        nm = "overwritten"
        if items is not None:
            self.m.seta(x, "items", SymList(items.n, lambda i: app(nm, i)))
        else:
            self.m.seta(a.cell, "fn", lambda *i: app(nm, *i))

    def odd(self, kind):
        """a value that is no data container"""
        return {"none": None, "string": Opaque("text", "str"), "tuple": (1.0, 2.0), "dict": PyDict({"a": 1.0}), "number": 3, "object": Opaque("thing", "object"), "bool": True, "float": 2.5,
                "randomstate": Opaque("randomstate", "RandomState"), "seedsequence": Opaque("seedsequence", "SeedSequence")}[kind]

    def generator(self):
        """a numpy Generator of the caller"""
        return Opaque("caller's generator", "Generator")

    def seeded(self, label, g, seed):
        """g is a generator made from the given seed"""
        if not (isinstance(g, Opaque) and g.pytype == "Generator" and isinstance(g.data, interp.FreshGen)):
            return self.fail(label, "not a fresh generator: %r" % (g,))
        if seed is None:
            return self.isnone(label, g.data.seed)
        if g.data.seed is None:
            return self.fail(label, "generator without the seed")
        self.eq(label, g.data.seed, seed)

    def make(self, cls, *a, **k):
        """run the constructor (the generator stays as given)"""
        return self.ip.call(cls, list(a), k)

    def injective(self, label, v, n, f, di, when):
        w = fresh("sk", "I")
        mark = self.m.mark()
        try:
            self.m.assume(gt(w, v))
            self.m.assume(lt(w, tt(n)))
            if when is not None:
                self.m.assume(tt(when(w)))
            if smt.check(self.m.facts, 500) == "unsat":
                self.record(label, "proved")
                return
            for t in self.cases(f(w)):
                dj = self.drawinfo(t)
                if dj is None:
                    continue
                if dj[2] != di[2]:
                    self.record(label, "proved")
                    continue
                self.oblige(label, or_(*[ne(a, b) for a, b in zip(di[3], dj[3])]))
        except Infeasible:
            pass
        finally:
            self.m.undo(mark)


class SymWeights:
    """stand-in for a mixture's weight model: each public method by its interface contract (what
    C02-C06 establish about the real models), everything else unsupported. `trace` holds the
    state-changing calls in order."""

    def __init__(self, c, o):
        self.c, m = c, c.m
        self.o = Obj("standin", {}, "weights")
        c.m.setd(self.o.attrs, "trace", ())
        M0 = c.int("M0", 1)
        self.set(self.array("w0", M0))
        S = interp.Stub
        for name in ("fit", "random", "tail", "complete", "reset", "get_weights", "get_size", "random_assignment", "assignation_log_likelihood", "fit_variational",
                     "variational_mean_log_w_j", "variational_mean_w_j", "variational_mode_w_j"):
            m.setd(self.o.attrs, name, S("weights." + name, (lambda nm: lambda ip, a, k: getattr(self, nm)(*a, **k))(name)))
        c.set(o, weight_model=self.o)

    def array(self, name, n):
        return self.c.arr(name, (n,), "R", 0, 1)

    def restart(self):
        """forget the calls so far; arbitrary weights w"""
        self.c.m.setd(self.o.attrs, "trace", ())
        self.set(self.array("w", self.c.int("M", 1)))

    def set(self, a):
        self.cur = a
        self.c.m.setd(self.o.attrs, "w", a)

    @property
    def w(self):
        return self.o.attrs["w"]

    @property
    def size(self):
        return self.w.shape[0].count()

    @property
    def trace(self):
        return self.o.attrs["trace"]

    def log(self, name, *args):
        if self.c.m.loops:
            raise Unsupported("weight model changed inside a loop")
        self.c.m.setd(self.o.attrs, "trace", self.trace + ((name,) + args,))
        return sum(1 for t in self.trace if t[0] == name)

    def fit(self, d):
        from . import npstub
        d = npstub.asarr(d).copy()
        self.log("fit", d)

    def fit_variational(self, vd):
        from . import npstub
        self.log("fit_variational", npstub.asarr(vd).copy())

    def fits(self):
        return sum(1 for t in self.trace if t[0] == "fit_variational")

    def variational_mean_log_w_j(self, j):
        return app("elogw%d" % self.fits(), tt(j))

    def variational_mean_w_j(self, j):
        return app("ew%d" % self.fits(), tt(j))

    def variational_mode_w_j(self, j):
        return app("modew%d" % self.fits(), tt(j))

    def reset(self):
        self.log("reset")
        return None

    def random(self, size=None):
        c = self.c
        k = self.log("random", size)
        n = c.int("Mr%d" % k, 1)
        if size is not None:
            c.m.assume(ge(n, interp.num_b(size)))
        ds = [t[1] for t in self.trace if t[0] == "fit"]
        if ds:
            d = ds[-1]
            c.m.assume(Forall(ZERO, d.shape[0].count(), lambda i: lt(d.at(i), n)))
        self.set(self.array("wr%d" % k, n))
        return self.w.copy()

    def tail(self, x):
        c = self.c
        k = self.log("tail", x)
        old, n0 = self.w.snap(), self.size
        n = c.int("Mt%d" % k, 1)
        c.m.assume(ge(n, n0))
        ext = self.array("wt%d" % k, n)
        self.set(Arr([n], lambda i: ite(lt(i, n0), old(i), ext.at(i)), "R"))
        c.m.assume(ge(Sum(ZERO, n, lambda i: self.cur.at(i)), interp.num_b(x)))        # C05
        return self.w.copy()

    def complete(self, size):
        raise Unsupported("weights.complete")

    def get_weights(self):
        return self.w.copy()

    def get_size(self):
        return self.size

    def random_assignment(self, size, weights=None):
        c = self.c
        k = self.log("random_assignment", size)
        n = self.size
        return c.arr("da%d" % k, (size,), "I", 0, sub(n, ONE))

    def assignation_log_likelihood(self, d):
        k = self.log("assignation_log_likelihood", d)
        return var("dloglik%d" % k, "R")


class Source(Sym):
    """a contract read for its variates only: whatever it calls draws from the object's generator
    alone; its own clauses are not obligations here"""
    label = "every-variate-from-the-object's-generator"

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.m.foreign = []

    def rng(self):
        g = Opaque("rng", "Generator", None)
        self.m.mine = getattr(self.m, "mine", []) + [g]
        return g

    generator = rng

    def one(self, fr):
        self.d0 = len(self.m.draws)
        self.ip.onset = None
        self.seals = {}
        try:
            self.con.f(self)
        except Raised:
            pass                    # the contract itself (of another property) speaks about exceptions
        mine = getattr(self.m, "mine", [])
        bad = [d for d in self.m.draws if d.rng != "specification" and not any(d.rng is g for g in mine)]
        if bad:
            Sym.fail(self, self.label, "; ".join("%s drawn at %s from %r" % (d.kind, d.where, d.rng) for d in bad[:4]))
        elif self.m.draws:
            self.record(self.label, "proved")
        return True

    def nothing(self, *a, **k):
        return None

    eq = true = all = lemma = arr_eq = positive = fail = oblige = isnone = equal_objects = matlaw = law = sweep = gumbelmax = accepted = clustered = injective = untouched = seeded = nothing

    def raises(self, label, thunk, exc):
        try:
            thunk()
        except Raised:
            pass


# ============================================================ concrete reading
class Rec(np.random.Generator):
    """recording generator"""

    def __init__(self, seed, log):
        super().__init__(np.random.PCG64(seed))
        self.log = log

    def _rec(self, kind, val, **params):
        params = {k: np.broadcast_to(np.asarray(v, dtype=float), np.shape(val)) for k, v in params.items()}
        a = np.asarray(val)
        self.log.append(CDraw(kind, params, a))
        return val

    def beta(self, a, b, size=None):
        return self._rec("beta", super().beta(a, b, size), a=a, b=b)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._rec("uniform", super().uniform(low, high, size), low=low, high=high)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._rec("uniform", super().random(size, dtype, out), low=0, high=1)

    def binomial(self, n, p, size=None):
        return self._rec("binomial", super().binomial(n, p, size), n=n, p=p)

    def dirichlet(self, alpha, size=None):
        return self._rec("dirichlet", super().dirichlet(alpha, size), alpha=alpha)

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        return self._rec("gumbel", super().gumbel(loc, scale, size), loc=loc, scale=scale)

    def exponential(self, scale=1.0, size=None):
        return self._rec("exponential", super().exponential(scale, size), scale=scale)

    def standard_exponential(self, size=None, dtype=np.float64, method="zig", out=None):
        return self._rec("exponential", super().standard_exponential(size), scale=1.0)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        r = super().choice(a, size, replace, p, axis, shuffle)
        self.log.append(CDraw("choice", {"p": np.asarray(p, dtype=float)}, np.asarray(r)))
        return r


def patch_scipy():
    """record the variates scipy draws from a recording generator"""
    import scipy.stats as st

    def wrap(dist, kind, names):
        real = dist.rvs
        if getattr(real, "recording", False):
            return

        def rvs(*a, **k):
            g = k.get("random_state")
            r = real(*a, **k)
            if isinstance(g, Rec):
                p = dict(zip(names, a))
                p.update({x: y for x, y in k.items() if x in names})
                g.log.append(CDraw(kind, {x: np.array(y, dtype=float) for x, y in p.items()}, np.array(r)))
            return r
        rvs.recording = True
        dist.rvs = rvs
    wrap(st.invwishart, "invwishart", ["df", "scale"])
    wrap(st.multivariate_normal, "mvn", ["mean", "cov"])


class CDraw:
    def __init__(self, kind, params, value):
        self.kind, self.params, self.value = kind, params, value.copy() if isinstance(value, np.ndarray) else value


class Con(Base):
    mode = "con"

    def __init__(self, con, seed, focus=None):
        self.con = con
        self.pins = focus or {"vars": {}, "apps": []}
        self.rs = random.Random("%s|%s|%d" % (con.prop, con.name, seed))
        self.nrs = np.random.default_rng([seed, abs(hash_(con.name))])
        self.val = Val()
        self.tabs = {}
        self.checked = 0
        self.failed = None
        self.skipped = []
        self.log = []
        self.d0 = 0
        self.seed = seed
        self.inputs = {}
        self.bools = {}
        self.patched = []
        self.raws = {}
        self.recs = []
        self.internal = False       # the sample goes through internal functions or state

    def run(self):
        """None (held), ('fail', label, text) or ('skip', why)"""
        try:
            self.con.f(self)
        except Reject:
            return ("skip", "precondition")
        except NoValue as e:
            return ("skip", "no value: %s" % e)
        except ClauseFailed as e:
            return ("fail",) + e.args
        finally:
            for m, name, f in reversed(self.patched):
                setattr(m, name, f)
        return None

    # values -------------------------------------------------------------
    def ev(self, t):
        return self.val.ev(tt(t))

    def _bounds(self, v, lo, hi, closed=True):
        n = v.args[0]
        lo_ = None if lo is None else self.ev(lo)
        hi_ = None if hi is None else self.ev(hi)
        if v.sort == "I":
            if lo_ is None and hi_ is None:
                x = self.rs.randint(-2, 5)
            elif hi_ is None:
                x = lo_ + self.rs.choice([0, 0, 1, 1, 2, 3, 4])
            elif lo_ is None:
                x = hi_ - self.rs.choice([0, 1, 2, 3])
            else:
                if hi_ < lo_:
                    raise Reject()
                x = self.rs.randint(int(lo_), int(hi_))
            x = int(x)
            p = self.pins["vars"].get(n)
            if p is not None and abs(p) <= 400 and (lo_ is None or p >= lo_) and (hi_ is None or p <= hi_):
                x = int(p)
        else:
            x = self._real(lo_, hi_)
            p = self.pins["vars"].get(n)
            if p is not None and abs(p) < 1e6 and (lo_ is None or p > lo_ or closed and p >= lo_) and (hi_ is None or p < hi_ or closed and p <= hi_):
                x = float(p)
        self.val.vars[n] = x
        self.inputs[n] = x

    def _real(self, lo, hi):
        r = self.rs
        if lo is None and hi is None:
            return r.gauss(0, 1.5)
        if hi is None:
            return lo + r.choice([r.random(), r.expovariate(0.7), 0.5 + r.random()]) + 0.05
        if lo is None:
            return hi - r.expovariate(0.7) - 1e-3
        return lo + (hi - lo) * (0.02 + 0.96 * r.random())

    def _array(self, name, dims, kind, lo, hi, closed, f):
        sh = tuple(int(self.ev(d)) for d in dims)
        if any(s < 0 for s in sh):
            raise Reject()
        a = np.empty(sh, dtype={"I": np.int64, "B": bool}.get(kind, float))
        lo_ = None if lo is None else self.ev(lo)
        hi_ = None if hi is None else self.ev(hi)
        for i in np.ndindex(*sh):
            if kind == "B":
                a[i] = self.rs.random() < 0.5
            elif kind == "I":
                l = 0 if lo_ is None else int(lo_)
                h = l + 4 if hi_ is None else int(hi_)
                if h < l:
                    raise Reject()
                a[i] = self.rs.randint(l, h)
            else:
                a[i] = self._real(lo_, hi_)
        for nm, ix, v in self.pins["apps"]:
            if nm == name and v is not None and len(ix) == len(sh) and all(x is not None and 0 <= x < k for x, k in zip(ix, sh)):
                if (lo_ is None or v >= lo_) and (hi_ is None or v <= hi_ or kind == "I" and v <= int(hi_)) and abs(v) < 1e6:
                    a[tuple(int(x) for x in ix)] = v
        self.val.funcs[name] = lambda *i: a[tuple(int(x) for x in i)].item() if all(0 <= int(x) < s for x, s in zip(i, a.shape)) else _oob(name)
        self.inputs[name] = a

    def _vartheta(self, o, K, D, attr, m, l, W, n, over):
        self.internal = True
        K, D = int(self.ev(K)), int(self.ev(D))
        base, over = (D - 1, 0) if over is None else (0, int(self.ev(tt(over))))
        m, W = self.nrs.normal(size=(K, D)), np.empty((K, D, D))
        l, n = self.nrs.uniform(0.3, 4, size=K), base + self.nrs.uniform(0.3, 4, size=K)
        for j in range(K):
            A = self.nrs.normal(size=(D, D + 1))
            W[j] = A @ A.T + 0.3 * np.eye(D)
        ok = lambda a, ix: all(0 <= int(x) < s for x, s in zip(ix, a.shape))

        def tab(name, a, f=1):
            self.val.funcs[name] = lambda *i: a[tuple(map(int, i))].item() * f if ok(a, i) else _oob(name)
            self.inputs[name] = a
        tab("vt_m", m)
        tab("vt_l", l)
        tab("vt_W", W, 0.5)
        tab("vt_n", n)
        setattr(o.o, attr, [[m[j].copy(), float(l[j]), W[j].copy(), float(n[j]) + over] for j in range(K)])

    def weightfun(self, o, meth, name, K):
        self.internal = True
        K = int(self.ev(K))
        a = self.nrs.normal(size=K)
        self.val.funcs[name] = lambda j: a[int(j)].item() if 0 <= int(j) < K else _oob(name)
        self.inputs[name] = a
        setattr(o.o.weight_model, meth, lambda j: a[j])
        return lambda j: app(name, tt(j))

    def weightcall(self, o, meth, name, nargs=0, kw=None):
        self.internal = True
        x = float(self.nrs.normal())
        self.val.vars[name] = self.inputs[name] = x
        seen = []

        def f(*a, **k):
            seen.extend(self.wrap(np.array(q)) for q in list(a) + list(k.values()))
            return x
        setattr(o.o.weight_model, meth, f)
        return var(name, "R"), seen

    def length(self, l):
        l = l.o if isinstance(l, CObj) else l
        return const(len(l.items) if isinstance(l, PyList) else len(l))

    def _atoms(self, o, K, D, attr, mu, sg, some):
        self.internal = True
        K, D = int(self.ev(K)), int(self.ev(D))
        m, S = self.nrs.normal(size=(K, D)), np.empty((K, D, D))
        for j in range(K):
            A = self.nrs.normal(size=(D, D + 1))
            S[j] = A @ A.T + 0.3 * np.eye(D)
        ok = lambda a, ix: all(0 <= int(x) < s for x, s in zip(ix, a.shape))
        self.val.funcs["atom_mu"] = lambda *i: m[tuple(map(int, i))].item() if ok(m, i) else _oob("atom")
        self.val.funcs["atom_cov"] = lambda *i: S[tuple(map(int, i))].item() / 2 if ok(S, i) else _oob("atom")
        self.inputs["atom_mu"], self.inputs["atom_cov"] = m, S
        d = {j: (m[j].copy(), S[j].copy()) for j in range(K)}
        if some and not hasattr(getattr(o.o, attr), "default_factory"):
            raise NoValue("no atom generator")
        if hasattr(o.o, "theta") and hasattr(o.o.theta, "default_factory"):
            d = collections.defaultdict(o.o.theta.default_factory, d)
        setattr(o.o, attr, d)

    def _spd(self, name, D):
        k = int(self.ev(D))
        A = self.nrs.normal(size=(k, k + 1))
        a = A @ A.T + 0.3 * np.eye(k)
        self.val.funcs[name] = lambda i, j: a[int(i), int(j)].item() / 2 if 0 <= int(i) < k and 0 <= int(j) < k else _oob(name)
        self.inputs[name] = a

    def dict(self, **items):
        return CObj({k: self.conc(v) for k, v in items.items()})

    def _saved(self, o, S, D, attr, M, w, mu, sg):
        self.internal = True
        S, D = int(self.ev(S)), int(self.ev(D))
        ms = [self.rs.randint(1, 4) for _ in range(S)]
        ws = [self.nrs.dirichlet(np.ones(m + 1))[:m] for m in ms]
        mus = [self.nrs.normal(size=(m, D)) for m in ms]
        cs = [np.array([(lambda A: A @ A.T + 0.3 * np.eye(D))(self.nrs.normal(size=(D, D + 1))) for _ in range(m)]) for m in ms]
        self.val.funcs["sM"] = lambda q: ms[int(q)] if 0 <= int(q) < S else _oob("draw")

        def tab(name, a, f=1):
            def g(q, *i):
                q, i = int(q), tuple(map(int, i))
                return a[q][i].item() * f if 0 <= q < S and all(0 <= x < s for x, s in zip(i, a[q].shape)) else _oob(name)
            self.val.funcs[name] = g
            self.inputs[name] = [x.tolist() for x in a]
        tab("sw", ws), tab("smu", mus), tab("scov", cs, 0.5)
        setattr(o.o, attr, [{"w": ws[q].copy(), "theta": {j: (mus[q][j].copy(), cs[q][j].copy()) for j in range(ms[q])}} for q in range(S)])

    def assume(self, f):
        if not self.ev(f):
            raise Reject()

    def fresh_bool(self, name):
        if name not in self.bools:
            self.bools[name] = self.rs.random() < 0.5
            if isinstance(self.pins["vars"].get(name), bool):
                self.bools[name] = self.pins["vars"][name]
        return self.bools[name]

    def conc(self, x):
        """symbolic-side value -> python/numpy value"""
        if isinstance(x, T):
            v = self.ev(x)
            if x.sort == "B":
                return bool(v)
            return int(v) if x.sort == "I" else float(v)
        if isinstance(x, Arr):
            sh = []
            for d in x.shape:
                if d.mask is not None:
                    raise NoValue("mask")
                sh.append(int(self.ev(d.n)))
            a = np.empty(sh, dtype={"I": np.int64, "B": bool}.get(x.kind, float))
            for i in np.ndindex(*sh):
                a[i] = self.ev(x.at(*i))
            return a
        if isinstance(x, PyList):
            return [self.conc(y) for y in x.items]
        if isinstance(x, tuple):
            return tuple(self.conc(y) for y in x)
        if isinstance(x, CObj):
            return x.o
        return x

    def wrap(self, v):
        """python/numpy value -> symbolic-side value"""
        if isinstance(v, (bool, np.bool_)):
            return const(bool(v))
        if isinstance(v, (int, np.integer)):
            return const(int(v))
        if isinstance(v, (float, np.floating)):
            if v != v:
                return NAN
            if math.isinf(v):
                return INF if v > 0 else neg(INF)
            return app("flt", mk("var", ("f:" + repr(float(v)),), "R")) if False else self.flt(float(v))
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                return v
            n = "tab!%d" % len(self.tabs)
            a = v.copy()
            self.tabs[n] = a
            kind = "B" if a.dtype == bool else "I" if a.dtype.kind in "iu" else "R"
            self.val.funcs[n] = lambda *i: a[tuple(int(x) for x in i)].item()
            if a.ndim == 0:
                return self.wrap(a.item())
            return Arr(a.shape, lambda *i: app(n, *[tt(x) for x in i], sort=kind), kind, {"np": v})
        if isinstance(v, list):
            return PyList([self.wrap(x) for x in v])
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        if v is None or isinstance(v, str):
            return v
        return CObj(v)

    def flt(self, x):
        n = "flt!" + x.hex()
        self.val.vars[n] = x
        return var(n, "R")

    # objects ------------------------------------------------------------
    def cls(self, mod, name):
        return getattr(importmod(mod), name)

    def rng(self):
        g = Rec(self.rs.randrange(10 ** 6), self.log)
        self.recs.append((g, str(g.bit_generator.state)))
        return CObj(g)

    def opaque(self, name, pytype=None):
        return CObj(Tok(name))

    def new(self, cls, *a, **k):
        rec = None
        if "rng" in k:
            rec = Rec(self.rs.randrange(10 ** 6), self.log)
            k = dict(k)
            k["rng"] = real_default_rng(self.rs.randrange(10 ** 6))
        o = self._exec(lambda: cls(*[self.conc(x) for x in a], **{q: self.conc(v) for q, v in k.items()}))
        if rec is not None and hasattr(o, "_rng"):
            o._rng = rec
        if rec is not None and hasattr(o, "weight_model"):
            o.rng = rec
            if hasattr(o.weight_model, "_rng"):
                o.weight_model._rng = rec
        return CObj(o)

    def raw(self, cls, **attrs):
        o = cls.__new__(cls)
        self.raws[id(o)] = o
        for k, v in attrs.items():
            setattr(o, k, self.conc(v))
        return CObj(o)

    def set(self, o, **attrs):
        self.internal = True
        for k, v in attrs.items():
            if not hasattr(o.o, k) and id(o.o) not in self.raws:
                raise NoValue("attribute " + k)
            setattr(o.o, k, self.conc(v))

    def seal(self, o, attr, lo, hi):
        pass

    def get(self, o, name, sealed=False):
        if not hasattr(o.o, name):
            raise NoValue("attribute " + name)
        return self.wrap(getattr(o.o, name))

    def state(self, o, attr, name, dims, kind="R", lo=None, hi=None, closed=False):
        if not hasattr(o.o, attr):
            raise NoValue("attribute " + attr)
        a = np.array(getattr(o.o, attr))
        sh = tuple(int(self.ev(d)) for d in dims)
        if a.shape != sh or a.dtype == object:
            raise NoValue("shape of " + attr)
        self.inputs[name] = a
        self.val.funcs[name] = lambda *i: a[tuple(int(x) for x in i)].item() if all(0 <= int(x) < s for x, s in zip(i, a.shape)) else _oob(name)
        return Arr([tt(d) for d in dims], lambda *i: app(name, *[tt(x) for x in i], sort=kind), kind)

    def initial(self, o, *names):
        pass

    def peek(self, o, name):
        return getattr(getattr(o, "o", o), name, None)

    def has(self, o, name):
        return hasattr(o.o, name)

    def entry(self, d, j):
        if isinstance(d, PyList):
            return d.items[int(self.ev(j))]
        d = d.o if isinstance(d, CObj) else d
        if not isinstance(j, str):
            j = int(self.ev(j))
        if j not in d:
            raise NoValue("no entry %s" % j)
        return self.wrap(d[j])

    def at1(self, x):
        return self.wrap(np.atleast_1d(np.asarray(self.conc(x))))

    def at2(self, x):
        return self.wrap(np.atleast_2d(np.asarray(self.conc(x))))

    def decide(self, f):
        return bool(self.ev(f))

    def start(self):
        self.d0 = len(self.log)
        self.recs = [(g, str(g.bit_generator.state)) for g, _ in self.recs]

    def draws(self):
        return self.log[self.d0:]

    def _exec(self, thunk):
        try:
            with np.errstate(all="ignore"):
                return thunk()
        except (Reject, NoValue, ClauseFailed):
            raise
        except (OverflowError, MemoryError, FloatingPointError, np.linalg.LinAlgError) as e:
            raise NoValue("machine arithmetic: %s" % e)
        except Exception as e:
            raise Raised(type(e).__name__, "%s" % e)

    def call(self, o, meth, *a, **k):
        if meth.startswith("_"):
            self.internal = True
        f = getattr(o.o, meth, None)
        if f is None:
            raise NoValue("no method " + meth)
        a, k = [self.conc(x) for x in a], {q: self.conc(v) for q, v in k.items()}
        if re.match("(gibbs|var)_(eap|map)_|variational_(mean|mode)", meth):
            self.before(f, a, k)
        return self.wrap(self._exec(lambda: f(*a, **k)))

    QUERIES = (("get_weights",), ("get_normalized_weights",), ("get_cumulative_weights",), ("get_normalized_cumulative_weights",), ("get_size",), ("random_assignment", 2), ("assignation_log_likelihood",),
               ("weighting_log_likelihood",))

    def queries(self, o):
        """the methods that only look at a weighting structure, called between the steps of a history"""
        for q, *a in self.QUERIES:
            f = getattr(o.o, q, None)
            if f is None or q == "random_assignment" and np.sum(o.o.w) < 0.2:
                continue
            if self.rs.random() < 0.7:
                try:
                    with np.errstate(all="ignore"):
                        f(*a)
                except Exception:
                    pass

    def history(self, o, k):
        """bring a weighting structure to about k sticks by public calls"""
        o, rs = o.o, self.rs
        if hasattr(o, "n") and type(o).__name__ in ("DirichletDistribution", "EqualWeighting", "FrequencyWeighting"):
            k = min(k, o.n)
        h = rs.randrange(4) if k else 0
        look = lambda: self.queries(CObj(o)) if rs.random() < 0.6 else None
        step = lambda f: (self._exec(f), look())
        if h == 1:
            step(lambda: o.random(max(1, k - 1)))
            step(lambda: o.complete(k))
        elif h == 2:
            dd = [rs.randrange(k) for _ in range(1 + rs.randrange(5))]
            step(lambda: o.fit(np.array(dd)))
            step(lambda: o.random(k))
            if rs.random() < 0.5:
                dd = [rs.randrange(k) for _ in dd]
                step(lambda: o.fit(np.array(dd)))
                step(lambda: o.random(k))
            step(lambda: o.reset())
        elif k:
            step(lambda: o.random(k))
        if k and rs.random() < 0.5:
            self.queries(CObj(o))
            if len(o.w) <= 2 * k + 8:
                self._exec(lambda: o.random(len(o.w)))

    def func(self, mod, name, *a, **k):
        f = getattr(importmod(mod), name, None)
        if f is None:
            raise NoValue("no function " + name)
        a, k = [self.conc(x) for x in a], {q: self.conc(v) for q, v in k.items()}
        self.before(f, a, k)
        return self.wrap(self._exec(lambda: f(*a, **k)))

    def before(self, f, a, k):
        """earlier calls of the function with arguments close to those of the call under test: its answer may not depend on them"""
        rs = self.rs
        if rs.random() < 0.4:
            return

        def near(x):
            if isinstance(x, Rec):
                return Rec(rs.randrange(10 ** 6), [])
            if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size:
                x, h = x.copy(), rs.randrange(4)
                i = tuple(rs.randrange(n) for n in x.shape)
                if h == 0:
                    return x * rs.choice([0.6, 1.7])
                if h == 1 and x.ndim:
                    return np.roll(x, 1, axis=rs.randrange(x.ndim))
                if h == 2:
                    return x
                if x.ndim == 2 and x.shape[0] == x.shape[1]:
                    if i[0] != i[1]:
                        x[i] *= 0.5
                        x[i[::-1]] = x[i]
                    else:     # keeps the trace
                        t = 0.3 * x[i]
                        x[i] -= t
                        x[((i[0] + 1) % len(x),) * 2] += t
                    return x
                x[i] *= 0.5
                return x
            if isinstance(x, float):
                return x * rs.choice([1, 1, 1.3])
            if isinstance(x, (list, tuple)) and not any(isinstance(y, (int, str)) for y in x):
                return type(x)(near(y) for y in x)
            return copy.deepcopy(x)
        for _ in range(rs.randrange(1, 4)):
            try:
                b, c = [near(x) for x in a], {q: near(x) for q, x in k.items()}
                with np.errstate(all="ignore"):
                    f(*b, **c)
            except Exception:
                pass

    def attempt(self, thunk):
        try:
            return thunk()
        except Raised as e:
            return Exc(e.exc, e.msg)

    def list(self, items):
        return PyList(items)

    def invariant(self, inv):
        import contextlib
        return contextlib.nullcontext()

    def named_picks(self):
        pass

    def counting(self, inv, which):
        import contextlib
        return contextlib.nullcontext()

    # clauses ------------------------------------------------------------
    def bad(self, label, text):
        raise ClauseFailed(label, text)

    def fail(self, label, why):
        self.bad(label, why)

    def num(self, x, label=None):
        if isinstance(x, Arr) and x.ndim == 0:
            x = x.at()
        return tt(x)

    def eq(self, label, a, b):
        if isinstance(a, Exc) or isinstance(b, Exc):
            return self.bad(label, "exception %s" % (a if isinstance(a, Exc) else b))
        try:
            a, b = self.num(a), self.num(b)
        except TypeError:
            return self.bad(label, "not a number: %r" % (a,))
        x, y = self.ev(a), self.ev(b)
        self.checked += 1
        if not same(x, y):
            self.bad(label, "got %r, expected %r" % (x, y))

    def true(self, label, c):
        self.checked += 1
        if not self.ev(c):
            self.bad(label, "clause is false")

    def all(self, label, dims, f):
        sh = [int(self.ev(d)) for d in dims]
        for i in np.ndindex(*sh):
            r = f(*[const(x) for x in i])
            if isinstance(r, tuple):
                a, b = self.num(r[0]), self.num(r[1])
                x, y = self.ev(a), self.ev(b)
                self.checked += 1
                if not same(x, y):
                    self.bad(label, "at %s: got %r, expected %r" % (i, x, y))
            else:
                self.checked += 1
                if not self.ev(r):
                    self.bad(label, "clause is false at %s" % (i,))

    def raises(self, label, thunk, exc):
        try:
            thunk()
        except Raised as e:
            self.checked += 1
            if exc_is(e.exc, exc):
                return True
            return self.bad(label, "raised %s instead of %s" % (e.exc, exc))
        return self.bad(label, "no %s raised" % exc)

    def equal_objects(self, label, a, b):
        x = a.o if isinstance(a, CObj) else a.meta.get("np") if isinstance(a, Arr) else a
        y = b.o if isinstance(b, CObj) else b.meta.get("np") if isinstance(b, Arr) else b
        if x is not y:
            self.bad(label, "a different object")

    def same_object(self, a, b):
        a, b = (x.o if isinstance(x, CObj) else x for x in (a, b))
        return a is b

    def isnone(self, label, a):
        if a is not None:
            self.bad(label, "not None")

    def lemma(self, label, dims, f):
        self.all(label, dims, f)

    def variate(self, d, *idx):
        return self.flt(float(np.asarray(d.value)[tuple(int(self.ev(tt(i))) for i in idx)]))

    def variate_param(self, d, name):
        x = np.asarray(d.params[name]).ravel()
        if not x.size:
            raise NoValue("no variate")
        return self.flt(float(x[0]))

    def uniforms(self):
        ds = self.draws()
        if any(d.kind != "uniform" for d in ds):
            raise NoValue("variates of another kind")
        vals = [float(x) for d in ds for x in np.asarray(d.value, dtype=float).ravel()]
        lo = sorted({float(x) for d in ds for x in d.params["low"].ravel()})
        hi = sorted({float(x) for d in ds for x in d.params["high"].ravel()})
        if not vals or len(lo) != 1 or len(hi) != 1:
            raise NoValue("no variate")
        return lambda *i: self.flt(vals[int(self.ev(tt(i[0]))) if i else 0]), self.flt(lo[0]), self.flt(hi[0])

    def matlaw(self, label, a, kind, params):
        v = np.asarray(self.conc(a), dtype=float)
        hits = [d for d in self.log if d.kind == kind and np.size(d.value) == v.size and np.array_equal(np.asarray(d.value, dtype=float).reshape(v.shape), v)]
        self.checked += 1
        if not hits:
            self.bad(label, "value %s is not a variate of kind %s" % (v.tolist(), kind))
        for k, w in params.items():
            want = np.asarray(self.conc(w) if isinstance(w, Arr) else self.ev(w), dtype=float)
            got = np.asarray(hits[0].params[k], dtype=float)
            if got.size != want.size or not np.allclose(got.ravel(), want.ravel(), rtol=1e-7, atol=1e-9):
                self.bad(label + ":" + k, "drawn with %s, expected %s" % (got.tolist(), want.tolist()))
        return hits[0]

    def gumbelmax(self, label, r, K, N, logp):
        K, N = int(self.ev(tt(K))), int(self.ev(tt(N)))
        ds = [d for d in self.draws() if d.kind not in ("invwishart", "mvn")]
        kinds = {d.kind for d in ds}
        got = np.asarray(self.conc(r))
        self.checked += 1
        if got.shape != (N,):
            return self.bad(label, "shape %s" % (got.shape,))
        if not ds and self.recs and K > 1 and N > 0 and all(str(g.bit_generator.state) == st for g, st in self.recs):
            return self.bad(label, "nothing was drawn from the generator")
        if not len(kinds) == 1 or not kinds <= {"uniform", "gumbel", "exponential"}:
            raise NoValue("variates drawn in another pattern")
        u = np.concatenate([np.asarray(d.value, dtype=float).ravel() for d in ds])
        lows = {(float(x), float(y)) for d in ds if d.kind == "uniform" for x, y in zip(d.params["low"].ravel(), d.params["high"].ravel())}
        if u.size != K * N or lows - {(0.0, 1.0)}:
            raise NoValue("variates drawn in another pattern")
        with np.errstate(all="ignore"):
            g = {"uniform": lambda x: -np.log(-np.log(x)), "gumbel": lambda x: x, "exponential": lambda x: -np.log(x)}[kinds.pop()](u)
        lp = np.array([[float(self.ev(tt(logp(const(j), const(i))))) for i in range(N)] for j in range(K)]).reshape(K, N)
        for G in (g.reshape(K, N), g.reshape(N, K).T):
            s = lp + G
            if N == 0 or np.all(s[got, range(N)] >= s.max(0) - 1e-9 * (1 + np.abs(s.max(0)))):
                return
        if np.any(np.isneginf(lp[got, range(N)]) & ~np.all(np.isneginf(lp), axis=0)):
            return self.bad(label, "an impossible entry was chosen: %s" % got.tolist())
        self.bad(label, "chosen %s, expected %s" % (got.tolist(), (lp + g.reshape(K, N)).argmax(0).tolist()))

    def guard(self, ok, why):
        if not ok:
            raise NoValue(why)

    def ghost(self, o, effects, real=(), **init):
        self.internal = True
        st = {k: [] if v == [] else v for k, v in init.items()}

        def beyond(name):
            def f(*a, **k):
                raise NoValue("another division of labour: " + name)
            return f
        for name in MIXTURE_PRIVATE:
            if name not in effects and name not in real and hasattr(o.o, name):
                setattr(o.o, name, beyond(name))

        class G:
            get = staticmethod(lambda k: self.wrap(st[k]))

            @staticmethod
            def set(k, v):
                st[k] = v

            @staticmethod
            def inc(k):
                st[k] += 1

            @staticmethod
            def append(k, v):
                st[k].append(self.conc(v))
        for name, f in effects.items():
            if not hasattr(o.o, name):
                raise NoValue("no method " + name)
            setattr(o.o, name, (lambda f: lambda *a, **k: self.conc(f(G, *[self.wrap(x) for x in a], **{q: self.wrap(x) for q, x in k.items()})))(f))
        return G

    def cluster_labels(self, L, n):
        from sklearn.cluster import KMeans
        lab = np.array(self.conc(L))
        self.kmeans = []

        def fit(o, y, *a, **k):
            o.labels_ = lab.copy()
            self.kmeans.append((o.n_clusters, np.array(y)))
            return o

        def fit_predict(o, y, *a, **k):
            return fit(o, y).labels_
        for nm, f in (("fit", fit), ("fit_predict", fit_predict)):
            self.patched.append((KMeans, nm, getattr(KMeans, nm)))
            setattr(KMeans, nm, f)

    def clustered(self, k, y, dims):
        if len(self.kmeans) != 1:
            raise NoValue("k-means not run once")
        self.eq("groups", const(int(self.kmeans[0][0])), k)
        if not np.array_equal(self.kmeans[0][1], self.conc(y)):
            self.bad("rows", "k-means run on other data")

    def target(self, name, top):
        top = float(self.ev(top))
        k = self.rs.uniform(1, 9)
        f = lambda x: top * (0.05 + 0.9 * np.sin(k * np.asarray(x)) ** 2)
        self.val.funcs[name] = lambda x: float(f(x))
        return f

    def accepted(self, inv, r, dims, f):
        if abs(self.ev(inv.lo)) < 1e-9 and abs(self.ev(sub(inv.hi, inv.top))) < 1e-9:
            raise NoValue("points and heights alike")
        is_ = lambda d, lo, hi: d.kind == "uniform" and np.allclose(d.params["low"], float(self.ev(lo))) and np.allclose(d.params["high"], float(self.ev(hi)))
        ds = self.draws()
        xs = [v for d in ds if is_(d, inv.lo, inv.hi) for v in np.ravel(d.value)]
        ys = [v for d in ds if is_(d, ZERO, inv.top) for v in np.ravel(d.value)]
        if not xs or not ys:
            raise NoValue("other proposals")
        if len(xs) != len(ys):
            return self.bad("retry:together", "%d points, %d heights" % (len(xs), len(ys)))
        for v in np.ravel(np.asarray(self.conc(r) if not isinstance(r, (float, np.ndarray)) else r, dtype=float)):
            q = [i for i, x in enumerate(xs) if x == v]
            if not q:
                return self.bad("points", "the result %r is none of the proposals" % v)
            if not any(ys[i] <= self.val.funcs[f](v) for i in q):
                return self.bad("accepted", "height %r above the target %r at %r" % (ys[q[0]], self.val.funcs[f](v), v))

    def stubfunc(self, mod, name, f):
        self.internal = True
        m = importmod(mod)
        if not hasattr(m, name):
            raise NoValue("no function " + name)
        self.patched.append((m, name, getattr(m, name)))
        setattr(m, name, lambda *a, **k: self.conc(f(*[self.wrap(x) if not isinstance(x, np.random.Generator) else CObj(x) for x in a], **{q: self.wrap(x) for q, x in k.items()})))

    def assumed(self, o, meth, f):
        pass

    def weights(self, o, labels=None):
        return ConWeights(self, o)

    def throw(self, exc):
        import builtins
        raise getattr(builtins, exc)("raised by a stand-in")

    def container(self, form, a):
        v = np.array(self.conc(a), dtype=float)
        if form == "array":
            x = v.copy()
        elif form == "list":
            x = v.tolist()
        else:
            import pandas as pd
            x = pd.Series(v.copy(), name="v" if self.rs.random() < 0.5 else None) if form == "series" else pd.DataFrame(v.copy())
        x = CObj(x)
        x.was = v
        return x

    def untouched(self, label, x):
        self.checked += 1
        if not np.array_equal(np.array(x.o, dtype=float), x.was):
            self.bad(label, "the caller's object was changed")

    def overwrite(self, x):
        o = x.o
        if isinstance(o, list):
            o[:] = [77.0] * len(o) if x.was.ndim == 1 else [[77.0] * x.was.shape[1] for _ in o]
        elif isinstance(o, np.ndarray):
            o[...] = 77.0
        else:
            o.iloc[:] = 77.0

    def odd(self, kind):
        return {"none": None, "string": "text", "tuple": CObj((1.0, 2.0)), "dict": CObj({"a": 1.0}), "number": 3, "object": CObj(object()), "bool": True, "float": 2.5,
                "randomstate": CObj(np.random.RandomState(1)), "seedsequence": CObj(np.random.SeedSequence(1))}[kind]

    def generator(self):
        return CObj(np.random.default_rng(self.rs.randrange(10 ** 6)))

    def seeded(self, label, g, seed):
        self.checked += 1
        if not isinstance(g.o, np.random.Generator):
            return self.bad(label, "not a generator: %r" % (g.o,))
        if seed is None:
            return
        want = np.random.default_rng(int(self.ev(seed)))
        if want.bit_generator.state != g.o.bit_generator.state:
            self.bad(label, "generator is not the one of the seed")

    def make(self, cls, *a, **k):
        return CObj(self._exec(lambda: cls(*[self.conc(x) for x in a], **{q: self.conc(v) for q, v in k.items()})))

    def law(self, label, dims, f, kind, params, injective=True, when=None):
        sh = [int(self.ev(d)) for d in dims]
        used = {}
        for i in np.ndindex(*sh):
            ii = [const(x) for x in i]
            if when is not None and not self.ev(when(*ii)):
                continue
            x = float(self.ev(self.num(f(*ii))))
            hits = []
            for d in self.log:
                fl = np.asarray(d.value, dtype=float).ravel()
                for k in np.flatnonzero(fl == x):
                    if d.kind == kind:
                        hits.append((id(d), int(k), {q: np.asarray(v).ravel()[k] for q, v in d.params.items()}))
            self.checked += 1
            if not hits:
                self.bad(label, "value %r at %s is not a variate of kind %s" % (x, i, kind))
            want = params(*ii)
            good = [h for h in hits if self.parameters(h[2], want)]
            if not good:
                self.bad(label, "at %s drawn with parameters %s, expected %s" % (i, hits[0][2], {q: v if isinstance(v, tuple) or callable(v) else self.ev(v) for q, v in want.items()}))
            if injective and kind != "binomial":
                mult = used.setdefault(x, [0, set()])
                mult[0] += 1
                mult[1] |= {(h[0], h[1]) for h in good}
                if mult[0] > len(mult[1]):
                    self.bad(label + ":independent", "%d indices share %d variates (value %r)" % (mult[0], len(mult[1]), x))


    def sweep(self, label, b, L, law):
        """see Sym: the generator's log holds the vector before the sweep, then one variate per entry"""
        L = int(self.ev(tt(L)))
        new = [int(self.ev(b.at(const(i)))) for i in range(L)]
        rec = [d for d in self.log[self.d0:] if d.kind == "binomial"]
        first = [k for k, d in enumerate(rec) if np.shape(d.value) == (L,)]
        ones = [d for d in rec[first[0] + 1:] if np.ndim(d.value) == 0][:L - 1] if first else []
        if len(ones) != L - 1 or [int(d.value) for d in ones] != new[1:]:
            raise NoValue("another order of updates")
        old = [int(x) for x in rec[first[0]].value]
        for j in range(1, L):
            s = max([0] + [l for l in range(1, j) if new[l]])
            e = min([L] + [l for l in range(j + 1, L) if old[l]])
            want, given = law(const(j), const(s), const(e))
            if not all(self.ev(g) for g in given):
                continue
            self.checked += 1
            if not self.parameters({"p": np.asarray(ones[j - 1].params["p"]).ravel()[0]}, {"p": want}):
                self.bad(label, "indicator %d (tied stretch %d..%d) drawn with probability %s, expected %s" % (j, s, e - 1, ones[j - 1].params["p"], self.ev(want)))

    def parameters(self, got, want):
        for q, w in want.items():
            if isinstance(w, tuple):
                if not any(d.kind == w[0] and self.parameters({r: np.asarray(v).ravel()[k] for r, v in d.params.items()}, w[1])
                           for d in self.log for k in np.flatnonzero(np.asarray(d.value, dtype=float).ravel() == got[q])):
                    return False
            elif callable(w):
                if not self.ev(w(const(got[q].item() if hasattr(got[q], "item") else got[q]))):
                    return False
            elif not same(got[q], float(self.ev(w))):
                return False
        return True


class ConSource(Con):
    """see Source; the global generators and fresh unseeded ones are watched"""

    def run(self):
        import random as pyrandom
        importmod("mixture_models")
        real = np.random.default_rng
        c = self
        seen = []

        def watched(seed=None):
            if seed is None:
                seen.append("a fresh generator was created")
            return real(seed)
        self.real_rng = real
        st0, py0 = np.random.get_state(), pyrandom.getstate()
        np.random.default_rng = watched
        try:
            r = super().run()
        except Raised:
            r = None
        finally:
            np.random.default_rng = real
        a, b = st0, np.random.get_state()
        if not (np.array_equal(a[1], b[1]) and a[2:] == b[2:]):
            seen.append("numpy's global generator was consulted")
        if py0 != pyrandom.getstate():
            seen.append("Python's global generator was consulted")
        if seen:
            return ("fail", Source.label, seen[0])
        return r if r and r[0] == "skip" else None

    def rng(self):
        return CObj(Rec(self.rs.randrange(10 ** 6), self.log))

    def nothing(self, *a, **k):
        return None

    eq = true = all = lemma = arr_eq = positive = fail = bad = isnone = equal_objects = matlaw = law = sweep = gumbelmax = untouched = seeded = nothing

    def raises(self, label, thunk, exc):
        try:
            thunk()
        except Raised:
            pass


class ConWeights:
    """concrete stand-in of a weight model (see SymWeights)"""

    def __init__(self, c, o):
        self.c, self.raw = c, []
        self.rs = np.random.RandomState(c.rs.randrange(10 ** 6))
        n = int(c.ev(c.int("M0", 1)))
        h = self

        class StandIn:
            def __getattr__(s, name):
                raise NoValue("weights." + name)

            def fit(s, d):
                h.raw.append(("fit", np.array(d)))
                h.need = int(np.max(d)) + 1 if len(d) else 0

            def fit_variational(s, vd):
                h.raw.append(("fit_variational", np.array(vd)))

            def variational_mean_log_w_j(s, j):
                return h.table("elogw", j)

            def variational_mean_w_j(s, j):
                return h.table("ew", j)

            def variational_mode_w_j(s, j):
                return h.table("modew", j)

            def reset(s):
                h.raw.append(("reset",))

            def random(s, size=None):
                h.raw.append(("random", size))
                n = max(1, size or 0, h.need) + h.rs.randint(0, 3)
                s.w = h.draw(n)
                h.name("wr", "random", s.w)
                return s.w.copy()

            def tail(s, x):
                h.raw.append(("tail", x))
                more = h.draw(h.rs.randint(0, 3)) * max(0.0, 1 - s.w.sum())
                left = float(x) - s.w.sum() - more.sum()
                s.w = np.concatenate([s.w, more, [min(left * 1.01, 1 - s.w.sum() - more.sum())] if left > 0 else []])
                h.name("wt", "tail", s.w)
                return s.w.copy()

            def get_weights(s):
                return s.w.copy()

            def get_size(s):
                return len(s.w)

            def random_assignment(s, size, weights=None):
                h.raw.append(("random_assignment", size))
                return h.rs.randint(0, len(s.w), size)

            def assignation_log_likelihood(s, d):
                h.raw.append(("assignation_log_likelihood", np.array(d)))
                x = float(h.rs.normal())
                c.val.vars["dloglik%d" % sum(1 for t in h.raw if t[0] == "assignation_log_likelihood")] = x
                return x
        self.need = 0
        self.tables = {}
        for b in ("elogw", "ew", "modew"):
            for q in range(4):
                self.setup("%s%d" % (b, q))
        self.o = StandIn()
        self.o.w = self.draw(n)
        self.name("w0", None, self.o.w)
        c.set(o, weight_model=CObj(self.o))

    def table(self, nm, j):
        nm += "%d" % sum(1 for t in self.raw if t[0] == "fit_variational")
        if nm not in self.tables:
            self.setup(nm)
        return float(self.tables[nm][int(j)])

    def setup(self, nm):
        a = self.rs.normal(size=64)
        self.tables[nm] = a if nm.startswith("elogw") else np.exp(a)
        self.c.inputs[nm] = self.tables[nm]
        self.c.val.funcs[nm] = lambda i: self.tables[nm][int(i)].item() if 0 <= int(i) < 64 else _oob(nm)

    def restart(self):
        self.raw.clear()
        self.o.w = self.draw(int(self.c.ev(self.c.int("M", 1))))
        self.name("w", None, self.o.w)

    def draw(self, n):
        if n == 0:
            return np.zeros(0)
        e = self.rs.exponential(size=n + 1)
        return e[:n] / e.sum()

    def name(self, nm, kind, a):
        if kind:
            nm += "%d" % sum(1 for t in self.raw if t[0] == kind)
        a = a.copy()
        self.c.inputs[nm] = a
        self.c.val.funcs[nm] = lambda i: a[int(i)].item() if 0 <= int(i) < len(a) else _oob(nm)

    @property
    def w(self):
        return self.c.wrap(np.array(self.o.w))

    @property
    def size(self):
        return const(len(self.o.w))

    @property
    def trace(self):
        return tuple((t[0],) + tuple(self.c.wrap(x) for x in t[1:]) for t in self.raw)


class SampleTime(BaseException):
    pass


class cpu_limit:
    """processor time limit of one concrete sample"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def h(*_):
            raise SampleTime()
        try:
            self.old = signal.signal(signal.SIGVTALRM, h)
            signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        except ValueError:
            self.old = None

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class CObj:
    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "CObj(%r)" % (self.o,)


class Tok:
    def __init__(self, name):
        self.name = name


def _oob(name):
    raise NoValue("index outside " + name)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def exc_is(name, target):
    import builtins
    if name == target:
        return True
    t = getattr(builtins, target, None)
    n = getattr(builtins, name, None)
    if t is not None and n is not None:
        return issubclass(n, t)
    if name == "NotFittedError":
        return target in ("Exception",)
    return False


def importmod(mod):
    import importlib
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    patch_scipy()
    kept.READS.install(REPO, importlib.import_module("pyrichlet"))
    return importlib.import_module("pyrichlet." + mod)


# ------------------------------------------------------------------- execution
def run_contract(con, seconds=60.0, samples=4, replay=60, seed=1):
    """discharge, cross-check and, if need be, replay one contract"""
    t0 = time.time()
    smt.STAT.update({"s": 0.0, "calls": 0, "unknown": 0, "hits": 0})
    src = con.opts.get("source")
    s = (Source if src else Sym)(con, seconds)
    crash = None
    try:
        err = s.run()
    except Exception as e:
        crash = "%s: %s" % (type(e).__name__, e)
        tb = traceback.format_exc().splitlines()
        err = "engine: %s | %s" % (crash, " / ".join(x.strip() for x in tb[-6:]))
    obls = []
    for lab in s.order:
        o = s.obl[lab]
        obls.append({"name": lab, "status": o["status"], "reason": o["reason"], "paths": o["paths"], "definite": o["definite"] and not err, "s": round(o["s"], 3), "backend": "+".join(sorted(o["used"])) or "paths"})
    if err:
        # nothing is proved when some path was not verified
        for o in obls:
            if o["status"] == "proved":
                o["status"], o["reason"] = "unknown", "other paths not verified: " + err
        if not obls:
            obls.append({"name": "all", "status": "unsupported", "reason": err, "paths": 0, "s": 0, "backend": ""})
    elif not obls:
        obls.append({"name": "all", "status": "unknown", "reason": "no obligation generated", "paths": 0, "s": 0, "backend": ""})
    allproved = all(o["status"] == "proved" for o in obls)
    if src:
        gl = [e for e in s.ip.foreign]
        if gl:
            o = {"name": Source.label, "status": "unknown", "reason": "; ".join(sorted({"%s at %s" % e for e in gl})), "paths": 1, "definite": True, "s": 0.0, "backend": ""}
            obls, allproved = [o], False
    sym_s = time.time() - t0
    # concrete reading
    held = fails = 0
    failures = []
    n = samples if allproved else replay
    skips = {}
    t1 = time.time()

    def sample(sd, focus=None):
        nonlocal held, fails
        kept.READS.seen.clear()
        c = (ConSource if src else Con)(con, sd, focus)
        try:
            with cpu_limit(6):
                r = c.run()
        except SampleTime:
            r = ("skip", "time limit of one sample")
        except Raised as e:
            r = ("fail", "no-exception", "%s" % e)
        except Unsupported as e:
            r = ("skip", "unsupported %s" % e)
        except Exception as e:
            r = ("skip", "harness %s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:]))
        if r is None:
            held += 1
            return True
        if r[0] == "skip":
            skips[r[1]] = skips.get(r[1], 0) + 1
            return False
        if c.internal and (s.ip.kept_read or kept.READS.seen):
            # the sample put the object in a state by hand, without what the code keeps along with it
            skips["state the code keeps"] = skips.get("state the code keeps", 0) + 1
            return False
        fails += 1
        if all(f["label"] != r[1] for f in failures):
            failures.append({"label": r[1], "text": r[2], "inputs": {a: (b.tolist() if isinstance(b, np.ndarray) else b) for a, b in c.inputs.items()}, "seed": sd, "bools": c.bools, "internal": c.internal,
                             "guided_by_counter_model": focus is not None})
        return True
    # counter-models of the failed obligations first
    for k, mo in enumerate(s.models if not allproved else []):
        for q in range(8):
            if fails < 3 and time.time() - t1 < 30:
                sample(seed * 1000 + 500 + 10 * k + q, mo)
    k = tries = 0
    while k < n and tries < 6 * n and time.time() - t1 < 45 and fails < 3:
        tries += 1
        k += sample(seed * 1000 + tries)
    first = failures[0] if failures else None
    st = dict(smt.STAT)
    return {"contract": con.name, "prop": con.prop, "function": con.func, "obligations": obls, "paths": s.npaths, "error": err, "called": sorted(s.ip.called),
            "held": held, "fails": fails, "first": first, "failures": failures, "skips": skips, "symbolic_s": round(sym_s, 2), "solver_s": round(st["s"], 2), "solver_calls": st["calls"], "total_s": round(time.time() - t0, 2)}
