"""Numeric evaluation of terms under a concrete valuation."""
import math
import numpy as np
import scipy.special as sp
import scipy.stats as st
from .terms import *


class NoValue(Exception):
    pass


class Val:
    """vars: name -> number; funcs: app name -> callable(args tuple of numbers)"""

    def __init__(self, vars=None, funcs=None):
        self.vars = dict(vars or {})
        self.funcs = dict(funcs or {})

    def ev(self, t, env=None, memo=None):
        return _Ev(self).go(t, env or {})


def _int(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, float) and x.is_integer():
        return int(x)
    return x


class _Ev:
    def __init__(self, val):
        self.v = val
        self.memo = {}

    def go(self, t, env):
        fvs = fv(t)
        if env and any(v in env for v in fvs):
            k = (t, tuple(sorted(((v.id, env[v]) for v in fvs if v in env))))
        else:
            k = t
        if k in self.memo:
            return self.memo[k]
        r = self.go1(t, env)
        self.memo[k] = r
        return r

    def go1(self, t, env):
        op = t.op
        if op == "const":
            c = t.args[0]
            return int(c) if c.denominator == 1 else float(c)
        if op == "bool":
            return t.args[0]
        if op == "var":
            if t in env:
                return env[t]
            if t.args[0] in self.v.vars:
                return self.v.vars[t.args[0]]
            raise NoValue(t.args[0])
        if op == "poly":
            s = 0
            for m, c in t.args:
                x = int(c) if c.denominator == 1 else float(c)
                # a vanished indicator kills the monomial before anything else is evaluated
                dead = False
                for a, e in m:
                    if a.op == "ind" and self.go(a, env) == 0:
                        dead = True
                        break
                if dead:
                    continue
                for a, e in m:
                    y = self.go(a, env)
                    if e == 1:
                        x = x * y
                    elif e.denominator == 1 and e > 0:
                        x = x * y ** int(e)
                    else:
                        if y == 0:
                            x = x * math.inf if e < 0 else 0
                        else:
                            x = x * float(y) ** float(e)
                s = s + x
            return s
        if op == "ind":
            return 1 if self.go(t.args[0], env) else 0
        if op == "ge0":
            x = self.go(t.args[0], env)
            return bool(x >= -1e-11) if isinstance(x, float) else bool(x >= 0)
        if op == "eq0":
            x = self.go(t.args[0], env)
            return bool(abs(x) < 1e-11) if isinstance(x, float) else bool(x == 0)
        if op == "not":
            return not self.go(t.args[0], env)
        if op == "and":
            return all(self.go(a, env) for a in sorted(t.args, key=lambda a: height(a)))
        if op == "or":
            return any(self.go(a, env) for a in sorted(t.args, key=lambda a: height(a)))
        if op == "eqL":
            return bool(np.allclose(self.go(t.args[0], env), self.go(t.args[1], env)))
        if op == "iteL":
            return self.go(t.args[1] if self.go(t.args[0], env) else t.args[2], env)
        if op == "lam":
            bs, ds, body = t.args
            sh = [int(self.go(d, env)) for d in ds]
            out = np.empty(sh)
            for idx in np.ndindex(*sh):
                e = dict(env)
                e.update(zip(bs, idx))
                out[idx] = self.go(body, e)
            return HashArr(out)
        if op in BINDERS:
            b, lo, hi, body = t.args
            lo, hi = int(self.go(lo, env)), int(self.go(hi, env))
            if hi - lo > 4000:
                raise NoValue("range")

            def at(k):
                e = dict(env)
                e[b] = k
                return self.go(body, e)
            if op == "sum":
                return sum((at(k) for k in range(lo, hi)), 0)
            if op == "prod":
                r = 1
                for k in range(lo, hi):
                    r = r * at(k)
                return r
            if op == "forall":
                return all(at(k) for k in range(lo, hi))
            if op == "exists":
                return any(at(k) for k in range(lo, hi))
            xs = [at(k) for k in range(lo, hi)]
            if not xs:
                raise NoValue("empty " + op)
            if op == "maxb":
                return max(xs)
            if op == "minb":
                return min(xs)
            if op == "argmax":
                return lo + int(np.argmax(xs))
            if op == "argmin":
                return lo + int(np.argmin(xs))
        if op == "app":
            return self.app(t, env)
        raise NoValue(op)

    def app(self, t, env):
        n = t.args[0]
        args = [self.go(a, env) if isinstance(a, T) else a for a in t.args[1:]]
        f = self.v.funcs.get(n)
        if f is not None:
            return f(*args)
        if n == "S":
            raise NoValue("S")
        f = LIB.get(n)
        if f is None:
            raise NoValue(n)
        return f(*args)


class HashArr(np.ndarray):
    def __new__(cls, a):
        return np.asarray(a).view(cls)

    def __hash__(self):
        return hash(np.asarray(self).tobytes())


def _log(x):
    if x == 0:
        return -math.inf
    return math.log(x) if x > 0 else math.nan


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _mvn(x, m, c):
    return float(st.multivariate_normal.logpdf(np.atleast_1d(np.asarray(x)), np.atleast_1d(np.asarray(m)), np.asarray(c), allow_singular=True))


LIB = {
    "log": _log, "exp": _exp, "lgam": lambda x: float(sp.gammaln(x)), "digamma": lambda x: float(sp.digamma(x)), "inf": lambda: math.inf, "nan": lambda: math.nan, "pi": lambda: math.pi,
    "floor": lambda x: math.floor(x), "mod": lambda a, b: a % b, "idiv": lambda a, b: a // b, "mvn": _mvn,
    "inv": lambda A, i, j: float(np.linalg.inv(np.asarray(A))[int(i), int(j)]), "logdet": lambda A: float(np.linalg.slogdet(np.asarray(A))[1]),
    "invwishart_logpdf": lambda x, df, S: float(st.invwishart.logpdf(np.asarray(x), df, np.asarray(S))),
    "binlogpmf": lambda *a: float(st.binom.logpmf(*a)),
}
