"""Term language of the verifier.

Terms are hash-consed.  Numeric terms are kept in polynomial normal form over
*atoms* (variables, applications, indicators of conditions, binders); a
conditional expression is the polynomial  b + [c] * (a - b).

Sorts: 'I' mathematical integer, 'R' real, 'B' boolean, 'L' lambda (a vector
or matrix passed whole to an uninterpreted function).
Real arithmetic is exact (floating point is treated as the reals).
"""
from fractions import Fraction
import itertools

_intern = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_key", "_h")

    def __repr__(self):
        return show(self)

    # arithmetic sugar for contracts --------------------------------------
    def __add__(self, o): return add(self, tt(o))
    def __radd__(self, o): return add(tt(o), self)
    def __sub__(self, o): return sub(self, tt(o))
    def __rsub__(self, o): return sub(tt(o), self)
    def __mul__(self, o): return mul(self, tt(o))
    def __rmul__(self, o): return mul(tt(o), self)
    def __truediv__(self, o): return div(self, tt(o))
    def __rtruediv__(self, o): return div(tt(o), self)
    def __neg__(self): return mul(const(-1), self)
    def __pow__(self, o): return power(self, tt(o))
    def __ge__(self, o): return ge(self, tt(o))
    def __le__(self, o): return ge(tt(o), self)
    def __gt__(self, o): return lt(tt(o), self)
    def __lt__(self, o): return lt(self, tt(o))

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError("symbolic term used as a Python truth value: %s" % show(self)[:200])

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def mk(op, args, sort):
    k = (op, args, sort)
    t = _intern.get(k)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t._fv = None
        t._key = None
        t._h = None
        _intern[k] = t
    return t


# ---------------------------------------------------------------- constants
def const(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return neg(INF)
        f = Fraction(repr(x)) if abs(x) < 1e15 else Fraction(x)
    else:
        f = Fraction(x)
    return mk("const", (f,), "I" if f.denominator == 1 else "R")


TRUE = mk("bool", (True,), "B")
FALSE = mk("bool", (False,), "B")


def tt(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return const(x)
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return const(x.item())
    except ImportError:
        pass
    raise TypeError("not a scalar term: %r" % (x,))


def var(name, sort="R"):
    return mk("var", (name,), sort)


_fresh = itertools.count()


def fresh(prefix="x", sort="R"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


ZERO, ONE = const(0), const(1)


def neg(t):
    return mul(const(-1), t)


# --------------------------------------------------------------- polynomials
# poly dict: mono -> Fraction ; mono: tuple of (atom, Fraction exponent)
def pd(t):
    if not isinstance(t, T):
        t = tt(t)
    if t.op == "poly":
        return dict(t.args)
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.sort == "B":
        t = ind(t)
        return pd(t)
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_sort(items):
    return tuple(sorted(items, key=lambda ae: ae[0].id))


def from_pd(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    sort = "I"
    for m, c in d.items():
        if c.denominator != 1:
            sort = "R"
            break
        for a, e in m:
            if a.sort != "I" or e.denominator != 1 or e < 0:
                sort = "R"
                break
        if sort == "R":
            break
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", items, sort)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
    return from_pd(d)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, mul(const(-1), b))


def _mono_mul(m1, m2):
    """product of monomials; returns a poly dict (exp/ind may simplify)"""
    if not m1:
        return {m2: Fraction(1)}
    if not m2:
        return {m1: Fraction(1)}
    ex = {}
    for a, e in m1:
        ex[a] = ex.get(a, 0) + e
    for a, e in m2:
        ex[a] = ex.get(a, 0) + e
    return _norm_mono(ex)


def _norm_mono(ex):
    exps = None
    items = []
    polyfac = []
    for a, e in ex.items():
        if e == 0:
            continue
        if a.op == "ind":
            items.append((a, Fraction(1)))
        elif a.op == "app" and a.args[0] == "exp":
            exps = (exps or []) + [(a, e)]
        elif a.op == "poly" and e > 0 and e.denominator == 1:
            polyfac.append((a, e))
        else:
            items.append((a, e))
    coef = {(): Fraction(1)}
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            items.append((exps[0][0], Fraction(1)))
        else:
            tot = add(*[mul(const(e), a.args[1]) for a, e in exps])
            et = exp_(tot)
            rest = from_pd({_mono_sort(items): Fraction(1)})
            return pd(mul(rest, et)) if not polyfac else pd(mul(mul(rest, et), *[ipow(a, int(e)) for a, e in polyfac]))
    base = {_mono_sort(items): Fraction(1)}
    if polyfac:
        t = from_pd(base)
        return pd(mul(t, *[ipow(a, int(e)) for a, e in polyfac]))
    return base


class TooBig(Exception):
    pass


def mul(*ts):
    acc = {(): Fraction(1)}
    for t in ts:
        if not isinstance(t, T):
            t = tt(t)
        if t.op == "const":
            c0 = t.args[0]
            if c0 == 0:
                return ZERO
            acc = {m: c * c0 for m, c in acc.items()}
            continue
        p = pd(t)
        if len(p) * len(acc) > 20000:
            raise TooBig("polynomial product too large")
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                for m, c in _mono_mul(m1, m2).items():
                    new[m] = new.get(m, 0) + c * c1 * c2
        acc = {m: c for m, c in new.items() if c != 0}
    return from_pd(acc)


def ipow(t, k):
    r = ONE
    for _ in range(k):
        r = mul(r, t)
    return r


def _lead(p):
    items = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    for m, c in items:
        if m != ():
            return c
    return items[0][1]


def rpow(t, e):
    """t ** e for a rational constant e"""
    t = tt(t)
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.op == "const":
        c = t.args[0]
        if e.denominator == 1:
            if c == 0:
                return ZERO if e > 0 else app("inv0", sort="R")
            return const(c ** int(e))
        if c == 0:
            return ZERO
        if c == 1:
            return ONE
        return exp_(mul(const(e), log_(t)))
    if e.denominator != 1:
        return exp_(mul(const(e), log_(t)))
    p = pd(t)
    if len(p) == 1:
        (m, c), = p.items()
        inds = [a for a, _ in m if a.op == "ind"]
        if inds and e < 0:
            return lift_ind(t, lambda x: rpow(x, e))
        ex = {a: x * e for a, x in m}
        return mul(const(c ** int(e)), from_pd(_norm_mono(ex)))
    if e > 0 and e <= 6:
        return ipow(t, int(e))
    if e < 0 and has_top_ind(t):
        return lift_ind(t, lambda x: rpow(x, e))
    lc = _lead(p)
    base = from_pd({m: c / lc for m, c in p.items()})
    return mul(const(lc ** int(e)), from_pd({((base, e),): Fraction(1)}))


def div(a, b):
    a, b = tt(a), tt(b)
    if a is b and a.op != "const":
        return ONE
    if b.op == "poly" and len(b.args) > 1 and a.op == "poly" and len(a.args) == len(b.args):
        da, db = dict(a.args), dict(b.args)
        if set(da) == set(db):
            rs = {da[m] / db[m] for m in da}
            if len(rs) == 1:
                return const(rs.pop())
    return mul(a, rpow(b, -1))


def power(a, b):
    a, b = tt(a), tt(b)
    if b.op == "const":
        return rpow(a, b.args[0])
    if a.op == "const" and a.args[0] == 1:
        return ONE
    return exp_(mul(b, log_(a)))


# ----------------------------------------------------- indicator manipulation
def top_inds(t):
    s = []
    for m, _ in pd(t).items():
        for a, _ in m:
            if a.op == "ind" and a not in s:
                s.append(a)
    return s


def has_top_ind(t):
    return t.op in ("poly", "ind") and bool(top_inds(t))


def set_ind(t, a, val):
    """t with the indicator atom a replaced by 0/1 at polynomial level"""
    d = {}
    for m, c in pd(t).items():
        if any(x is a for x, _ in m):
            if val == 0:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        d[m] = d.get(m, 0) + c
    return from_pd(d)


def lift_ind(t, f, depth=6):
    inds = top_inds(t)
    if not inds or depth == 0:
        return f(t)
    a = inds[0]
    t1, t0 = set_ind(t, a, 1), set_ind(t, a, 0)
    if t1 is t0:
        return lift_ind(t1, f, depth - 1)
    return add(mul(a, lift_ind(t1, f, depth - 1)), mul(sub(ONE, a), lift_ind(t0, f, depth - 1)))


# ------------------------------------------------------------------ functions
INT_APPS = {"floor", "idiv", "mod"}


def app(name, *args, sort="R"):
    return mk("app", (name,) + tuple(const(a) if type(a) is int else a for a in args), sort)


INF = app("inf")
NAN = app("nan")


def _factor(n):
    out, p = {}, 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def log_(t):
    if t.op == "const":
        c = t.args[0]
        if c == 0:
            return neg(INF)
        if c > 0:
            r = ZERO
            for p, k in _factor(c.numerator).items():
                r = add(r, mul(const(k), app("log", const(p))))
            for p, k in _factor(c.denominator).items():
                r = sub(r, mul(const(k), app("log", const(p))))
            return r
        return app("log", t)
    if t.op == "app" and t.args[0] == "exp":
        return t.args[1]
    if t is INF:
        return INF
    if has_top_ind(t):
        return lift_ind(t, log_)
    p = pd(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            r = log_(const(c))
            for a, e in m:
                if a.op == "app" and a.args[0] == "exp":
                    r = add(r, mul(const(e), a.args[1]))
                else:
                    r = add(r, mul(const(e), app("log", a)))
            return r
        return app("log", t)
    lc = abs(_lead(p))
    if lc != 1:
        return add(log_(const(lc)), app("log", from_pd({m: c / lc for m, c in p.items()})))
    return app("log", t)


def exp_(t):
    if t.op == "const" and t.args[0] == 0:
        return ONE
    if has_top_ind(t):
        # only lift indicators that multiply INF (others are kept inside)
        return lift_ind(t, exp_)
    p = pd(t)
    out = ONE
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log":
            out = mul(out, rpow(m[0][0].args[1], c))
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log" and m[0][0].args[1].op == "const":
            # p^(k + f) = p^k p^f with 0 <= f < 1
            k = c.numerator // c.denominator
            out = mul(out, rpow(m[0][0].args[1], Fraction(k)))
            rest[m] = c - k
        elif len(m) == 1 and m[0][0] is INF:
            return ZERO if c < 0 else INF
        else:
            rest[m] = c
    r = from_pd(rest)
    if r.op == "const" and r.args[0] == 0:
        return out
    e = app("exp", r)
    return mul(out, e)


def floor_(t):
    if t.op == "const":
        import math
        return const(math.floor(t.args[0]))
    if t.sort == "I":
        return t
    p = pd(t)
    ip = {m: c for m, c in p.items() if c.denominator == 1 and all(a.sort == "I" and e.denominator == 1 and e > 0 for a, e in m)}
    rp = {m: c for m, c in p.items() if m not in ip}
    return add(from_pd(ip), app("floor", from_pd(rp), sort="I"))


def ceil_(t):
    return neg(floor_(neg(t)))


def abs_(t):
    if t.op == "const":
        return const(abs(t.args[0]))
    return ite(ge(t, ZERO), t, neg(t))


def mod_(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] % b.args[0])
    if b is ONE and a.sort == "I":
        return ZERO
    return app("mod", a, b, sort="I" if a.sort == b.sort == "I" else "R")


def idiv_(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] // b.args[0])
    if b is ONE and a.sort == "I":
        return a
    return app("idiv", a, b, sort="I" if a.sort == b.sort == "I" else "R")


FUNCS = {"log": log_, "exp": exp_}


def fapp(name, *args, sort="R"):
    """application with lifting of indicators out of a single scalar argument"""
    if name in FUNCS:
        return FUNCS[name](*args)
    for k, a in enumerate(args):
        if isinstance(a, T) and a.sort in "IR" and has_top_ind(a):
            return lift_ind(a, lambda x, k=k: fapp(name, *(args[:k] + (x,) + args[k + 1:]), sort=sort))
    return app(name, *args, sort=sort)


# ------------------------------------------------------------------- booleans
def _int_norm(p):
    """p >= 0 over integers: divide by gcd, floor the constant"""
    from math import gcd
    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    p = {m: c * den for m, c in p.items()}
    g = 0
    for m, c in p.items():
        if m != ():
            g = gcd(g, abs(int(c)))
    if g > 1:
        import math
        p = {m: (c / g if m != () else Fraction(math.floor(c / g))) for m, c in p.items()}
    return p


def _is_intpoly(t):
    if t.sort == "I":
        return True
    if t.op == "poly":
        for m, c in t.args:
            for a, e in m:
                if a.sort != "I" or e.denominator != 1 or e < 0:
                    return False
        return True
    return False


def ge0(t):
    """t >= 0"""
    if t.op == "const":
        return const(bool(t.args[0] >= 0))
    if t is INF:
        return TRUE
    p = pd(t)
    if len(p) == 1 and () not in p:
        (m, c), = p.items()
        if len(m) == 1 and m[0][0] is INF:
            return const(bool(c > 0))
    if has_top_ind(t):
        return _lift_b(t, ge0)
    if _is_intpoly(t):
        p = _int_norm(p)
        t = from_pd(p)
        if t.op == "const":
            return ge0(t)
        # canonical orientation: leading coefficient positive
        if _lead(pd(t)) < 0:
            return not_(_int_ge0(sub(neg(t), ONE)))
        return _int_ge0(t)
    lc = abs(_lead(p))
    t = from_pd({m: c / lc for m, c in p.items()})
    if t.op == "app" and t.args[0] == "exp":
        return TRUE
    return mk("ge0", (t,), "B")


def _int_ge0(t):
    """t >= 0; a count is at least 1 exactly when it is not 0"""
    k, a = 0, t
    if t.op == "poly" and len(t.args) == 2:
        p = pd(t)
        k = p.pop((), 0)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
    if k in (0, -1) and is_count(a):
        return TRUE if k == 0 else not_(eq0(a))
    return mk("ge0", (t,), "B")


_iscount = {}


def is_count(a):
    """a sum of terms that are 0 or 1"""
    if a.op == "sum":
        body = a.args[3]
    elif a.op == "app" and a.args[0] == "S":
        body = a.args[1].args[2]
    else:
        return False
    r = _iscount.get(a)
    if r is None:
        r = _iscount[a] = nonneg_selection(body)
    return r


def nonneg_selection(body):
    """a combination of products of indicators that is never negative"""
    if body.op != "poly":
        return body.op == "ind" or body.op == "const" and body.args[0] >= 0
    at = []
    for m, c in body.args:
        for a, e in m:
            if a.op != "ind":
                return False
            if a not in at:
                at.append(a)
    if len(at) > 6:
        return False
    for bits in range(1 << len(at)):
        on = {a for k, a in enumerate(at) if bits >> k & 1}
        if sum(c for m, c in body.args if all(a in on for a, e in m)) < 0:
            return False
    return True


def _lift_b(t, f):
    a = top_inds(t)[0]
    c = a.args[0]
    t1, t0 = f(set_ind(t, a, 1)), f(set_ind(t, a, 0))
    if t1 is t0:
        return t1
    return or_(and_(c, t1), and_(not_(c), t0))


def ge(a, b):
    return ge0(sub(a, b))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    d = sub(b, a)          # d > 0
    return gt0(d)


def gt0(d):
    if d.op == "const":
        return const(bool(d.args[0] > 0))
    if has_top_ind(d):
        return _lift_b(d, gt0)
    if _is_intpoly(d) and d.sort == "I":
        return ge0(sub(d, ONE))
    return not_(ge0(neg(d)))


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = tt(a), tt(b)
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == "L" or b.sort == "L":
        return mk("eqL", tuple(sorted((a, b), key=lambda x: x.id)), "B")
    return eq0(sub(a, b))


def eq0(t):
    if t.op == "const":
        return const(t.args[0] == 0)
    p = pd(t)
    if has_top_ind(t):
        return _lift_b(t, eq0)
    if len(p) == 1 and () not in p:
        (m, c), = p.items()
        if len(m) == 1 and m[0][0] is INF:
            return FALSE
        if len(m) == 1 and m[0][0].op == "app" and m[0][0].args[0] == "exp":
            return FALSE
    lc = _lead(p)
    t = from_pd({m: c / lc for m, c in p.items()})
    return mk("eq0", (t,), "B")


def ne(a, b):
    return not_(eq(a, b))


def not_(t):
    t = tt(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return or_(*[not_(x) for x in t.args])
    if t.op == "or":
        return and_(*[not_(x) for x in t.args])
    if t.op == "forall":
        b, lo, hi, body = t.args
        return mk("exists", (b, lo, hi, not_(body)), "B")
    if t.op == "exists":
        b, lo, hi, body = t.args
        return mk("forall", (b, lo, hi, not_(body)), "B")
    return mk("not", (t,), "B")


def and_(*ts):
    out = []
    for t in ts:
        t = tt(t)
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        for x in (t.args if t.op == "and" else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_lit(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda x: x.id)), "B")


def not_lit(x):
    if x.op == "not":
        return x.args[0]
    return mk("not", (x,), "B")


def or_(*ts):
    out = []
    for t in ts:
        t = tt(t)
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        for x in (t.args if t.op == "or" else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_lit(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda x: x.id)), "B")


def implies(a, b):
    return or_(not_(a), b)


def ind(c):
    c = tt(c)
    if c.sort != "B":
        return c
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return sub(ONE, ind(c.args[0]))
    if c.op == "and":
        return mul(*[ind(x) for x in c.args])
    if c.op == "or":
        return sub(ONE, mul(*[sub(ONE, ind(x)) for x in c.args]))
    if c.op == "forall":
        return sub(ONE, ind(not_(c)))
    return mk("ind", (c,), "I")


def ite(c, a, b):
    c, a, b = tt(c), tt(a), tt(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == "L" or b.sort == "L":
        return mk("iteL", (c, a, b), "L")
    i = ind(c)
    return add(b, mul(i, sub(a, b)))


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(ge(a, b), a, b)


# ------------------------------------------------------------------- binders
# ('sum'|'prod'|'forall'|'exists'|'maxb'|'minb'|'argmax'|'argmin', (bv, lo, hi, body))
# ('lam', (bvs tuple, dims tuple, body)) sort L
# ('msum', (bvs tuple, his tuple, body))  canonical rectangle sum from 0
# ('seqprod', (bv, lo, hi, body)) canonical product
def fresh_bv():
    return fresh("q", "I")


def binder(op, lo, hi, f, sort=None):
    bv = fresh_bv()
    body = f(bv)
    return binder_(op, bv, lo, hi, body, sort)


def binder_(op, bv, lo, hi, body, sort=None):
    lo, hi = tt(lo), tt(hi)
    if op in ("forall", "exists"):
        body = tt(body)
        if body is TRUE and op == "forall":
            return TRUE
        if body is FALSE and op == "exists":
            return FALSE
        n = sub(hi, lo)
        if is_const(n) and cval(n) <= 0:
            return TRUE if op == "forall" else FALSE
        if is_const(n) and cval(n) <= 3:
            parts = [subst(body, {bv: add(lo, const(k))}) for k in range(int(cval(n)))]
            return and_(*parts) if op == "forall" else or_(*parts)
        if op == "exists":
            # one-point rule
            for t in (body.args if body.op == "and" else (body,)):
                if t.op == "eq0" and bv in fv(t):
                    p0 = subst(t.args[0], {bv: ZERO})
                    d = sub(t.args[0], p0)
                    if d is bv or d is neg(bv):
                        e = neg(p0) if d is bv else p0
                        if bv not in fv(e) and e.sort == "I":
                            return and_(le(lo, e), lt(e, hi), subst(body, {bv: e}))
        return close(op, bv, lo, hi, body, "B")
    if op in ("sum", "prod"):
        if body.sort == "B":
            body = ind(body)
        n = sub(hi, lo)
        if is_const(n) and cval(n) <= 0:
            return ZERO if op == "sum" else ONE
        if is_const(n) and cval(n) <= 4:
            parts = [subst(body, {bv: add(lo, const(k))}) for k in range(int(cval(n)))]
            return add(*parts) if op == "sum" else mul(*parts)
        if body.op == "const" and ((op == "sum" and cval(body) == 0) or (op == "prod" and cval(body) == 1)):
            return body
    if op in ("argmax", "argmin"):
        return close(op, bv, lo, hi, body, "I")
    if op in ("maxb", "minb"):
        n = sub(hi, lo)
        if is_const(n) and cval(n) == 1:
            return subst(body, {bv: lo})
    return close(op, bv, lo, hi, body, sort or body.sort)


def close(op, bv, lo, hi, body, sort):
    """alpha-canonical binder: the bound variable is named by the height of the body.
    Invariant: canonical names never occur free outside their binder, so binders are
    always opened with fresh variables"""
    c = var("_b%d" % (height(body) + 1), "I")
    if bv is not c:
        body = subst(body, {bv: c})
    return mk(op, (c, lo, hi, body), sort)


def open_(t, v=None):
    """(variable, lo, hi, body) of a binder, with a fresh variable"""
    b, lo, hi, body = t.args
    v = fresh_bv() if v is None else v
    return v, lo, hi, subst(body, {b: v})


def Sum(lo, hi, f):
    return binder("sum", lo, hi, f)


def Prod(lo, hi, f):
    return binder("prod", lo, hi, f)


def Forall(lo, hi, f):
    return binder("forall", lo, hi, f)


def Exists(lo, hi, f):
    return binder("exists", lo, hi, f)


def Min(lo, hi, f):
    return binder("minb", lo, hi, f)


def Max(lo, hi, f):
    return binder("maxb", lo, hi, f)


def Argmax(lo, hi, f):
    return binder("argmax", lo, hi, f)


def lam(dims, f):
    bvs = tuple(fresh_bv() for _ in dims)
    return close_lam(bvs, tuple(tt(d) for d in dims), f(*bvs))


def close_lam(bvs, dims, body):
    one = {b: ZERO for b, d in zip(bvs, dims) if d is ONE and b in fv(body)}
    if one:
        # the only index of an axis of length one
        body = subst(body, one)
    h = height(body)
    cs = tuple(var("_b%d" % (h + 1 + k), "I") for k in range(len(bvs)))
    if cs != bvs:
        body = subst(body, dict(zip(bvs, cs)))
    return mk("lam", (cs, dims, body), "L")


def open_lam(t, vs=None):
    bs, ds, body = t.args
    vs = vs or tuple(fresh_bv() for _ in bs)
    return vs, ds, subst(body, dict(zip(bs, vs)))


BINDERS = {"sum", "prod", "forall", "exists", "maxb", "minb", "argmax", "argmin", "pr"}


# ---------------------------------------------------------------- traversals
def fv(t):
    if t._fv is not None:
        return t._fv
    op = t.op
    if op == "var":
        r = frozenset((t,))
    elif op == "poly":
        r = frozenset().union(*[fv(a) for m, _ in t.args for a, _ in m]) if t.args else frozenset()
    elif op in BINDERS:
        b, lo, hi, body = t.args
        r = (fv(body) - {b}) | fv(lo) | fv(hi)
    elif op in ("lam",):
        bs, ds, body = t.args
        r = (fv(body) - frozenset(bs)).union(*[fv(d) for d in ds])
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r |= fv(a)
    t._fv = r
    return r


def rebuild(t, f, opening=True):
    """rebuild one node with children mapped by f (binders: f on every part)"""
    op = t.op
    if op in ("const", "var", "bool"):
        return t
    if op == "poly":
        acc = []
        for m, c in t.args:
            acc.append(mul(const(c), *[rpow(f(a), e) for a, e in m]))
        return add(*acc)
    if op == "app":
        return fapp(t.args[0], *[f(a) if isinstance(a, T) else a for a in t.args[1:]], sort=t.sort) \
            if t.args[0] not in ("floor", "mod", "idiv") else \
            {"floor": floor_, "mod": mod_, "idiv": idiv_}[t.args[0]](*[f(a) for a in t.args[1:]])
    if op == "ind":
        return ind(f(t.args[0]))
    if op == "ge0":
        return ge0(f(t.args[0]))
    if op == "eq0":
        return eq0(f(t.args[0]))
    if op == "eqL":
        a, b = f(t.args[0]), f(t.args[1])
        return eq(a, b)
    if op == "not":
        return not_(f(t.args[0]))
    if op == "and":
        return and_(*[f(a) for a in t.args])
    if op == "or":
        return or_(*[f(a) for a in t.args])
    if op == "iteL":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op in BINDERS:
        b, lo, hi, body = t.args
        if opening:
            b, lo, hi, body = open_(t)
        return binder_(op, b, f(lo), f(hi), f(body), t.sort if op not in ("sum", "prod") else None)
    if op == "lam":
        bs, ds, body = t.args
        if opening:
            bs, ds, body = open_lam(t)
        return close_lam(bs, tuple(f(d) for d in ds), f(body))
    raise ValueError(op)


def subst(t, m, memo=None):
    if not m:
        return t
    if len(m) == 1:
        (k, v), = m.items()
        if k is v:
            return t
    keys = frozenset(m)
    opening = any(height(v) > 0 for v in m.values())
    if memo is None:
        memo = {}

    def go(t):
        if not (fv(t) & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = m[t] if t.op == "var" else rebuild(t, go, opening)
            memo[t] = r
        return r
    return go(t)


def replace(t, pred_map, memo=None):
    """replace arbitrary subterms: pred_map(t) -> T or None (top down)"""
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = pred_map(t)
            if r is None:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    if t.op == "poly":
        for m, _ in t.args:
            for a, _ in m:
                subterms(a, seen)
    else:
        for a in t.args:
            if isinstance(a, T):
                subterms(a, seen)
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        subterms(x, seen)
    return seen


def height(t):
    """binder nesting height"""
    if t._h is not None:
        return t._h
    h = 0
    if t.op == "poly":
        for m, _ in t.args:
            for a, _ in m:
                h = max(h, height(a))
    else:
        for a in t.args:
            if isinstance(a, T):
                h = max(h, height(a))
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        h = max(h, height(x))
    if t.op in BINDERS:
        h += 1
    elif t.op in ("lam",):
        h += len(t.args[0])
    t._h = h
    return h


# ------------------------------------------------------------------- printing
def key(t):
    """deterministic serialization (independent of interning order)"""
    if t._key is not None:
        return t._key
    op = t.op
    if op == "const":
        k = str(t.args[0])
    elif op in ("var", "bool"):
        k = str(t.args[0])
    elif op == "poly":
        parts = []
        for m, c in t.args:
            fs = sorted(key(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
            parts.append(("%s*" % c if c != 1 or not fs else "") + "*".join(fs))
        k = "(" + " + ".join(sorted(parts)) + ")"
    elif op == "app":
        k = "%s(%s)" % (t.args[0], ", ".join(key(a) if isinstance(a, T) else str(a) for a in t.args[1:]))
    elif op in ("and", "or"):
        k = op + "{" + ", ".join(sorted(key(a) for a in t.args)) + "}"
    elif op == "ind":
        k = "[" + key(t.args[0]) + "]"
    elif op == "ge0":
        k = key(t.args[0]) + ">=0"
    elif op == "eq0":
        k = key(t.args[0]) + "==0"
    elif op in BINDERS:
        b, lo, hi, body = t.args
        k = "%s{%s in [%s, %s)}(%s)" % (op, key(b), key(lo), key(hi), key(body))
    elif op in ("lam",):
        bs, ds, body = t.args
        k = "%s{%s}(%s)" % (op, ", ".join("%s<%s" % (key(b), key(d)) for b, d in zip(bs, ds)), key(body))
    else:
        k = op + "(" + ", ".join(key(a) for a in t.args) + ")"
    t._key = k
    return k


def show(t, limit=2000):
    s = key(t)
    return s if len(s) <= limit else s[:limit] + "..."
