"""Normal form of terms under facts: the equational back end of the verifier.

Sums become formal antiderivatives  S(f, e)  with  S(f, 0) = 0  and
S(f, e + 1) = S(f, e) + f(e)  for every integer e, so that
sum over [lo, hi) of f = S(f, hi) - S(f, lo)  whenever lo <= hi.
"""
import itertools
from .terms import *
from . import smt

STAT = {"norm": 0, "splits": 0}


class Limit(Exception):
    pass


def mkS(L, e):
    return app("S", L, e)


def lin(t, v):
    """(coefficient, rest) when t = c*v + rest, c a constant, v not in rest"""
    c, rest = 0, {}
    for m, k in pd(t).items():
        e = [x for a, x in m if a is v]
        if e:
            if e == [1] and len(m) == 1:
                c = k
                continue
            return None
        rest[m] = k
    r = from_pd(rest)
    if v in fv(r):
        return None
    return c, r


def polydiv(A, d):
    """quotient A / d of polynomials, or None"""
    q = ZERO
    dm = sorted(pd(d).items(), key=lambda mc: (-len(mc[0]), key(from_pd({mc[0]: Fraction(1)}))))
    m0, c0 = dm[0]
    if not m0:
        return None
    for _ in range(20):
        if A is ZERO:
            return q
        hit = None
        for m, c in pd(A).items():
            e = dict(m)
            if all(e.get(x, 0) >= y for x, y in m0):
                for x, y in m0:
                    e[x] -= y
                    if e[x] == 0:
                        del e[x]
                hit = mul(const(c / c0), *[rpow(x, y) for x, y in e.items()])
                break
        if hit is None:
            return None
        q = add(q, hit)
        A = sub(A, mul(hit, d))
    return None


def const_part(t):
    p = pd(t)
    k = p.pop((), Fraction(0))
    return from_pd(p), k


class Norm:
    def __init__(self, facts, depth=0, budget=None):
        self.facts = list(facts)
        self.depth = depth
        self.memo = {}
        self.budget = budget if budget is not None else [6000]
        self.dm = {}
        self.rules = None

    # ------------------------------------------------------------- decisions
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.dm.get(c, 0)
        if r == 0:
            r = smt.decide(self.facts, c)
            self.dm[c] = r
        return r

    def cond(self, c):
        r = self.decide(c)
        return TRUE if r is True else FALSE if r is False else c

    def ite(self, c, fa, fb):
        r = self.decide(c)
        if r is True:
            return fa(self)
        if r is False:
            return fb(self)
        return ite(c, fa(self.under(c)), fb(self.under(not_(c))))

    def under(self, *fs):
        return Norm(self.facts + [f for f in fs if f is not TRUE], self.depth, self.budget)

    def inner(self, lo, hi):
        v = var("nb%d" % self.depth, "I")
        n = Norm(self.facts + [ge(v, lo), lt(v, hi)], self.depth + 1, self.budget)
        return v, n

    # ------------------------------------------------------------------ main
    def simp(self, t):
        r = self.memo.get(t)
        if r is None:
            self.budget[0] -= 1
            if self.budget[0] < 0:
                raise Limit("normalisation budget")
            r = self._simp(t)
            self.memo[t] = r
            self.memo[r] = r
        return r

    def _simp(self, t):
        op = t.op
        if op in ("const", "bool"):
            return t
        if op == "var":
            if t.sort == "B":
                return self.cond(t)
            return t
        if op == "poly":
            acc = []
            for m, c in t.args:
                acc.append(mul(const(c), *[rpow(self.simp(a), e) for a, e in m]))
            return add(*acc)
        if op == "ind":
            c = self.simp(t.args[0])
            return ind(c)
        if op in ("ge0", "eq0"):
            r = self.decide(t)
            if r is not None:
                return TRUE if r else FALSE
            c = rebuild(t, self.simp)
            if op == "eq0" and c.op == "eq0":
                c = self.rank_eq(c)
            if c is not t and c.sort == "B":
                return self.cond(c)
            return c
        if op in ("not", "and", "or"):
            r = self.decide(t)
            if r is not None:
                return TRUE if r else FALSE
            return rebuild(t, self.simp)
        if op == "eqL":
            a, b = self.simp(t.args[0]), self.simp(t.args[1])
            return self.cond(eq(a, b))
        if op == "iteL":
            c = self.cond(t.args[0])
            if c is TRUE:
                return self.simp(t.args[1])
            if c is FALSE:
                return self.simp(t.args[2])
            return ite(c, self.under(c).simp(t.args[1]), self.under(not_(c)).simp(t.args[2]))
        if op == "app":
            if t.args[0] == "S":
                return self.S(t.args[1], self.simp(t.args[2]))
            r = rebuild(t, self.simp)
            return self.app_rules(r)
        if op == "lam":
            bs, ds, body = t.args
            ds = [self.simp(d) for d in ds]
            vs = [var("nb%d" % (self.depth + k), "I") for k in range(len(bs))]
            n = Norm(self.facts + [f for v, d in zip(vs, ds) for f in (ge(v, ZERO), lt(v, d))], self.depth + len(bs), self.budget)
            body = n.simp(subst(body, dict(zip(bs, vs))))
            return close_lam(tuple(vs), tuple(ds), body)
        if op in BINDERS:
            b, lo, hi, body = t.args
            lo, hi = self.simp(lo), self.simp(hi)
            v, n = self.inner(lo, hi)
            if op in ("sum", "prod"):
                r = self.decide(lt(lo, hi))
                if r is False:
                    return ZERO if op == "sum" else ONE
            body = n.simp(subst(body, {b: v}))
            if op == "sum":
                return self.sum(v, lo, hi, body)
            if op == "prod":
                return self.prod(v, lo, hi, body)
            if op in ("argmax", "maxb", "argmin", "minb"):
                return self.extremum(op, v, lo, hi, body, t.sort, n)
            return self.cond(binder_(op, v, lo, hi, body, t.sort))
        raise Limit("term " + op)

    def rewrite(self, t, name):
        """f(e) by a fact `for all v in [lo, hi): f(v) == r(v)`"""
        if self.rules is None:
            self.rules = {}
            for f in self.facts:
                if f.op != "forall":
                    continue
                v, lo, hi, body = open_(f)
                if body.op != "eq0":
                    continue
                p = pd(body.args[0])
                for m, c in p.items():
                    a = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
                    if a is None or abs(c) != 1 or a.op != "app" or a.args[1:] != (v,) or a.args[0] in ("exp", "log"):
                        continue
                    rest = from_pd({k: x for k, x in p.items() if k != m})
                    if any(s.op == "app" and s.args[0] == a.args[0] for s in subterms(rest)):
                        continue
                    self.rules[a.args[0]] = (v, lo, hi, mul(const(-1 / c), rest))
                    break
        r = self.rules.get(name)
        if r is None or len(t.args) != 2:
            return None
        v, lo, hi, rhs = r
        e = t.args[1]
        if self.decide(and_(ge(e, lo), lt(e, hi))) is not True:
            return None
        return subst(rhs, {v: e})

    def app_rules(self, t):
        if t.op != "app":
            return t
        n = t.args[0]
        if n in ("logdet", "inv") and t.args[1].op == "lam" and t.args[1].args[1] == (ONE, ONE):
            # 1 x 1 matrix
            x = t.args[1].args[2]
            return self.simp(log_(x)) if n == "logdet" else rpow(x, -1)
        if n in ("logdet", "inv") and t.args[1].op == "lam":
            # the inverse of an inverse
            (b1, b2), _, x = t.args[1].args
            if x.op == "app" and x.args[0] == "inv" and x.args[2] is b1 and x.args[3] is b2 and not fv(x.args[1]) & {b1, b2}:
                L = x.args[1]
                if n == "logdet":
                    return neg(self.app_rules(app("logdet", L)))
                return self.simp(subst(L.args[2], dict(zip(L.args[0], t.args[2:]))))
        r = self.rewrite(t, n)
        if r is not None:
            return self.simp(r)
        if n == "log":
            x = t.args[1]
            if x.op == "poly" and len(x.args) == 1 and x.args[0][1] < 0:
                # a positive product with one negative factor
                m, c = x.args[0]
                for a, e in m:
                    if e.denominator == 1 and int(e) % 2 and a.op == "poly" and self.decide(lt(a, ZERO)) is True:
                        rest = from_pd({tuple((b, f) for b, f in m if b is not a): -c})
                        return add(mul(const(e), self.simp(log_(neg(a)))), self.simp(log_(rest)))
            if x.op == "prod":
                b, lo, hi, body = x.args
                return self.simp(binder_("sum", *_opn(x), None) if False else _logprod(x))
        return t

    def rank_eq(self, c):
        """#{l < a: P(l)} == #{l < b: P(l)} with P(a) and P(b) holds exactly when a == b"""
        p = pd(c.args[0])
        if len(p) != 2 or any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != "app" or m[0][0].args[0] != "S" for m in p):
            return c
        (m1, c1), (m2, c2) = p.items()
        s, u = m1[0][0], m2[0][0]
        if c1 + c2 != 0 or s.args[1] is not u.args[1]:
            return c
        (l,), _, body = s.args[1].args
        if body.op != "ind":
            return c
        for e in (s.args[2], u.args[2]):
            if self.decide(ge(e, ZERO)) is not True or not self.witnessed(subst(body.args[0], {l: e}), e):
                return c
        return eq(s.args[2], u.args[2])

    def witnessed(self, c, e):
        c = self.simp(c)
        if c is TRUE or self.decide(c) is True:
            return True
        if c.op != "exists":
            return False
        v, lo, hi, body = open_(c)
        for w in fv(e):
            if w.sort == "I" and self.decide(and_(ge(w, lo), lt(w, hi))) is True and self.simp(subst(body, {v: w})) is TRUE:
                return True
        return False

    def positive(self, t):
        """provably > 0"""
        if t.op == "app" and t.args[0] == "exp":
            return True
        if t.op == "app" and t.args[0] == "S":
            (b,), _, body = t.args[1].args
            if self.decide(gt(t.args[2], ZERO)) is not True:
                return False
            v, n = self.inner(ZERO, t.args[2])
            return n.positive(subst(body, {b: v}))
        if self.decide(gt(t, ZERO)) is True:
            return True
        p = pd(t)
        if len(p) == 1 and from_pd({next(iter(p)): Fraction(1)}) is t and not t.op == "poly":
            return False
        return all(c > 0 and all(a is not t and self.positive(a) for a, e in m) for m, c in p.items()) and bool(p)

    def monotone(self, v, body, n):
        """a simpler quantity with the same place of the extremum: positive
        constants stripped, the logarithm taken of a positive product"""
        p = pd(body)
        dep = {m: c for m, c in p.items() if any(v in fv(a) for a, _ in m)}
        if len(dep) != 1:
            return from_pd(dep) if 0 < len(dep) < len(p) else None
        (m, c), = dep.items()
        fs = [(a, e) for a, e in m if v not in fv(a)]
        ds = [(a, e) for a, e in m if v in fv(a)]
        if any(not n.positive(a) for a, e in fs):
            return None
        if abs(c) != 1 or fs or len(dep) < len(p):
            return from_pd({tuple(ds): 1 if c > 0 else -1})
        if c < 0 or not (len(ds) > 1 or ds[0][0].op == "app" and ds[0][0].args[0] == "exp" or ds[0][1] != 1):
            return None
        if any(not n.positive(a) for a, e in ds):
            return None
        return add(*[mul(const(e), log_(a)) for a, e in ds])

    def extremum(self, op, v, lo, hi, body, sort, n=None):
        p = pd(body)
        if n is not None and op in ("argmax", "argmin"):
            for _ in range(4):
                b = self.monotone(v, body, n)
                if b is None:
                    break
                body = n.simp(b)
            p = pd(body)
        free = {m: c for m, c in p.items() if not any(v in fv(a) for a, _ in m)}
        dep = {m: c for m, c in p.items() if m not in free}
        if dep and free and op in ("argmax", "argmin"):
            body = from_pd(dep)
            return binder_(op, v, lo, hi, body, sort)
        if dep and free:
            return add(from_pd(free), binder_(op, v, lo, hi, from_pd(dep), sort))
        if not dep and op in ("maxb", "minb") and self.decide(lt(lo, hi)) is True:
            return body
        return binder_(op, v, lo, hi, body, sort)

    # ------------------------------------------------------------------- sums
    def linear_ind(self, m, v):
        for a, e in m:
            if a.op == "ind" and v in fv(a):
                c = a.args[0]
                if c.op in ("eq0", "ge0"):
                    l = lin(c.args[0], v)
                    if l is not None and abs(l[0]) == 1 and c.args[0].sort == "I":
                        return a, c.op, l
        return None

    def sum(self, v, lo, hi, body):
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Limit("normalisation budget")
        if body.op == "const" and body.args[0] == 0:
            return ZERO
        # split the range where the body changes
        for a in sorted(top_inds(body), key=key):
            c = a.args[0]
            if v in fv(a) and c.op == "ge0" and c.args[0].sort == "I":
                l = lin(c.args[0], v)
                if l is not None and abs(l[0]) == 1:
                    k, r = l
                    e = neg(r) if k == 1 else add(r, ONE)
                    b1, b0 = set_ind(body, a, 1), set_ind(body, a, 0)
                    first, second = (b0, b1) if k == 1 else (b1, b0)
                    if self.decide(ge(e, lo)) is True and self.decide(le(e, hi)) is True:
                        return add(self.resum(v, lo, e, first), self.resum(v, e, hi, second))
                    return self.ite(le(e, lo), lambda n: n.resum(v, lo, hi, second),
                                    lambda n: n.ite(ge(e, hi), lambda n2: n2.resum(v, lo, hi, first),
                                                    lambda n2: add(n2.resum(v, lo, e, first), n2.resum(v, e, hi, second))))
        p = pd(body)
        # indicators that constrain the bound variable
        done, out = {}, []
        for m, c in p.items():
            li = self.linear_ind(m, v)
            if li is None:
                done[m] = c
                continue
            a, op, (k, r) = li
            rest = mul(const(c), from_pd({tuple((x, e) for x, e in m if x is not a): Fraction(1)}))
            if op == "eq0":
                e = mul(const(-k), r)
                inr = and_(self.cond(ge(e, lo)), self.cond(lt(e, hi)))
                out.append(self.ite(inr, lambda n: n.simp(subst(rest, {v: e})), lambda n: ZERO))
            elif k == 1:
                e = neg(r)
                out.append(self.ite(le(e, lo), lambda n: n.resum(v, lo, hi, rest),
                                    lambda n: n.ite(lt(e, hi), lambda n2: n2.resum(v, e, hi, rest), lambda n2: ZERO)))
            else:
                u = add(r, ONE)
                out.append(self.ite(ge(u, hi), lambda n: n.resum(v, lo, hi, rest),
                                    lambda n: n.ite(gt(u, lo), lambda n2: n2.resum(v, lo, u, rest), lambda n2: ZERO)))
        if done:
            out.append(self.ite(le(lo, hi), lambda n: n.plain_sum(v, lo, hi, done), lambda n: ZERO))
        return add(*out)

    def resum(self, v, lo, hi, body):
        """sum whose body may simplify further on the smaller range"""
        if body is ZERO or self.decide(lt(lo, hi)) is False:
            return ZERO
        w, n = self.inner(lo, hi)
        b = n.simp(subst(body, {v: w}))
        return self.sum(w, lo, hi, b)

    def plain_sum(self, v, lo, hi, p):
        p = self.telescope(v, lo, hi, p)
        tele = p.pop("tele", ZERO)
        out = [tele]
        for m, c in p.items():
            free = [(a, e) for a, e in m if v not in fv(a)]
            dep = [(a, e) for a, e in m if v in fv(a)]
            f = mul(const(c), from_pd({tuple(free): Fraction(1)}))
            for k, (a, e) in enumerate(dep):
                if a.op == "app" and a.args[0] == "exp":
                    # sum exp(x_v - max) = exp(-max) sum exp(x_v)
                    q = pd(a.args[1])
                    out_ = {x: y for x, y in q.items() if any(z.op in ("maxb", "minb") for z, _ in x) and not any(v in fv(z) for z, _ in x)}
                    if out_:
                        f = mul(f, rpow(exp_(from_pd(out_)), e))
                        dep[k] = (exp_(from_pd({x: y for x, y in q.items() if x not in out_})), e)
                        d = list(pd(mul(*[rpow(z, g) for z, g in dep])))
                        if len(d) == 1:
                            dep = list(d[0])
                    break
            x = self.swap(v, lo, hi, dep)
            out.append(mul(f, self.mono_sum(v, lo, hi, dep) if x is None else x))
        return add(*out)

    def swap(self, v, lo, hi, dep):
        """exchange two sums when the outer variable is selected by an indicator of the inner body"""
        for a, e in dep:
            if not (a.op == "app" and a.args[0] == "S" and e == 1) or v in fv(a.args[2]):
                continue
            E = a.args[2]
            L = a.args[1]
            w = var("nw%d" % self.depth, "I")
            n = Norm(self.facts + [ge(w, ZERO), lt(w, E)], self.depth + 1, self.budget)
            b2 = subst(L.args[2], {L.args[0][0]: w})
            if not any(self.linear_ind(m, v) for m in pd(b2)):
                continue
            if self.decide(ge(E, ZERO)) is not True:
                continue
            rest = from_pd({tuple((y, z) for y, z in dep if y is not a): Fraction(1)})
            u = var("ns%d" % self.depth, "I")
            b3 = subst(mul(b2, rest), {v: u})
            inner = n.resum(u, lo, hi, b3)
            return self.sum(w, ZERO, E, inner)
        return None

    def telescope(self, v, lo, hi, p):
        """sum of c*(1 - h(v)) * prod_{[0,v)} h  =  c*(prod_{[0,lo)} h - prod_{[0,hi)} h)"""
        groups = {}
        for m, c in p.items():
            for a, e in m:
                if e == 1 and self.powbase(a, v) is not None:
                    rest = tuple((x, y) for x, y in m if x is not a)
                    groups.setdefault(a, {})[rest] = c
                if a.op == "prod" and e == 1 and v not in fv(a.args[3]) and self.tele_shift(a, v, lo) is not None:
                    rest = tuple((x, y) for x, y in m if x is not a)
                    groups.setdefault(a, {})[rest] = c
        out = []
        p = dict(p)
        for a, co in groups.items():
            A = from_pd(co)
            if a.op == "app":
                h = self.powbase(a, v)
                ab = polydiv(A, sub(ONE, h))
                if ab is None or v in fv(ab):
                    continue
                for rest in list(co):
                    for m in [m for m in p if a in [x for x, _ in m] and tuple((x, y) for x, y in m if x is not a) == rest]:
                        del p[m]
                out.append(mul(ab, sub(self.simp(subst(a, {v: lo})), self.simp(subst(a, {v: hi})))))
                continue
            b, _, _, hb = a.args
            k = self.tele_shift(a, v, lo)
            if k is ZERO:
                h = subst(hb, {b: v})
            else:
                w, n = self.inner(lo, hi)
                h = subst(n.simp(subst(hb, {b: add(w, k)})), {w: v})
            d = sub(ONE, h)            # want co == c * d + other
            if h.op == "const":
                continue
            # leading v-dependent monomial of d decides c
            dm = [(m, c) for m, c in pd(d).items() if any(v in fv(x) for x, _ in m)]
            if not dm:
                continue
            m0, c0 = sorted(dm, key=lambda mc: key(from_pd({mc[0]: Fraction(1)})))[0]
            # coefficient of m0 in A: monomials that contain m0
            cs = {}
            for m, c in pd(A).items():
                q = dict(m)
                ok = all(q.get(x, 0) == y for x, y in m0)
                if ok:
                    for x, y in m0:
                        del q[x]
                    if not any(v in fv(x) for x in q):
                        cs[tuple(q.items())] = c / c0
            if not cs:
                continue
            C = add(*[mul(const(c), *[rpow(x, y) for x, y in q]) for q, c in cs.items()])
            R = sub(A, mul(C, d))
            if R is not ZERO and len(pd(R)) >= len(pd(A)):
                continue
            for rest in list(co):
                full = [m for m in p if a in [x for x, _ in m] and tuple((x, y) for x, y in m if x is not a) == rest]
                for m in full:
                    del p[m]
            for m, c in pd(mul(R, a)).items():
                p[m] = p.get(m, 0) + c
            P = lambda e: self.simp(subst(a, {v: e}))
            out.append(mul(C, sub(P(lo), P(hi))))
        if out:
            p["tele"] = add(*out)
        return p

    def tele_shift(self, a, v, lo):
        """k when a is a product over [l, v + k) that is not empty-clipped at v = lo"""
        k = sub(a.args[2], v)
        if k is ZERO and a.args[1] is ZERO:
            return k
        if k.op != "const" or a.args[1].op != "const" or not self.decide(le(a.args[1], add(lo, k))):
            return None
        return k

    def powbase(self, a, v):
        """h when a is h^(v + const) as exp((v + const) * log h)"""
        if a.op != "app" or a.args[0] != "exp" or v not in fv(a):
            return None
        for s in subterms(a.args[1]):
            if s.op == "app" and s.args[0] == "log" and v not in fv(s):
                r = {}
                for m, c in pd(a.args[1]).items():
                    if dict(m).get(s) != 1:
                        return None
                    r[tuple((x, y) for x, y in m if x is not s)] = c
                l = lin(from_pd(r), v)
                if l is not None and l[0] == 1:
                    return s.args[1]
        return None

    def candidates(self, t, v, acc):
        """linear integer positions of v inside t: (signature, coefficient, offset)"""
        for s in subterms(t):
            if v not in fv(s):
                continue
            if s.op == "app":
                for pos, a in enumerate(s.args[1:]):
                    if isinstance(a, T) and a.sort == "I":
                        l = lin(a, v)
                        if l is not None and abs(l[0]) == 1:
                            others = tuple(key(x) if isinstance(x, T) and v not in fv(x) and s.args[0] != "S" else "" for x in s.args[1:])
                            acc.append(((1 if s.args[0] in ("S", "exp", "log") else 0, s.args[0], pos, others), l[0], l[1]))
                    elif isinstance(a, T) and a.sort == "R" and a.op == "poly" and s.args[0] in ("lgam", "digamma", "exp", "log"):
                        # v times a coefficient inside a real argument
                        k, r, ok = {}, {}, True
                        for m, c in pd(a).items():
                            e = [x for y, x in m if y is v]
                            if e == [1]:
                                k[tuple((y, x) for y, x in m if y is not v)] = c
                            elif e or any(v in fv(y) for y, _ in m):
                                ok = False
                            else:
                                r[m] = c
                        if ok and k and not any(v in fv(y) for m in k for y, _ in m):
                            m = max(k, key=lambda m: (len(m), key(from_pd({m: Fraction(1)}))))
                            t_ = Fraction(r.get(m, 0), 1) / k[m]
                            off = t_.numerator // t_.denominator
                            if off:
                                acc.append(((3, s.args[0], pos, ()), 1, const(off)))
            elif s.op in BINDERS:
                for pos in (1, 2):
                    l = lin(s.args[pos], v)
                    if l is not None and abs(l[0]) == 1:
                        acc.append(((2, s.op, pos, ()), l[0], l[1]))
        return acc

    def mono_sum(self, v, lo, hi, dep):
        if not dep:
            return sub(hi, lo)
        if all(a is v for a, e in dep) and dep[0][1].denominator == 1 and dep[0][1] > 0:
            k = int(dep[0][1])
            if k <= 3:
                return sub(faul(k, hi), faul(k, lo))
        body = from_pd({tuple(dep): Fraction(1)})
        cs = self.candidates(body, v, [])
        # canonical orientation and offset
        if cs:
            cs.sort(key=lambda x: (x[0], -x[1]))
            sig = cs[0][0]
            same = [x for x in cs if x[0] == sig]
            c, o = same[0][1], same[0][2]
            for _, c2, o2 in same[1:]:
                if c2 == c:
                    d = sub(o2, o)
                    if d.op == "const" and d.args[0] * c < 0:
                        o = o2
                    elif d.op != "const" and key(o2) < key(o):
                        o = o2
            if c == 1 and any(x.op == "app" and x.args[0] == "S" and x.args[2] is v for x in subterms(replace(body, lambda s: ZERO if s.op == "ind" else None))):
                # a prefix sum with its next term: the offset at which it closes up
                offs = [ZERO, o] + [o2 for _, c2, o2 in same if c2 == c] + [ONE]
                offs = [x for i, x in enumerate(offs) if x.op == "const" and x not in offs[:i]]
                if len(offs) > 1:
                    best = None
                    w0, n0 = self.inner(lo, hi)
                    core = from_pd({tuple((a, e) for a, e in dep if a is not v): Fraction(1)})
                    fac = from_pd({tuple((a, e) for a, e in dep if a is v): Fraction(1)})
                    for x in offs:
                        b2 = core if x is ZERO else n0.simp(subst(core, {v: sub(v, x)}))
                        kk = len(key(b2))
                        if best is None or kk < best[0]:
                            best = (kk, x, mul(b2, subst(fac, {v: sub(v, x)})))
                    if best[1] is not ZERO:
                        x = best[1]
                        return self.sum(v, add(lo, x), add(hi, x), best[2]) if not fv(lo) & {v} else sub(self.S1(v, body, hi), self.S1(v, body, lo))
            if c == -1 or o is not ZERO:
                u = var("nu%d" % self.depth, "I")
                body2 = subst(body, {v: mul(const(c), sub(u, o))})
                if c == 1:
                    lo2, hi2 = add(lo, o), add(hi, o)
                else:
                    lo2, hi2 = add(sub(o, hi), ONE), add(sub(o, lo), ONE)
                w, n = self.inner(lo2, hi2)
                body2 = subst(body2, {u: w})
                v, lo, hi, body = w, lo2, hi2, body2
                p = self.telescope(v, lo, hi, pd(body))
                tele = p.pop("tele", None)
                if tele is not None:
                    return add(tele, self.plain_sum2(v, lo, hi, p))
                if len(p) != 1 or any(v not in fv(a) for m in p for a, _ in m):
                    return self.plain_sum2(v, lo, hi, p)
        return sub(self.S1(v, body, hi), self.S1(v, body, lo))

    def plain_sum2(self, v, lo, hi, p):
        out = []
        for m, c in p.items():
            free = [(a, e) for a, e in m if v not in fv(a)]
            dep = [(a, e) for a, e in m if v in fv(a)]
            b = from_pd({tuple(dep): Fraction(1)})
            s = sub(hi, lo) if not dep else sub(self.S1(v, b, hi), self.S1(v, b, lo))
            out.append(mul(const(c), from_pd({tuple(free): Fraction(1)}), s))
        return add(*out)

    def S(self, L, e):
        (v,), _, body = L.args
        if v not in fv(body):
            return mul(self.simp(body), e)
        w = var("nb%d" % self.depth, "I")
        if self.decide(ge(e, ZERO)) is True:
            w, n = self.inner(ZERO, e)
            b = subst(body, {v: w})
            b2 = n.simp(b)
            if b2 is not b:
                return self.sum(w, ZERO, e, b2)
        return self.S1(w, subst(body, {v: w}), e)

    def S1(self, v, body, e):
        """S(lam v. body, e), body one monomial"""
        e0, k = const_part(e)
        peel = []
        if k.denominator == 1 and abs(k) <= 8:
            k = int(k)
            if k > 0:
                for q in range(k):
                    peel.append(self.simp(subst(body, {v: add(e0, const(q))})))
            else:
                for q in range(-k):
                    peel.append(neg(self.simp(subst(body, {v: add(e0, const(-q - 1))}))))
            e = e0
        if e is ZERO:
            return add(*peel)
        r = self.flat(v, body, e)
        return add(r, *peel)

    def flat(self, v, body, e):
        """canonical order of nested rectangular sums; summation by parts for triangular ones"""
        (m, c), = pd(body).items() if len(pd(body)) == 1 else ((None, None),)
        if m is None:
            return self.plain_S(v, body, e)
        # triangular: a(v) * S(g, v)
        for a, x in m:
            if a.op == "app" and a.args[0] == "S" and x == 1 and a.args[2] is v and v not in fv(a.args[1]):
                rest = tuple((y, z) for y, z in m if y is not a)
                la = close_lam((v,), (ZERO,), from_pd({rest: Fraction(1)}))
                if rest and key(la) > key(a.args[1]) and not any(s.op == "app" and s.args[0] == "S" for s in subterms(la)):
                    g = subst(a.args[1].args[2], {a.args[1].args[0][0]: v})
                    ra = from_pd({rest: Fraction(1)})
                    Sa = self.S1(v, ra, e)
                    Sg = self.S1(v, g, e)
                    t1 = self.plain_S(v, mul(g, mkS(la, v)), e)
                    t2 = self.plain_S(v, mul(g, ra), e)
                    return mul(const(c), sub(sub(mul(Sa, Sg), t1), t2))
        # rectangular
        bs = [(v, e)]
        atoms = []
        cnt = [0]
        coef = [c]

        def go(m, bound):
            for a, x in m:
                if a.op == "app" and a.args[0] == "S" and x == 1 and not (fv(a.args[2]) & bound) and len(bs) < 5:
                    w = var("nf%d_%d" % (self.depth, cnt[0]), "I")
                    b2 = subst(a.args[1].args[2], {a.args[1].args[0][0]: w})
                    p2 = pd(b2)
                    if len(p2) == 1:
                        cnt[0] += 1
                        bs.append((w, a.args[2]))
                        bound.add(w)
                        (m2, c2), = p2.items()
                        coef[0] *= c2
                        go(m2, bound)
                        continue
                atoms.append((a, x))
        go(m, {v})
        if len(bs) == 1:
            return mul(const(c), mkS(close_lam((v,), (ZERO,), from_pd({m: Fraction(1)})), e))
        best = None
        for perm in itertools.permutations(bs):
            t = self.nest(list(perm), atoms)
            k = key(t)
            if best is None or k < best[0]:
                best = (k, t)
        return mul(const(coef[0]), best[1])

    def plain_S(self, v, body, e):
        out = []
        for m, c in pd(body).items():
            free = [(a, x) for a, x in m if v not in fv(a)]
            dep = [(a, x) for a, x in m if v in fv(a)]
            f = mul(const(c), from_pd({tuple(free): Fraction(1)}))
            out.append(mul(f, e if not dep else mkS(close_lam((v,), (ZERO,), from_pd({tuple(dep): Fraction(1)})), e)))
        return add(*out)

    def nest(self, bs, atoms):
        """nested S, first binder outermost; each atom as far out as possible"""
        if not bs:
            return mul(*[rpow(a, x) for a, x in atoms]) if atoms else ONE
        vs = {v for v, _ in bs}
        out = [(a, x) for a, x in atoms if not (fv(a) & vs)]
        rest = [(a, x) for a, x in atoms if fv(a) & vs]
        v, e = bs[0]
        innerb = bs[1:]
        iv = {w for w, _ in innerb}
        body = self.nest(innerb, rest)
        r = self.plain_S(v, body, e)
        return mul(r, *[rpow(a, x) for a, x in out])

    # --------------------------------------------------------------- products
    def prod(self, v, lo, hi, body):
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Limit("normalisation budget")
        if body is ONE:
            return ONE
        for a in top_inds(body):
            if v in fv(a):
                c = a.args[0]
                l = lin(c.args[0], v) if c.op in ("eq0", "ge0") and c.args[0].sort == "I" else None
                if l is not None and abs(l[0]) == 1:
                    b1, b0 = set_ind(body, a, 1), set_ind(body, a, 0)
                    k, r = l
                    if c.op == "eq0":
                        e = mul(const(-k), r)
                        return self.ite(and_(self.cond(ge(e, lo)), self.cond(lt(e, hi))),
                                        lambda n: mul(n.reprod(v, lo, e, b0), n.simp(subst(b1, {v: e})), n.reprod(v, add(e, ONE), hi, b0)),
                                        lambda n: n.reprod(v, lo, hi, b0))
                    if k == 1:
                        e, first, second = neg(r), b0, b1
                    else:
                        e, first, second = add(r, ONE), b1, b0
                    if self.decide(ge(e, lo)) is True and self.decide(le(e, hi)) is True:
                        return mul(self.reprod(v, lo, e, first), self.reprod(v, e, hi, second))
                    return self.ite(le(e, lo), lambda n: n.reprod(v, lo, hi, second),
                                    lambda n: n.ite(ge(e, hi), lambda n2: n2.reprod(v, lo, hi, first),
                                                    lambda n2: mul(n2.reprod(v, lo, e, first), n2.reprod(v, e, hi, second))))
        return self.ite(le(lo, hi), lambda n: n.plain_prod(v, lo, hi, body), lambda n: ONE)

    def reprod(self, v, lo, hi, body):
        if self.decide(lt(lo, hi)) is False:
            return ONE
        w, n = self.inner(lo, hi)
        return self.prod(w, lo, hi, n.simp(subst(body, {v: w})))

    def plain_prod(self, v, lo, hi, body):
        p = pd(body)
        n = sub(hi, lo)
        if v not in fv(body):
            return self.simp_pow(body, n)
        if len(p) == 1:
            (m, c), = p.items()
            out = []
            if c != 1:
                out.append(self.simp_pow(const(c), n))
            for a, e in m:
                if v not in fv(a):
                    out.append(self.simp_pow(rpow(a, e), n))
                elif a.op == "app" and a.args[0] == "exp":
                    out.append(exp_(self.sum(v, lo, hi, mul(const(e), a.args[1]))))
                else:
                    out.append(rpow(self.prod1(v, lo, hi, a), e))
            return mul(*out)
        return self.prod1(v, lo, hi, body)

    def simp_pow(self, b, n):
        if n.op == "const":
            return rpow(b, n.args[0])
        return power(b, n)

    def prod1(self, v, lo, hi, body):
        cs = self.candidates(body, v, [])
        if cs:
            cs.sort(key=lambda x: (x[0], -x[1]))
            sig = cs[0][0]
            same = [x for x in cs if x[0] == sig]
            c, o = same[0][1], same[0][2]
            for _, c2, o2 in same[1:]:
                if c2 == c:
                    d = sub(o2, o)
                    if d.op == "const" and d.args[0] * c < 0:
                        o = o2
            if c == -1 or o is not ZERO:
                w = var("nu%d" % self.depth, "I")
                body = subst(body, {v: mul(const(c), sub(w, o))})
                if c == 1:
                    lo, hi = add(lo, o), add(hi, o)
                else:
                    lo, hi = add(sub(o, hi), ONE), add(sub(o, lo), ONE)
                v = w
        # peel constants at the upper end
        e0, k = const_part(hi)
        out = []
        if k.denominator == 1 and 0 < k <= 8 and self.decide(le(lo, e0)) is True:
            for q in range(int(k)):
                out.append(self.simp(subst(body, {v: add(e0, const(q))})))
            hi = e0
        if k.denominator == 1 and -8 <= k < 0 and e0 is not ZERO and False:
            pass
        out.append(binder_("prod", v, lo, hi, body))
        return mul(*out)


def _opn(x):
    v, lo, hi, body = open_(x)
    return v, lo, hi, body


def _logprod(x):
    v, lo, hi, body = open_(x)
    return binder_("sum", v, lo, hi, log_(body))


def faul(k, n):
    """sum of v^k for v in [0, n)"""
    if k == 1:
        return mul(const(Fraction(1, 2)), n, sub(n, ONE))
    if k == 2:
        return mul(const(Fraction(1, 6)), n, sub(n, ONE), sub(mul(const(2), n), ONE))
    return rpow(faul(1, n), 2)


# ------------------------------------------------------------------ zero test
def clear(t):
    """multiply out negative powers of sums"""
    for _ in range(12):
        p = pd(t)
        neg_ = {}
        for m, c in p.items():
            for a, e in m:
                if e < 0 and a.op == "poly":
                    neg_[a] = max(neg_.get(a, 0), -e)
        if not neg_:
            return t
        a = sorted(neg_, key=lambda x: key(x))[0]
        E = neg_[a]
        out = []
        for m, c in p.items():
            e = sum((x for y, x in m if y is a), Fraction(0))
            rest = {tuple((y, x) for y, x in m if y is not a): c}
            k = E + e
            out.append(mul(from_pd(rest), ipow(a, int(k)) if k else ONE))
        t = add(*out)
    return t


def is_zero(t):
    if t is ZERO:
        return True
    try:
        return clear(t) is ZERO
    except TooBig:
        return False
