"""Back end: translation of terms to z3 and the decision procedure used on every branch."""
import sys
import time

try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

from .terms import *

z3.set_param("timeout", 0)
STAT = {"s": 0.0, "calls": 0, "unknown": 0, "hits": 0}

_cache = {}
_funs = {}
_L = z3.DeclareSort("L")
_sorts = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "L": _L}


def reset():
    _cache.clear()
    _funs.clear()
    _dcache.clear()
    for d in (_closed, _extrema, _counts, _inst):
        d.clear()


def zsort(s):
    return _sorts[s]


def zreal(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def tr(t):
    r = _cache.get(t)
    if r is None:
        r = _tr(t)
        _cache[t] = r
    return r


def _opaque(t):
    return z3.Const("o%d" % t.id, zsort(t.sort))


def _tr(t):
    op = t.op
    if op == "const":
        c = t.args[0]
        return z3.IntVal(int(c)) if c.denominator == 1 and t.sort == "I" else z3.RealVal("%d/%d" % (c.numerator, c.denominator))
    if op == "bool":
        return z3.BoolVal(t.args[0])
    if op == "var":
        return z3.Const("v" + t.args[0], zsort(t.sort))
    if op == "poly":
        terms = []
        for m, c in t.args:
            f = []
            for a, e in m:
                za = tr(a)
                if e.denominator != 1:
                    f.append(z3.Const("pw%d_%s" % (a.id, str(e).replace("/", "d")), z3.RealSort()))
                    continue
                k = int(e)
                if k < 0:
                    f.append(z3.Function("recip", z3.RealSort(), z3.RealSort())(zreal(za)))
                    k = -k
                    f = f + [f[-1]] * (k - 1)
                else:
                    f += [za] * k
            if t.sort == "I":
                x = z3.IntVal(int(c))
                for y in f:
                    x = x * y
            else:
                x = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
                for y in f:
                    x = x * zreal(y)
            terms.append(x)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]
    if op == "ind":
        return z3.If(tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
    if op == "ge0":
        return tr(t.args[0]) >= 0
    if op == "eq0":
        return tr(t.args[0]) == 0
    if op == "not":
        return z3.Not(tr(t.args[0]))
    if op == "and":
        return z3.And(*[tr(a) for a in t.args])
    if op == "or":
        return z3.Or(*[tr(a) for a in t.args])
    if op == "eqL":
        return tr(t.args[0]) == tr(t.args[1])
    if op == "iteL":
        return z3.If(*[tr(a) for a in t.args])
    if op == "app":
        args = [a for a in t.args[1:]]
        if not args:
            return z3.Const("c_" + t.args[0], zsort(t.sort))
        name = t.args[0]
        za, sig = [], []
        for a in args:
            if not isinstance(a, T):
                name += ":" + str(a)
                continue
            za.append(tr(a))
            sig.append(a.sort)
        if name in ("mod", "idiv") and sig == ["I", "I"]:
            # python's flooring conventions agree with z3's for positive divisors
            if args[1].op == "const" and args[1].args[0] > 0:
                return za[0] % za[1] if name == "mod" else za[0] / za[1]
        if name == "floor":
            return z3.ToInt(za[0])
        key = (name, tuple(sig), t.sort)
        f = _funs.get(key)
        if f is None:
            f = z3.Function(name + "_" + "".join(sig) + t.sort, *([zsort(s) for s in sig] + [zsort(t.sort)]))
            _funs[key] = f
        return f(*za)
    if op == "exists":
        # the same constant as its dual
        n = not_(t)
        if n.op == "forall":
            return z3.Not(tr(n))
    # binders, lambdas: opaque constants, parametrised by nothing (ground instances only)
    return _opaque(t)


POS_APPS = {"exp"}


def axioms(ts, foralls=()):
    """instances of the library axioms for the ground terms present"""
    ax = []
    seen = set()
    for t in ts:
        subterms(t, seen)
    canon = lambda t: any(v.args[0].startswith("_b") for v in fv(t))
    # partial sums of the same non-negative terms grow with the upper end, by at least the next term
    groups = {}
    for t in seen:
        if t.op == "sum" and not canon(t):
            groups.setdefault((t.args[0], t.args[1], t.args[3]), []).append((t.args[2], t))
        elif t.op == "app" and t.args[0] == "S" and not canon(t):
            (b,), _, body = t.args[1].args
            groups.setdefault((b, ZERO, body), []).append((t.args[2], t))
    for (b, lo, body), g in groups.items():
        within = [(ZERO, None)] if nonneg_body(body) else nonneg_by_fact(body, b, foralls)
        g = sorted(g, key=lambda x: x[1].id)[:8]
        rng_ = indicator_range(body)
        if rng_ is not None and rng_[1] == 1:
            # of terms at most 1, a stretch sums to at most its length
            for hx, x in g:
                for hy, y in g:
                    if y is not x:
                        nx = subst(body, {b: hx})
                        ax.append(z3.Implies(z3.And(tr(lo) <= tr(hx), tr(hx) < tr(hy)), zreal(tr(y)) <= zreal(tr(x)) + zreal(tr(nx)) + zreal(tr(hy)) - zreal(tr(hx)) - 1))
        zl = tr(lo)
        for flo, fhi in within[:2]:
            for hx, x in g:
                nx, lx = subst(body, {b: hx}), subst(body, {b: sub(hx, ONE)})
                inside = [] if fhi is None else [zl >= tr(flo), tr(hx) <= tr(fhi)]
                ax.append(z3.Implies(z3.And(zl <= tr(hx), *inside), zreal(tr(x)) >= 0))
                ax.append(z3.Implies(z3.And(zl < tr(hx), *inside), zreal(tr(x)) >= zreal(tr(lx))))
                for hy, y in g:
                    if y is not x:
                        iny = [] if fhi is None else [tr(hy) <= tr(fhi)]
                        ax.append(z3.Implies(z3.And(zl <= tr(hx), tr(hx) < tr(hy), *(inside + iny)), zreal(tr(x)) + zreal(tr(nx)) <= zreal(tr(y))))
                        ax.append(z3.Implies(z3.And(zl <= tr(hy), tr(hy) < tr(hx), *inside), zreal(tr(y)) + zreal(tr(lx)) <= zreal(tr(x))))
                        ax.append(z3.Implies(tr(hx) == tr(hy), tr(x) == tr(y)))
                ax += axioms_light(nx) + axioms_light(lx)
    for t in list(seen):
        if t.op == "app" and not canon(t):
            n = t.args[0]
            if n == "exp":
                ax.append(tr(t) > 0)
            elif n == "inf":
                ax.append(tr(t) > 10 ** 9)
            elif n == "pi":
                ax.append(tr(t) > 3)
            elif n == "draw":
                ax += draw_axioms(t)
        elif t.op == "poly":
            for m, c in t.args:
                for a, e in m:
                    if e < 0 and not canon(a):
                        za = zreal(tr(a))
                        r = z3.Function("recip", z3.RealSort(), z3.RealSort())(za)
                        ax.append(z3.Implies(za > 0, r > 0))
                        ax.append(z3.Implies(za != 0, r * za == 1))
        elif t.op == "sum" and not canon(t):
            b, lo, hi, body = t.args
            if nonneg_body(body):
                ax.append(tr(t) >= 0)
            if body.op == "ind" and z3.is_int(tr(t)):
                ax.append(z3.Implies(tr(hi) >= tr(lo), tr(t) <= tr(hi) - tr(lo)))
                ax.append(z3.Implies(tr(hi) <= tr(lo), tr(t) == 0))
        elif t.op in ("argmax", "argmin") and not canon(t):
            b, lo, hi, body = t.args
            ax.append(z3.Implies(tr(lo) < tr(hi), z3.And(tr(t) >= tr(lo), tr(t) < tr(hi))))
        elif t.op in ("maxb", "minb") and not canon(t):
            # attained
            b, lo, hi, body = t.args
            if height(body) == 0:
                k = var("wit:%d" % t.id, "I")
                at = subst(body, {b: k})
                ax.append(z3.Implies(tr(lo) < tr(hi), z3.And(tr(k) >= tr(lo), tr(k) < tr(hi), tr(t) == tr(at))))
                ax += axioms_light(at)
    return ax


def axioms_light(t):
    ax = []
    for s in subterms(t):
        if s.op == "app" and s.args[0] == "draw":
            ax += draw_axioms(s)
    return ax


DRAWS = None         # Machine, set by the interpreter


def draw_axioms(t):
    if DRAWS is None:
        return []
    d = DRAWS.bydraw.get(int(t.args[1].args[0]))
    if d is None:
        return []
    z = tr(t)
    if d.kind in ("beta", "dirichlet"):
        return [z >= 0, z <= 1]
    if d.kind == "uniform01":
        return [z > 0, z < 1]
    if d.kind == "uniform":
        try:
            p = d.params(*t.args[2 + len(d.loop):])
            return [zreal(z) >= zreal(tr(p["low"])), zreal(z) <= zreal(tr(p["high"]))]
        except Exception:
            return []
    if d.kind == "binomial":
        try:
            n = d.params(*t.args[2 + len(d.loop):])["n"]
            n = subst(n, dict(zip(d.loop, t.args[2:2 + len(d.loop)]))) if d.loop else n
            return [z >= 0, zreal(z) <= zreal(tr(n))]
        except Exception:
            return [z >= 0]
    if d.kind == "choice":
        return [z >= 0, z < tr(d.shape[0].n)]
    return []


def nonneg_by_fact(body, b, foralls):
    """ranges over which a universally quantified fact makes the summand non-negative"""
    if body.op != "app" or body.sort == "L":
        return []
    want = ge(body, ZERO)
    out = []
    for f in foralls:
        fb, lo, hi, p = f.args
        if fb in fv(lo) or fb in fv(hi):
            continue
        p = subst(p, {fb: b})
        if want in (p.args if p.op == "and" else (p,)):
            out.append((lo, hi))
    return out


def nonneg_body(b):
    if b.op == "const":
        return b.args[0] >= 0
    if b.op in ("ind",):
        return True
    if b.op == "sum":
        return nonneg_body(b.args[3])
    if b.op == "app" and b.args[0] in ("exp",):
        return True
    if b.op == "app" and b.args[0] == "draw" and DRAWS is not None:
        d = DRAWS.bydraw.get(int(b.args[1].args[0]))
        return d is not None and d.kind in ("beta", "dirichlet", "uniform01", "binomial", "choice")
    if b.op == "poly":
        if all(c > 0 and all(nonneg_body(a) or (e.denominator == 1 and e % 2 == 0) for a, e in m) for m, c in b.args):
            return True
        r = indicator_range(b)
        if r is not None and r[0] >= 0:
            return True
        if len(b.args) <= 12 and any(a.op == "ind" for m, c in b.args for a, e in m) and all(a.op == "ind" or nonneg_body(a) for m, c in b.args for a, e in m if e.denominator == 1 and e > 0):
            # a selection among non-negative terms
            r = _nncache.get(b)
            if r is None:
                _nncache[b] = False
                g = subst(b, {v: var("nn:" + v.args[0], v.sort) for v in fv(b) if v.args[0].startswith("_b")})
                r = _nncache[b] = check([lt(g, ZERO)], 300) == "unsat"
            return r
    return False


_nncache = {}


def indicator_range(b):
    """bounds of a combination of products of indicators, None when it is something else"""
    if b.op == "const":
        return b.args[0], b.args[0]
    if b.op == "ind":
        return 0, 1
    if b.op == "poly":
        lo = hi = 0
        for m, c in b.args:
            if not all(a.op == "ind" and e > 0 for a, e in m):
                return None
            if not m:
                lo, hi = lo + c, hi + c
            else:
                lo, hi = lo + min(c, 0), hi + max(c, 0)
        return lo, hi
    return None


# ------------------------------------------------------- quantified facts
def patterns(body, b):
    """apps in body with an integer argument  b + k : (head key, position, offset term)"""
    out = []
    for t in subterms(body):
        if t.op == "app":
            for pos, a in enumerate(t.args[1:]):
                if isinstance(a, T) and a.sort == "I" and b in fv(a):
                    off = sub(a, b)
                    if b not in fv(off):
                        out.append((t.args[0], len(t.args), pos, off, t))
    return out


_inst = {}


def instance(f, x):
    b, lo, hi, body = f.args
    inst = subst(body, {b: x})
    guard = and_(ge(x, lo), lt(x, hi))
    if inst.op == "forall":
        b2, lo2, hi2, body2 = open_(inst)
        return binder_("forall", b2, lo2, hi2, implies(guard, body2))
    return implies(guard, inst)


def instances(foralls, ground, rounds=2, limit=60):
    """ground instances of universally quantified facts"""
    out = []
    seen = set()
    apps = {}

    def collect(t):
        for s in subterms(t):
            if s.op == "app" and not any(v.args[0].startswith("_b") for v in fv(s)):
                apps.setdefault((s.args[0], len(s.args)), set()).add(s)
    for g in ground:
        collect(g)
    idx = set()
    for g in ground:
        for s in subterms(g):
            if s.op == "var" and s.sort == "I" and not s.args[0].startswith("_b"):
                idx.add(s)
    for _ in range(rounds):
        new = []
        for f in foralls:
            b, lo, hi, body = f.args
            pats = patterns(body, b)
            cands = set()
            for name, ln, pos, off, pt in pats:
                for s in apps.get((name, ln), ()):
                    # other constant arguments must agree (draw ids)
                    if name == "draw" and s.args[1] is not pt.args[1]:
                        continue
                    x = s.args[1 + pos]
                    if isinstance(x, T) and x.sort == "I":
                        cands.add(sub(x, off))
            if not pats:
                cands |= idx
            for x in list(cands)[:limit]:
                if (f, x) in seen:
                    continue
                seen.add((f, x))
                inst = _inst.get((f, x))
                if inst is None:
                    inst = _inst[f, x] = instance(f, x)
                if inst is not TRUE:
                    new.append(inst)
        if not new:
            break
        flat = []
        for i in new:
            if i.op == "forall":
                foralls = foralls + [i]
            else:
                flat.append(i)
        out += flat
        for i in flat:
            collect(i)
        # nested quantifiers become facts when their guard is trivial
    return out


def split_facts(facts):
    ground, foralls = [], []
    for f in facts:
        for x in (f.args if f.op == "and" else (f,)):
            if x.op == "forall":
                foralls.append(x)
            elif x.op == "exists":
                b, lo, hi, body = x.args
                k = var("ex:%d" % x.id, "I")
                ground += [ge(k, lo), lt(k, hi), subst(body, {b: k})]
            else:
                ground.append(x)
    return ground, foralls


_closed = {}


def closed(t):
    r = _closed.get(t)
    if r is None:
        r = _closed[t] = not any(v.args[0].startswith("_b") for v in fv(t))
    return r


_extrema = {}


def extrema(ground):
    """maxima and minima bound every element of their range and are attained on a non-empty one"""
    out, att = [], []
    seen = set()
    for g in ground:
        subterms(g, seen)
    for t in sorted((t for t in seen if t.op in ("maxb", "minb") and closed(t)), key=lambda t: t.id):
        r = _extrema.get(t)
        if r is None:
            b, lo, hi, body = t.args
            w = var("ext:%d" % t.id, "I")
            r = _extrema[t] = (Forall(lo, hi, lambda x: (ge if t.op == "maxb" else le)(t, subst(body, {b: x}))),
                               implies(lt(lo, hi), and_(ge(w, lo), lt(w, hi), eq(t, subst(body, {b: w})))))
        if r[0].op == "forall" and r[0] not in out:
            out.append(r[0])
            att.append(r[1])
    return out, att


_counts = {}


def count_facts(t):
    x = t.args[0]
    if x.op == "sum":
        b, lo, hi, body = x.args
    elif x.op == "app" and x.args[0] == "S":
        (b,), _, body = x.args[1].args
        lo, hi = ZERO, x.args[2]
    else:
        return ()
    if indicator_range(body) is None or any(y.op in BINDERS and b in fv(y) for y in subterms(body)):
        return ()
    w = var("cnt:%d" % t.id, "I")
    out = [or_(t, and_(ge(w, lo), lt(w, hi), not_(eq(subst(body, {b: w}), ZERO))))]
    if nonneg_body(body):
        q = Forall(lo, hi, lambda x: or_(not_(t), eq(subst(body, {b: x}), ZERO)))
        if q.op == "forall":
            out.append(q)
    return out


def counts(ground):
    """a sum that is compared with 0: not 0 means some term is not 0; a 0 sum of non-negative terms has none"""
    out, al = [], []
    seen = set()
    for g in ground:
        subterms(g, seen)
    for t in sorted((t for t in seen if t.op == "eq0" and t.args[0].op in ("sum", "app") and closed(t)), key=lambda t: t.id):
        r = _counts.get(t)
        if r is None:
            r = _counts[t] = count_facts(t)
        out += r[:1]
        al += r[1:]
    return out, al


def rankings(ground):
    """ranks of the entries of an axis: one-to-one onto 0..count-1, in the order of the entries"""
    seen = set()
    for g in ground:
        subterms(g, seen)
    canon = lambda t: any(v.args[0].startswith("_b") for v in fv(t))
    ranks, out = {}, []
    for t in seen:
        if t.op == "app" and t.args[0] == "rank" and not canon(t):
            ranks.setdefault(int(t.args[1].args[0]), []).append(t)
    if not ranks:
        return out
    at = sorted((t for t in seen if t.op == "var" and t.sort == "I" and not t.args[0].startswith("_b")), key=lambda t: t.id)[-8:]

    def there(p):
        # an existing entry: witnesses among the indices at hand
        if p.op == "exists":
            b, lo, hi, body = p.args
            return or_(*[and_(ge(w, lo), lt(w, hi), subst(body, {b: w})) for w in at])
        return p
    for i, g in ranks.items():
        d, fn = DRAWS.ranks[i]
        g = sorted(g, key=lambda x: x.id)[:6]
        live = {x: and_(ge(x.args[2], ZERO), lt(x.args[2], d.n), there(d.mask(x.args[2])) if d.mask else TRUE) for x in g}
        for x in g:
            out.append(implies(live[x], and_(ge(x, ZERO), lt(x, d.count()))))
            for y in g:
                if x.id < y.id:
                    kx, ky, jx, jy = fn(x.args[2]), fn(y.args[2]), x.args[2], y.args[2]
                    out.append(implies(and_(live[x], live[y]), and_(or_(ge(x, y), le(kx, ky)), or_(ge(y, x), le(ky, kx)), or_(not_(eq(x, y)), eq(jx, jy)))))
    return out


_dcache = {}


def prove(facts, goal, timeout=1000):
    """True when facts |= goal, None otherwise"""
    goal = tt(goal)
    if goal is TRUE:
        return True
    if goal in facts:
        return True
    if goal.op == "and":
        for g in goal.args:
            if not prove(facts, g, timeout):
                return None
        return True
    if goal.op == "forall":
        b, lo, hi, body = goal.args
        k = fresh("sk", "I")
        return prove(facts + [ge(k, lo), lt(k, hi)], subst(body, {b: k}), timeout)
    return True if check(facts + [not_(goal)], timeout) == "unsat" else None


def check(facts, timeout=1000):
    key = frozenset(facts)
    r = _dcache.get(key)
    if r is not None:
        STAT["hits"] += 1
        return r
    t0 = time.time()
    ground, foralls = split_facts(facts)
    if FALSE in ground:
        return "unsat"
    ground = ground + rankings(ground)
    ext, att = extrema(ground)
    ground = ground + att
    cnt, none = counts(ground)
    ground = ground + cnt
    ground = ground + instances(foralls + ext + none, ground)
    s = z3.Solver()
    # deterministic resource limit; the wall-clock limit is only a safety net
    s.set("rlimit", int(timeout * 4000))
    s.set("timeout", timeout * 20)
    s.set("random_seed", 1)
    for g in ground:
        s.add(tr(g))
    for a in axioms(ground, foralls):
        s.add(a)
    r = str(s.check())
    STAT["s"] += time.time() - t0
    STAT["calls"] += 1
    if r == "unknown":
        STAT["unknown"] += 1
    _dcache[key] = r
    return r


def decide(facts, c, timeout=300):
    """True / False / None"""
    c = tt(c)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    n = not_(c)
    for f in facts:
        if f is c:
            return True
        if f is n:
            return False
    facts = list(facts)
    if check(facts + [n], timeout) == "unsat":
        return True
    if check(facts + [c], timeout) == "unsat":
        return False
    return None


def model(facts, bound=None, timeout=2000):
    """values of variables and of ground applications in a model of the facts, or None"""
    ground, foralls = split_facts(list(facts))
    if FALSE in ground:
        return None
    ground = ground + instances(foralls, ground)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    vs, apps = set(), set()
    for g in ground:
        for t in subterms(g):
            if t.op == "var" and not t.args[0].startswith("_b"):
                vs.add(t)
            elif t.op == "app" and len(t.args) > 1 and all(isinstance(a, T) and a.sort == "I" for a in t.args[1:]) and not any(v.args[0].startswith("_b") for v in fv(t)):
                apps.add(t)
    for g in ground:
        s.add(tr(g))
    for a in axioms(ground, foralls):
        s.add(a)
    if bound is not None:
        for v in vs:
            if v.sort == "I":
                s.add(tr(v) <= bound, tr(v) >= -bound)
    if s.check() != z3.sat:
        return None
    m = s.model()

    def val(t):
        x = m.eval(tr(t), model_completion=True)
        if z3.is_true(x) or z3.is_false(x):
            return z3.is_true(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_algebraic_value(x):
            return float(x.approx(12).as_fraction())
        return None
    out = {"vars": {v.args[0]: val(v) for v in vs if v.sort != "L"}, "apps": []}
    for a in apps:
        out["apps"].append((a.args[0], [val(x) for x in a.args[1:]], val(a)))
    return out
