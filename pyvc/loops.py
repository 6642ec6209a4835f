"""Loops: exact summaries of one generic iteration.

A loop over a symbolic range is verified by exploring its body once, at a
generic iteration i, from a state in which every location it writes has been
forgotten; the recurrences found are solved to closed forms (which are then
invariants by construction: they hold at i = 0 and the body re-establishes
them), or the location stays an uninterpreted function of i.
"""
from .sym import *
from . import npstub as N
from .npstub import is_num, num, scalar, tob, n_


class Loc:
    __slots__ = ("cont", "key", "kind", "nd", "x0", "hv", "sort", "final", "X", "state", "id", "havoc", "g")

    def __repr__(self):
        return "Loc(%s,%s,%s)" % (type(self.cont).__name__, self.key, self.kind)


def read_loc(cont, key, kind):
    if kind == "dict":
        return cont.get(key, MISSING)
    return getattr(cont, key)


MISSING = Poison("variable without a value before the loop")


class Out:
    """one path through the body"""

    def __init__(self):
        self.kind = None
        self.vals = {}
        self.draws = []
        self.facts = []
        self.conds = ()
        self.ret = None
        self.events = []


def vsubst(ip, v, s):
    """substitute in a value"""
    if isinstance(v, T):
        return scalar(subst(v, s)) if v.sort in "IRB" else subst(v, s)
    if isinstance(v, Arr):
        fn = v.snap()
        memo = {}
        probe = v.shape

        def sd(d):
            mk_ = d.mask
            return Dim(subst(d.n, s), None if mk_ is None else (lambda b: subst(mk_(b), s)), d.order)
        shape = [sd(d) for d in probe]
        # bind the free indices first so that they are not touched
        ks = [var("vs:%d" % k, "I") for k in range(len(shape))]
        return Arr(shape, lambda *i: _subst_at(fn, ks, i, s), v.kind)
    if isinstance(v, tuple):
        return tuple(vsubst(ip, x, s) for x in v)
    if isinstance(v, PyList):
        if isinstance(v.items, SymList):
            return PyList(vsubst(ip, v.items, s))
        return PyList([vsubst(ip, x, s) for x in v.items])
    if isinstance(v, SymList):
        fn = v.fn
        return SymList(subst(v.n, s), lambda i: vsubst(ip, fn(tt(i)), s))
    if isinstance(v, PyDict):
        return PyDict({k: vsubst(ip, x, s) for k, x in v.items.items()})
    return v


def _subst_at(fn, ks, i, s):
    t = fn(*ks)
    m = dict(s)
    m.update(zip(ks, [tt(x) for x in i]))
    return subst(tt(t), m)


def linear_in(t, h):
    """(A, B) with t == A + B*h and h free in neither, else None"""
    A, B = {}, {}
    for m, c in pd(t).items():
        e = [x for a, x in m if a is h]
        if not e:
            A[m] = c
        elif e == [1]:
            B[tuple((a, x) for a, x in m if a is not h)] = c
        else:
            return None
    A, B = from_pd(A), from_pd(B)
    if h in fv(A) or h in fv(B):
        return None
    return A, B


def numsort(v):
    if isinstance(v, bool):
        return "B"
    return tt(v).sort


class Peel(Exception):
    """every iteration but the last appends to the list"""


class Summary:
    def __init__(self, ip, d, bodyfn):
        self.ip, self.m, self.d, self.bodyfn = ip, ip.m, d, bodyfn
        self.i = var("i!%d" % self.m.ident("loop"), "I")
        self.locs = {}
        self.stamp = stamp()

    def inrange(self, b):
        f = [ge(b, ZERO)]
        if self.d.n is not None_N:
            f.append(lt(b, self.d.n))
        if self.d.mask is not None:
            f.append(self.d.mask(b))
        return f

    # ------------------------------------------------------------ exploration
    def make_havoc(self, L):
        x = L.x0
        if L.kind == "dict":
            if x is MISSING or isinstance(x, Poison):
                return MISSING
            if is_num(x):
                L.hv = var("hv!%d" % L.id, L.sort or numsort(x))
                return L.hv
            if isinstance(x, Arr) and x.ndim == 1 and x.shape[0].plain():
                n = var("hvn!%d" % L.id, "I")
                L.hv = n
                srt = "I" if x.kind == "I" and L.sort != "R" else "R"
                if x.kind == "B":
                    return Poison("boolean array carried by a loop")
                L.sort = srt
                return Arr((n,), (lambda i_: lambda q: app("hvA", const(i_), q, sort=srt))(L.id), srt)
            if isinstance(x, Arr) and x.ndim > 1 and L.nd and x.kind != "B" and all(d.plain() for d in x.shape):
                # same shape in every pass (checked by nd_fallback)
                i_, srt = L.id, "I" if x.kind == "I" and L.sort != "R" else "R"
                L.sort = srt
                return Arr(tuple(d.n for d in x.shape), lambda *q: app("hvA", const(i_), *[tt(z) for z in q], sort=srt), srt)
            if isinstance(x, (Arr, PyList, tuple, PyDict, DefDictT, type(None), str, Obj)):
                return Poison("%s carried by a loop" % type(x).__name__)
            return Poison("value carried by a loop")
        if isinstance(L.cont, Cell):
            if L.key != "fn":
                raise Unsupported("array resized inside a loop")
            ks = [var("vs:%d" % k, "I") for k in range(len(L.cont.shape))]
            s0 = tt(x(*ks)).sort
            if s0 == "B":
                raise Unsupported("boolean array stored inside a loop")
            L.sort = L.sort or s0
            i_, srt = L.id, L.sort
            return lambda *q: app("hvA", const(i_), *[tt(z) for z in q], sort=srt)
        if isinstance(L.cont, PyList):
            L.hv = var("hvn!%d" % L.id, "I")

            def nope(i):
                raise Unsupported("read of a list built by the loop")
            return SymList(L.hv, nope, log=[])
        if isinstance(L.cont, DefDictT):
            return ("hv", L.id, self.i, x)
        raise Unsupported("location %r" % (L,))

    def explore(self):
        m, ip = self.m, self.ip
        for _ in range(12):
            base = m.mark()
            for L in self.locs.values():
                L.havoc = self.make_havoc(L)
                if L.kind == "dict":
                    m.setd(L.cont, L.key, L.havoc)
                else:
                    m.seta(L.cont, L.key, L.havoc)
            m.loops.append(self.i)
            new = []
            try:
                for f in self.inrange(self.i):
                    m.assume(f)
                outs = m.explore(lambda fr: self.one(fr, new))
            except Infeasible:
                outs = []
            finally:
                m.loops.pop()
                m.undo(base)
            changed = False
            for cont, key, kind in new:
                k = (id(cont), key)
                if k not in self.locs:
                    L = Loc()
                    L.cont, L.key, L.kind = cont, key, kind
                    L.x0 = read_loc(cont, key, kind)
                    L.sort, L.hv, L.X, L.state, L.g, L.nd = None, None, None, None, None, True
                    L.id = m.ident("loc")
                    self.locs[k] = L
                    changed = True
            # locations of the nested state that turn out unchanged stay: harmless
            self.outs = []
            for conds, o in outs:
                o.conds = conds
                self.outs.append(o)
            if changed:
                continue
            if self.upgrade():
                continue
            return
        raise Unsupported("loop summary does not stabilise")

    def upgrade(self):
        ch = False
        for L in self.locs.values():
            if L.kind == "dict" and isinstance(L.x0, Arr) and L.x0.ndim > 1 and L.nd:
                for o in self.outs:
                    v = o.vals.get((id(L.cont), L.key))
                    if not (isinstance(v, Arr) and v.kind != "B" and v.ndim == L.x0.ndim and
                            all(a.plain() and tt(a.n) is tt(b.n) for a, b in zip(v.shape, L.x0.shape))):
                        L.nd = False
                        ch = True
            if L.sort == "R":
                continue
            if L.kind == "dict" and L.hv is not None and is_num(L.x0):
                for o in self.outs:
                    v = o.vals.get((id(L.cont), L.key))
                    if v is not None and is_num(v):
                        s = numsort(v)
                        cur = L.hv.sort
                        if s != cur and s == "R":
                            L.sort = "R"
                            ch = True
                        elif s != cur and cur == "B" and s == "I":
                            L.sort = "I"
                            ch = True
            elif isinstance(L.cont, Cell) or L.kind == "dict" and isinstance(L.x0, Arr):
                for o in self.outs:
                    v = o.vals.get((id(L.cont), L.key))
                    if v is None:
                        continue
                    if isinstance(L.cont, Cell):
                        ks = [var("vs:%d" % k, "I") for k in range(len(L.cont.shape))]
                        s = tt(v(*ks)).sort
                    elif isinstance(v, Arr):
                        s = v.kind
                    else:
                        continue
                    if s == "R" and L.sort != "R":
                        L.sort = "R"
                        ch = True
        return ch

    def one(self, fr, new):
        m, ip = self.m, self.ip
        t0, d0, f0, e0 = m.mark(), len(m.draws), len(m.facts), len(m.events)
        o = Out()
        try:
            r = self.bodyfn(self.i)
            if r is None or r[0] == "continue":
                o.kind = "next"
            elif r[0] == "break":
                o.kind = "break"
            else:
                o.kind = "return"
        except Raised as e:
            o.kind = "raise"
            o.ret = e
        for e in m.trail[t0:]:
            if e[0] == "dict":
                cont, key, kind = e[1], e[2], "dict"
            elif e[0] == "attr":
                cont, key, kind = e[1], e[2], "attr"
            else:
                continue
            if getattr(cont, "stamp", 0) >= self.stamp:
                continue
            k = (id(cont), key)
            if k not in self.locs:
                if not any(c is cont and q == key for c, q, _ in new):
                    new.append((cont, key, kind))
        for k, L in self.locs.items():
            o.vals[k] = read_loc(L.cont, L.key, L.kind)
        o.draws = list(m.draws[d0:])
        skip = set(fr.conds)
        o.facts = [f for f in m.facts[f0:] if f not in skip]
        o.events = list(m.events[e0:])
        return o

    # -------------------------------------------------------------- solution
    def solve(self):
        nexts = [o for o in self.outs if o.kind == "next"]
        exits = [o for o in self.outs if o.kind != "next"]
        self.nexts, self.exits = nexts, exits
        i = self.i
        sigma = {}            # hv var -> closed form X(i)
        asig = {}             # array loc id -> function X(i, idx)
        self.sigma, self.asig = sigma, asig
        pend = list(self.locs.values())
        ip = self.ip

        def combine(L):
            k = (id(L.cont), L.key)
            r = None
            for o in nexts:
                v = o.vals[k]
                c = and_(*o.conds)
                r = v if r is None else self.join(c, v, r)
            if r is None:
                r = L.havoc
            return r
        # array and numeric recurrences -----------------------------------
        for L in pend:
            L.g = combine(L) if not (isinstance(L.cont, (PyList, DefDictT, Cell)) and L.kind == "attr") else None
        todo = [L for L in pend]
        progress = True
        while todo and progress:
            progress = False
            for L in list(todo):
                if self.try_solve(L):
                    todo.remove(L)
                    progress = True
        for L in todo:
            self.unsolved(L)
        return todo

    def join(self, c, v, r):
        from .interp import merge
        return merge(self.ip, c, v, r)

    def hvs_in(self, t):
        """unsolved state symbols still present"""
        out = set()
        for v in fv(t):
            if v.args[0].startswith(("hv!", "hvn!")) and v in self.hvmap():
                if v not in self.sigma:
                    out.add(v)
        for s in self.hva_in(t):
            if s not in self.asig:
                out.add(s)
        return out

    def hva_in(self, t):
        ids = self.arrids()
        return {int(s.args[1].args[0]) for s in subterms(t) if s.op == "app" and s.args[0] == "hvA" and int(s.args[1].args[0]) in ids}

    def hvmap(self):
        return {L.hv for L in self.locs.values() if L.hv is not None}

    def arrids(self):
        return {L.id for L in self.locs.values()}

    def close(self, t, at=None):
        """substitute the closed forms of the solved locations (iteration `at`)"""
        t = tt(t)
        m = {h: x for h, x in self.sigma.items()}
        t = subst(t, m)
        if self.asig and self.hva_in(t):
            asig = self.asig

            def f(s):
                if s.op == "app" and s.args[0] == "hvA":
                    a = asig.get(int(s.args[1].args[0]))
                    if a is not None:
                        return a(self.i, *[self.close(x) for x in s.args[2:]])
                return None
            t = replace(t, f)
        if at is not None:
            t = subst(t, {self.i: tt(at)})
        return t

    def vclose(self, v, at):
        """closed-form value at iteration `at`"""
        if isinstance(v, T):
            return scalar(self.close(v, at)) if v.sort in "IRB" else self.close(v, at)
        if isinstance(v, Arr):
            fn = v.snap()

            def sd(d):
                mk_ = d.mask
                return Dim(self.close(d.n, at), None if mk_ is None else (lambda b: self.close(mk_(b), at)), d.order)
            ks = [var("vs:%d" % (1000 + k), "I") for k in range(v.ndim)]
            return Arr([sd(d) for d in v.shape], lambda *q: subst(self.close(fn(*ks), at), dict(zip(ks, [tt(x) for x in q]))), v.kind)
        if isinstance(v, tuple):
            return tuple(self.vclose(x, at) for x in v)
        if isinstance(v, PyList):
            if isinstance(v.items, SymList):
                return PyList(self.vclose(v.items, at))
            return PyList([self.vclose(x, at) for x in v.items])
        if isinstance(v, SymList):
            fn = v.fn
            return SymList(self.close(v.n, at), lambda q: self.vclose(fn(tt(q)), at))
        if isinstance(v, PyDict):
            return PyDict({k: self.vclose(x, at) for k, x in v.items.items()})
        return v

    def guarded(self, t, other):
        if self.d.mask is None:
            return t
        return ite(self.d.mask(self.i), t, other)

    def try_solve(self, L):
        i = self.i
        k = (id(L.cont), L.key)
        if L.kind == "dict" and is_num(L.x0):
            vals = [o.vals[k] for o in self.nexts]
            if all(v is L.havoc for v in vals):
                x0 = tt(L.x0)
                self.sigma[L.hv] = x0
                L.state = "same"
                L.X = lambda at: L.x0
                return True
            if isinstance(L.g, Poison) or not is_num(L.g):
                L.state = "opaque"
                L.X = lambda at: Poison("value set by a loop")
                return True
            g = self.close(L.g)
            if self.hvs_in(g) - {L.hv}:
                return False
            if L.hv.sort == "B":
                if L.hv not in fv(g):
                    return self.overwritten(L)
                # monotone flag:  g == c or hv
                t1, t0 = subst(g, {L.hv: TRUE}), subst(g, {L.hv: FALSE})
                if t1 is TRUE or self.m.decider([], t1) is True:
                    x0 = tt(L.x0)
                    X = lambda at: or_(x0, Exists(ZERO, tt(at), lambda b: and_(self.maskc(b), subst(t0, {i: b}))))
                elif t0 is FALSE or self.m.decider([], t0) is False:
                    x0 = tt(L.x0)
                    X = lambda at: and_(x0, Forall(ZERO, tt(at), lambda b: implies(self.maskc(b), subst(t1, {i: b}))))
                else:
                    return False
                self.sigma[L.hv] = X(i)
                L.state, L.X = "solved", X
                return True
            if L.hv not in fv(g):
                return self.overwritten(L)
            ab = linear_in(g, L.hv)
            if ab is None:
                return False
            A, B = ab
            x0 = n_(tt(L.x0))
            if B is ONE:
                dl = self.guarded(A, ZERO)
                if self.d.n is None_N and i not in fv(dl):
                    X = lambda at: add(x0, mul(tt(at), dl))         # passes of a while loop: never negative
                else:
                    X = lambda at: add(x0, Sum(ZERO, tt(at), lambda b: subst(dl, {i: b})))
            elif A is ZERO:
                f = self.guarded(B, ONE)
                X = lambda at: mul(x0, Prod(ZERO, tt(at), lambda b: subst(f, {i: b})))
            else:
                return False
            self.sigma[L.hv] = X(i)
            L.state, L.X = "solved", X
            return True
        if isinstance(L.cont, Cell) and L.kind == "attr":
            return self.solve_cell(L)
        if isinstance(L.cont, PyList) and L.kind == "attr":
            return self.solve_list(L)
        if isinstance(L.cont, DefDictT) and L.kind == "attr":
            return self.solve_dd(L)
        if L.kind == "dict" and isinstance(L.x0, Arr) and isinstance(L.havoc, Arr):
            vals = [o.vals[k] for o in self.nexts]
            if all(v is L.havoc for v in vals):
                L.state = "same"
                L.X = lambda at: L.x0
                f0 = L.x0.snap()
                if L.hv is not None:
                    self.sigma[L.hv] = L.x0.shape[0].n
                self.asig[L.id] = lambda it, *q: f0(*q)
                return True
            if L.x0.ndim > 1:
                return self.solve_nd(L, vals)
            return self.solve_append(L, vals)
        # other values
        vals = [o.vals[k] for o in self.nexts]
        if all(v is L.x0 for v in vals) and vals:
            L.state, L.X = "same", (lambda at: L.x0)
            return True
        if all(v is L.havoc for v in vals):
            L.state, L.X = "same", (lambda at: L.x0)
            return True
        return self.overwritten(L)

    def maskc(self, b):
        return TRUE if self.d.mask is None else self.d.mask(b)

    def overwritten(self, L):
        """value of the last iteration"""
        if self.d.mask is not None or isinstance(L.g, Poison):
            why = "value set by the last pass of a loop"

            def X(at):
                if is_zero(at):
                    return L.x0
                return Poison(why)
            L.state, L.X = "opaque", X
            return True

        def X(at):
            at = tt(at)
            if is_zero(at):
                return L.x0
            if self.m.decider(self.m.facts, ge(at, ONE)) is True:
                return self.vclose(L.g, sub(at, ONE))
            if self.m.decider(self.m.facts, ge(at, ONE)) is False:
                return L.x0
            if L.x0 is MISSING:
                return Poison("loop variable after a possibly empty loop")
            return self.join(ge(at, ONE), self.vclose(L.g, sub(at, ONE)), L.x0)
        L.state, L.X = "last", X
        if L.hv is not None and is_num(L.x0) and is_num(L.g):
            g = self.close(L.g)
            if not self.hvs_in(g):
                x0 = tt(L.x0)
                gb = tt(g)
                if gb.sort != "B":
                    x0 = n_(x0)
                self.sigma[L.hv] = ite(ge(self.i, ONE), subst(gb, {self.i: sub(self.i, ONE)}), x0)
        return True

    def solve_cell(self, L):
        i = self.i
        k = (id(L.cont), L.key)
        nd = len(L.cont.shape)
        ks = [var("vc:%d" % q, "I") for q in range(nd)]
        H = app("hvA", const(L.id), *ks, sort=L.sort)
        g = None
        for o in self.nexts:
            v = n_(tt(o.vals[k](*ks)))
            g = v if g is None else ite(and_(*o.conds), v, g)
        if g is None:
            g = H
        h = fresh("H", L.sort)
        g = replace(g, lambda s: h if s is H else None)
        x0 = L.x0
        if g is h:
            self.asig[L.id] = lambda it, *q: n_(tt(x0(*q)))
            L.state, L.X = "same", (lambda at: x0)
            return True
        ownstill = L.id in self.hva_in(g)
        g = self.close(g)
        if self.hvs_in(g) - {L.id} or ownstill or L.id in self.hva_in(g):
            return False
        ab = linear_in(g, h)
        if ab is None:
            return False
        A, B = ab
        if B is ONE:
            dl = self.guarded(A, ZERO)

            def X(at, *q):
                q = [tt(x) for x in q]
                return add(n_(tt(x0(*q))), Sum(ZERO, tt(at), lambda b: subst(dl, dict([(i, b)] + list(zip(ks, q))))))
        else:
            # B == 1 - [c] with c forcing i to a position of the index
            pos = self.store_pos(B, ks)
            if pos is None:
                if not fv(B) & {i} and not fv(A) & {i} and B is ZERO:
                    return False
                return False
            ax, off = pos          # i == ks[ax] - off
            # value written at the iteration selected by the index, and its condition
            def X(at, *q):
                q = [tt(x) for x in q]
                it = sub(q[ax], off)
                s = dict([(i, it)] + list(zip(ks, q)))
                cond = and_(ge(it, ZERO), lt(it, tt(at)), self.maskc(it))
                # A + B*x0 at that iteration
                return ite(cond, add(subst(A, s), mul(subst(B, s), n_(tt(x0(*q))))), n_(tt(x0(*q))))
        self.asig[L.id] = lambda it, *q: X(it, *q)
        L.state = "solved"
        L.X = lambda at: (lambda *q: X(at, *q))
        return True

    def solve_nd(self, L, vals):
        """array of fixed shape, rebound by each pass: x -> A(i) + x"""
        ks = [var("vc:%d" % q, "I") for q in range(L.x0.ndim)]
        H = app("hvA", const(L.id), *ks, sort=L.sort)
        g = None
        for o, v in zip(self.nexts, vals):
            v = n_(tt(v.snap()(*ks)))
            g = v if g is None else ite(and_(*o.conds), v, g)
        h = fresh("H", L.sort)
        g = replace(g, lambda s: h if s is H else None)
        if L.id in self.hva_in(g):
            return False
        g = self.close(g)
        if self.hvs_in(g) - {L.id} or L.id in self.hva_in(g):
            return False
        if h not in fv(g):
            return self.overwritten(L)
        ab = linear_in(g, h)
        if ab is None or ab[1] is not ONE:
            return False
        dl = self.guarded(ab[0], ZERO)
        i, x0 = self.i, L.x0.snap()
        shape = tuple(d.n for d in L.x0.shape)

        def X(at, *q):
            q = [tt(x) for x in q]
            return add(n_(tt(x0(*q))), Sum(ZERO, tt(at), lambda b: subst(dl, dict([(i, b)] + list(zip(ks, q))))))
        self.asig[L.id] = lambda it, *q: X(it, *q)
        L.state = "solved"
        L.X = lambda at: Arr(shape, lambda *q: X(at, *q), L.sort)
        return True

    def store_pos(self, B, ks):
        """B(i, idx) is 1 unless i == idx[ax] - off; returns (ax, off)"""
        i = self.i
        for s in subterms(B):
            if s.op == "eq0" and i in fv(s):
                ab = linear_in(s.args[0], i)
                if ab is None or ab[1].op != "const" or abs(ab[1].args[0]) != 1:
                    continue
                rest = mul(const(-ab[1].args[0]), ab[0])        # i == rest
                for ax, q in enumerate(ks):
                    off = sub(q, rest)
                    if not (fv(off) & set(ks)):
                        # check: without the equality nothing happens
                        j = fresh("j", "I")
                        Bn = subst(B, {i: j})
                        t = replace(Bn, lambda x: FALSE if x.op == "eq0" and x is subst(s, {i: j}) else None)
                        if t is ONE:
                            return ax, off
        return None

    def solve_list(self, L):
        k = (id(L.cont), L.key)
        elems, cnt = None, None
        for o in self.nexts:
            v = o.vals[k]
            if not isinstance(v, SymList) or v.log is None:
                raise Unsupported("list rebuilt inside a loop")
            if len(v.log) != cnt and cnt is not None:
                return self.solve_uneven(L)
            cnt = len(v.log)
            x = v.log
            elems = list(x) if elems is None else [self.join(and_(*o.conds), a, b) for a, b in zip(x, elems)]
        if not cnt:
            L.state, L.X = "same", (lambda at: L.x0)
            return True
        if cnt != 1 or self.d.mask is not None:
            raise Unsupported("list append pattern")
        if isinstance(elems[0], Poison):
            raise Unsupported(elems[0].why)
        x0 = L.x0
        n0 = x0.n if isinstance(x0, SymList) else const(len(x0))
        self.sigma[L.hv] = add(n0, self.i)
        e = elems[0]

        def X(at):
            from .interp import merge
            at = tt(at)
            if n0 is ZERO:
                return SymList(at, lambda q: self.vclose(e, tt(q)))

            def get(q):
                q = tt(q)
                if isinstance(x0, SymList):
                    old = x0.fn(q)
                else:
                    old = None
                    for z, y in enumerate(x0):
                        old = y if old is None else merge(self.ip, eq(q, const(z)), y, old)
                return merge(self.ip, lt(q, n0), old, self.vclose(e, sub(q, n0)))
            return SymList(add(n0, at), get)
        L.state, L.X = "list", X
        return True

    def solve_uneven(self, L):
        """one element appended on some iterations"""
        k = (id(L.cont), L.key)
        e, cond = None, FALSE
        for o in self.nexts:
            x = o.vals[k].log
            if len(x) > 1:
                raise Unsupported("list grows unevenly")
            if x:
                c = and_(*o.conds)
                cond = or_(cond, c)
                e = x[0] if e is None else self.join(c, x[0], e)
        cond = self.close(cond)
        if self.hvs_in(cond):
            return False
        if self.d.mask is not None or isinstance(e, Poison) or not isinstance(L.x0, list) or len(L.x0):
            raise Unsupported("list grows unevenly")
        i = self.i
        n = self.d.n
        if n is not None_N and self.m.decider(self.m.facts, ge(n, ONE)) is True and \
                self.m.decider(self.m.facts + [ge(i, ZERO), lt(i, sub(n, ONE))], cond) is True:
            raise Peel()
        period = None
        for t in subterms(cond):
            if t.op == "app" and t.args[0] == "mod" and t.args[1] is i and cond is eq(t, ZERO):
                period = t.args[2]
        if period is not None and self.m.decider(self.m.facts, gt(period, ZERO)) is True:
            # i mod s = 0: the q-th such iteration is q s
            count = lambda at: idiv_(sub(add(tt(at), period), ONE), period)
            nth = lambda at, q: mul(period, q)
        else:
            count = lambda at: Sum(ZERO, tt(at), lambda b: ind(subst(cond, {i: b})))
            nth = lambda at, q: app("nthtrue", lam([tt(at)], lambda b: ind(subst(cond, {i: b}))), q, sort="I")
        self.sigma[L.hv] = count(i)
        L.state, L.X = "list", (lambda at: SymList(count(at), lambda q: self.vclose(e, nth(at, tt(q)))))
        return True

    def solve_dd(self, L):
        k = (id(L.cont), L.key)
        val = None
        same = True
        stored = FALSE
        for o in self.nexts:
            v = o.vals[k]
            if v[0] == "hv":
                continue
            same = False
            stored = or_(stored, and_(*o.conds))
            if v[0] != "store" or v[3][0] != "hv" or sub(v[1], self.i) is not ZERO:
                raise Unsupported("dictionary store pattern")
            val = v[2] if val is None else self.join(and_(*o.conds), v[2], val)
        if same:
            L.state, L.X = "same", (lambda at: L.x0)
            return True
        mask, x0 = self.d.mask, L.x0
        if any(o.vals[k][0] == "hv" for o in self.nexts):
            # the key keeps its value on the other paths
            if self.hvs_in(self.close(stored)):
                raise Unsupported("dictionary stored on some paths only")
            st, m0 = self.close(stored), mask
            mask = lambda j: and_(m0(j) if m0 else TRUE, subst(st, {self.i: tt(j)}))
        L.state = "dd"
        L.X = lambda at: ("mstore", tt(at), mask, lambda j: self.vclose(val, tt(j)), x0)
        return True

    def solve_append(self, L, vals):
        """x = append(x, e) once per iteration"""
        n = L.hv
        e = None
        for o in self.nexts:
            v = o.vals[(id(L.cont), L.key)]
            if not isinstance(v, Arr) or v.ndim != 1 or not v.shape[0].plain():
                return self.overwritten(L)
            if sub(v.shape[0].n, n) is not ONE:
                if n in fv(v.shape[0].n) or L.id in self.hva_in(n_(tt(v.at(var("vc:0", "I"))))):
                    return False
                return self.overwritten(L)
            x = n_(tt(v.at(n)))
            q = var("vc:0", "I")
            # earlier entries unchanged
            old = n_(tt(v.at(q)))
            H = app("hvA", const(L.id), q, sort=L.sort)
            low = [s for s in subterms(old) if s.op == "ge0"]
            t = replace(old, lambda s: (TRUE if self.m.decider([lt(q, n)], s) is True else FALSE if self.m.decider([lt(q, n)], s) is False else None) if s.op in ("ge0", "eq0") and s.sort == "B" else None)
            if t is not H:
                return False
            e = x if e is None else ite(and_(*o.conds), x, e)
        if e is None:
            return False
        n0, f0 = L.x0.shape[0].n, L.x0.snap()
        self.sigma[n] = add(n0, self.i)
        e2 = self.close(e)
        if self.hvs_in(e2):
            # entries may refer to earlier ones: keep them uninterpreted
            if self.hvs_in(e2) - {L.id}:
                del self.sigma[n]
                return False
            own = app
            del self.sigma[n]
            return False
        i = self.i

        def X(at, q):
            q = tt(q)
            return ite(lt(q, n0), n_(tt(f0(q))), subst(e2, {i: sub(q, n0)}))
        self.asig[L.id] = lambda it, q: X(it, q)
        L.state = "append"
        L.X = lambda at: Arr((add(n0, tt(at)),), lambda q: X(at, q), L.sort)
        return True

    def unsolved(self, L):
        """stays a function of the iteration: hv(id, i, idx)"""
        outer = list(self.m.loops)
        L.state = "unsolved"
        if isinstance(L.cont, Cell):
            srt, i_ = L.sort, L.id
            f = lambda at, *q: app("hvF", const(i_), *(outer + [tt(at)] + [tt(x) for x in q]), sort=srt)
            self.asig[L.id] = f
            x0 = L.x0
            L.X = lambda at: x0 if is_zero(at) else (lambda *q: f(at, *q))
            self.m.unsolved.append((L, self))
            return
        if L.kind == "dict" and is_num(L.x0) and L.hv is not None:
            srt, i_ = L.hv.sort, L.id
            f = lambda at: app("hvF", const(i_), *(outer + [tt(at)]), sort=srt)
            self.sigma[L.hv] = f(self.i)
            L.X = lambda at: L.x0 if is_zero(at) else f(at)
            self.m.unsolved.append((L, self))
            return
        if L.kind == "dict" and isinstance(L.x0, Arr) and L.hv is not None:
            srt, i_ = L.sort, L.id
            n = lambda at: app("hvN", const(i_), *(outer + [tt(at)]), sort="I")
            f = lambda at, q: app("hvF", const(i_), *(outer + [tt(at), tt(q)]), sort=srt)
            self.sigma[L.hv] = n(self.i)
            self.asig[L.id] = f
            L.X = lambda at: L.x0 if is_zero(at) else Arr((n(at),), lambda q: f(at, q), srt)
            self.m.unsolved.append((L, self))
            return
        if L.kind == "dict" and isinstance(L.x0, Arr) and L.x0.ndim > 1 and isinstance(L.havoc, Arr):
            srt, i_, shape = L.sort, L.id, tuple(d.n for d in L.x0.shape)
            f = lambda at, *q: app("hvF", const(i_), *(outer + [tt(at)] + [tt(x) for x in q]), sort=srt)
            self.asig[L.id] = f
            L.X = lambda at: L.x0 if is_zero(at) else Arr(shape, lambda *q: f(at, *q), srt)
            self.m.unsolved.append((L, self))
            return
        raise Unsupported("recurrence of %r not solved" % (L.key,))

    # ---------------------------------------------------------------- results
    def set_state(self, at):
        m = self.m
        vals = [(L, L.X(at)) for L in self.locs.values()]
        for L, v in vals:
            if L.kind == "dict":
                if v is MISSING:
                    v = Poison("variable without a value")
                m.setd(L.cont, L.key, v)
            else:
                m.seta(L.cont, L.key, v)

    def exit_cond(self, b):
        """some exit is taken at iteration b (state X(b))"""
        return or_(*[self.close(and_(*o.conds), b) for o in self.exits])

    def emit_draws(self, hi):
        """the draws of all iterations b in [0, hi)"""
        m = self.m
        for o in self.nexts:
            guard = tuple(self.close(c) for c in o.conds)
            facts = tuple(o.facts)
            for d in o.draws:
                m.put_draw(self.lift(d, hi, guard, facts))
        for o in self.nexts:
            for e in o.events:
                m.event(*e)

    def lift(self, d, hi, guard, facts):
        par = d.params

        def p(*idx):
            ks = [var("vd:%d" % k, "I") for k in range(len(idx))]
            r = par(*ks)
            s = dict(zip(ks, [tt(x) for x in idx]))
            return {k: subst(self.close(v), s) for k, v in r.items()}
        shape = tuple(Dim(self.close(x.n), None if x.mask is None else (lambda b, x=x: self.close(x.mask(b))), x.order) for x in d.shape)
        return d.clone(params=p, guard=tuple(self.close(g) for g in d.guard) + guard, shape=shape,
                       ranges=((self.i, hi, self.d.mask),) + tuple((v, self.close(h), mk_) for v, h, mk_ in d.ranges),
                       facts=tuple(self.close(f) for f in d.facts) + tuple(self.close(f) for f in facts))


class _NoneN:
    pass


None_N = _NoneN()


class InfDim:
    """range of a while loop"""
    n = None_N
    mask = None
    order = True

    def plain(self):
        return True


def is_zero(at):
    return isinstance(at, int) and at == 0 or at is ZERO


def summarise(ip, d, bodyfn):
    m = ip.m
    if m.loops:
        return summarise1(ip, d, bodyfn)
    for _ in range(30):
        mark, ns = m.mark(), len(getattr(m, "sums", []))
        try:
            return summarise1(ip, d, bodyfn)
        except Hoist as h:
            m.undo(mark)
            if ns:
                del m.sums[ns:]
            m.branch(h.c)
    raise Unsupported("too many case distinctions in a loop")


def summarise1(ip, d, bodyfn):
    m = ip.m
    inf = d.n is None_N
    if not inf and d.n is ZERO:
        return None
    if not hasattr(m, "unsolved"):
        m.unsolved = []
    S = Summary(ip, d, bodyfn)
    S.explore()
    if not S.outs and not inf:
        # no feasible iteration
        return None
    try:
        S.solve()
    except Peel:
        # regular but for the last iteration: that one is run by itself
        last = sub(d.n, ONE)
        r = summarise1(ip, Dim(last), bodyfn)
        if r is not None:
            return r
        r = bodyfn(last)
        return None if r is None or r[0] in ("break", "continue") else r
    m.sums = getattr(m, "sums", [])
    m.sums.append(S)
    if S.exits:
        if not inf:
            noexit = Forall(ZERO, d.n, lambda b: implies(S.maskc(b), not_(S.exit_cond(b))))
            if noexit is TRUE or m.decider(m.facts, noexit) is True:
                go = True
            elif noexit is FALSE:
                go = False
            else:
                go = m.choose()
        else:
            go = False
        if not go:
            e = app("exit", const(m.ident("exit")), *m.loops, sort="I") if m.loops else var("exit!%d" % m.ident("exit"), "I")
            for f in S.inrange(e):
                m.assume(f)
            m.assume(Forall(ZERO, e, lambda b: implies(S.maskc(b), not_(S.exit_cond(b)))))
            S.set_state(e)
            S.emit_draws(e)
            c = S.exit_cond(e)
            if m.decider(m.facts, c) is False:
                raise Infeasible()
            r = bodyfn(e)
            if r is None or r[0] == "continue":
                raise Infeasible()
            if r[0] == "break":
                return None
            return r
        m.assume(noexit)
    elif inf:
        raise Unsupported("loop without an exit")
    S.set_state(d.n)
    S.emit_draws(d.n)
    return None


def run_for(ip, d, bind, body, env):
    def f(i):
        bind(i)
        return ip.exec_body(body, env)
    return summarise(ip, d, f)


def run_while(ip, st, env):
    if ip.while_any is not None:
        return ip.while_any(ip, st, env)
    if scan(ip, st, env):
        return None
    # unroll a few concrete tests
    for _ in range(3):
        v = ip.ev(st.test, env)
        c = v if isinstance(v, bool) else None
        if c is None:
            t = v if isinstance(v, T) else None
            if t is not None:
                b = t if t.sort == "B" else ne(t, ZERO)
                c = ip.m.decider(ip.m.facts, b)
        if c is False:
            return None
        if c is None:
            break
        break

    def f(i):
        if not ip.truth(ip.ev(st.test, env)):
            return ("break",)
        return ip.exec_body(st.body, env)
    return summarise(ip, InfDim(), f)


def scan(ip, st, env):
    """a loop that only steps integer variables until its test fails: the number of steps is the least k
    with the test false after k steps (if it ends at all)"""
    import ast
    m, V = ip.m, env.vars
    if not all(isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) or isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) for b in st.body):
        return False
    if any(isinstance(q, (ast.NamedExpr, ast.Await, ast.Yield)) for q in ast.walk(st)):
        return False
    names = sorted({(b.target if isinstance(b, ast.AugAssign) else b.targets[0]).id for b in st.body})
    x0 = {}
    for nm in names:
        v = V.get(nm)
        if isinstance(v, bool) or not is_num(v) or tt(v).sort != "I":
            return False
        x0[nm] = tt(v)
    k = var("scank!%d" % m.ident("scan"), "I")
    step = {}

    def move(at):
        for nm in names:
            m.setd(V, nm, scalar(add(x0[nm], mul(const(step[nm]), at))))

    def body(fr):
        hv = {nm: var("scanh:" + nm, "I") for nm in names}
        for nm in names:
            m.setd(V, nm, hv[nm])
        t0, d0 = m.mark(), len(m.draws)
        if ip.exec_body(st.body, env) is not None or len(m.draws) > d0:
            return None
        if any(e[0] in ("dict", "attr") and not (e[1] is V and e[2] in names) for e in m.trail[t0:]):
            return None
        return {nm: sub(tt(V[nm]), hv[nm]) for nm in names}
    def tests(before):
        def one(fr):
            m.assume(ge(k, ZERO))
            if before is not None:
                m.assume(or_(eq(k, ZERO), before))
            move(k)
            t0, d0 = m.mark(), len(m.draws)
            try:
                r = ip.truth(ip.ev(st.test, env))
            except (Raised, Unsupported):
                return None
            if len(m.draws) > d0 or any(e[0] in ("dict", "attr") for e in m.trail[t0:]):
                return None
            return (r, [f for f in m.facts if f not in facts and f not in fr.conds])
        facts = set(m.facts)
        return m.explore(one)
    try:
        r = m.explore(body)
        if len(r) != 1 or r[0][1] is None or any(d.op != "const" for d in r[0][1].values()):
            return False
        step.update({nm: d.args[0] for nm, d in r[0][1].items()})
        go = lambda paths: or_(*[and_(*c) for c, o in paths if o is not None and o[0] is True])
        first = go(tests(None))
        paths = tests(subst(first, {k: sub(k, ONE)}))
        if any(o is None or o[0] not in (True, False) for c, o in paths):
            return False
        T_ = go(paths)
    except (Raised, Unsupported):
        return False
    e = app("scan", const(m.ident("scan")), *m.loops, sort="I") if m.loops else var("scan!%d" % m.ident("scan"), "I")
    m.assume(ge(e, ZERO))
    m.assume(Forall(ZERO, e, lambda b: subst(T_, {k: b})))
    m.assume(or_(eq(e, ZERO), subst(T_, {k: sub(e, ONE)})))
    m.assume(not_(subst(T_, {k: e})))
    move(e)
    return True


def run_comp(ip, d, elem):
    """[elem(i) for i in range]"""
    acc = PyList([])

    def f(i):
        ip.list_append(acc, elem(i))
        return None
    if not d.plain():
        raise Unsupported("comprehension over a masked axis")
    r = summarise(ip, d, f)
    if isinstance(acc.items, list) and not acc.items and d.n is not ZERO:
        return PyList(SymList(d.n, lambda q: app("oob", tt(q))))
    return acc if not isinstance(acc.items, SymList) else acc


DefDictT = None


def _late():
    global DefDictT
    from .interp import DefDict
    DefDictT = DefDict


_late()
