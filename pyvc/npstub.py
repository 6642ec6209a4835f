"""Assumed contracts of Python builtins, numpy, scipy and the generator (trusted base)."""
from .sym import *

M = None          # current Machine


def use(m):
    global M
    M = m


# ------------------------------------------------------------------ conversion
def is_num(v):
    return isinstance(v, (bool, int, float, Fraction)) or (isinstance(v, T) and v.sort in "IRB")


def num(v):
    if isinstance(v, T):
        return ind(v) if v.sort == "B" else v
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, float, Fraction)):
        return const(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            return num(v.at())
        if all(d.plain() and d.n is ONE for d in v.shape):
            return num(v.at(*([ZERO] * v.ndim)))
        raise Unsupported("array used as a scalar")
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if isinstance(v, Opaque) and v.pytype in ("str", "NoneType", "dict"):
        raise Raised("TypeError", "bad operand")
    if v is None or isinstance(v, str):
        raise Raised("TypeError", "bad operand %r" % (v,))
    raise Unsupported("not a number: %r" % (v,))


def scalar(t):
    """term -> python int when it is an integer constant"""
    if isinstance(t, T):
        if t.op == "const" and t.args[0].denominator == 1 and t.sort == "I":
            return int(t.args[0])
        if t is TRUE or t is FALSE:
            return t is TRUE
    return t


def is_arrlike(v):
    return isinstance(v, (Arr, PyList, SymList, tuple))


def kind_of(v):
    if isinstance(v, Arr):
        return v.kind
    if isinstance(v, bool):
        return "B"
    t = tt(v)
    return t.sort if t.sort in "IRB" else "R"


def join_kind(*ks):
    if "R" in ks:
        return "R"
    if "I" in ks:
        return "I"
    return "B"


def asarr(v):
    if isinstance(v, Arr):
        return v
    if is_num(v):
        t = tt(v)
        return Arr((), lambda t=t: t, kind_of(v))
    if isinstance(v, PyList) and isinstance(v.items, SymList):
        v = v.items
    if isinstance(v, (PyList, tuple)):
        items = v.items if isinstance(v, PyList) else list(v)
        return stack(items)
    if isinstance(v, SymList):
        first = v.fn(var("probe", "I"))
        if is_num(first):
            k = kind_of(first)
            return Arr((v.n,), lambda i: tt(v.fn(i)), k)
        if is_arrlike(first):
            a0 = asarr(first)
            return Arr((v.n,) + a0.shape, lambda i, *r: asarr(v.fn(i)).at(*r), a0.kind)
        raise Unsupported("array of %r" % (first,))
    if isinstance(v, RangeVal):
        return Arr((v.n,), lambda i: add(v.lo, mul(v.step, i)), "I")
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if isinstance(v, Opaque) and isinstance(v.data, Frame):
        return v.data.arr
    if isinstance(v, (Opaque,)) or v is None or isinstance(v, str):
        raise Raised("TypeError", "not array-like")
    raise Unsupported("not array-like: %r" % (v,))


class Frame:
    """contents of a pandas Series (one dimension) or DataFrame (two); arrays obtained without an
    explicit copy share its storage"""

    def __init__(self, arr):
        self.arr = arr

    def getattr(self, ip, o, name):
        if name == "to_numpy":
            return ip.stub("to_numpy", lambda dtype=None, copy=False, **k: np_array(self.arr, dtype) if copy or dtype is not None else self.arr)
        if name == "values":
            return self.arr
        if name == "copy":
            return ip.stub("copy", lambda **k: Opaque(o.name, o.pytype, Frame(self.arr.copy())))
        if name == "shape":
            return tuple(scalar(d.count()) for d in self.arr.shape)
        if name == "ndim":
            return self.arr.ndim
        if name == "columns" and self.arr.ndim == 2:
            return Opaque("columns", "Index")
        if name == "name" and self.arr.ndim == 1:
            return Opaque("name", "str") if M.branch(var("named-series", "B")) else None
        raise Unsupported("%s.%s" % (o.pytype, name))


class RangeVal:
    def __init__(self, lo, n, step=1):
        self.lo, self.n, self.step = tt(lo), tt(n), tt(step)


def pick(items, i, f):
    """items[i] for a term i as an ite chain of f(item)"""
    i = tt(i)
    if i.op == "const":
        k = int(i.args[0])
        if 0 <= k < len(items):
            return f(items[k])
        return app("oob", i)
    r = f(items[-1])
    for k in range(len(items) - 2, -1, -1):
        r = ite(eq(i, const(k)), f(items[k]), r)
    return r


def stack(items):
    if not items:
        return Arr((0,), lambda i: app("oob", i), "R")
    if all(is_num(x) for x in items):
        return Arr((len(items),), lambda i: pick(items, i, tt), join_kind(*[kind_of(x) for x in items]))
    arrs = [asarr(x) for x in items]
    sh = arrs[0].shape
    for a in arrs[1:]:
        if a.ndim != len(sh):
            raise Unsupported("ragged array")
        for d1, d2 in zip(sh, a.shape):
            if not eqdim(d1, d2):
                raise Unsupported("ragged array")
    fns = [a.snap() for a in arrs]
    return Arr((len(items),) + sh, lambda i, *r: pick(fns, i, lambda f: f(*r)), join_kind(*[a.kind for a in arrs]))


def eqdim(d1, d2):
    if d1.same(d2):
        return True
    if d1.plain() and d2.plain():
        return M.branch(eq(d1.n, d2.n), True)
    return False


def bdim(d1, d2):
    if d1.same(d2):
        return d1
    if d1.plain() and d1.n is ONE:
        return d2
    if d2.plain() and d2.n is ONE:
        return d1
    if d1.plain() and d2.plain():
        if M.branch(eq(d1.n, d2.n), True):
            return d1
        if M.branch(eq(d1.n, ONE), True):
            return d2
        if M.branch(eq(d2.n, ONE), True):
            return d1
        raise Raised("ValueError", "operands could not be broadcast")
    raise Unsupported("cannot align %s and %s" % (show(d1.n), show(d2.n)))


def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        d = None
        for s in shapes:
            j = k - (nd - len(s))
            if j >= 0:
                d = s[j] if d is None else bdim(d, s[j])
        out.append(d)
    return out


def bmap(shape, out):
    """index map of an operand of `shape` into a broadcast index (decided now)"""
    off = len(out) - len(shape)
    zero = []
    for k, d in enumerate(shape):
        o = out[off + k]
        if d.plain() and d.n is ONE and not (o.plain() and o.n is ONE):
            zero.append(True)
        elif d.plain() and d is not o and d.n is not o.n and not d.same(o) and o.plain():
            # equal by a branch taken before, or broadcast from one
            zero.append(M.decider(M.facts, eq(d.n, ONE)) is True and M.decider(M.facts, eq(o.n, ONE)) is not True)
        else:
            zero.append(False)
    return lambda idx: [ZERO if z else idx[off + k] for k, z in enumerate(zero)]


def ew(f, *args, kind=None):
    """elementwise f with broadcasting; scalars in, scalar out"""
    if all(is_num(a) for a in args):
        return scalar(f(*[tt(a) for a in args]))
    arrs = [asarr(a) for a in args]
    if all(a.ndim == 0 for a in arrs):
        return scalar(f(*[a.at() for a in arrs]))
    shapes = [a.shape for a in arrs]
    out = broadcast(shapes)
    fns = [a.snap() for a in arrs]
    k = kind or join_kind(*[a.kind for a in arrs])
    maps = [bmap(s, out) for s in shapes]

    def fn(*idx):
        return f(*[g(*m(idx)) for g, m in zip(fns, maps)])
    return Arr(out, fn, k)


def n_(t):
    t = tt(t)
    return ind(t) if t.sort == "B" else t


def k2(*args):
    k = join_kind(*[kind_of(a) if is_num(a) else asarr(a).kind for a in args])
    return "I" if k == "B" else k


def op_add(a, b): return ew(lambda x, y: add(n_(x), n_(y)), a, b, kind=k2(a, b))
def op_sub(a, b): return ew(lambda x, y: sub(n_(x), n_(y)), a, b, kind=k2(a, b))
def op_mul(a, b): return ew(lambda x, y: mul(n_(x), n_(y)), a, b, kind=k2(a, b))


def op_div(a, b):
    if is_num(b):
        z = eq(num(b), ZERO)
        if is_num(a) and z is not FALSE and M.decider(M.facts, z) is True:
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                raise Raised("ZeroDivisionError", "division by zero")
            return app("divzero", num(a))
    return ew(lambda x, y: div(n_(x), n_(y)), a, b, kind="R")


def op_pow(a, b):
    kind = "I" if k2(a, b) == "I" and is_num(b) and tt(b).op == "const" and tt(b).args[0] >= 0 else "R"
    return ew(lambda x, y: power(n_(x), n_(y)), a, b, kind=kind)


def op_floordiv(a, b):
    return ew(lambda x, y: idiv_(n_(x), n_(y)), a, b)


def op_mod(a, b):
    return ew(lambda x, y: mod_(n_(x), n_(y)), a, b)


def op_neg(a): return ew(lambda x: neg(n_(x)), a, kind=k2(a))


def cmp(op, a, b):
    f = {"==": eq, "!=": ne, "<": lt, "<=": le, ">": gt, ">=": ge}[op]
    return ew(lambda x, y: f(n_(x) if tt(y).sort != "B" else tt(x), n_(y) if tt(x).sort != "B" else tt(y)), a, b, kind="B")


def logical_not(a): return ew(lambda x: not_(x) if x.sort == "B" else eq(x, ZERO), a, kind="B")
def tob(x): return x if x.sort == "B" else ne(x, ZERO)
def bit_and(a, b):
    if kind_of2(a) == "B" and kind_of2(b) == "B":
        return ew(lambda x, y: and_(tob(x), tob(y)), a, b, kind="B")
    raise Unsupported("bitwise and of integers")
def bit_or(a, b):
    if kind_of2(a) == "B" and kind_of2(b) == "B":
        return ew(lambda x, y: or_(tob(x), tob(y)), a, b, kind="B")
    raise Unsupported("bitwise or of integers")


def kind_of2(v):
    return v.kind if isinstance(v, Arr) else (kind_of(v) if is_num(v) else asarr(v).kind)


# ------------------------------------------------------------------ reductions
def fold(op, dims, f, empty=None):
    """op over the product of dims of f(*idx)"""
    def go(k, idx):
        if k == len(dims):
            return f(*idx)
        d = dims[k]
        if d.plain():
            return binder(op, ZERO, d.n, lambda b: go(k + 1, idx + [b]))
        if op == "sum":
            return binder(op, ZERO, d.n, lambda b: mul(ind(d.mask(b)), go(k + 1, idx + [b])))
        if op == "prod":
            return binder(op, ZERO, d.n, lambda b: ite(d.mask(b), go(k + 1, idx + [b]), ONE))
        if op == "forall":
            return binder(op, ZERO, d.n, lambda b: implies(d.mask(b), go(k + 1, idx + [b])))
        if op == "exists":
            return binder(op, ZERO, d.n, lambda b: and_(d.mask(b), go(k + 1, idx + [b])))
        if op == "maxb":
            return binder(op, ZERO, d.n, lambda b: ite(d.mask(b), go(k + 1, idx + [b]), neg(INF) if empty is None else empty))
        if op == "minb":
            return binder(op, ZERO, d.n, lambda b: ite(d.mask(b), go(k + 1, idx + [b]), INF if empty is None else empty))
        raise Unsupported(op)
    return go(0, [])


def axes_of(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return sorted(int(x) % a.ndim for x in axis)
    if isinstance(axis, T):
        axis = scalar(axis)
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    if axis >= a.ndim or axis < -a.ndim:
        raise Raised("ValueError", "axis out of bounds")
    return [axis % a.ndim]


def reduce(op, a, axis=None, keepdims=False, pre=n_, kind=None, empty=None):
    a = asarr(a)
    ax = axes_of(a, axis)
    fn = a.snap()
    rest = [k for k in range(a.ndim) if k not in ax]
    dims = [a.shape[k] for k in ax]

    def g(*idx):
        full = [None] * a.ndim
        for k, i in zip(rest, idx):
            full[k] = i

        def inner(*bi):
            f2 = list(full)
            for k, i in zip(ax, bi):
                f2[k] = i
            return pre(fn(*f2))
        return fold(op, dims, inner, empty)
    k = kind or ("I" if a.kind == "B" else a.kind)
    if not rest:
        r = g()
        if keepdims:
            return Arr([1] * a.ndim, lambda *i: r, k)
        return scalar(r)
    if keepdims:
        return Arr([Dim(1) if i in ax else a.shape[i] for i in range(a.ndim)], lambda *idx: g(*[idx[i] for i in rest]), k)
    return Arr([a.shape[i] for i in rest], g, k)


def asum(a, axis=None, keepdims=False, **kw):
    if kw.get("dtype") is not None or kw.get("out") is not None or kw.get("where") is not None:
        raise Unsupported("sum options")
    return reduce("sum", a, axis, keepdims)


def aprod(a, axis=None, keepdims=False, **kw):
    return reduce("prod", a, axis, keepdims)


def aany(a, axis=None, **kw):
    return reduce("exists", a, axis, pre=tob, kind="B")


def aall(a, axis=None, **kw):
    return reduce("forall", a, axis, pre=tob, kind="B")


def known_max(a):
    for rule in MAXRULES:
        r = rule(a)
        if r is not None:
            return r
    return None


MAXRULES = []


def no_less(x, y):
    """x >= y follows from what is known (only asked for closed terms)"""
    return not any(v.args[0].startswith("_b") for v in fv(tt(x))) and M.decider(M.facts, ge(x, y)) is True


def amax(a, axis=None, keepdims=False, initial=None, **kw):
    a = asarr(a)
    if axis is None and not keepdims:
        if "max" in a.meta and initial is None:
            return scalar(a.meta["max"])
        if "maxlast" in a.meta:
            # entries are non-decreasing
            n = a.shape[0].n
            if M.branch(ge(n, ONE)):
                last = a.at(sub(n, ONE))
                return scalar(last) if initial is None else scalar(max_(last, num(initial)))
            if initial is None:
                raise Raised("ValueError", "zero-size array to reduction operation maximum")
            return initial
        r = known_max(a)
        if r is not None and initial is None:
            return scalar(r)
    if initial is None:
        for k in axes_of(a, axis):
            d = a.shape[k]
            if d.plain() and not M.branch(ge(d.n, ONE)):
                raise Raised("ValueError", "zero-size array to reduction operation maximum which has no identity")
    r = reduce("maxb", a, axis, keepdims, empty=None if initial is None else num(initial))
    if initial is not None and not (tt(num(initial)) is neg(INF)):
        r = ew(lambda x: x if no_less(x, num(initial)) else max_(x, num(initial)), r)
    return r


def amin(a, axis=None, keepdims=False, initial=None, **kw):
    a = asarr(a)
    if initial is None:
        for k in axes_of(a, axis):
            d = a.shape[k]
            if d.plain() and not M.branch(ge(d.n, ONE)):
                raise Raised("ValueError", "zero-size array to reduction operation minimum which has no identity")
    r = reduce("minb", a, axis, keepdims, empty=None if initial is None else num(initial))
    if initial is not None:
        r = ew(lambda x: min_(x, num(initial)), r)
    return r


def amean(a, axis=None, keepdims=False, **kw):
    a = asarr(a)
    ax = axes_of(a, axis)
    n = mul(*[a.shape[k].count() for k in ax]) if ax else ONE
    return op_div(asum(a, axis, keepdims), n)


def argext(op):
    def f(a, axis=None, **kw):
        a = asarr(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("argmax of a flattened matrix")
            axis = 0
        k = axes_of(a, axis)[0]
        if not a.shape[k].plain():
            raise Unsupported("argmax over a masked axis")
        if not M.branch(ge(a.shape[k].n, ONE)):
            raise Raised("ValueError", "attempt to get argmax of an empty sequence")
        r = reduce(op, a, k, kind="I")
        if M.picks is not None and a.ndim == 1 and not M.loops:
            # named: what it is, is looked up where it matters
            v = var("pick!%d" % M.ident("pick"), "I")
            M.assume(ge(v, ZERO))
            M.assume(lt(v, tt(a.shape[k].n)))
            M.picks[v] = (tt(r.at() if isinstance(r, Arr) else num(r)), list(M.facts))
            return scalar(v)
        return r
    return f


def cum(op):
    def f(a, axis=None, **kw):
        a = asarr(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("cumulation of a flattened matrix")
            axis = 0
        k = axes_of(a, axis)[0]
        if not a.shape[k].plain():
            raise Unsupported("cumulation over a masked axis")
        fn = a.snap()
        meta = {}
        if op == "sum" and a.ndim == 1 and a.kind in "IB" and nonneg_arr(a):
            meta = {"maxlast": True, "nondecreasing": True}
        return Arr(a.shape, lambda *i: binder(op, ZERO, add(i[k], ONE), lambda b: n_(fn(*(i[:k] + (b,) + i[k + 1:])))),
                   "I" if a.kind == "B" else a.kind, meta)
    return f


def nonneg_arr(a):
    if a.kind == "B":
        return True
    b = var("nn", "I")
    t = a.at(b)
    return nonneg_term(t)


def nonneg_term(t):
    """syntactic non-negativity of an entry"""
    if t.op == "const":
        return t.args[0] >= 0
    if t.op in ("ind",):
        return True
    if t.op == "app" and t.args[0] == "draw":
        d = M.bydraw[int(t.args[1].args[0])]
        return d.kind in ("binomial", "beta", "uniform01")
    if t.op == "sum":
        return nonneg_term(t.args[3])
    if t.op == "poly":
        return all(c > 0 and all(nonneg_term(a) for a, e in m) for m, c in t.args) or is_ite_nonneg(t)
    return False


def is_ite_nonneg(t):
    inds = top_inds(t)
    if not inds:
        return False
    a = inds[0]
    return nonneg_term(set_ind(t, a, 1)) and nonneg_term(set_ind(t, a, 0))


# ---------------------------------------------------------------- construction
def np_array(v=None, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(v, Obj):
        raise Unsupported("array of an object")
    if isinstance(v, PyList) and not isinstance(v.items, SymList) and any(isinstance(x, (str, Opaque)) for x in v.items):
        return Opaque("objects", "ndarray")
    a = asarr(v).copy()
    a = cast(a, dtype)
    if ndmin > a.ndim:
        raise Unsupported("ndmin")
    return a if a.ndim else a.at()


KINDS = {"float64": "R", "float": "R", "int64": "I", "int": "I", "bool": "B", "bool_": "B", "int32": "I", "intp": "I", "float_": "R"}


def dtype_kind(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, TypeVal):
        if dtype.name in KINDS:
            return KINDS[dtype.name]
    if isinstance(dtype, str) and dtype in KINDS:
        return KINDS[dtype]
    raise Unsupported("dtype %r" % (dtype,))


def cast(a, dtype):
    k = dtype_kind(dtype)
    if k is None or k == a.kind:
        return a
    fn = a.snap()
    if k == "R" or (k == "I" and a.kind == "B"):
        return Arr(a.shape, lambda *i: n_(fn(*i)), k)
    if k == "B":
        return Arr(a.shape, lambda *i: tob(fn(*i)), k)
    if a.shape and a.shape[0].n is ZERO:
        return Arr(a.shape, fn, k)
    return Arr(a.shape, lambda *i: trunc(fn(*i)), "I")


def trunc(t):
    t = n_(t)
    if t.sort == "I":
        return t
    if t.op == "const":
        return const(int(t.args[0]))
    if M.decider(M.facts, ge(t, ZERO)) is True:
        return floor_(t)
    return ite(ge(t, ZERO), floor_(t), ceil_(t))


class TypeVal:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeVal) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<type %s>" % self.name


def shape_arg(s):
    if isinstance(s, PyList):
        s = tuple(s.items)
    if isinstance(s, tuple):
        return [nonneg_len(x) for x in s]
    return [nonneg_len(s)]


def nonneg_len(x):
    t = num(x)
    if t.sort != "I":
        raise Raised("TypeError", "float as a length")
    if not M.branch(ge(t, ZERO)):
        raise Raised("ValueError", "negative dimensions are not allowed")
    return t


def np_zeros(shape, dtype=None, **kw):
    return Arr(shape_arg(shape), lambda *i: ZERO, dtype_kind(dtype) or "R")


def np_ones(shape, dtype=None, **kw):
    return Arr(shape_arg(shape), lambda *i: ONE, dtype_kind(dtype) or "R")


def np_full(shape, v, dtype=None, **kw):
    t = num(v)
    return Arr(shape_arg(shape), lambda *i: t, dtype_kind(dtype) or kind_of(v))


def np_empty(shape, dtype=None, **kw):
    k = const(M.ident("undef"))
    return Arr(shape_arg(shape), lambda *i: app("undef", k, *i), dtype_kind(dtype) or "R")


def np_eye(n, **kw):
    n = nonneg_len(n)
    return Arr((n, n), lambda i, j: ind(eq(i, j)), "R")


def np_arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if num(step) is not ONE:
        raise Unsupported("arange step")
    a, b = num(a), num(b)
    n = sub(b, a)
    if n.sort != "I":
        raise Unsupported("real arange")
    if not M.branch(ge(n, ZERO)):
        n = ZERO
    return cast(Arr((n,), lambda i: add(a, i), join_kind(a.sort, "I")), dtype)


def np_repeat(x, n, axis=None):
    n = nonneg_len(n)
    if is_num(x):
        t = num(x)
        return Arr((n,), lambda i: t, kind_of(x))
    a = asarr(x)
    if a.ndim == 1 and a.shape[0].n is ONE:
        t = a.at(ZERO)
        return Arr((n,), lambda i: t, a.kind)
    raise Unsupported("repeat of an array")


def np_tile(x, reps):
    if is_num(x):
        t = num(x)
        return Arr(shape_arg(reps), lambda *i: t, kind_of(x))
    raise Unsupported("tile of an array")


def np_concatenate(parts, axis=0, **kw):
    items = parts.items if isinstance(parts, PyList) else list(parts) if isinstance(parts, tuple) else None
    if items is None:
        raise Unsupported("concatenate of %r" % (parts,))
    arrs = [asarr(x) for x in items]
    for x in arrs:
        if x.ndim == 0:
            raise Raised("ValueError", "zero-dimensional arrays cannot be concatenated")
    if any(a.ndim != arrs[0].ndim for a in arrs):
        raise Raised("ValueError", "all the input array dimensions except for the concatenation axis must match")
    if axis is None:
        raise Unsupported("concatenate of flattened arrays")
    ax = int_(axis)
    if arrs[0].ndim > 1:
        return concat_nd(arrs, ax % arrs[0].ndim)
    # numpy: the empty float array [] makes the result real
    kind = join_kind(*[a.kind for a in arrs])
    arrs = [a for a in arrs if a.shape[0].n is not ZERO]
    if not arrs:
        return Arr((0,), lambda i: app("oob", i), kind)
    if any(not a.shape[0].plain() for a in arrs):
        raise Unsupported("concatenate of masked arrays")
    fns = [a.snap() for a in arrs]
    offs, tot = [], ZERO
    for a in arrs:
        offs.append(tot)
        tot = add(tot, a.shape[0].n)

    def fn(i):
        r = n_(fns[-1](sub(i, offs[-1])))
        for k in range(len(arrs) - 2, -1, -1):
            c = lt(i, offs[k + 1])
            r = ite(c, n_(fns[k](sub(i, offs[k]))), r)
        return r
    return Arr((tot,), fn, kind)


def int_(x):
    x = num(x)
    if x.op != "const":
        raise Unsupported("symbolic axis")
    return int(x.args[0])


def concat_nd(arrs, ax):
    for a in arrs[1:]:
        for k in range(a.ndim):
            if k != ax and not eqdim(a.shape[k], arrs[0].shape[k]):
                raise Raised("ValueError", "all the input array dimensions except for the concatenation axis must match")
    if any(not d.plain() for a in arrs for d in a.shape):
        raise Unsupported("concatenate of masked arrays")
    fns = [a.snap() for a in arrs]
    offs, tot = [], ZERO
    for a in arrs:
        offs.append(tot)
        tot = add(tot, a.shape[ax].n)

    def fn(*i):
        def part(k):
            q = list(i)
            q[ax] = sub(q[ax], offs[k])
            return n_(fns[k](*q))
        r = part(len(arrs) - 1)
        for k in range(len(arrs) - 2, -1, -1):
            r = ite(lt(i[ax], offs[k + 1]), part(k), r)
        return r
    return Arr([tot if k == ax else d for k, d in enumerate(arrs[0].shape)], fn, join_kind(*[a.kind for a in arrs]))


def arrays_of(parts):
    items = parts.items if isinstance(parts, PyList) and isinstance(parts.items, list) else list(parts) if isinstance(parts, tuple) else None
    if not items:
        raise Unsupported("a symbolic number of arrays")
    return [asarr(x) for x in items]


def with_axis(a, at):
    """the array with a new axis of length one"""
    fn = a.snap()
    dims = list(a.shape)
    return Arr(dims[:at] + [1] + dims[at:], lambda *i: fn(*(i[:at] + i[at + 1:])), a.kind)


def np_stack(parts, axis=0, **kw):
    arrs = arrays_of(parts)
    ax = int_(axis) % (arrs[0].ndim + 1)
    return np_concatenate(tuple(with_axis(a, ax) for a in arrs), ax)


def np_hstack(parts, **kw):
    arrs = [with_axis(a, 0) if a.ndim == 0 else a for a in arrays_of(parts)]
    return np_concatenate(tuple(arrs), 0 if arrs[0].ndim == 1 else 1)


def np_vstack(parts, **kw):
    arrs = [with_axis(a, 0) for a in arrays_of(parts)] if all(a.ndim < 2 for a in arrays_of(parts)) else arrays_of(parts)
    return np_concatenate(tuple(with_axis(a, 0) if a.ndim == 1 else a for a in arrs), 0)


def np_column_stack(parts):
    return np_concatenate(tuple(with_axis(a, 1) if a.ndim == 1 else a for a in arrays_of(parts)), 1)


def np_count_nonzero(a, axis=None, **kw):
    return asum(cmp("!=", a, 0) if asarr(a).kind != "B" else a, axis)


def np_full_like(a, v, dtype=None, **kw):
    a = asarr(a)
    return np_full(tuple(d.n for d in a.shape), v, dtype or {"I": "int64", "R": "float64", "B": "bool"}[a.kind])


def np_flip(a, axis=None):
    a = asarr(a)
    key = [SliceVal(None, None, None)] * a.ndim
    for k in range(a.ndim) if axis is None else [int_(axis) % a.ndim]:
        key[k] = SliceVal(None, None, const(-1))
    return getitem(a, tuple(key))


def np_diff(a, n=1, axis=-1):
    a = asarr(a)
    if a.ndim != 1 or num(n) is not ONE:
        raise Unsupported("diff")
    return op_sub(getitem(a, SliceVal(ONE, None, None)), getitem(a, SliceVal(None, const(-1), None)))


def np_append(a, v, axis=None):
    a = asarr(a)
    v = asarr(v)
    if v.ndim == 0:
        t = v.at()
        v = Arr((1,), lambda i: t, v.kind)
    if a.ndim == 0:
        t0 = a.at()
        a = Arr((1,), lambda i: t0, a.kind)
    return np_concatenate((a, v))


def np_insert(a, pos, v, axis=None):
    a = asarr(a)
    if a.ndim == 1 and num(pos) is ZERO and is_num(v):
        return np_concatenate((PyList([v]), a))
    raise Unsupported("insert")


def np_bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x.ndim != 1:
        raise Raised("ValueError", "object too deep for desired array")
    if x.kind == "R":
        raise Raised("TypeError", "Cannot cast array data")
    d = x.shape[0]
    n = d.count()
    fn = x.snap()
    if M.branch(eq(n, ZERO)):
        K = ZERO
    else:
        K = add(num(amax(x)), ONE)
    ml = num(minlength)
    if ml is not ZERO and not M.branch(le(ml, K)):
        K = ml
    if weights is None:
        return Arr((K,), lambda j: fold("sum", [d], lambda b: ind(eq(fn(b), j))), "I")
    w = asarr(weights)
    if not eqdim(d, w.shape[0]):
        raise Raised("ValueError", "The weights and list don't have the same length.")
    wf = w.snap()
    return Arr((K,), lambda j: fold("sum", [d], lambda b: mul(ind(eq(fn(b), j)), n_(wf(b)))), "R")


def np_delete(a, j, axis=None):
    a = asarr(a)
    if a.ndim != 1 or not is_num(j):
        raise Unsupported("delete")
    jj = num(j)
    d = a.shape[0]
    if not d.plain():
        raise Unsupported("delete from a masked array")
    if not M.branch(and_(ge(jj, ZERO), lt(jj, d.n))):
        raise Unsupported("delete outside the range")
    fn = a.snap()
    return Arr((Dim(d.n, lambda b: ne(b, jj)),), fn, a.kind)


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = asarr(a)
    if a.ndim != 1 or axis is not None or return_index:
        raise Unsupported("unique of a matrix")
    d, fn = a.shape[0], a.snap()
    if a.kind == "I":
        # labels are non-negative in this code base: checked
        b = fresh("u", "I")
        facts = M.facts + [ge(b, ZERO), lt(b, d.n)] + ([d.mask(b)] if d.mask else [])
        if M.decider(facts, ge(fn(b), ZERO)) is not True:
            raise Unsupported("unique of possibly negative labels")
        if M.branch(eq(d.count(), ZERO)):
            K = ZERO
        else:
            K = add(num(amax(a)), ONE)

        def occ(j):
            return fold("exists", [d], lambda b: eq(fn(b), j))
        ud = Dim(K, occ)
        vals = Arr((ud,), lambda j: j, "I")
        out = [vals]
        if return_inverse:
            w = Arr((d,), lambda i: Sum(ZERO, fn(i), lambda l: ind(occ(l))), "I")
            w.meta["positions"] = (w.cell.fn, ud, fn)
            out.append(w)
        if return_counts:
            out.append(Arr((ud,), lambda j: fold("sum", [d], lambda b: ind(eq(fn(b), j))), "I"))
    else:
        if not d.plain():
            raise Unsupported("unique of a masked real array")
        ud = Dim(d.n, lambda i: not_(Exists(ZERO, i, lambda l: eq(fn(l), fn(i)))), order=False)
        out = [Arr((ud,), fn, a.kind)]
        if return_inverse:
            raise Unsupported("inverse of real unique")
        if return_counts:
            cnt = Arr((ud,), lambda i: Sum(ZERO, d.n, lambda l: ind(eq(fn(l), fn(i)))), "I")
            # every entry is counted once
            M.assume(eq(fold("sum", [ud], lambda i: cnt.at(i)), d.n))
            out.append(cnt)
    return out[0] if len(out) == 1 else tuple(out)


def np_argsort(a, axis=-1, kind=None, **kw):
    """some sorting permutation (ties in any order); sorting it again ranks the entries: the rank of an
    entry is its position in the sorted order (one-to-one onto 0..n-1, monotone in the entry)"""
    a = asarr(a)
    if a.ndim != 1 or axis not in (-1, 0):
        raise Unsupported("argsort of a matrix")
    d, fn = a.shape[0], a.snap()
    was = a.meta.get("sorting")
    if was is not None and a.imap is None and a.cell.fn is was[0]:
        return ranking(*was[1:])
    i = const(M.ident(("argsort",)))
    w = Arr((Dim(d.count()),), lambda q: app("argsort", i, q, sort="I"), "I")
    w.meta["sorting"] = (w.cell.fn, d, fn, i)
    return w


def ranking(d, fn, i):
    M.ranks[int(i.args[0])] = (d, fn)
    return Arr((d,), lambda j: app("rank", i, j, sort="I"), "I")


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    return ew(lambda x, y, z: ite(tob(x), n_(y), n_(z)), c, a, b, kind=k2(a, b))


def np_clip(a, lo, hi, **kw):
    if lo is not None:
        a = ew(lambda x, y: max_(n_(x), n_(y)), a, lo)
    if hi is not None:
        a = ew(lambda x, y: min_(n_(x), n_(y)), a, hi)
    return a


def np_outer(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0:
        ta = a.at()
        a = Arr((1,), lambda i: ta, a.kind)
    if b.ndim == 0:
        tb = b.at()
        b = Arr((1,), lambda i: tb, b.kind)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("outer of matrices")
    fa, fb = a.snap(), b.snap()
    return Arr(a.shape + b.shape, lambda i, j: mul(n_(fa(i)), n_(fb(j))), k2(a, b))


def ufunc_outer(f, kind):
    def g(a, b):
        a, b = asarr(a), asarr(b)
        fa, fb, na = a.snap(), b.snap(), a.ndim
        r = Arr(a.shape + b.shape, lambda *i: f(n_(fa(*i[:na])), n_(fb(*i[na:]))), kind)
        return r if r.ndim else scalar(r.at())
    return g


def np_einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum without a specification")
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    ops = [asarr(o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops) or any(len(a) != o.ndim for a, o in zip(ins, ops)):
        raise Raised("ValueError", "einsum subscripts")
    dims = {}
    for a, o in zip(ins, ops):
        for c, d in zip(a, o.shape):
            dims[c] = d if c not in dims else bdim(dims[c], d)
    inner = [c for c in dims if c not in out]
    fns = [o.snap() for o in ops]

    def fn(*idx):
        env = dict(zip(out, idx))

        def body(*bi):
            e = dict(env)
            e.update(zip(inner, bi))
            return mul(*[n_(f(*[e[c] for c in a])) for f, a in zip(fns, ins)])
        return fold("sum", [dims[c] for c in inner], body)
    r = Arr([dims[c] for c in out], fn, k2(*ops))
    return r if out else scalar(r.at())


def np_matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_einsum("i,i->", a, b)
    if a.ndim == 2 and b.ndim == 2:
        return np_einsum("ij,jk->ik", a, b)
    if a.ndim == 1 and b.ndim == 2:
        return np_einsum("i,ij->j", a, b)
    if a.ndim == 2 and b.ndim == 1:
        return np_einsum("ij,j->i", a, b)
    if a.ndim == 0 or b.ndim == 0:
        raise Raised("ValueError", "matmul: scalar operand")
    raise Unsupported("matmul of tensors")


def np_dot(a, b):
    if is_num(a) or is_num(b):
        return op_mul(a, b)
    return np_matmul(a, b)


def np_trace(a, **kw):
    return np_einsum("ii->", a)


def transpose(a):
    a = asarr(a)
    if a.ndim < 2:
        return a
    n = a.ndim
    return Arr.view(a, a.shape[::-1], lambda *i: tuple(i[::-1]))


def reshape(a, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PyList)):
        shape = tuple(shape[0].items if isinstance(shape[0], PyList) else shape[0])
    sh = [scalar(num(s)) for s in shape]
    if a.ndim == 1 and len(sh) == 2 and sh in ([-1, 1],):
        return Arr.view(a, (a.shape[0], 1), lambda i, j: (i,))
    if a.ndim == 1 and len(sh) == 2 and sh in ([1, -1],):
        return Arr.view(a, (1, a.shape[0]), lambda i, j: (j,))
    if a.ndim == 1 and sh == [-1]:
        return Arr.view(a, a.shape, lambda i: (i,))
    if a.ndim == 2 and sh == [-1] and a.shape[1].n is ONE:
        return Arr.view(a, (a.shape[0],), lambda i: (i, ZERO))
    if a.ndim == 0 and len(sh) == 2 and sh in ([-1, 1], [1, 1], [1, -1]):
        return Arr.view(a, (1, 1), lambda i, j: ())
    raise Unsupported("reshape %r" % (sh,))


def atleast_1d(a):
    if is_num(a):
        t = num(a)
        return Arr((1,), lambda i: t, kind_of(a))
    a = asarr(a)
    if a.ndim == 0:
        return Arr.view(a, (1,), lambda i: ())
    return a


def atleast_2d(a):
    if is_num(a):
        t = num(a)
        return Arr((1, 1), lambda i, j: t, kind_of(a))
    a = asarr(a)
    if a.ndim == 0:
        return Arr.view(a, (1, 1), lambda i, j: ())
    if a.ndim == 1:
        return Arr.view(a, (1, a.shape[0]), lambda i, j: (j,))
    return a


def fn1(name):
    def f(x, *a, **kw):
        if a or (kw and set(kw) - {"where", "dtype"}):
            raise Unsupported(name + " options")
        return ew(lambda t: fapp(name, n_(t)), x, kind="R")
    return f


def np_log(x, **kw):
    return ew(lambda t: log_(n_(t)), x, kind="R")


def np_exp(x, **kw):
    return ew(lambda t: exp_(n_(t)), x, kind="R")


def np_sqrt(x, **kw):
    return ew(lambda t: rpow(n_(t), Fraction(1, 2)), x, kind="R")


def np_square(x, **kw):
    return ew(lambda t: rpow(n_(t), 2), x)


def np_abs(x, **kw):
    return ew(lambda t: abs_(n_(t)), x)


def np_floor(x, **kw):
    return ew(lambda t: floor_(n_(t)), x, kind="R")


def np_ceil(x, **kw):
    return ew(lambda t: ceil_(n_(t)), x, kind="R")


def lamarr(a):
    a = asarr(a)
    if any(not d.plain() for d in a.shape):
        raise Unsupported("masked array passed to a library function")
    fn = a.snap()
    return lam([d.n for d in a.shape], lambda *i: n_(fn(*i)))


def need_square(a):
    a = asarr(a)
    if a.ndim != 2:
        raise Raised("LinAlgError", "2-dimensional array required")
    if not eqdim(a.shape[0], a.shape[1]):
        raise Raised("LinAlgError", "square matrix required")
    return a


def mat_split(a):
    """(scalar factor, matrix) with the factor common to all entries"""
    i, j = fresh("mi", "I"), fresh("mj", "I")
    t = n_(a.at(i, j))
    p = pd(t)
    if not p or t.op == "const":
        return ONE, None
    common = None
    for m, c in p.items():
        s = {(x, e) for x, e in m if not (fv(x) & {i, j})}
        common = s if common is None else common & s
    c0 = next(iter(p.values())) if len(p) == 1 else Fraction(1)
    fac = mul(const(c0), *[rpow(x, e) for x, e in common])
    if fac is ONE:
        return ONE, a
    fn = a.snap()

    def entry(x, y):
        t = n_(fn(x, y))
        p = pd(t)
        if any(not common <= set(m) for m in p):
            return div(t, fac)
        return from_pd({tuple(z for z in m if z not in common): c / c0 for m, c in p.items()})
    return fac, Arr(a.shape, entry, "R")


def linv(a):
    a = need_square(a)
    fac, b = mat_split(a)
    if b is None:
        L = lamarr(a)
        return Arr(a.shape, lambda i, j: app("inv", L, i, j), "R")
    i, j = fresh("mi", "I"), fresh("mj", "I")
    t = n_(b.at(i, j))
    if t.op == "app" and t.args[0] == "inv" and t.args[2] is i and t.args[3] is j:
        inner = t.args[1]
        if not (fv(inner) & {i, j}):
            bs, ds, body = inner.args
            return Arr(a.shape, lambda x, y: div(subst(body, {bs[0]: tt(x), bs[1]: tt(y)}), fac), "R")
    L = lamarr(b)
    return Arr(a.shape, lambda x, y: div(app("inv", L, x, y), fac), "R")


def logdet(a):
    a = need_square(a)
    D = a.shape[0].n
    fac, b = mat_split(a)
    if b is None:
        return app("logdet", lamarr(a))
    i, j = fresh("mi", "I"), fresh("mj", "I")
    t = n_(b.at(i, j))
    if t.op == "app" and t.args[0] == "inv" and t.args[2] is i and t.args[3] is j and not (fv(t.args[1]) & {i, j}):
        r = neg(app("logdet", t.args[1]))
    else:
        r = app("logdet", lamarr(b))
    return r if fac is ONE else add(r, mul(D, log_(fac)))


def ldet(a):
    # matrices in this code base are symmetric positive definite (assumption)
    return exp_(logdet(a))


def lslogdet(a):
    return (1, logdet(a))


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, **kw):
    a = asarr(m)
    if y is not None or ddof is not None:
        raise Unsupported("cov options")
    if isinstance(rowvar, T) or not rowvar:
        a = transpose(a)
    if a.ndim == 1:
        a = Arr.view(a, (1, a.shape[0]), lambda i, j: (j,))
    if a.ndim != 2:
        raise Unsupported("cov of a tensor")
    d, fn = a.shape[1], a.snap()
    n = d.count()

    def mean(i):
        return div(fold("sum", [d], lambda t: n_(fn(i, t))), n)

    def c(i, j):
        s = fold("sum", [d], lambda t: mul(sub(n_(fn(i, t)), mean(i)), sub(n_(fn(j, t)), mean(j))))
        return div(s, n if bias else sub(n, ONE))
    if a.shape[0].plain() and a.shape[0].n is ONE:
        return c(ZERO, ZERO)
    return Arr((a.shape[0], a.shape[0]), c, "R", {"cov": True})


# ----------------------------------------------------------------------- scipy
def gl(x):
    return fapp("lgam", x)


def betaln_t(a, b):
    return sub(add(gl(a), gl(b)), gl(add(a, b)))


def sc_loggamma(x):
    return ew(lambda t: gl(n_(t)), x, kind="R")


def sc_digamma(x):
    return ew(lambda t: fapp("digamma", n_(t)), x, kind="R")


def sc_betaln(a, b):
    return ew(lambda x, y: betaln_t(n_(x), n_(y)), a, b, kind="R")


def beta_logpdf(x, a, b, loc=0, scale=1):
    if num(loc) is not ZERO or num(scale) is not ONE:
        raise Unsupported("located beta")
    return ew(lambda v, p, q: sub(add(mul(sub(n_(p), ONE), log_(n_(v))), mul(sub(n_(q), ONE), log_(sub(ONE, n_(v))))), betaln_t(n_(p), n_(q))), x, a, b, kind="R")


def lchoose(n, x):
    return sub(gl(add(n, ONE)), add(gl(add(x, ONE)), gl(add(sub(n, x), ONE))))


def binom_logpmf(x, n, p, loc=0):
    if num(loc) is not ZERO:
        raise Unsupported("located binomial")
    # 0 * log 0 = 0 as in the library (xlogy)
    return ew(lambda k, m, q: fapp("binlogpmf", n_(k), n_(m), n_(q)), x, n, p, kind="R")


def betabinom_logpmf(x, n, a, b, loc=0):
    return ew(lambda k, m, p, q: add(lchoose(n_(m), n_(k)), sub(betaln_t(add(n_(k), n_(p)), add(sub(n_(m), n_(k)), n_(q))), betaln_t(n_(p), n_(q)))), x, n, a, b, kind="R")


def dirichlet_logpdf(x, alpha):
    x, alpha = asarr(x), asarr(alpha)
    if not eqdim(x.shape[0], alpha.shape[0]):
        raise Raised("ValueError", "shapes")
    d, fx, fa = alpha.shape[0], x.snap(), alpha.snap()
    s = fold("sum", [d], lambda b: n_(fa(b)))
    return add(sub(gl(s), fold("sum", [d], lambda b: gl(n_(fa(b))))), fold("sum", [d], lambda b: mul(sub(n_(fa(b)), ONE), log_(n_(fx(b))))))


def mvn_row(x, mean, cov):
    """(dims of points, row function, lam mean, lam cov)"""
    mean, cov = atleast_1d(mean), atleast_2d(cov)
    x = asarr(x)
    D = mean.shape[0]
    if not eqdim(cov.shape[0], D) or not eqdim(cov.shape[1], D):
        raise Raised("ValueError", "mvn dimensions")
    fx, fm, fc = x.snap(), mean.snap(), cov.snap()
    Dn = D.n
    Lm = lam([Dn], lambda k: n_(fm(k)))
    Lc = lam([Dn, Dn], lambda k, l: n_(fc(k, l)))
    if x.ndim == 0:
        return [], (lambda: lam([Dn], lambda k: n_(fx()))), Lm, Lc
    if x.ndim == 1:
        if M.branch(eq(Dn, ONE), True):
            return [x.shape[0]], (lambda i: lam([Dn], lambda k: n_(fx(i)))), Lm, Lc
        if not eqdim(x.shape[0], D):
            raise Raised("ValueError", "mvn dimensions")
        return [], (lambda: lam([Dn], lambda k: n_(fx(k)))), Lm, Lc
    if x.ndim == 2:
        if not eqdim(x.shape[1], D):
            raise Raised("ValueError", "mvn dimensions")
        return [x.shape[0]], (lambda i: lam([Dn], lambda k: n_(fx(i, k)))), Lm, Lc
    raise Unsupported("mvn of a tensor")


def mvn_logpdf(x, mean=None, cov=1, allow_singular=False):
    dims, row, Lm, Lc = mvn_row(x, mean, cov)
    r = Arr(dims, lambda *i: app("mvn", row(*i), Lm, Lc), "R")
    if len(dims) == 1 and dims[0].plain() and M.branch(eq(dims[0].n, ONE), True):
        return r.at(ZERO)        # scipy squeezes
    return r if dims else r.at()


def mvn_pdf(x, mean=None, cov=1, allow_singular=False):
    return np_exp(mvn_logpdf(x, mean, cov, allow_singular))


def norm_logpdf(x, loc=0, scale=1):
    return ew(lambda v, m, s: app("mvn", lam([1], lambda k: n_(v)), lam([1], lambda k: n_(m)), lam([1, 1], lambda k, l: rpow(n_(s), 2))), x, loc, scale, kind="R")


def norm_pdf(x, loc=0, scale=1):
    return np_exp(norm_logpdf(x, loc, scale))


def invwishart_logpdf(x, df, scale):
    S = atleast_2d(scale)
    return app("invwishart_logpdf", lamarr(atleast_2d(x)), num(df), lamarr(S))


# --------------------------------------------------------------------- generator
def draw_arr(kind, params, size, rng, ikind="R"):
    """params: dict name -> scalar/array.  size None: broadcast of the params"""
    arrs = {k: v for k, v in params.items()}
    if rng is None:
        raise Unsupported("draw from an unseeded generator")
    shapes = [asarr(v).shape for v in arrs.values() if not is_num(v)]
    if size is None:
        dims = broadcast(shapes) if shapes else []
    else:
        dims = [dim(d) for d in shape_arg(size)]
        for s in shapes:
            out = broadcast([s, dims])
    fns = {}
    for k, v in arrs.items():
        a = asarr(v)
        fns[k] = (a.snap(), bmap(a.shape, dims))

    def par(*idx):
        return {k: n_(f(*m(idx))) for k, (f, m) in fns.items()}
    d = M.add_draw(kind, par, tuple(dims), None, rng)
    did = const(d.id)
    loops = d.loop
    srt = "I" if ikind == "I" else "R"
    if not dims:
        return app("draw", did, *loops, sort=srt)
    return Arr(dims, lambda *i: app("draw", did, *(loops + tuple(tt(x) for x in i)), sort=srt), ikind)


def rng_beta(rng, a=None, b=None, size=None):
    return draw_arr("beta", {"a": a, "b": b}, size, rng)


def rng_uniform(rng, low=0.0, high=1.0, size=None):
    return draw_arr("uniform", {"low": low, "high": high}, size, rng)


def rng_random(rng, size=None):
    return draw_arr("uniform", {"low": 0, "high": 1}, size, rng)


def rng_gumbel(rng, loc=0.0, scale=1.0, size=None):
    return draw_arr("gumbel", {"loc": loc, "scale": scale}, size, rng)


def rng_exponential(rng, scale=1.0, size=None):
    return draw_arr("exponential", {"scale": scale}, size, rng)


def rng_standard_exponential(rng, size=None):
    return draw_arr("exponential", {"scale": 1.0}, size, rng)


def rng_binomial(rng, n=None, p=None, size=None):
    return draw_arr("binomial", {"n": n, "p": p}, size, rng, "I")


def rng_dirichlet(rng, alpha=None, size=None):
    if size is not None:
        raise Unsupported("sized dirichlet")
    alpha = asarr(alpha)
    if alpha.ndim != 1:
        raise Raised("ValueError", "alpha must be one-dimensional")
    fa = alpha.snap()
    d = M.add_draw("dirichlet", lambda i: {"alpha": n_(fa(i))}, alpha.shape, None, rng)
    did, loops = const(d.id), d.loop
    n = alpha.shape[0].count()
    if not loops and M.branch(ge(n, ONE)):
        # library contract: a Dirichlet variate is a point of the simplex
        M.assume(eq(Sum(ZERO, n, lambda i: app("draw", did, tt(i))), ONE))
    return Arr(alpha.shape, lambda i: app("draw", did, *(loops + (tt(i),))), "R", {"draw": d.id})


def rng_choice(rng, a=None, size=None, replace=True, p=None, axis=0, shuffle=True):
    if size is not None or p is None:
        raise Unsupported("choice")
    p = asarr(p)
    fp = p.snap()
    n = a.n if isinstance(a, RangeVal) else num(a) if is_num(a) else None
    if n is None or (isinstance(a, RangeVal) and (a.lo is not ZERO or a.step is not ONE)):
        raise Unsupported("choice of values")
    if not M.branch(eq(n, p.shape[0].n)):
        raise Raised("ValueError", "'a' and 'p' must have same size")
    d = M.add_draw("choice", lambda i: {"p": n_(fp(i))}, (Dim(n),), None, rng)
    t = app("draw", const(d.id), *d.loop, sort="I")
    return t


RNG_METHODS = {"beta": rng_beta, "uniform": rng_uniform, "binomial": rng_binomial, "dirichlet": rng_dirichlet, "choice": rng_choice, "random": rng_random,
               "gumbel": rng_gumbel, "exponential": rng_exponential, "standard_exponential": rng_standard_exponential}


def invwishart_rvs(df, scale, size=1, random_state=None):
    if num(size) is not ONE:
        raise Unsupported("several invwishart draws")
    S = atleast_2d(scale)
    S = need_square(S)
    L = lamarr(S)
    dfn = num(df)
    d = M.add_draw("invwishart", lambda *i: {"df": dfn, "scale": L}, S.shape, None, random_state)
    did, loops = const(d.id), d.loop
    # scipy squeezes one-dimensional draws to a scalar
    a = Arr(S.shape, lambda i, j: app("draw", did, *(loops + (tt(i), tt(j)))), "R")
    if M.branch(eq(S.shape[0].n, ONE), True):
        return a.at(ZERO, ZERO)
    return a


def mvn_rvs(mean=None, cov=1, size=1, random_state=None):
    if num(size) is not ONE:
        raise Unsupported("several normal draws")
    m, c = atleast_1d(mean), atleast_2d(cov)
    D = m.shape[0]
    if not eqdim(c.shape[0], D):
        raise Raised("ValueError", "mvn dimensions")
    Lm, Lc = lamarr(m), lamarr(c)
    d = M.add_draw("mvn", lambda *i: {"mean": Lm, "cov": Lc}, m.shape, None, random_state)
    did, loops = const(d.id), d.loop
    a = Arr(m.shape, lambda i: app("draw", did, *(loops + (tt(i),))), "R")
    if M.branch(eq(D.n, ONE), True):
        return a.at(ZERO)
    return a


# ------------------------------------------------------------------- indexing
def norm_index(i, n):
    """index term with python's negative convention; IndexError when outside"""
    t = num(i)
    if t.sort != "I":
        raise Raised("IndexError", "only integers are valid indices")
    if M.branch(ge(t, ZERO)):
        if not M.branch(lt(t, n)):
            raise Raised("IndexError", "index out of bounds")
        return t
    t = add(t, n)
    if not M.branch(ge(t, ZERO)):
        raise Raised("IndexError", "index out of bounds")
    return t


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def slice_range(s, n):
    """(start, count, step) of a slice on an axis of length n"""
    step = 1 if s.step is None else scalar(num(s.step))
    if step not in (1, -1):
        raise Unsupported("slice step")

    def norm(v, lo, hi):
        t = num(v)
        if t.sort != "I":
            raise Raised("TypeError", "slice indices must be integers")
        if M.branch(lt(t, ZERO)):
            t = add(t, n)
            if not M.branch(ge(t, lo)):
                t = lo
        elif not M.branch(le(t, hi)):
            t = hi
        return t
    if step == 1:
        a = ZERO if s.lo is None else norm(s.lo, ZERO, n)
        b = n if s.hi is None else norm(s.hi, ZERO, n)
        c = sub(b, a)
    else:
        a = sub(n, ONE) if s.lo is None else norm(s.lo, const(-1), sub(n, ONE))
        b = const(-1) if s.hi is None else norm(s.hi, const(-1), sub(n, ONE))
        c = sub(a, b)
    if not M.branch(ge(c, ZERO)):
        c = ZERO
    return a, c, step


def getitem(a, key):
    keys = list(key) if isinstance(key, tuple) else [key]
    if Ellipsis in [k for k in keys if k is Ellipsis]:
        k = [i for i, x in enumerate(keys) if x is Ellipsis][0]
        fill = a.ndim - (len([x for x in keys if x is not None]) - 1)
        keys = keys[:k] + [SliceVal(None, None, None)] * fill + keys[k + 1:]
    keys = [asarr(k) if isinstance(k, (PyList, SymList, RangeVal)) else k for k in keys]
    # boolean matrix masks are not supported
    used = sum(1 for k in keys if k is not None)
    if used > a.ndim:
        raise Raised("IndexError", "too many indices for array")
    keys += [SliceVal(None, None, None)] * (a.ndim - used)
    adv = [k for k in keys if isinstance(k, Arr) and k.ndim > 0]
    for k in adv:
        if k.ndim != 1:
            raise Unsupported("matrix index")
    axis = 0
    steps = []         # per source axis: function(out idx) -> index
    outdims = []
    advdim = None
    advpos = None
    for k in keys:
        if k is None:
            outdims.append(Dim(1))
            continue
        d = a.shape[axis]
        if isinstance(k, SliceVal):
            if k.lo is None and k.hi is None and (k.step is None or num(k.step) is ONE):
                pos = len(outdims)
                outdims.append(d)
                steps.append(lambda o, pos=pos: o[pos])
            else:
                if not d.plain():
                    raise Unsupported("slice of a masked axis")
                st, c, sp = slice_range(k, d.n)
                pos = len(outdims)
                outdims.append(Dim(c))
                steps.append(lambda o, pos=pos, st=st, sp=sp: add(st, mul(const(sp), o[pos])))
        elif isinstance(k, Arr) and k.ndim == 1:
            kf = k.snap()
            if k.kind == "B":
                if len(adv) > 1:
                    raise Unsupported("several index arrays with a mask")
                if not d.plain() or not k.shape[0].plain():
                    raise Unsupported("mask of a masked axis")
                if not eqdim(d, k.shape[0]):
                    raise Raised("IndexError", "boolean index did not match")
                pos = len(outdims)
                outdims.append(Dim(d.n, lambda b, kf=kf: kf(b)))
                steps.append(lambda o, pos=pos: o[pos])
            else:
                if k.kind == "R":
                    raise Raised("IndexError", "arrays used as indices must be of integer type")
                at_ = k.meta.get("positions")
                if at_ is not None and k.imap is None and k.cell.fn is at_[0] and eqdim(d, at_[1]):
                    kf = at_[2]         # the entries named by their positions among the existing ones
                else:
                    if not d.plain():
                        raise Unsupported("index array on a masked axis")
                    check_all_in(k, d.n)
                if advdim is None:
                    advpos, advdim = len(outdims), k.shape[0]
                    outdims.append(advdim)
                else:
                    advdim = bdim(advdim, k.shape[0])
                    outdims[advpos] = advdim
                steps.append(lambda o, pos=advpos, kf=kf, n=d.n: wrapneg(kf(o[pos]), n))
        else:
            if isinstance(k, (bool,)) or (isinstance(k, T) and k.sort == "B"):
                raise Unsupported("boolean scalar index")
            if not is_num(k) and not isinstance(k, Arr):
                raise Raised("IndexError", "invalid index %r" % (k,))
            if not d.plain():
                raise Unsupported("position in a masked axis")
            t = norm_index(k, d.n)
            steps.append(lambda o, t=t: t)
        axis += 1
    if not outdims:
        return scalar(a.at(*[s(()) for s in steps]))
    if adv:
        fn = a.snap()
        return Arr(outdims, lambda *o: fn(*[s(o) for s in steps]), a.kind)
    meta = {}
    if a.ndim == 1 and a.meta.get("nondecreasing") and len(outdims) == 1:
        pass
    return Arr.view(a, outdims, lambda *o: tuple(s(o) for s in steps), meta=meta)


def wrapneg(t, n):
    if t.op == "const" and t.args[0] < 0:
        return add(t, n)
    return t


def check_all_in(k, n):
    """index array entries lie in [0, n), else IndexError (negative entries unsupported)"""
    b = fresh("ix", "I")
    d = k.shape[0]
    f = M.facts + [ge(b, ZERO), lt(b, d.n)] + ([d.mask(b)] if d.mask else [])
    t = k.at(b)
    if M.decider(f, ge(t, ZERO)) is not True:
        if M.decider(f, ge(t, neg(n))) is True:
            raise Unsupported("negative index array")
        raise Unsupported("index array may be negative: %s" % show(t, 200))
    if M.decider(f, lt(t, n)) is not True:
        allin = Forall(ZERO, d.n, lambda q: implies(d.mask(q) if d.mask else TRUE, lt(k.at(q), n)))
        if not M.branch(allin):
            raise Raised("IndexError", "index out of bounds")


def setitem(a, key, val):
    if a.imap is not None:
        raise Unsupported("store through a view")
    keys = list(key) if isinstance(key, tuple) else [key]
    keys = [asarr(k) if isinstance(k, (PyList, SymList, RangeVal)) else k for k in keys]
    if any(k is None or k is Ellipsis for k in keys):
        if keys == [Ellipsis]:
            keys = []
        else:
            raise Unsupported("store with new axes")
    if len(keys) > a.ndim:
        raise Raised("IndexError", "too many indices")
    keys += [SliceVal(None, None, None)] * (a.ndim - len(keys))
    conds, outs, dims = [], [], []
    advs = [k for k in keys if isinstance(k, Arr) and k.ndim == 1]
    if len(advs) > 0 and any(k.kind != "B" for k in advs):
        return setitem_adv(a, keys, val)
    for ax, k in enumerate(keys):
        d = a.shape[ax]
        if isinstance(k, SliceVal):
            if k.lo is None and k.hi is None and k.step is None:
                conds.append(lambda i: TRUE)
                outs.append(lambda i: i)
                dims.append(d)
            else:
                st, c, sp = slice_range(k, d.n)
                if sp == 1:
                    conds.append(lambda i, st=st, c=c: and_(ge(i, st), lt(i, add(st, c))))
                    outs.append(lambda i, st=st: sub(i, st))
                else:
                    conds.append(lambda i, st=st, c=c: and_(le(i, st), gt(i, sub(st, c))))
                    outs.append(lambda i, st=st: sub(st, i))
                dims.append(Dim(c))
        elif isinstance(k, Arr) and k.ndim == 1:
            kf = k.snap()
            if not eqdim(d, k.shape[0]):
                raise Raised("IndexError", "boolean index did not match")
            conds.append(lambda i, kf=kf: kf(i))
            if is_num(val):
                outs.append(lambda i: i)
                dims.append(Dim(d.n, lambda b, kf=kf: kf(b)))
            else:
                outs.append(lambda i, kf=kf: Sum(ZERO, i, lambda l: ind(kf(l))))
                dims.append(Dim(Sum(ZERO, d.n, lambda l: ind(kf(l)))))
        elif isinstance(k, Arr) and k.ndim == 2:
            raise Unsupported("matrix mask store")
        else:
            t = norm_index(k, d.n)
            conds.append(lambda i, t=t: eq(i, t))
            outs.append(None)
    if is_num(val):
        v = num(val)
        if a.kind == "I" and v.sort == "R":
            raise Unsupported("real stored into an integer array")
        vf, vs = (lambda *i: v), ()
    else:
        va = asarr(val)
        if a.kind == "I" and va.kind == "R":
            raise Unsupported("real stored into an integer array")
        vf, vs = va.snap(), va.shape
        if len(vs) > len(dims):
            raise Raised("ValueError", "could not broadcast")
        off = len(dims) - len(vs)
        for q, d in enumerate(vs):
            if not (d.plain() and d.n is ONE):
                if not eqdim(dims[off + q], d):
                    raise Raised("ValueError", "could not broadcast input array")
    old = a.cell.fn
    isb = a.kind == "B"

    def fn(*idx):
        c = and_(*[f(i) for f, i in zip(conds, idx)])
        if c is FALSE:
            return old(*idx)
        o = [f(i) for f, i in zip(outs, idx) if f is not None]
        off = len(o) - len(vs)
        vi = [ZERO if (d.plain() and d.n is ONE) else o[off + q] for q, d in enumerate(vs)]
        nv = vf(*vi)
        nv = tob(tt(nv)) if isb else n_(nv)
        return ite(c, nv, old(*idx))
    M.seta(a.cell, "fn", fn)


def setitem_adv(a, keys, val):
    """a[i0(b), i1(b), ...] = value for b over one axis (labels matrix initialisation)"""
    idxs = []
    bd = None
    for ax, k in enumerate(keys):
        if isinstance(k, Arr) and k.ndim == 1 and k.kind == "I":
            check_all_in(k, a.shape[ax].n)
            idxs.append(k.snap())
            bd = k.shape[0] if bd is None else bdim(bd, k.shape[0])
        else:
            raise Unsupported("mixed index store")
    if not is_num(val):
        raise Unsupported("array stored at index arrays")
    v = num(val)
    old = a.cell.fn

    def fn(*idx):
        c = fold("exists", [bd], lambda b: and_(*[eq(f(b), i) for f, i in zip(idxs, idx)]))
        return ite(c, v, old(*idx))
    M.seta(a.cell, "fn", fn)
