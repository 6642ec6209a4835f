"""Symbolic values, heap with undo trail, path exploration."""
from .terms import *
import itertools


class Unsupported(Exception):
    """outside the verifier's subset: never a verdict, the bounded stand-in decides"""


class Infeasible(Exception):
    pass


class Raised(Exception):
    """an exception of the program under verification"""

    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg
        super().__init__("%s: %s" % (exc, msg))


# ------------------------------------------------------------------- dimensions
class Dim:
    """an axis: index b in [0, n) restricted to mask(b) (None: all).
    `order` False: the enumeration order of the axis is not known"""
    __slots__ = ("n", "mask", "order")

    def __init__(self, n, mask=None, order=True):
        self.n, self.mask, self.order = tt(n), mask, order

    def count(self):
        if self.mask is None:
            return self.n
        return Sum(ZERO, self.n, lambda b: ind(self.mask(b)))

    def plain(self):
        return self.mask is None

    def same(self, o):
        if self is o:
            return True
        if self.n is not o.n or not self.order or not o.order:
            return False
        if self.mask is None or o.mask is None:
            return self.mask is o.mask
        b = var("dimcmp", "I")
        return self.mask(b) is o.mask(b)


def dim(x):
    return x if isinstance(x, Dim) else Dim(x)


_stamps = itertools.count(1)


def stamp():
    return next(_stamps)


class SD(dict):
    """dict with a creation stamp"""
    __slots__ = ("stamp",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.stamp = stamp()


class Cell:
    __slots__ = ("fn", "shape", "stamp")

    def __init__(self, fn, shape):
        self.fn, self.shape = fn, shape
        self.stamp = stamp()


class Arr:
    """array: a view (index map) of a cell.  fn(*idx) -> term"""
    __slots__ = ("cell", "vshape", "imap", "kind", "meta", "vmask")

    def __init__(self, shape, fn, kind="R", meta=None):
        self.cell = Cell(fn, tuple(dim(d) for d in shape))
        self.vshape = None
        self.imap = None
        self.kind = kind          # 'I' 'R' 'B'
        self.meta = meta or {}

    @staticmethod
    def view(base, shape, imap, kind=None, meta=None):
        a = object.__new__(Arr)
        a.cell = base.cell
        a.vshape = tuple(dim(d) for d in shape)
        if base.imap is None:
            a.imap = imap
        else:
            bm = base.imap
            a.imap = lambda *i: bm(*imap(*i))
        a.kind = kind or base.kind
        a.meta = meta or {}
        return a

    @property
    def shape(self):
        return self.cell.shape if self.vshape is None else self.vshape

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        idx = tuple(tt(i) for i in idx)
        if self.imap is not None:
            idx = self.imap(*idx)
            idx = tuple(tt(i) for i in idx)
        return self.cell.fn(*idx)

    def snap(self):
        """current element function (not affected by later stores)"""
        fn, im = self.cell.fn, self.imap
        if im is None:
            return fn
        return lambda *i: fn(*[tt(x) for x in im(*i)])

    def copy(self):
        return Arr(self.shape, self.snap(), self.kind, dict(self.meta))

    def __repr__(self):
        return "Arr%s" % (tuple(show(d.n, 40) for d in self.shape),)


class PyList:
    """list object; items: python list, or a SymList when the length is symbolic"""
    __slots__ = ("items", "stamp")

    def __init__(self, items):
        self.items = items if isinstance(items, SymList) else list(items)
        self.stamp = stamp()


class SymList:
    """list of symbolic length: fn(i) -> value; persistent (append makes new length/fn)"""
    __slots__ = ("n", "fn", "log")

    def __init__(self, n, fn, log=None):
        self.n, self.fn = tt(n), fn
        self.log = log            # while a loop body is summarised: values appended


class PyDict:
    __slots__ = ("items",)

    def __init__(self, items=None):
        self.items = SD(items or {})


class Obj:
    __slots__ = ("cls", "attrs", "name")

    def __init__(self, cls, attrs=None, name="obj"):
        self.cls, self.attrs, self.name = cls, SD(attrs or {}), name

    def __repr__(self):
        return "Obj(%s)" % (self.cls,)


class Opaque:
    """a value the code only passes around; pytype answers type()/isinstance"""
    __slots__ = ("name", "pytype", "data")

    def __init__(self, name, pytype=None, data=None):
        self.name, self.pytype, self.data = name, pytype, data

    def __repr__(self):
        return "<%s>" % self.name


class Poison:
    """a variable with no value on entry of a summarised loop"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Kept(Poison):
    """state an object kept from earlier calls that the contract says nothing about"""
    __slots__ = ("value",)

    def __init__(self, value=None):
        Poison.__init__(self, "state kept from earlier calls")
        self.value = value


class Draw:
    """a random variate: one per value of the loop indices (`ranges`) and of its own index,
    made when `guard` holds; params(*idx) -> dict of terms over the loop variables"""
    __slots__ = ("id", "kind", "params", "loop", "guard", "shape", "where", "rng", "ranges", "facts")

    def __init__(self, id, kind, params, loop, guard, shape, where, rng, ranges=(), facts=()):
        self.id, self.kind, self.params, self.loop, self.guard, self.shape, self.where, self.rng = id, kind, params, loop, guard, shape, where, rng
        self.ranges, self.facts = ranges, facts

    def clone(self, **kw):
        d = Draw(self.id, self.kind, self.params, self.loop, self.guard, self.shape, self.where, self.rng, self.ranges, self.facts)
        for k, v in kw.items():
            setattr(d, k, v)
        return d


# ---------------------------------------------------------------------- machine
class Machine:
    """facts, decisions, trail"""

    def __init__(self):
        self.facts = []           # assumed on the current path
        self.trail = []
        self.frames = []          # exploration frames
        self.draws = []
        self.bydraw = {}
        self.ranks = {}
        self.kmeans = None
        self.loops = []
        self.picks = None           # bound variables of enclosing summarised loops
        self.decider = None
        self.max_paths = 200
        self.where = None
        self.events = []
        self.solver_s = 0.0

    # ---- facts
    def assume(self, f):
        f = tt(f)
        if f is TRUE:
            return
        if f is FALSE:
            raise Infeasible()
        self.facts.append(f)
        self.trail.append(("fact",))

    # ---- trail
    def mark(self):
        return len(self.trail)

    def undo(self, mark):
        while len(self.trail) > mark:
            t = self.trail.pop()
            k = t[0]
            if k == "fact":
                self.facts.pop()
            elif k == "dict":
                _, d, key_, old, had = t
                if had:
                    d[key_] = old
                else:
                    d.pop(key_, None)
            elif k == "attr":
                _, o, name, old = t
                setattr(o, name, old)
            elif k == "draw":
                self.draws.pop()
            elif k == "event":
                self.events.pop()

    def setd(self, d, key_, val):
        """d[key] = val with undo"""
        if d.get(key_) is val and type(val).__name__ in ("Arr", "PyList"):
            return              # the same mutable object (after an in-place update)
        self.trail.append(("dict", d, key_, d.get(key_), key_ in d))
        d[key_] = val

    def seta(self, o, name, val):
        self.trail.append(("attr", o, name, getattr(o, name)))
        setattr(o, name, val)

    def add_draw(self, kind, params, shape, where, rng):
        d = Draw(self.ident(("draw", kind)), kind, params, tuple(self.loops), (), shape, where or self.where, rng)
        self.bydraw[d.id] = d
        self.draws.append(d)
        self.trail.append(("draw",))
        return d

    def ident(self, tag):
        """identity of an event of this path: the same on every path sharing the prefix"""
        if not self.frames:
            return next(_stamps)
        fr = self.frames[-1]
        key_ = (tag, tuple(fr.taken), fr.count)
        fr.count += 1
        r = fr.ids.get(key_)
        if r is None:
            r = fr.ids[key_] = next(_stamps)
        return r

    def put_draw(self, d):
        self.bydraw[d.id] = d
        self.draws.append(d)
        self.trail.append(("draw",))

    def event(self, *e):
        self.events.append(e)
        self.trail.append(("event",))

    # ---- decisions
    def branch(self, c, hoist=False):
        """truth value of a symbolic condition on this path; with `hoist` a condition that no
        enclosing summarised loop can change is decided before the outermost of them"""
        c = tt(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.decider(self.facts, c)
        if r is not None:
            return r
        if not self.frames:
            raise Unsupported("branch outside exploration: %s" % show(c, 200))
        if hoist and self.loops and not any("!" in v.args[0] or v.args[0].startswith("_b") for v in fv(c)) \
                and not any(s.op == "app" and s.args[0] in ("hvA", "hvF", "draw") for s in subterms(c)):
            raise Hoist(c)
        fr = self.frames[-1]
        v = fr.next()
        self.assume(c if v else not_(c))
        fr.conds.append(c if v else not_(c))
        return v

    def choose(self):
        """free binary choice (no condition)"""
        return self.frames[-1].next()

    def explore(self, thunk, limit=None):
        """run thunk on every path; yields (conds, result) -- state is rolled back
        after each path; thunk must return everything needed"""
        out = []
        todo = [[]]
        ids = {}
        if self.frames:
            fr = self.frames[-1]
            ids = fr.ids.setdefault(("explore", tuple(fr.taken), fr.count), {})
            fr.count += 1
        limit = limit or self.max_paths
        while todo:
            pre = todo.pop()
            if len(out) > limit:
                raise Unsupported("more than %d paths" % limit)
            fr = Frame(pre, ids)
            self.frames.append(fr)
            m = self.mark()
            try:
                r = thunk(fr)
                out.append((tuple(fr.conds), r))
            except Infeasible:
                pass
            finally:
                self.undo(m)
                self.frames.pop()
            for k in range(len(pre), len(fr.taken)):
                todo.append(fr.taken[:k] + [not fr.taken[k]])
        return out


class Hoist(Exception):
    """decide this condition before the loop"""

    def __init__(self, c):
        self.c = c


class Frame:
    def __init__(self, pre, ids):
        self.pre, self.taken, self.conds = list(pre), [], []
        self.ids, self.count = ids, 0

    def next(self):
        k = len(self.taken)
        v = self.pre[k] if k < len(self.pre) else True
        self.taken.append(v)
        return v
