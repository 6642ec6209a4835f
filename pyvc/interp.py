"""Symbolic interpreter of the Python subset used by /repo, run on its parsed source."""
import ast
import builtins
import os

from .sym import *
from . import npstub as N
from . import kept
from .npstub import (is_num, num, scalar, asarr, TypeVal, RangeVal, SliceVal, tob, n_)

REPO = os.environ.get("VERIF_REPO", "/repo")


class Env:
    __slots__ = ("vars", "parent", "module", "cls", "self_", "names")

    def __init__(self, parent, module, cls=None):
        self.vars = SD()
        self.parent, self.module, self.cls = parent, module, cls
        self.self_ = None
        self.names = None


class ModuleVal:
    def __init__(self, name):
        self.name, self.env = name, Env(None, self)

    def __repr__(self):
        return "<module %s>" % self.name


class ExtMod:
    """an external module or one of its attributes, by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, ExtMod) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class FuncVal:
    def __init__(self, node, env, module, cls, defaults, kwdefaults, name):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.kind = None       # staticmethod / classmethod / property

    @property
    def qual(self):
        m = self.module.name
        return "%s:%s%s" % (m.split("pyrichlet.")[-1], (self.cls.name + ".") if self.cls else "", self.name)


class BoundVal:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


# Unless a contract says otherwise it speaks of an object that is not fitted, with the parameters its constructor was given.
GIVEN = ("d", "n", "mu_prior", "psi_prior", "nu_prior", "gibbs_fitted", "var_fitted", "variational_d")


def container(v):
    return isinstance(v, (PyDict, PyList, SymList, DefDict, Arr, Obj, set))


class ClassVal:
    def __init__(self, name, bases, module):
        self.name, self.bases, self.module = name, bases, module
        self.attrs = SD()

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.attrs:
                return c.attrs[name]
        return None

    def isexc(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, TypeVal) and b.name in EXC:
                    return True
        return False

    def __repr__(self):
        return "<class %s>" % self.name


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Stub:
    """python-implemented callable: fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class DefDict:
    """defaultdict with symbolic integer keys: log of (guarded) stores over a base function"""
    __slots__ = ("data", "stamp", "factory")

    def __init__(self, data, factory=None):
        self.data, self.factory = data, factory
        self.stamp = stamp()


EXC = {"Exception": None, "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
       "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "AssertionError": "Exception",
       "NameError": "Exception", "ImportError": "Exception", "LinAlgError": "ValueError", "StopIteration": "Exception", "UnboundLocalError": "NameError"}


def exc_matches(name, target, interp):
    while name is not None:
        if name == target:
            return True
        c = interp.exc_classes.get(name)
        if c is not None:
            name = next((b.name for b in c.bases), "Exception")
        else:
            name = EXC.get(name)
    return False


class Interp:
    def __init__(self, machine, repo=REPO):
        self.m = machine
        N.use(machine)
        self.repo = repo
        self.kept_attrs, self.kept_names, self.kept_alias = kept.analyse(repo)
        self.kept_other = kept.other(self.kept_attrs)
        self.modules = {}
        self.exc_classes = {}
        self.kept_read = False  # the code read state the contract says nothing about
        self.hooks = {}         # qualified function name -> contract replacement
        self.while_any = None    # loop invariant of the contract
        self.for_any = None      # the same for counting loops: for_any(st, env, d, bind), None if not for this loop
        self.called = set()
        self.foreign = []         # uses of global random generators
        self.depth = 0
        self.cur = None
        self.stack = []         # qualified names of the active functions
        self.steps = 0
        self.max_steps = 400000

    # ------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported("module " + name)
        mod = ModuleVal(name)
        mod.is_pkg = path.endswith("__init__.py")
        self.modules[name] = mod
        tree = ast.parse(open(path).read(), path)
        mod.path = path
        old = self.cur
        for st in tree.body:
            self.exec_stmt(st, mod.env)
        self.cur = old
        return mod

    def preload(self):
        """module level code runs before path exploration (its effects are not rolled back)"""
        pk = os.path.join(self.repo, "pyrichlet")
        for dp, _, fs in sorted(os.walk(pk)):
            for f in sorted(fs):
                if f.endswith(".py") and f != "__init__.py":
                    name = os.path.relpath(os.path.join(dp, f), self.repo)[:-3].replace(os.sep, ".")
                    try:
                        self.load(name)
                    except (Unsupported, Raised, SyntaxError):
                        self.modules.pop(name, None)

    def get(self, modname, attr):
        return self.load(modname).env.vars[attr]

    def import_from(self, node, env):
        mod = env.module
        if node.level:
            parts = mod.name.split(".")
            if not getattr(mod, "is_pkg", False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        else:
            base = node.module
        for a in node.names:
            if a.name == "*":
                if base == "pyrichlet" or base.startswith("pyrichlet."):
                    src = self.load(base).env.vars
                    names = src.get("__all__")
                    for nm in list(src):
                        if not nm.startswith("_"):
                            self.setvar(env, nm, src[nm])
                    continue
                raise Unsupported("import *")
            tgt = a.asname or a.name
            if base == "pyrichlet" or base.startswith("pyrichlet."):
                sub = base + "." + a.name
                p = os.path.join(self.repo, *sub.split("."))
                if os.path.exists(p + ".py") or os.path.isdir(p):
                    if os.path.exists(p + ".py") or a.name in ("weight_models", "mixture_models", "utils"):
                        self.setvar(env, tgt, self.load(sub))
                        continue
                v = self.load(base).env.vars.get(a.name)
                self.setvar(env, tgt, Poison("import %s from %s" % (a.name, base)) if v is None else v)
            else:
                self.setvar(env, tgt, ext_attr(ExtMod(base), a.name))

    # ---------------------------------------------------------- environment
    def setvar(self, env, name, val):
        self.m.setd(env.vars, name, val)

    def getvar(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported("value of %s: %s" % (name, v.why))
                if e.parent is None and e is not env and name in self.kept_names and container(v):
                    self.kept_read = True
                    raise Unsupported("state of the module kept between calls: " + name)
                return v
            e = e.parent
        if name in BUILTINS:
            return BUILTINS[name]
        if hasattr(builtins, name):
            raise Unsupported("builtin " + name)
        raise Raised("NameError", name)

    # ----------------------------------------------------------- statements
    def exec_body(self, body, env):
        for st in body:
            r = self.exec_stmt(st, env)
            if r is not None:
                return r
        return None

    def exec_stmt(self, st, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")
        self.m.where = (self.cur, getattr(st, "lineno", 0))
        k = type(st).__name__
        f = getattr(self, "st_" + k, None)
        if f is None:
            raise Unsupported("statement " + k)
        return f(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.ev(st.value, env)

    def st_Pass(self, st, env):
        return None

    def st_Import(self, st, env):
        for a in st.names:
            if a.name.startswith("pyrichlet"):
                raise Unsupported("absolute import")
            if a.asname:
                self.setvar(env, a.asname, ExtMod(a.name))
            else:
                self.setvar(env, a.name.split(".")[0], ExtMod(a.name.split(".")[0]))

    def st_ImportFrom(self, st, env):
        self.import_from(st, env)

    def st_Global(self, st, env):
        raise Unsupported("global")

    st_Nonlocal = st_Global

    def st_FunctionDef(self, st, env):
        cls = env.cls if env.self_ == "classbody" else None
        a = st.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        clsenv = env.parent if env.self_ == "classbody" else env
        f = FuncVal(st, clsenv, env.module, cls, defaults, kwd, st.name)
        for d in st.decorator_list:
            dv = self.ev(d, env)
            if isinstance(dv, TypeVal) and dv.name in ("staticmethod", "classmethod", "property"):
                f.kind = dv.name
            elif isinstance(dv, ExtMod) and dv.path in ("abc.abstractmethod",):
                pass
            else:
                raise Unsupported("decorator")
        self.setvar(env, st.name, f)

    def st_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        c = ClassVal(st.name, bases, env.module)
        e = Env(env, env.module, c)
        e.self_ = "classbody"
        for s in st.body:
            self.exec_stmt(s, e)
        c.attrs.update(e.vars)
        if c.isexc() or any(isinstance(b, ClassVal) and b.name in self.exc_classes for b in bases):
            self.exc_classes[c.name] = c
        self.setvar(env, st.name, c)

    def st_Return(self, st, env):
        return ("return", None if st.value is None else self.ev(st.value, env))

    def st_Break(self, st, env):
        return ("break",)

    def st_Continue(self, st, env):
        return ("continue",)

    def st_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise Raised("AssertionError", "")

    def st_Raise(self, st, env):
        if st.exc is None:
            raise Unsupported("re-raise")
        v = self.ev(st.exc, env)
        name = exc_name(v)
        if name is None:
            raise Unsupported("raise of %r" % (v,))
        raise Raised(name, "")

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    raise Raised("NameError", t.id)
                old = env.vars[t.id]
                self.m.setd(env.vars, t.id, old)
                del env.vars[t.id]
            else:
                raise Unsupported("del")

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.key(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred target")
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        it = self.iter_of(v)
        if isinstance(it, list):
            if len(it) != n:
                raise Raised("ValueError", "unpack")
            return it
        d, fn = it
        if d.plain() and self.m.branch(eq(d.n, const(n))):
            return [fn(const(k)) for k in range(n)]
        raise Unsupported("unpacking a symbolic sequence")

    onset = None       # (object, attribute, callback): see Sym.seal

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.m.setd(o.attrs, name, v)
            if self.onset is not None and o is self.onset[0] and name == self.onset[1]:
                self.onset[2](v)
        elif isinstance(o, ClassVal):
            self.m.setd(o.attrs, name, v)
        else:
            raise Unsupported("attribute store on %r" % (o,))

    def setitem(self, o, key, v):
        if isinstance(o, Arr):
            self.array_store(o, key, v)
        elif isinstance(o, PyList):
            if isinstance(o.items, SymList):
                l = o.items
                if self.m.loops or l.log is not None or not is_num(key) or not is_num(v):
                    raise Unsupported("store in a symbolic list")
                kk, x = N.norm_index(key, l.n), num(v)
                self.m.seta(o, "items", SymList(l.n, lambda i: merge(self, eq(tt(i), kk), x, l.fn(tt(i)))))
                return
            k = scalar(num(key)) if is_num(key) else key
            n = len(o.items)
            if isinstance(k, int):
                if not -n <= k < n:
                    raise Raised("IndexError", "list assignment")
                items = list(o.items)
                items[k] = v
                self.m.seta(o, "items", items)
            elif isinstance(k, T) and is_num(v) and all(is_num(x) for x in o.items):
                kk = N.norm_index(k, const(n))
                self.m.seta(o, "items", [scalar(ite(eq(kk, const(q)), tt(v), tt(x))) for q, x in enumerate(o.items)])
            else:
                raise Unsupported("list store")
        elif isinstance(o, PyDict):
            self.m.setd(o.items, dkey(key), v)
        elif isinstance(o, DefDict):
            self.dd_store(o, key, v)
        else:
            raise Unsupported("item store on %r" % (o,))

    def dd_store(self, o, key, v):
        k = num(key)
        old = o.data
        self.m.seta(o, "data", ("store", k, v, old))

    def dd_get(self, o, key):
        k = num(key)
        p = dd_dom(o.data, k)
        if p is TRUE or self.m.branch(p):
            return dd_read(self, o, o.data, k)
        if o.factory is None:
            raise Raised("KeyError", str(k))
        if o.factory == "factory":
            raise Unsupported("atom created on access")
        v = self.call(o.factory, [], {})
        self.dd_store(o, key, v)
        return v

    def array_store(self, a, key, v):
        if a.imap is not None:
            base = a.meta.get("base")
            if base is None:
                raise Unsupported("store through a view")
        N.setitem(a, key, v)

    def st_AugAssign(self, st, env):
        op = st.op
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.getvar(env, t.id)
            self.aug(cur, op, self.ev(st.value, env), lambda v: None if v is cur else self.setvar(env, t.id, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.aug(cur, op, self.ev(st.value, env), lambda v: self.setattr(o, t.attr, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            key = self.key(t.slice, env)
            cur = self.getitem(o, key)
            val = self.ev(st.value, env)
            if isinstance(cur, Arr) and isinstance(o, Arr):
                N.setitem(o, key, self.binop(op, cur, val))
            else:
                self.aug(cur, op, val, lambda v: self.setitem(o, key, v))
        else:
            raise Unsupported("augmented target")

    def aug(self, cur, op, val, store):
        if isinstance(cur, Arr):
            new = asarr(self.binop(op, cur, val))
            if new.ndim != cur.ndim:
                raise Raised("ValueError", "non-broadcastable output operand")
            for d1, d2 in zip(new.shape, cur.shape):
                if not d1.same(d2) and not N.eqdim(d1, d2):
                    raise Raised("ValueError", "non-broadcastable output operand")
            if cur.kind == "I" and new.kind == "R" or cur.kind == "B" and new.kind != "B":
                raise Raised("TypeError", "cannot cast ufunc output")
            if cur.imap is not None:
                if cur.meta.get("own"):
                    pass
                raise Unsupported("in-place operation on a view")
            self.m.seta(cur.cell, "fn", new.snap())
            store(cur)
            return
        if isinstance(cur, PyList) and isinstance(op, ast.Add):
            self.list_extend(cur, val)
            store(cur)
            return
        store(self.binop(op, cur, val))

    def list_extend(self, l, val):
        it = self.iter_of(val)
        if isinstance(it, list):
            for x in it:
                self.list_append(l, x)
        else:
            raise Unsupported("extend by a symbolic sequence")

    def list_append(self, l, x):
        if isinstance(l.items, SymList):
            s = l.items
            n, fn = s.n, s.fn
            self.m.seta(l, "items", SymList(add(n, ONE), lambda i: merge(self, eq(tt(i), n), x, fn(tt(i))), (s.log or []) + [x] if s.log is not None else None))
        else:
            self.m.seta(l, "items", l.items + [x])

    def st_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            return self.exec_body(st.body, env)
        return self.exec_body(st.orelse, env)

    def truth(self, v):
        if isinstance(v, T):
            return self.m.branch(v if v.sort == "B" else ne(v, ZERO))
        if v is None or isinstance(v, (bool, int, float, str, Fraction)):
            return bool(v)
        if isinstance(v, PyList):
            return bool(v.items) if not isinstance(v.items, SymList) else self.m.branch(ge(v.items.n, ONE))
        if isinstance(v, SymList):
            return self.m.branch(ge(v.n, ONE))
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PyDict):
            return bool(v.items)
        if isinstance(v, Arr):
            if v.ndim == 0 or all(d.plain() and d.n is ONE for d in v.shape):
                return self.truth(v.at(*([ZERO] * v.ndim)))
            raise Raised("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (Obj, FuncVal, BoundVal, ClassVal, Stub, ModuleVal, ExtMod)):
            return True
        if isinstance(v, Opaque) and v.pytype not in (None, "str", "list"):
            return True
        raise Unsupported("truth of %r" % (v,))

    def st_With(self, st, env):
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if not (isinstance(v, Opaque) and v.name == "errstate"):
                raise Unsupported("with")
        return self.exec_body(st.body, env)

    def st_Try(self, st, env):
        if st.finalbody:
            raise Unsupported("finally")
        try:
            r = self.exec_body(st.body, env)
        except Raised as e:
            for h in st.handlers:
                names = None
                if h.type is not None:
                    v = self.ev(h.type, env)
                    names = [exc_name(x) for x in (v if isinstance(v, tuple) else (v,))]
                if names is None or any(n and exc_matches(e.exc, n, self) for n in names):
                    if h.name:
                        self.setvar(env, h.name, Opaque("exc", e.exc))
                    return self.exec_body(h.body, env)
            raise
        if r is None:
            r = self.exec_body(st.orelse, env)
        return r

    def st_For(self, st, env):
        if st.orelse:
            raise Unsupported("for-else")
        from .loops import run_for
        it = self.iter_of(self.ev(st.iter, env))
        if isinstance(it, list):
            for x in it:
                self.assign(st.target, x, env)
                r = self.exec_body(st.body, env)
                if r is not None:
                    if r[0] == "break":
                        break
                    if r[0] == "return":
                        return r
            return None
        d, fn = it
        if self.for_any is not None:
            r = self.for_any(st, env, d, lambda i: self.assign(st.target, fn(i), env))
            if r is not None:
                return r[0]
        return run_for(self, d, lambda i: self.assign(st.target, fn(i), env), st.body, env)

    def st_While(self, st, env):
        if st.orelse:
            raise Unsupported("while-else")
        from .loops import run_while
        return run_while(self, st, env)

    # ---------------------------------------------------------- iteration
    def iter_of(self, v):
        """list of values, or (Dim, index function)"""
        if isinstance(v, PyList):
            if isinstance(v.items, SymList):
                s = v.items
                return Dim(s.n), s.fn
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PyDict):
            return [undkey(k) for k in v.items]
        if isinstance(v, SymList):
            return Dim(v.n), v.fn
        if isinstance(v, IterVal):
            return v.dim, v.fn
        if isinstance(v, RangeVal):
            if v.n.op == "const" and int(v.n.args[0]) <= 6:
                return [scalar(add(v.lo, mul(v.step, const(k)))) for k in range(int(v.n.args[0]))]
            return Dim(v.n), (lambda i: scalar(add(v.lo, mul(v.step, tt(i)))))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise Raised("TypeError", "iteration over a 0-d array")
            d = v.shape[0]
            if d.plain() and d.n.op == "const" and int(d.n.args[0]) <= 6:
                return [row(v, const(k)) for k in range(int(d.n.args[0]))]
            return d, (lambda i: row(v, tt(i)))
        if v is None or is_num(v):
            raise Raised("TypeError", "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    # ---------------------------------------------------------- expressions
    def ev(self, e, env):
        f = getattr(self, "ex_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression " + type(e).__name__)
        return f(e, env)

    def ex_Constant(self, e, env):
        if e.value is Ellipsis:
            return Ellipsis
        if isinstance(e.value, complex):
            raise Unsupported("complex")
        return e.value

    def ex_Name(self, e, env):
        return self.getvar(env, e.id)

    def ex_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.setvar(env, e.target.id, v)
        return v

    def ex_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def key(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceVal(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.key(x, env) for x in s.elts)
        return self.ev(s, env)

    def ex_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.key(e.slice, env))

    def ex_Slice(self, e, env):
        return self.key(e, env)

    def getitem(self, o, key):
        if isinstance(o, Arr):
            return N.getitem(o, key)
        if isinstance(o, PyList) and isinstance(o.items, SymList):
            o = o.items
        if isinstance(o, (PyList, tuple)):
            items = o.items if isinstance(o, PyList) else o
            if isinstance(key, SliceVal):
                ks = [None if x is None else scalar(num(x)) for x in (key.lo, key.hi, key.step)]
                if all(x is None or isinstance(x, int) for x in ks):
                    r = items[slice(*ks)]
                    return PyList(r) if isinstance(o, PyList) else tuple(r)
                raise Unsupported("symbolic slice of a list")
            if not is_num(key):
                raise Raised("TypeError", "list indices")
            k = scalar(num(key))
            if isinstance(k, int):
                if not -len(items) <= k < len(items):
                    raise Raised("IndexError", "list index out of range")
                return items[k]
            kk = N.norm_index(k, const(len(items)))
            for q in range(len(items) - 1):
                if self.m.branch(eq(kk, const(q))):
                    return items[q]
            return items[-1]
        if isinstance(o, SymList):
            if isinstance(key, SliceVal):
                st, c, sp = N.slice_range(key, o.n)
                if sp != 1:
                    raise Unsupported("list slice step")
                return SymList(c, lambda i: o.fn(add(st, tt(i))))
            return o.fn(N.norm_index(key, o.n))
        if isinstance(o, PyDict):
            k = dkey(key)
            if k in o.items:
                return o.items[k]
            raise Raised("KeyError", str(k))
        if isinstance(o, DefDict):
            return self.dd_get(o, key)
        if isinstance(o, IterVal) or isinstance(o, RangeVal):
            if is_num(key):
                return scalar(add(o.lo, mul(o.step, N.norm_index(key, o.n))))
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if o is None or is_num(o):
            raise Raised("TypeError", "object is not subscriptable")
        raise Unsupported("subscript of %r" % (o,))

    def ex_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def ex_List(self, e, env):
        return PyList([self.ev(x, env) for x in e.elts])

    def ex_Set(self, e, env):
        return PyList([self.ev(x, env) for x in e.elts])

    def ex_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            d.items[dkey(self.ev(k, env))] = self.ev(v, env)
        return d

    def ex_JoinedStr(self, e, env):
        return "<fstring>"

    def ex_Lambda(self, e, env):
        a = e.args
        defaults = [self.ev(d, env) for d in a.defaults]
        return FuncVal(e, env, env.module, None, defaults, {}, "<lambda>")

    def ex_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) != isand:
                return v
        return self.ev(e.values[-1], env)

    def ex_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return scalar(not_(v)) if isinstance(v, T) and v.sort == "B" else not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                return -v
            return N.op_neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return N.logical_not(v)
        raise Unsupported("unary")

    def ex_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        k = type(op).__name__
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("undefined operand")
        if isinstance(a, str) or isinstance(b, str):
            if k == "Mod" or (k == "Add" and isinstance(a, str) and isinstance(b, str)):
                return "<str>"
            raise Raised("TypeError", "string operand")
        if k == "Add" and isinstance(a, (PyList, SymList)) and isinstance(b, (PyList, SymList)):
            return list_cat(self, a, b)
        if k == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if k == "Mult" and (isinstance(a, PyList) or isinstance(b, PyList)):
            l, n = (a, b) if isinstance(a, PyList) else (b, a)
            if is_num(n):
                return list_rep(self, l, n)
        f = {"Add": N.op_add, "Sub": N.op_sub, "Mult": N.op_mul, "Div": N.op_div, "Pow": N.op_pow, "FloorDiv": N.op_floordiv, "Mod": N.op_mod,
             "MatMult": N.np_matmul, "BitAnd": N.bit_and, "BitOr": N.bit_or}.get(k)
        if f is None:
            raise Unsupported("operator " + k)
        for x in (a, b):
            if isinstance(x, (PyList, tuple, SymList, RangeVal)) and not isinstance(a, Arr) and not isinstance(b, Arr) and k != "MatMult":
                if not (isinstance(a, T) or isinstance(b, T)):
                    raise Raised("TypeError", "unsupported operand")
            if isinstance(x, (Obj, FuncVal, ClassVal, ModuleVal, PyDict)) or x is None:
                raise Raised("TypeError", "unsupported operand")
        return f(a, b)

    def ex_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if k == len(e.ops) - 1 and res is None:
                return v
            if not self.truth(v):
                return False
            res = True
            if k == len(e.ops) - 1:
                return v
            left = right

    def compare(self, op, a, b):
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if k == "Is" else not r
        if k in ("In", "NotIn"):
            r = self.contains(a, b)
            if isinstance(r, T):
                return r if k == "In" else not_(r)
            return r if k == "In" else not r
        sym = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[k]
        plain = (str, type(None), TypeVal, ClassVal, ExtMod, Opaque, Obj)
        if isinstance(a, plain) or isinstance(b, plain):
            if k not in ("Eq", "NotEq"):
                if isinstance(a, str) and isinstance(b, str):
                    raise Unsupported("string order")
                raise Raised("TypeError", "not comparable")
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Unsupported("comparison of an array with %r" % (b,))
            r = self.same(a, b)
            return r if k == "Eq" else not r
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            x, y = [v.items if isinstance(v, PyList) else list(v) for v in (a, b)]
            if isinstance(x, SymList) or isinstance(y, SymList) or k not in ("Eq", "NotEq"):
                raise Unsupported("list comparison")
            r = len(x) == len(y) and all(self.truth(self.compare(ast.Eq(), p, q)) for p, q in zip(x, y))
            return r if k == "Eq" else not r
        return N.cmp(sym, a, b)

    def same(self, a, b):
        if isinstance(a, Opaque) and isinstance(b, str) or isinstance(b, Opaque) and isinstance(a, str):
            o, s = (a, b) if isinstance(a, Opaque) else (b, a)
            if o.pytype == "str":
                # unknown string: free choice, remembered
                return self.m.branch(var("str:%s==%s" % (o.name, s), "B"))
            return False
        if type(a) != type(b):
            return False
        if isinstance(a, (Obj, Opaque, ClassVal)):
            return a is b
        return a == b

    def is_(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (TypeVal, ExtMod, ClassVal)) or isinstance(b, (TypeVal, ExtMod, ClassVal)):
            return self.type_eq(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(b, bool) or isinstance(a, bool):
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(x, T) and x.sort == "B":
                return x if y else not_(x)
            return False
        if a is Ellipsis or b is Ellipsis:
            return a is b
        if is_num(a) or is_num(b):
            raise Unsupported("identity of numbers")
        return a is b

    def type_eq(self, a, b):
        return tname(a) == tname(b)

    def contains(self, a, b):
        if isinstance(b, PyDict):
            return dkey(a) in b.items
        if isinstance(b, PyList) and not isinstance(b.items, SymList) or isinstance(b, tuple):
            items = b.items if isinstance(b, PyList) else b
            if isinstance(a, (TypeVal, ExtMod, ClassVal)):
                return any(self.type_eq(a, x) for x in items)
            if all(is_num(x) for x in items) and is_num(a):
                return scalar(or_(*[eq(num(a), num(x)) for x in items]))
            return any(self.truth(self.compare(ast.Eq(), a, x)) for x in items)
        if isinstance(b, Obj) and b.cls == "set":
            raise Unsupported("set")
        if isinstance(b, Opaque) and b.data is not None and hasattr(b.data, "contains"):
            return b.data.contains(self, a)
        if isinstance(b, Arr) and b.ndim == 1 and is_num(a):
            return scalar(N.fold("exists", [b.shape[0]], lambda i: eq(n_(b.at(i)), num(a))))
        raise Unsupported("membership in %r" % (b,))

    # comprehension -------------------------------------------------------
    def comp(self, e, env, what):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.iter_of(self.ev(g.iter, env))
        ce = Env(env, env.module, env.cls)
        ce.self_ = env.self_ if env.self_ != "classbody" else None
        if isinstance(it, list):
            out = []
            for x in it:
                self.assign(g.target, x, ce)
                if all(self.truth(self.ev(c, ce)) for c in g.ifs):
                    out.append(what(ce))
            return PyList(out)
        if g.ifs:
            raise Unsupported("filtered symbolic comprehension")
        from .loops import run_comp
        d, fn = it
        return run_comp(self, d, lambda i: (self.assign(g.target, fn(i), ce), what(ce))[1])

    def ex_ListComp(self, e, env):
        return self.comp(e, env, lambda ce: self.ev(e.elt, ce))

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, e, env):
        return self.comp(e, env, lambda ce: self.ev(e.elt, ce))

    def ex_DictComp(self, e, env):
        r = self.comp(e, env, lambda ce: (self.ev(e.key, ce), self.ev(e.value, ce)))
        if isinstance(r, PyList) and not isinstance(r.items, SymList):
            d = PyDict()
            for k, v in r.items:
                d.items[dkey(k)] = v
            return d
        raise Unsupported("symbolic dict comprehension")

    # ----------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    self.kept_read = self.kept_read or isinstance(v, Kept)
                    raise Unsupported("attribute %s: %s" % (name, v.why))
                return v
            if isinstance(o.cls, ClassVal):
                v = o.cls.lookup(name)
                if v is not None:
                    self.classstate(o.cls, name, v)
                    return self.bind(v, o)
            if name == "__class__":
                return o.cls
            if o.cls == "standin":
                raise Unsupported("method %s of %s" % (name, o.name))
            raise Raised("AttributeError", name)
        if isinstance(o, SuperVal):
            v = o.obj.cls.lookup(name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return Stub("object.__init__", lambda ip, a, k: None)
                raise Raised("AttributeError", name)
            return self.bind(v, o.obj)
        if isinstance(o, ModuleVal):
            if name in o.env.vars:
                return o.env.vars[name]
            raise Raised("AttributeError", name)
        if isinstance(o, ExtMod):
            return ext_attr(o, name)
        if isinstance(o, ClassVal):
            v = o.lookup(name)
            if v is None:
                if name == "__name__":
                    return o.name
                raise Raised("AttributeError", name)
            self.classstate(o, name, v)
            if isinstance(v, FuncVal) and v.kind == "classmethod":
                return BoundVal(v, o)
            return v
        if isinstance(o, Opaque):
            if o.data is not None and hasattr(o.data, "getattr"):
                return o.data.getattr(self, o, name)
            if o.pytype == "Generator":
                if name in N.RNG_METHODS:
                    f = N.RNG_METHODS[name]
                    return Stub("rng." + name, lambda ip, a, k: f(o, *a, **k))
                if name == "bit_generator":
                    return Opaque("bitgen", "BitGenerator", o)
                raise Unsupported("generator method " + name)
            if o.pytype == "finfo" and name == "eps":
                return EPS
            if o.pytype == "finfo":
                raise Unsupported("finfo." + name)
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, Arr) or (isinstance(o, T)):
            return arr_attr(self, o, name)
        if isinstance(o, (PyList, SymList)):
            return list_attr(self, o, name)
        if isinstance(o, PyDict):
            return dict_attr(self, o, name)
        if isinstance(o, DefDict):
            raise Unsupported("defaultdict." + name)
        if isinstance(o, str):
            return Stub("str." + name, lambda ip, a, k: "<str>")
        if isinstance(o, TypeVal):
            if name == "__name__":
                return o.name
            raise Unsupported("type attribute")
        if isinstance(o, (int, float, bool)):
            return arr_attr(self, tt(o), name)
        if o is None:
            raise Raised("AttributeError", "NoneType." + name)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, (FuncVal, BoundVal)) and name == "__name__":
            return "f"
        raise Unsupported("attribute %s of %r" % (name, o))

    def is_kept(self, cls, name, v):
        ns = [c.name for c in cls.mro()] + [None]
        return any((n, name) in self.kept_attrs or (n, "*") in self.kept_attrs for n in ns) or name in self.kept_alias and isinstance(v, (PyDict, PyList, SymList, DefDict, set))

    def classstate(self, cls, name, v):
        if not isinstance(v, (FuncVal, BoundVal, ClassVal)) and self.is_kept(cls, name, v):
            self.kept_read = True
            raise Unsupported("state of the class kept between calls: " + name)

    def keep(self, o, seen=None, only=None):
        """forget the values of the state that earlier calls may have left in the object"""
        if only is not None and not only:
            return
        seen = set() if seen is None else seen
        if id(o) in seen or not isinstance(o, Obj) or not isinstance(o.cls, ClassVal):
            return
        seen.add(id(o))
        for k, v in list(o.attrs.items()):
            if isinstance(v, Obj):
                self.keep(v, seen, only)
            elif only is not None and k not in only:
                continue
            elif k not in GIVEN and not isinstance(v, (Opaque, Poison, Stub)) and self.is_kept(o.cls, k, v):
                self.m.setd(o.attrs, k, Kept(v))
        ns = [c.name for c in o.cls.mro()]
        for n, k in sorted(self.kept_attrs, key=str):
            if n in ns and (only is None or k in only) and k not in o.attrs and not isinstance(o.cls.lookup(k), FuncVal):
                self.m.setd(o.attrs, k, Kept())

    def bind(self, v, o):
        if isinstance(v, FuncVal):
            if v.kind == "staticmethod":
                return v
            if v.kind == "property":
                return self.call_func(v, [o], {})
            if v.kind == "classmethod":
                return BoundVal(v, o.cls)
            return BoundVal(v, o)
        return v

    # ----------------------------------------------------------------- calls
    def ex_Call(self, e, env):
        f = None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            en = env
            while en is not None and not (en.cls is not None and isinstance(en.self_, Obj)):
                en = en.parent
            if en is None:
                raise Unsupported("super outside a method")
            return SuperVal(en.cls, en.self_)
        f = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iter_of(self.ev(a.value, env))
                if not isinstance(it, list):
                    raise Unsupported("starred symbolic argument")
                args += it
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported("** argument")
                for kk, vv in v.items.items():
                    kwargs[undkey(kk)] = vv
            else:
                kwargs[k.arg] = v
        self.m.where = (self.cur, e.lineno)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundVal):
            return self.call(f.f, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Stub):
            return f.fn(self, args, kwargs)
        if isinstance(f, ClassVal):
            if f.name in self.exc_classes:
                return Opaque("exc", f.name)
            o = Obj(f, name=f.name)
            init = f.lookup("__init__")
            if init is not None:
                self.call_func(init, [o] + list(args), kwargs)
            return o
        if isinstance(f, TypeVal):
            if f.name in EXC:
                return Opaque("exc", f.name)
            return call_type(self, f, args, kwargs)
        if isinstance(f, ExtMod):
            raise Unsupported("call of " + f.path)
        if isinstance(f, Opaque):
            if f.data is not None and hasattr(f.data, "call"):
                return f.data.call(self, f, args, kwargs)
        if f is None or is_num(f):
            raise Raised("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kwargs):
        q = f.qual
        if q in self.hooks:
            r = self.hooks[q](self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        self.called.add(q)
        if self.depth > 60:
            raise Unsupported("recursion")
        env = Env(f.env, f.module, f.cls)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and args and f.kind is None:
            env.self_ = args[0]
        vals = SD()
        rest = list(args)
        for p in pos:
            if rest:
                vals[p] = rest.pop(0)
        if rest:
            if a.vararg:
                vals[a.vararg.arg] = tuple(rest)
            else:
                raise Raised("TypeError", "too many arguments for " + f.name)
        elif a.vararg:
            vals[a.vararg.arg] = ()
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise Raised("TypeError", "multiple values for " + k)
                vals[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            raise Raised("TypeError", "unexpected keyword " + ",".join(extra))
        if a.kwarg:
            vals[a.kwarg.arg] = PyDict({dkey(k): v for k, v in extra.items()})
        for p, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            if p not in vals and isinstance(d, (PyDict, PyList, DefDict, set, Obj)) and p in self.kept_names:
                self.kept_read = True
                raise Unsupported("default value of %s kept between calls" % p)
            vals.setdefault(p, d)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    raise Raised("TypeError", "missing keyword")
                vals[x.arg] = f.kwdefaults[x.arg]
        for p in pos:
            if p not in vals:
                raise Raised("TypeError", "missing argument " + p)
        env.vars = vals
        old, oldw = self.cur, self.m.where
        self.cur = q
        self.depth += 1
        self.stack.append(q)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator function")
            r = self.exec_body(f.node.body, env)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur, self.m.where = old, oldw
        return r[1] if r is not None and r[0] == "return" else None


class IterVal:
    """a lazily indexed iterable (enumerate, zip, ...) of symbolic length"""

    def __init__(self, dim, fn):
        self.dim, self.fn = dim, fn


EPS = const(Fraction(1, 2 ** 52))


def row(a, i):
    if a.ndim == 1:
        return scalar(a.at(i))
    return Arr.view(a, a.shape[1:], lambda *r: (i,) + r)


def dkey(k):
    if isinstance(k, T):
        k = scalar(k)
    if isinstance(k, T):
        raise Unsupported("symbolic dictionary key")
    if isinstance(k, (str, int, bool, type(None))):
        return k
    if isinstance(k, tuple):
        return tuple(dkey(x) for x in k)
    raise Unsupported("dictionary key %r" % (k,))


def undkey(k):
    return k


def exc_name(v):
    if isinstance(v, Opaque) and v.name == "exc":
        return v.pytype
    if isinstance(v, TypeVal) and v.name in EXC:
        return v.name
    if isinstance(v, ClassVal):
        return v.name
    return None


def tname(t):
    if isinstance(t, TypeVal):
        n = t.name
    elif isinstance(t, ExtMod):
        n = t.path.split(".")[-1]
    elif isinstance(t, ClassVal):
        return t.name
    else:
        return None
    return {"float64": "float", "int64": "int", "integer": "int", "bool_": "bool"}.get(n, n)


def merge(ip, c, a, b):
    """value equal to a when c, else b"""
    c = tt(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        ta, tb = tt(a), tt(b)
        if ta.sort == "B" and tb.sort == "B":
            return ite(c, ta, tb)
        return scalar(ite(c, n_(ta), n_(tb)))
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(ip, c, x, y) for x, y in zip(a, b))
    if isinstance(a, PyList) and isinstance(b, PyList) and not isinstance(a.items, SymList) and not isinstance(b.items, SymList) and len(a.items) == len(b.items):
        return PyList([merge(ip, c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(x.same(y) for x, y in zip(a.shape, b.shape)):
        fa, fb = a.snap(), b.snap()
        return Arr(a.shape, lambda *i: ite(c, fa(*i), fb(*i)), N.join_kind(a.kind, b.kind))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(x.plain() and y.plain() for x, y in zip(a.shape, b.shape)):
        # lengths that agree where it matters
        dims = []
        for x, y in zip(a.shape, b.shape):
            e = eq(x.n, y.n)
            if e is TRUE:
                dims.append(y)
            elif ip.m.decider(ip.m.facts + [c], e) is True:
                dims.append(y)
            elif ip.m.decider(ip.m.facts + [not_(c)], e) is True:
                dims.append(x)
            else:
                break
        if len(dims) == a.ndim:
            fa, fb = a.snap(), b.snap()
            return Arr(dims, lambda *i: ite(c, fa(*i), fb(*i)), N.join_kind(a.kind, b.kind))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim == 1 and a.shape[0].plain() and b.shape[0].plain():
        fa, fb = a.snap(), b.snap()
        return Arr((ite(c, a.shape[0].n, b.shape[0].n),), lambda *i: ite(c, fa(*i), fb(*i)), N.join_kind(a.kind, b.kind))
    if isinstance(a, (str, type(None), TypeVal)) and a == b:
        return a
    return Poison("different kinds of values merged")


def list_cat(ip, a, b):
    xa = a.items if isinstance(a, PyList) else a
    xb = b.items if isinstance(b, PyList) else b
    if not isinstance(xa, SymList) and not isinstance(xb, SymList):
        return PyList(xa + xb)
    la = xa if isinstance(xa, SymList) else SymList(len(xa), lambda i: N.pick(xa, i, lambda v: tt(v)) if all(is_num(x) for x in xa) else _bad())
    if not isinstance(xb, SymList):
        n, fn = la.n, la.fn
        out = PyList(SymList(n, fn))
        for x in xb:
            ip.list_append(out, x)
        return out
    n, fa, fb = la.n, la.fn, xb.fn
    return PyList(SymList(add(n, xb.n), lambda i: merge(ip, lt(tt(i), n), fa(tt(i)), fb(sub(tt(i), n)))))


def _bad():
    raise Unsupported("symbolic index in a heterogeneous list")


def list_rep(ip, l, n):
    k = scalar(num(n))
    if not isinstance(l.items, SymList):
        if isinstance(k, int):
            return PyList(l.items * max(k, 0))
        if len(l.items) == 1:
            t = num(n)
            if not ip.m.branch(ge(t, ZERO)):
                return PyList([])
            x = l.items[0]
            return PyList(SymList(t, lambda i: x))
    raise Unsupported("list repetition")


# ------------------------------------------------------------------- attributes
def arr_attr(ip, o, name):
    if isinstance(o, T):
        if name in ("shape",):
            return ()
        if name == "ndim":
            return 0
        if name == "T":
            return o
        if name in ("copy", "item", "sum", "mean", "max", "min"):
            return Stub(name, lambda ip, a, k: scalar(o))
        if name == "size":
            return 1
        if name == "dtype":
            return TypeVal({"I": "int64", "R": "float64", "B": "bool"}[o.sort])
        a = asarr(o)
    else:
        a = o
    if name == "shape":
        return tuple(scalar(d.count()) for d in a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return scalar(mul(*[d.count() for d in a.shape])) if a.ndim else 1
    if name == "T":
        return N.transpose(a)
    if name == "dtype":
        return TypeVal({"I": "int64", "R": "float64", "B": "bool"}[a.kind])
    if name in ("real",):
        return a
    meth = {
        "sum": N.asum, "mean": N.amean, "max": N.amax, "min": N.amin, "argmax": N.argext("argmax"), "argmin": N.argext("argmin"),
        "cumsum": N.cum("sum"), "cumprod": N.cum("prod"), "any": N.aany, "all": N.aall, "prod": N.aprod, "dot": N.np_dot,
        "clip": N.np_clip, "trace": N.np_trace, "transpose": lambda x: N.transpose(x),
    }.get(name)
    if meth is not None:
        return Stub("ndarray." + name, lambda ip, ar, k: meth(a, *ar, **k))
    if name == "copy":
        return Stub(name, lambda ip, ar, k: a.copy())
    if name == "astype":
        return Stub(name, lambda ip, ar, k: N.cast(a.copy(), ar[0]))
    if name == "reshape":
        return Stub(name, lambda ip, ar, k: N.reshape(a, *ar, **k))
    if name in ("ravel", "flatten"):
        if a.ndim == 1:
            return Stub(name, lambda ip, ar, k: a if name == "ravel" else a.copy())
        return Stub(name, lambda ip, ar, k: N.reshape(a, -1))
    if name == "tolist":
        def tl(ip, ar, k):
            it = ip.iter_of(a)
            return PyList(it) if isinstance(it, list) else PyList(SymList(it[0].n, it[1]))
        return Stub(name, tl)
    if name == "resize":
        def rs(ip, ar, k):
            n = N.nonneg_len(ar[0])
            if a.ndim != 1 or a.imap is not None:
                raise Unsupported("resize")
            m, fn = a.shape[0].n, a.snap()
            new = Arr((n,), lambda i: ite(lt(i, m), n_(fn(i)), ZERO), a.kind)
            ip.m.seta(a.cell, "fn", new.cell.fn)
            ip.m.seta(a.cell, "shape", new.cell.shape)
        return Stub(name, rs)
    if name == "item":
        return Stub(name, lambda ip, ar, k: scalar(num(a)))
    if name == "fill":
        return Stub(name, lambda ip, ar, k: N.setitem(a, SliceVal(None, None, None), ar[0]))
    if name == "to_numpy":
        raise Raised("AttributeError", name)
    raise Unsupported("array attribute " + name)


def list_attr(ip, o, name):
    if name == "append":
        return Stub(name, lambda ip, a, k: ip.list_append(o, a[0]))
    if name == "extend":
        return Stub(name, lambda ip, a, k: ip.list_extend(o, a[0]))
    if name == "copy":
        return Stub(name, lambda ip, a, k: PyList(o.items))
    if name == "pop" and not isinstance(o.items, SymList):
        def pop(ip, a, k):
            items = list(o.items)
            x = items.pop(*[scalar(num(v)) for v in a])
            ip.m.seta(o, "items", items)
            return x
        return Stub(name, pop)
    if name == "index" and not isinstance(o.items, SymList):
        def index(ip, a, k):
            for q, x in enumerate(o.items):
                if ip.truth(ip.compare(ast.Eq(), x, a[0])):
                    return q
            raise Raised("ValueError", "not in list")
        return Stub(name, index)
    raise Unsupported("list." + name)


def dict_attr(ip, o, name):
    if name == "items":
        return Stub(name, lambda ip, a, k: PyList([(undkey(x), y) for x, y in o.items.items()]))
    if name == "keys":
        return Stub(name, lambda ip, a, k: PyList([undkey(x) for x in o.items]))
    if name == "values":
        return Stub(name, lambda ip, a, k: PyList(list(o.items.values())))
    if name == "get":
        return Stub(name, lambda ip, a, k: o.items.get(dkey(a[0]), a[1] if len(a) > 1 else None))
    if name == "copy":
        return Stub(name, lambda ip, a, k: PyDict(o.items))
    if name == "update":
        def upd(ip, a, k):
            for x, y in (a[0].items.items() if a else ()):
                ip.m.setd(o.items, x, y)
            for x, y in k.items():
                ip.m.setd(o.items, dkey(x), y)
        return Stub(name, upd)
    raise Unsupported("dict." + name)


# --------------------------------------------------------- defaultdict (atoms)
def dd_dom(data, k):
    """k is a key"""
    if data[0] == "store":
        return or_(eq(data[1], k), dd_dom(data[3], k))
    if data[0] == "mstore":
        _, n, mask, val, rest = data
        return or_(and_(ge(k, ZERO), lt(k, n), mask(k) if mask else TRUE), dd_dom(rest, k))
    if data[0] == "base":
        return data[2](k) if len(data) > 2 else TRUE
    if data[0] == "hv":
        if sub(k, data[2]) is not ZERO:
            raise Unsupported("dictionary built by the loop read at another key")
        return dd_dom(data[3], k)
    return FALSE


def dd_bound(data):
    """every key is below"""
    if data[0] == "store":
        return max_(dd_bound(data[3]), add(data[1], ONE))
    if data[0] == "mstore":
        return max_(dd_bound(data[4]), data[1])
    if data[0] == "base":
        if len(data) > 3:
            return data[3]
        raise Unsupported("number of atoms")
    if data[0] == "empty":
        return ZERO
    raise Unsupported("number of atoms")


def dd_read(ip, o, data, k):
    if data[0] == "store":
        _, k0, v, rest = data
        e = eq(k0, k)
        if e is TRUE:
            return v
        if e is FALSE:
            return dd_read(ip, o, rest, k)
        return merge(ip, e, v, dd_read(ip, o, rest, k))
    if data[0] == "mstore":          # for j in [0,n) with mask: d[j] = val(j)
        _, n, mask, val, rest = data
        c = and_(ge(k, ZERO), lt(k, n), mask(k) if mask else TRUE)
        return merge(ip, c, val(k), dd_read(ip, o, rest, k))
    if data[0] == "base":
        return data[1](k)
    if data[0] == "hv":
        if sub(k, data[2]) is not ZERO:
            raise Unsupported("dictionary built by the loop read at another key")
        return dd_read(ip, o, data[3], k)
    if data[0] == "empty":
        if o.factory is None:
            raise Raised("KeyError", "")
        raise Unsupported("atom created on access")
    raise Unsupported("defaultdict")


# ----------------------------------------------------------------- type calls
def type_of(v):
    if v is None:
        return TypeVal("NoneType")
    if isinstance(v, bool):
        return TypeVal("bool")
    if isinstance(v, int):
        return TypeVal("int")
    if isinstance(v, (float, Fraction)):
        return TypeVal("float")
    if isinstance(v, str):
        return TypeVal("str")
    if isinstance(v, T):
        return TypeVal({"I": "int", "R": "float", "B": "bool"}[v.sort])
    if isinstance(v, Arr):
        return TypeVal("ndarray")
    if isinstance(v, (PyList, SymList)):
        return TypeVal("list")
    if isinstance(v, tuple):
        return TypeVal("tuple")
    if isinstance(v, PyDict):
        return TypeVal("dict")
    if isinstance(v, DefDict):
        return TypeVal("defaultdict")
    if isinstance(v, Obj):
        return v.cls if isinstance(v.cls, ClassVal) else TypeVal(str(v.cls))
    if isinstance(v, Opaque) and v.pytype:
        return TypeVal(v.pytype)
    raise Unsupported("type of %r" % (v,))


SUBTYPES = {"bool": ("bool", "int"), "defaultdict": ("defaultdict", "dict")}


Interp.stub = staticmethod(lambda name, f: Stub(name, lambda ip, a, k: f(*a, **k)))


def bi_isinstance(ip, a, k):
    v, ts = a
    ts = ts if isinstance(ts, tuple) else (ts,)
    ty = type_of(v)
    if isinstance(ty, ClassVal):
        return any(isinstance(t, ClassVal) and t in ty.mro() for t in ts)
    names = SUBTYPES.get(ty.name, (ty.name,))
    for t in ts:
        if isinstance(t, ClassVal):
            continue
        nm = t.name if isinstance(t, TypeVal) else t.path.split(".")[-1] if isinstance(t, ExtMod) else None
        if nm is None:
            raise Unsupported("isinstance of %r" % (t,))
        # a plain int/float is no numpy scalar
        if isinstance(t, ExtMod) or nm in ("integer", "floating", "int64", "float64"):
            if nm in ("ndarray", "DataFrame", "Series", "Generator"):
                if nm in names:
                    return True
            continue
        if nm in names:
            return True
    return False


def call_type(ip, t, args, kwargs):
    n = t.name
    if n == "type":
        return type_of(args[0])
    if n == "int":
        v = num(args[0]) if args else ZERO
        return scalar(N.trunc(v))
    if n in ("float", "float64"):
        if isinstance(args[0], str):
            return {"inf": float("inf"), "-inf": float("-inf")}.get(args[0]) or _uns("float of a string")
        v = num(args[0])
        return scalar(v) if not isinstance(scalar(v), int) else float(scalar(v))
    if n == "bool":
        v = args[0]
        if isinstance(v, T):
            return v if v.sort == "B" else ne(v, ZERO)
        return ip.truth(v)
    if n == "str":
        return "<str>"
    if n == "list":
        if not args:
            return PyList([])
        it = ip.iter_of(args[0])
        if isinstance(it, list):
            return PyList(it)
        if not it[0].plain():
            raise Unsupported("list of a masked axis")
        return PyList(SymList(it[0].n, it[1]))
    if n == "tuple":
        it = ip.iter_of(args[0]) if args else []
        if isinstance(it, list):
            return tuple(it)
        return SymList(it[0].n, it[1])
    if n == "dict":
        if not args:
            return PyDict({dkey(k): v for k, v in kwargs.items()})
        if isinstance(args[0], PyDict):
            return PyDict(args[0].items)
        if isinstance(args[0], DefDict):
            return DefDict(args[0].data)
        raise Unsupported("dict()")
    if n == "set":
        raise Unsupported("set")
    if n in ("int64",):
        return scalar(N.trunc(num(args[0])))
    raise Unsupported("call of type " + n)


def _uns(m):
    raise Unsupported(m)


def bi_len(ip, a, k):
    v = a[0]
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise Raised("TypeError", "len() of unsized object")
        return scalar(v.shape[0].count())
    if isinstance(v, PyList):
        return len(v.items) if not isinstance(v.items, SymList) else scalar(v.items.n)
    if isinstance(v, SymList):
        return scalar(v.n)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PyDict):
        return len(v.items)
    if isinstance(v, RangeVal):
        return scalar(v.n)
    if v is None or is_num(v):
        raise Raised("TypeError", "object has no len()")
    if isinstance(v, Opaque) and v.data is not None and hasattr(v.data, "len"):
        return v.data.len(ip, v)
    if isinstance(v, DefDict):
        if v.data[0] == "empty":
            return 0
        return scalar(Sum(ZERO, dd_bound(v.data), lambda k: ind(dd_dom(v.data, k))))
    raise Unsupported("len of %r" % (v,))


def bi_range(ip, a, k):
    ts = [num(x) for x in a]
    for t in ts:
        if t.sort != "I":
            raise Raised("TypeError", "float in range")
    if len(ts) == 1:
        lo, hi, st = ZERO, ts[0], ONE
    elif len(ts) == 2:
        lo, hi, st = ts[0], ts[1], ONE
    else:
        lo, hi, st = ts
    if st.op != "const" or st.args[0] not in (1, -1):
        raise Unsupported("range step")
    n = sub(hi, lo) if st is ONE else sub(lo, hi)
    if not ip.m.branch(ge(n, ZERO)):
        n = ZERO
    return RangeVal(lo, n, st)


def bi_enumerate(ip, a, k):
    start = num(a[1]) if len(a) > 1 else num(k.get("start", 0))
    it = ip.iter_of(a[0])
    if isinstance(it, list):
        return PyList([(scalar(add(start, const(q))), x) for q, x in enumerate(it)])
    d, fn = it
    if not d.plain():
        raise Unsupported("enumerate of a masked axis")
    return IterVal(d, lambda i: (scalar(add(start, tt(i))), fn(i)))


def bi_zip(ip, a, k):
    its = [ip.iter_of(x) for x in a]
    if all(isinstance(i, list) for i in its):
        return PyList([tuple(t) for t in zip(*its)])
    conv = []
    d0 = None
    for i in its:
        if isinstance(i, list):
            i = (Dim(len(i)), (lambda l: lambda q: l[scalar(tt(q))] if isinstance(scalar(tt(q)), int) else _uns("zip"))(i))
        d, fn = i
        if d0 is None:
            d0 = d
        elif not d.same(d0):
            if not (d.plain() and d0.plain()):
                raise Unsupported("zip of masked axes")
            if not ip.m.branch(eq(d.n, d0.n)):
                if ip.m.branch(lt(d.n, d0.n)):
                    d0 = d
        conv.append(fn)
    return IterVal(d0, lambda i: tuple(fn(i) for fn in conv))


def bi_reversed(ip, a, k):
    it = ip.iter_of(a[0])
    if isinstance(it, list):
        return PyList(it[::-1])
    d, fn = it
    if not d.plain():
        raise Unsupported("reversed")
    return IterVal(d, lambda i: fn(sub(sub(d.n, ONE), tt(i))))


def bi_minmax(which):
    red = N.amax if which == "max" else N.amin
    f2 = max_ if which == "max" else min_

    def f(ip, a, k):
        if "key" in k or "default" in k:
            raise Unsupported(which + " options")
        if len(a) == 1:
            v = a[0]
            it = ip.iter_of(v)
            if isinstance(it, list):
                if not it:
                    raise Raised("ValueError", "empty sequence")
                a = it
            else:
                return red(asarr(v))
        r = tt(num(a[0]))
        for x in a[1:]:
            r = f2(r, tt(num(x)))
        return scalar(r)
    return f


def bi_sum(ip, a, k):
    it = ip.iter_of(a[0])
    start = a[1] if len(a) > 1 else 0
    if isinstance(it, list):
        r = start
        for x in it:
            r = ip.binop(ast.Add(), r, x)
        return r
    d, fn = it
    x0 = fn(var("probe", "I"))
    if is_num(x0):
        return scalar(add(tt(num(start)), N.fold("sum", [d], lambda i: n_(num(fn(i))))))
    if isinstance(x0, Arr):
        return ip.binop(ast.Add(), start, N.asum(asarr(SymList(d.n, fn)) if d.plain() else _uns("sum"), 0))
    raise Unsupported("sum")


def bi_anyall(which):
    def f(ip, a, k):
        it = ip.iter_of(a[0])
        if isinstance(it, list):
            for x in it:
                if ip.truth(x) == (which == "any"):
                    return which == "any"
            return which != "any"
        d, fn = it
        return scalar(N.fold("exists" if which == "any" else "forall", [d], lambda i: tob(tt(num_b(fn(i))))))
    return f


def num_b(v):
    if isinstance(v, T) and v.sort == "B":
        return v
    return num(v)


def bi_hasattr(ip, a, k):
    o, name = a
    if isinstance(o, Obj):
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Kept):
                ip.kept_read = True
                raise Unsupported("attribute %s: %s" % (name, v.why))
            return not (isinstance(v, Poison))
        return isinstance(o.cls, ClassVal) and o.cls.lookup(name) is not None
    try:
        ip.getattr(o, name)
        return True
    except Raised as e:
        if e.exc == "AttributeError":
            return False
        raise


def bi_getattr(ip, a, k):
    try:
        return ip.getattr(a[0], a[1])
    except Raised as e:
        if e.exc == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def bi_map(ip, a, k):
    it = ip.iter_of(a[1])
    if isinstance(it, list):
        return PyList([ip.call(a[0], [x]) for x in it])
    from .loops import run_comp
    d, fn = it
    return run_comp(ip, d, lambda i: ip.call(a[0], [fn(i)]))


BUILTINS = {
    "len": Stub("len", bi_len), "range": Stub("range", bi_range), "enumerate": Stub("enumerate", bi_enumerate), "zip": Stub("zip", bi_zip),
    "max": Stub("max", bi_minmax("max")), "min": Stub("min", bi_minmax("min")), "sum": Stub("sum", bi_sum), "reversed": Stub("reversed", bi_reversed),
    "abs": Stub("abs", lambda ip, a, k: N.np_abs(a[0])), "isinstance": Stub("isinstance", bi_isinstance),
    "any": Stub("any", bi_anyall("any")), "all": Stub("all", bi_anyall("all")), "hasattr": Stub("hasattr", bi_hasattr), "getattr": Stub("getattr", bi_getattr),
    "setattr": Stub("setattr", lambda ip, a, k: ip.setattr(*a)), "print": Stub("print", lambda ip, a, k: None), "map": Stub("map", bi_map),
    "callable": Stub("callable", lambda ip, a, k: isinstance(a[0], (FuncVal, BoundVal, Stub, ClassVal))),
    "slice": Stub("slice", lambda ip, a, k: SliceVal(None, a[0], None) if len(a) == 1 else SliceVal(a[0], a[1], a[2] if len(a) > 2 else None)),
    "pow": Stub("pow", lambda ip, a, k: N.op_pow(*a)), "divmod": Stub("divmod", lambda ip, a, k: (N.op_floordiv(*a), N.op_mod(*a))),
}
for _n in ("int", "float", "bool", "str", "list", "tuple", "dict", "set", "type", "object", "property", "staticmethod", "classmethod"):
    BUILTINS[_n] = TypeVal(_n)
for _n in EXC:
    BUILTINS[_n] = TypeVal(_n)


# ------------------------------------------------------------- external names
def wrap(f):
    return Stub(getattr(f, "__name__", "np"), lambda ip, a, k: f(*a, **k))


def np_prod_axis(a, axis=None, **k):
    return N.aprod(a, axis, **k)


def default_rng(ip, a, k):
    seed = a[0] if a else k.get("seed")
    return Opaque("default_rng", "Generator", FreshGen(seed, ip))


class FreshGen:
    """generator created by the code: draws are made, the seed is remembered"""

    def __init__(self, seed, ip):
        self.seed = seed

    def getattr(self, ip, o, name):
        if name in N.RNG_METHODS:
            f = N.RNG_METHODS[name]
            return Stub("rng." + name, lambda ip, a, k: f(o, *a, **k))
        if name == "bit_generator":
            return Opaque("bitgen", "BitGenerator", o)
        raise Unsupported("generator method " + name)


def np_maximum(a, b):
    return N.ew(lambda x, y: max_(n_(x), n_(y)), a, b, kind=N.k2(a, b))


def np_minimum(a, b):
    return N.ew(lambda x, y: min_(n_(x), n_(y)), a, b, kind=N.k2(a, b))


def np_cmp(sym):
    return lambda a, b, **k: N.cmp(sym, a, b)


def np_allclose(*a, **k):
    raise Unsupported("allclose")


def np_size(a, axis=None):
    a = asarr(a)
    return scalar(mul(*[d.count() for d in a.shape])) if axis is None else scalar(a.shape[int(axis)].count())


def np_diff1(f):
    return f


NP = {
    "array": N.np_array, "asarray": lambda v, dtype=None, **k: v if isinstance(v, Arr) and dtype is None else N.np_array(v, dtype), "zeros": N.np_zeros, "ones": N.np_ones, "full": N.np_full,
    "empty": N.np_empty, "eye": N.np_eye, "identity": N.np_eye, "arange": N.np_arange, "repeat": N.np_repeat, "tile": N.np_tile, "concatenate": N.np_concatenate,
    "append": N.np_append, "insert": N.np_insert, "bincount": N.np_bincount, "delete": N.np_delete, "unique": N.np_unique, "argsort": N.np_argsort, "where": N.np_where, "clip": N.np_clip,
    "outer": N.np_outer, "einsum": N.np_einsum, "matmul": N.np_matmul, "dot": N.np_dot, "trace": N.np_trace, "transpose": N.transpose, "reshape": N.reshape,
    "atleast_1d": N.atleast_1d, "atleast_2d": N.atleast_2d, "log": N.np_log, "exp": N.np_exp, "sqrt": N.np_sqrt, "square": N.np_square, "abs": N.np_abs, "absolute": N.np_abs,
    "floor": N.np_floor, "ceil": N.np_ceil, "cov": N.np_cov, "sum": N.asum, "prod": N.aprod, "mean": N.amean, "max": N.amax, "amax": N.amax, "min": N.amin, "amin": N.amin,
    "argmax": N.argext("argmax"), "argmin": N.argext("argmin"), "cumsum": N.cum("sum"), "cumprod": N.cum("prod"), "any": N.aany, "all": N.aall,
    "maximum": np_maximum, "minimum": np_minimum, "add": N.op_add, "subtract": N.op_sub, "multiply": N.op_mul, "divide": N.op_div, "true_divide": N.op_div, "power": N.op_pow, "negative": N.op_neg,
    "equal": np_cmp("=="), "not_equal": np_cmp("!="), "greater": np_cmp(">"), "greater_equal": np_cmp(">="), "less": np_cmp("<"), "less_equal": np_cmp("<="),
    "logical_not": N.logical_not, "logical_and": N.bit_and, "logical_or": N.bit_or, "copy": lambda a, **k: asarr(a).copy(), "size": np_size,
    "linalg.inv": N.linv, "linalg.det": N.ldet, "linalg.slogdet": N.lslogdet,
    "log1p": lambda x: N.np_log(N.op_add(1, x)),
    "zeros_like": lambda a, dtype=None: N.np_zeros(tuple(d.n for d in asarr(a).shape), dtype) if asarr(a).ndim else 0,
    "ones_like": lambda a, dtype=None: N.np_ones(tuple(d.n for d in asarr(a).shape), dtype),
    "empty_like": lambda a, dtype=None: N.np_empty(tuple(d.n for d in asarr(a).shape), dtype),
    "expand_dims": lambda a, axis: N.getitem(asarr(a), (None, Ellipsis) if num(axis) is ZERO else (Ellipsis, None)),
    "shape": lambda a: tuple(scalar(d.count()) for d in asarr(a).shape), "ndim": lambda a: asarr(a).ndim,
    "inner": N.np_dot, "stack": N.np_stack, "hstack": N.np_hstack, "vstack": N.np_vstack, "column_stack": N.np_column_stack, "count_nonzero": N.np_count_nonzero, "full_like": N.np_full_like,
    "flip": N.np_flip, "flipud": lambda a: N.np_flip(a, 0), "diff": N.np_diff, "expm1": lambda x: N.op_sub(N.np_exp(x), 1),
}
EXT = {
    "scipy.special.loggamma": N.sc_loggamma, "scipy.special.gammaln": N.sc_loggamma, "scipy.special.digamma": N.sc_digamma, "scipy.special.psi": N.sc_digamma, "scipy.special.betaln": N.sc_betaln,
    "scipy.stats.beta.logpdf": N.beta_logpdf, "scipy.stats.binom.logpmf": N.binom_logpmf, "scipy.stats.betabinom.logpmf": N.betabinom_logpmf, "scipy.stats.dirichlet.logpdf": N.dirichlet_logpdf,
    "scipy.stats.multivariate_normal.logpdf": N.mvn_logpdf, "scipy.stats.multivariate_normal.pdf": N.mvn_pdf, "scipy.stats.multivariate_normal.rvs": N.mvn_rvs,
    "scipy.stats.invwishart.rvs": N.invwishart_rvs, "scipy.stats.invwishart.logpdf": N.invwishart_logpdf, "scipy.stats.norm.pdf": N.norm_pdf, "scipy.stats.norm.logpdf": N.norm_logpdf,
    "scipy.stats.beta.pdf": lambda *a, **k: N.np_exp(N.beta_logpdf(*a, **k)),
}
UFUNC_OUTER = {"greater": (gt, "B"), "less": (lt, "B"), "greater_equal": (ge, "B"), "less_equal": (le, "B"), "equal": (eq, "B"), "add": (add, "R"), "subtract": (sub, "R"), "multiply": (mul, "R")}


def ext_attr(o, name):
    path = o.path + "." + name
    if path.startswith("numpy."):
        p = path[6:]
        if p in NP:
            f = NP[p]
            return Stub("np." + p, (lambda f, p: lambda ip, a, k: f(*a, **k))(f, p)) if p not in UFUNC_OUTER else UFunc(p, f)
        if p in ("inf", "Inf", "infty"):
            return float("inf")
        if p == "nan":
            return NAN
        if p == "pi":
            return app("pi")
        if p == "e":
            return exp_(ONE)
        if p in ("float64", "int64", "bool_", "int32", "intp"):
            return TypeVal(p)
        if p in ("ndarray", "integer", "floating"):
            return TypeVal(p)
        if p == "newaxis":
            return None
        if p == "finfo":
            return Stub("finfo", lambda ip, a, k: Opaque("finfo", "finfo"))
        if p == "errstate":
            return Stub("errstate", lambda ip, a, k: Opaque("errstate"))
        if p == "random.default_rng":
            return Stub("default_rng", default_rng)
        if p == "random.Generator":
            return TypeVal("Generator")
        if p == "random.RandomState":
            return Stub("RandomState", lambda ip, a, k: Opaque("randomstate", "RandomState", a[0] if a else None))
        if p.startswith("random.") and p != "random":
            return Stub("np." + p, lambda ip, a, k: global_random(ip, p))
        return ExtMod(path)
    if path in EXT:
        f = EXT[path]
        return Stub(path, lambda ip, a, k: f(*a, **k))
    if path == "pandas.DataFrame":
        return TypeVal("DataFrame")
    if path == "pandas.Series":
        return TypeVal("Series")
    if path == "collections.defaultdict":
        return Stub("defaultdict", lambda ip, a, k: DefDict(("empty",), a[0] if a else None))
    if path.startswith("random."):
        return Stub(path, lambda ip, a, k: global_random(ip, path))
    if path.startswith("math."):
        m = {"math.log": N.np_log, "math.exp": N.np_exp, "math.sqrt": N.np_sqrt, "math.lgamma": N.sc_loggamma, "math.floor": lambda x: scalar(floor_(num(x))), "math.ceil": lambda x: scalar(ceil_(num(x)))}.get(path)
        if m:
            return Stub(path, lambda ip, a, k: m(*a, **k))
        if path == "math.pi":
            return app("pi")
    h = EXTHOOKS.get(path)
    if h is not None:
        return h
    return ExtMod(path)


class KM:
    """sklearn's k-means under its contract: a label in [0, n_clusters) for every row, drawn from the
    given random state"""

    def __init__(self, k, kw):
        self.k, self.kw, self.labels = k, kw, None

    def fit(self, ip, o, a, k):
        m = ip.m
        if m.kmeans is None:
            raise Unsupported("k-means outside its contract")
        y = N.asarr(a[0])
        if y.ndim != 2:
            raise Raised("ValueError", "Expected 2D array")
        g = self.kw.get("random_state")
        if isinstance(g, Opaque) and g.pytype == "RandomState":
            g = g.data
        if isinstance(g, Opaque) and g.pytype == "BitGenerator":
            g = g.data
        m.add_draw("kmeans", lambda *i: {}, y.shape[:1], None, g)
        m.event("kmeans", self.k, y, y.snap())
        L, n = m.kmeans
        if m.decider(m.facts, eq(y.shape[0].count(), n)) is not True or not y.shape[0].plain():
            raise Unsupported("k-means of other data")
        self.labels = Arr((y.shape[0],), L.snap(), "I")
        return self.labels

    def getattr(self, ip, o, name):
        if name == "fit_predict":
            return Stub(name, lambda ip, a, k: self.fit(ip, o, a, k))
        if name == "fit":
            return Stub(name, lambda ip, a, k: (self.fit(ip, o, a, k), o)[1])
        if name == "labels_" and self.labels is not None:
            return self.labels
        raise Unsupported("KMeans." + name)


def kmeans(ip, a, k):
    n = a[0] if a else k.get("n_clusters", const(8))
    return Opaque("kmeans", "KMeans", KM(n, k))


EXTHOOKS = {"sklearn.cluster.KMeans": Stub("KMeans", kmeans)}


def global_random(ip, p):
    ip.foreign.append((p, ip.m.where))
    raise Unsupported("global random generator: " + p)


class UFunc(Stub):
    def __init__(self, name, f):
        Stub.__init__(self, "np." + name, lambda ip, a, k: f(*a, **k))
        self.uname = name


_old_getattr = Interp.getattr


def _getattr(self, o, name):
    if isinstance(o, UFunc) and name == "outer":
        f, k = UFUNC_OUTER[o.uname]
        g = N.ufunc_outer(f, k)
        return Stub("outer", lambda ip, a, kw: g(*a))
    if isinstance(o, Stub) and name in ("reduce", "accumulate", "at", "outer"):
        raise Unsupported("ufunc." + name)
    return _old_getattr(self, o, name)


Interp.getattr = _getattr

from . import loops  # noqa: E402,F401
