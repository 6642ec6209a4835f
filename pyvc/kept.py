"""Which names of the package hold state kept between calls: attributes stored (or changed in place) outside
constructors, changed containers at module or class level.  A contract starts from an arbitrary object, so the
value of such a name is unknown unless the contract states it; reading it leaves the obligation undecided."""
import ast
import os

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "remove", "sort", "reverse", "add", "discard", "fill", "resize", "put",
            "itemset", "move_to_end", "appendleft", "extendleft", "popleft", "__setitem__", "__delitem__", "partition", "byteswap", "setflags"}


def _trees(repo):
    pk = os.path.join(repo, "pyrichlet")
    for dp, _, fs in sorted(os.walk(pk)):
        for f in sorted(fs):
            if f.endswith(".py") and f not in ("_version.py",):
                try:
                    yield f, ast.parse(open(os.path.join(dp, f)).read())
                except SyntaxError:
                    pass


def _base(n):
    """x.a[..].. -> the attribute or name at the root of the subscripts"""
    while isinstance(n, (ast.Subscript, ast.Starred)):
        n = n.value
    return n


def analyse(repo):
    """({(class or None, attribute)} changed outside constructors, {module-level name} changed inside functions,
    {attribute} whose value gets another name)"""
    trees = [t for _, t in _trees(repo)]
    fns, refs = [], {}
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fns.append(n)
    inner = {}
    for f in fns:
        for q in ast.walk(f):
            inner.setdefault(id(q), []).append(f)
    for t in trees:
        for q in ast.walk(t):
            nm = q.attr if isinstance(q, ast.Attribute) else q.id if isinstance(q, ast.Name) else None
            if nm is not None:
                fs = inner.get(id(q), [])
                refs.setdefault(nm, set()).add(fs[-1].name if fs else "<module>")
    init = {"__init__"}
    while True:   # helpers used by constructors only
        more = {f.name for f in fns if f.name.startswith("_") and not f.name.startswith("__") and f.name not in init and refs.get(f.name) and refs[f.name] <= init}
        if not more:
            break
        init |= more
    attrs, names, aliased = set(), set(), set()
    owner = {}
    for t in trees:
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                for q in ast.walk(c):
                    owner.setdefault(id(q), c.name)

    def attr(b):
        self_ = isinstance(b.value, ast.Name) and b.value.id == "self"
        attrs.add((owner.get(id(b)) if self_ else None, b.attr))

    def hit(n, rebind):
        b = _base(n)
        if isinstance(b, (ast.Tuple, ast.List)):
            for x in b.elts:
                hit(x, rebind)
        elif isinstance(b, ast.Attribute):
            attr(b)
            if isinstance(b.value, ast.Name):
                names.add(b.value.id) if b.value.id != "self" else None
        elif isinstance(b, ast.Name) and (b is not n or not rebind):
            names.add(b.id)

    def alias(n):
        if isinstance(n, ast.Attribute):
            aliased.add(n.attr)
        elif isinstance(n, ast.Name):
            names.add(n.id)

    def scan(n, infn):
        for q in ast.iter_child_nodes(n):
            if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef)):
                scan(q, q.name not in init)
                continue
            if infn:
                if isinstance(q, (ast.Assign, ast.Delete)):
                    for t in q.targets:
                        hit(t, True)
                    alias(getattr(q, "value", None))
                elif isinstance(q, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                    hit(q.target, not isinstance(q, ast.AugAssign))
                elif isinstance(q, ast.With):
                    for i in q.items:
                        if i.optional_vars is not None:
                            hit(i.optional_vars, True)
                elif isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in MUTATORS:
                    hit(q.func.value, False)
                elif isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ("setattr", "delattr") and len(q.args) > 1:
                    attrs.add((None, q.args[1].value if isinstance(q.args[1], ast.Constant) else "*"))
                elif isinstance(q, ast.keyword) and q.arg == "out":
                    hit(q.value, False)
                if isinstance(q, ast.Call):
                    for x in q.args:
                        alias(x)
            scan(q, infn)
    for t in trees:
        scan(t, False)
    return attrs, names, aliased


# the attributes changed outside constructors at the pinned commit: the state the contracts and scenarios know of
KNOWN = {"_count_base", "_d_base", "_v_base", "affinity_matrix", "bernoullis", "binomials", "d", "gibbs_fitted", "map_log_likelihood", "map_sim_params", "mu_prior", "n",
         "n_atoms", "n_groups", "nu_prior", "p", "psi_prior", "rng", "show_progress", "sim_params", "theta", "total_saved_steps", "u", "v", "var_converged", "var_d", "var_fitted", "var_k",
         "var_theta", "variational_d", "variational_k", "variational_params", "w", "y", "y_density"}


def other(attrs):
    """state beyond the known one"""
    return {k for _, k in attrs if k not in KNOWN and k != "*"}


class Reads:
    """names of further kept state that the running code reads (nothing is watched while there is none)"""

    def __init__(self):
        self.names = None
        self.seen = set()

    def install(self, repo, module):
        if self.names is not None:
            return
        self.names = other(analyse(repo)[0])
        if not self.names:
            return
        import importlib
        import inspect
        import pkgutil
        import sys
        for m in pkgutil.walk_packages(module.__path__, "pyrichlet."):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
        names, seen, done = self.names, self.seen, set()

        def patch(c):
            get = c.__getattribute__

            def f(o, k):
                if k in names:
                    seen.add(k)
                return get(o, k)
            try:
                c.__getattribute__ = f
            except (AttributeError, TypeError):
                pass
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "pyrichlet":
                for c in vars(m).values():
                    if inspect.isclass(c) and c.__module__.startswith("pyrichlet") and c not in done and not issubclass(c, BaseException):
                        done.add(c)
        for c in done:
            if not any(b in done for b in c.__mro__[1:]):
                patch(c)


READS = Reads()
