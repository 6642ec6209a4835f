"""author tool: random small mutants of /repo that pass its tests; which of them the checks notice.
mutants.py gen SEED N FILE.json [path-regex]   (mutants that survive the repository's tests)
mutants.py run FILE.json OUT.json              (checks, most relevant property first, until one notices)"""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/pyrichlet"
PY = "/opt/venv/bin/python"
MAPW = [("random_assignment", "C07 C27"), ("assignation_log_likelihood", "C08"), ("weighting_log_likelihood", "C08"), ("fit_variational", "C09 C11"), ("variational_mean_w_j|variational_mean_log_w_j|mode", "C10 C11"),
        ("variational_mean_log", "C11 C10"), ("tail", "C03 C01"), ("complete", "C02 C04 C01 C03"), ("random", "C05 C04 C01 C06"), ("^fit$|reset", "C06 C05"), ("get_|normalized", "C01 C07"), ("__init__|_validate", "C04 C05 C27 C01 C09 C25 C10"),
        ("log_likelihood", "C08"), ("", "C05 C04 C01 C02 C06 C08 C11")]
MAPM = [("^_update_atoms", "C12"), ("^_update_d$", "C13 C28"), ("_update_weights", "C13"), ("^fit_gibbs", "C14 C15 C16 C27 C25"), ("^_gibbs_step", "C13 C14"), ("_save|_get_run", "C14 C15"),
        ("_update_map|log_likelihood", "C15"), ("gibbs_.*density", "C17 C25"), ("affinity|spectral|gibbs_map_cluster|get_n", "C18 C24 C25 C15"), ("var_map_cluster", "C24"), ("var_.*density", "C23 C25"),
        ("pairplot", ""), ("^get_", "C14 C25 C15"), ("_initialize_common", "C16 C26 C12"), ("_initialize_gibbs", "C16 C14 C13"), ("atom_generator", "C13 C12 C16"), ("_initialize_var", "C22 C16 C19"), ("fit_variational|_maximize", "C22 C16 C25"),
        ("_update_var_d", "C19"), ("_update_var_theta", "C20"), ("_update_var_w", "C22 C09"), ("elbo|_e_", "C21 C22"), ("_cast", "C26"), ("__init__", "C25 C27 C16 C12"), ("", "C14 C16 C26 C25 C17 C18 C23 C24")]
MAPF = [("", "C29 C28 C12 C13 C08 C23")]


def spans(tree):
    """(function, node) of every node inside a function"""
    out = []

    def go(n, fn):
        for c in ast.iter_child_nodes(n):
            f = c.name if isinstance(c, ast.FunctionDef) else fn
            if f and not isinstance(c, ast.FunctionDef):
                out.append((f, c, n))
            go(c, f)
    go(tree, None)
    return out


def mutations(s):
    tree = ast.parse(s)
    lines = s.split("\n")
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()) + 1)
    b = s.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        p, q = pos(n)
        return b[p:q].decode()
    out = []

    def put(fn, n, new, kind):
        p, q = pos(n)
        out.append((fn, p, q, new, kind, n.lineno))
    for fn, n, parent in spans(tree):
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
            if sw:
                put(fn, n, "(%s) %s (%s)" % (text(n.left), sw, text(n.right)), "binop")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(fn, n, "(%s)" % text(n.left), "drop-right")
            if isinstance(n.op, (ast.Mult, ast.Div)):
                put(fn, n, "(%s)" % text(n.left), "drop-right")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if sw:
                put(fn, n, "%s %s %s" % (text(n.left), sw, text(n.comparators[0])), "compare")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(fn, n, str(n.value + 1), "const+1")
            if n.value > 0:
                put(fn, n, str(n.value - 1), "const-1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(fn, n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            put(fn, n, repr(n.value * 2), "const*2")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n.test, ast.BoolOp):
                for v in n.test.values:
                    put(fn, n.test, text(v), "cond-one")
            else:
                put(fn, n.test, "not (%s)" % text(n.test), "negate")
        elif isinstance(n, ast.Call):
            if len(n.keywords) >= 1 and len(n.args) + len(n.keywords) > 1:
                for k in n.keywords:
                    if k.arg in ("axis", "rng", "initial", "minlength", "copy", "random_state"):
                        rest = [text(a) for a in n.args] + ["%s=%s" % (q.arg, text(q.value)) for q in n.keywords if q is not k and q.arg]
                        put(fn, n, "%s(%s)" % (text(n.func), ", ".join(rest)), "drop-kw")
            if len(n.args) == 2 and not n.keywords:
                put(fn, n, "%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])), "swap-args")
            ks = [k for k in n.keywords if k.arg in ("a", "b", "alpha", "beta", "loc", "scale", "low", "high")]
            if len(ks) == 2:
                rest = [text(a) for a in n.args] + ["%s=%s" % (q.arg, text(ks[1].value if q is ks[0] else ks[0].value if q is ks[1] else q.value)) for q in n.keywords if q.arg]
                put(fn, n, "%s(%s)" % (text(n.func), ", ".join(rest)), "swap-kw")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(fn, n, text(n.func.value), "drop-copy")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            t = n.targets[0] if isinstance(n, ast.Assign) else None
            if t is None or isinstance(t, (ast.Attribute, ast.Subscript)):
                put(fn, n, "pass", "drop-stmt")
            if isinstance(n, ast.AugAssign):
                put(fn, n, "%s = %s" % (text(n.target), text(n.value)), "aug->set")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None and n.step is None:
                put(fn, n, ":", "slice")
            elif n.upper is not None and n.lower is None and n.step is None:
                put(fn, n, ":", "slice")
        elif isinstance(n, ast.BoolOp):
            put(fn, n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % text(v) for v in n.values), "boolop")
        elif isinstance(n, ast.Continue):
            put(fn, n, "break", "continue")
        elif isinstance(n, ast.Break):
            put(fn, n, "continue", "break") if False else None
    return b, out


def props(f, fn):
    t = MAPW if f.startswith("weight_models") else MAPM if f.startswith("mixture_models") and not f.endswith("_utils.py") else MAPF
    for rx, ps in t:
        if re.search(rx, fn):
            return ps.split()


def scratch(f, s):
    d = tempfile.mkdtemp(prefix="mutant_", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    open(os.path.join(d, "pyrichlet", f), "w").write(s)
    return d


def survives(m):
    d = scratch(m["file"], m["src"])
    env = dict(os.environ, PYTHONPATH=d, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        r = subprocess.run(["timeout", "200", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", d], cwd=d, env=env, capture_output=True, text=True)
        return r.returncode == 0
    finally:
        shutil.rmtree(d)


def gen(seed, n, out, rx=""):
    rnd = random.Random(seed)
    allm = []
    for dp, _, fs in os.walk(SRC):
        for f in fs:
            p = os.path.relpath(os.path.join(dp, f), SRC)
            if not f.endswith(".py") or f == "__init__.py" or "tests" in p or f == "_version.py" or f == "_loaders.py" or not re.search(rx, p):
                continue
            b, ms = mutations(open(os.path.join(dp, f)).read())
            for fn, a, z, new, kind, line in ms:
                s = (b[:a] + new.encode() + b[z:]).decode()
                try:
                    compile(s, p, "exec")
                except SyntaxError:
                    continue
                allm.append({"file": p, "fn": fn, "line": line, "kind": kind, "old": b[a:z].decode(), "new": new, "src": s})
    print(len(allm), "mutants")
    rnd.shuffle(allm)
    pick, seen = [], {}
    for m in allm:   # spread over the functions
        k = (m["file"], m["fn"])
        if seen.get(k, 0) < 1 + n // 100:
            seen[k] = seen.get(k, 0) + 1
            pick.append(m)
        if len(pick) == n:
            break
    with cf.ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(survives, pick))
    res = [m for m, o in zip(pick, ok) if o]
    print(len(res), "of", len(pick), "survive the tests")
    json.dump(res, open(out, "w"))


def one(m):
    d = scratch(m["file"], m["src"])
    env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    got = []
    t = time.time()
    try:
        for p in props(m["file"], m["fn"]):
            r = subprocess.run([PY, "-c", "import sys,json\nfrom pyvc import main\nr=main.collect(sys.argv[1],'quick',1,400)\nprint(json.dumps([(o['status'],o['name'],o.get('replayed')) for o in r['obligations'] if o['status']!='proved']))", p],
                               cwd=ROOT, env=env, capture_output=True, text=True)
            try:
                bad = json.loads(r.stdout.splitlines()[-1])
            except Exception:
                bad = [("error", r.stderr[-200:], None)]
            ref = [x for x in bad if x[0] == "refuted"]
            q = subprocess.run([PY, "-m", "oracle.run", p, "--tier", "quick", "--seed", "1"], cwd=ROOT, env=env, capture_output=True, text=True)
            try:
                fails = json.loads(q.stdout.splitlines()[-1])["failures"]
            except Exception:
                fails = [q.stderr[-200:]]
            got.append((p, len(bad), len(ref), sum(bool(x[2]) for x in ref), len(fails), [x[1] for x in ref][:2]))
            if ref or fails:
                break
    finally:
        shutil.rmtree(d)
    return got, time.time() - t


def run(src, out):
    res = []
    ms = json.load(open(src))
    for k, m in enumerate(ms):
        got, t = one(m)
        ok = got and (got[-1][2] or got[-1][4])
        m2 = {x: m[x] for x in ("file", "fn", "line", "kind", "old", "new")}
        res.append(dict(m2, got=got, ok=bool(ok)))
        print("%3d/%d %-8s %s:%s %s L%d [%s] %r -> %r  %s %.0fs" % (k + 1, len(ms), "caught" if ok else "MISSED", m["file"], m["fn"], m["kind"], m["line"], "", m["old"][:70], m["new"][:70], [g[:5] for g in got], t), flush=True)
        json.dump(res, open(out, "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], *sys.argv[5:6])
    else:
        run(sys.argv[2], sys.argv[3])
