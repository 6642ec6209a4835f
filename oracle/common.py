"""Concrete contract checking on the real code (replay layer).

Every function here is an independent statement of a property, evaluated on
the real pyrichlet code from /repo with concrete inputs.  It is used (a) to
replay counter-models of failed obligations, (b) as the bounded stand-in for
functions out of the verifier's reach and (c) to cross-check the verifier's
assumed library contracts.
"""
import json
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
np.seterr(all="ignore")
from pyvc.kept import READS  # noqa: E402
import pyrichlet  # noqa: E402
READS.install(REPO, pyrichlet)


class Undecided(Exception):
    """the harness itself could not observe something (never a violation)"""


class Stop(Exception):
    pass


class Hang(Exception):
    pass


class limit:
    """wall-clock limit of one scenario; running out of it inside the repository
    while actually computing is a hang, anything else is undecided"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        cpu = time.thread_time()

        def h(sig, frame):
            if time.thread_time() - cpu > 0.7 * self.s:
                raise Hang("no answer after %s s" % self.s)
            raise Undecided("time limit of %s s" % self.s)
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Ctx:
    def __init__(self, prop, seed=1, tier="quick", budget=120.0, max_fail=3):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.cases = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.undecided = []
        self.max_fail = max_fail
        self.group = ""
        self.skipped = 0
        self.only = None
        self.forced = False

    def force(self):
        """from here on the scenario puts objects in a state by hand: failures where the code reads
        state of its own that goes along with it are undecided"""
        self.forced = True
        READS.seen.clear()

    def check_forced(self):
        if self.forced and READS.seen:
            raise Undecided("state set by hand without %s" % ", ".join(sorted(READS.seen)))

    def rng(self, *salt):
        return np.random.default_rng([self.seed] + [abs(hash_str(str(s))) for s in salt])

    def more(self):
        return time.time() - self.t0 < self.budget

    def ok(self, cond, what, **data):
        self.evals += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not cond:
            self.fail(what, **data)
        return bool(cond)

    def fail(self, what, **data):
        self.check_forced()
        self.failures.append({"case": self.group, "what": what, "data": {k: rep(v) for k, v in data.items()}})
        if len(self.failures) >= self.max_fail:
            raise Stop()

    def close(self, a, b, what, rtol=1e-7, atol=1e-9, **data):
        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            good = a_.shape == b_.shape and bool(np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=False))
        except (TypeError, ValueError):
            good = False
        return self.ok(good, what, got=a, expected=b, **data)

    def case(self, name, f, *args, **kw):
        """run one scenario; exceptions raised by the repository are failures"""
        if self.only is not None and name != self.only:
            return
        if time.time() - self.t0 > self.budget:
            self.skipped += 1
            return
        self.cases += 1
        self.distinct.add(name)
        if len(self.samples) < 12:
            self.samples.append(name)
        self.group = name
        self.forced = False
        try:
            with limit(kw.pop("_limit", 20)):
                f(self, *args, **kw)
        except Stop:
            raise
        except Undecided as e:
            self.undecided.append("%s: %s" % (name, e))
        except Exception as e:  # noqa: BLE001
            if self.forced and READS.seen:
                self.undecided.append("%s: state set by hand: %s" % (name, e))
                return
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, Hang) and self.prop in ("C01", "C03"):
                # these properties only speak about calls that return
                self.undecided.append("%s: %s" % (name, e))
                return
            last_repo = [fr for fr in tb if fr.filename.startswith(os.path.join(REPO, "pyrichlet"))]
            if last_repo:
                self.fail("unexpected %s: %s" % (type(e).__name__, e),
                          at="%s:%s in %s" % (os.path.relpath(last_repo[-1].filename, REPO), last_repo[-1].lineno, last_repo[-1].name),
                          trace=traceback.format_exc()[-1500:])
            else:
                self.undecided.append("%s: harness %s: %s" % (name, type(e).__name__, e))

    def raises(self, exc, f, what, **data):
        self.evals += 1
        try:
            r = f()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(what + " (raised %s: %s instead of %s)" % (type(e).__name__, e, exc.__name__), **data)
            return False
        self.fail(what + " (returned %s instead of raising %s)" % (rep(r), exc.__name__), **data)
        return False

    def result(self):
        return {"property": self.prop, "seed": self.seed, "tier": self.tier, "evaluations": self.evals, "cases": self.cases,
                "distinct": len(self.distinct), "samples": self.samples, "failures": self.failures,
                "undecided": self.undecided[:20], "n_undecided": len(self.undecided), "skipped_over_budget": self.skipped, "wall_s": round(time.time() - self.t0, 2)}


def hash_str(s):
    h = 2166136261
    for c in s.encode():
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h


def rep(v):
    try:
        if isinstance(v, np.ndarray):
            if v.size > 60:
                return "array%s[%s ...]" % (v.shape, ", ".join("%.6g" % x for x in v.ravel()[:20]))
            return np.array2string(v, precision=17, separator=", ", threshold=100)
        if isinstance(v, (np.floating, np.integer)):
            return v.item()
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        return repr(v)[:1500]
    except Exception:  # noqa: BLE001
        return "<unprintable>"


def ks_uniform(u):
    """p-value that u are iid uniform on [0, 1]"""
    from scipy.stats import kstest
    u = np.asarray(u, dtype=float).ravel()
    if np.any(~np.isfinite(u)) or np.any(u < -1e-12) or np.any(u > 1 + 1e-12):
        return 0.0
    return float(kstest(u, "uniform").pvalue)


P_MIN = 1e-9


def z_test(obs, p):
    """two sided p-value for sum of independent Bernoulli(p_i) indicators"""
    from scipy.stats import norm
    obs, p = np.asarray(obs, float), np.asarray(p, float)
    var = float(np.sum(p * (1 - p)))
    diff = float(np.sum(obs - p))
    if var < 1e-9:
        return 1.0 if abs(diff) < 1e-6 + 0.5 * 0 or abs(diff) < 1e-3 else 0.0
    if var < 25:      # exact-ish: Bernstein bound
        t = abs(diff)
        return float(min(1.0, 2 * np.exp(-t * t / 2 / (var + t / 3))))
    return float(2 * norm.sf(abs(diff) / np.sqrt(var)))


class Rec(np.random.Generator):
    """Generator recording every draw: list of (kind, params, value)"""

    def __init__(self, seed=0):
        super().__init__(np.random.PCG64(seed))
        self.log = []

    def _r(self, kind, params, val):
        self.log.append((kind, params, np.array(val, copy=True)))
        return val

    def beta(self, a, b, size=None):
        return self._r("beta", {"a": np.array(a, float), "b": np.array(b, float)}, super().beta(a, b, size))

    def binomial(self, n, p, size=None):
        return self._r("binomial", {"n": np.array(n), "p": np.array(p, float)}, super().binomial(n, p, size))

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._r("uniform", {"low": np.array(low, float), "high": np.array(high, float)}, super().uniform(low, high, size))

    def random(self, size=None, *a, **k):
        return self._r("uniform", {"low": np.array(0.), "high": np.array(1.)}, super().random(size, *a, **k))

    def dirichlet(self, alpha, size=None):
        return self._r("dirichlet", {"alpha": np.array(alpha, float)}, super().dirichlet(alpha, size))

    def choice(self, a, size=None, replace=True, p=None, *rest, **kw):
        return self._r("choice", {"a": a, "p": None if p is None else np.array(p, float)},
                       super().choice(a, size, replace, p, *rest, **kw))


def set_rng(obj, rng):
    """replace every generator held by a model (recursively for its weight model)"""
    n = 0
    for k, v in list(vars(obj).items()):
        if isinstance(v, np.random.Generator):
            setattr(obj, k, rng)
            n += 1
        elif hasattr(v, "__dict__") and type(v).__module__.startswith("pyrichlet.weight_models"):
            n += set_rng(v, rng)
    if n == 0:
        raise Undecided("no generator attribute found")
    return n


def sticks(w):
    """stick fractions v_j = w_j / (1 - sum_{l<j} w_l), computed multiplicatively"""
    v = np.empty(len(w))
    rest = 1.0
    for j, x in enumerate(w):
        v[j] = x / rest if rest > 0 else np.nan
        rest = rest * (1 - v[j])
    return v


def sticks_of(m, w):
    """the model's own stick fractions when they reproduce its weights, else
    the ones recovered from the weights"""
    w = np.asarray(w, float)
    v = getattr(m, "v", None)
    if isinstance(v, np.ndarray) and v.ndim == 1 and len(v) >= len(w):
        v = np.array(v[:len(w)], float)
        if np.allclose(w, v * np.concatenate(([1], np.cumprod(1 - v)[:-1])), rtol=1e-10, atol=1e-300):
            return v
    return sticks(w)


def freeze(x):
    """deep value snapshot"""
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, x.dtype.kind, x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(freeze(v) for v in x))
    return ("val", repr(x))


def near(a, b, rtol=1e-6):
    """equality of frozen values up to floating-point rounding"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 4 and len(b) == 4 and a[0] == "arr" and b[0] == "arr":
        if a[1] != b[1] or a[2] != b[2]:
            return False
        if a[2] != "f":
            return a[3] == b[3]
        n = int(np.prod(a[1])) or 1
        dt = {8: "f8", 4: "f4"}.get(len(a[3]) // n, "f8")
        x, y = np.frombuffer(a[3], dt), np.frombuffer(b[3], dt)
        return bool(np.allclose(x, y, rtol=rtol, atol=1e-9 * (1 + (np.max(np.abs(x[np.isfinite(x)]), initial=0))), equal_nan=True))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(near(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=rtol, atol=1e-9, equal_nan=True))
    return a == b
