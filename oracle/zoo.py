import numpy as np
from .common import *
from pyrichlet import weight_models as W

INF = ["DirichletProcess", "PitmanYorProcess", "GeometricProcess", "BetaInBeta", "BetaInDirichlet", "BetaBernoulli", "BetaBinomial"]
FIN = ["DirichletDistribution", "EqualWeighting", "FrequencyWeighting"]

CFG = {
    "DirichletProcess": [dict(), dict(alpha=0.4), dict(alpha=2.5)],
    "PitmanYorProcess": [dict(), dict(pyd=0.3, alpha=0.7), dict(pyd=0.5, alpha=-0.2), dict(pyd=0.15, alpha=3), dict(pyd=0.85, alpha=2.0)],
    "GeometricProcess": [dict(), dict(a=2, b=0.6), dict(a=0.7, b=3.0), dict(a=4, b=2)],
    "BetaInBeta": [dict(), dict(x=0.4, alpha=1.7, a=2, b=1.3), dict(x=0.8, alpha=0.6, a=0.8, b=2, p_method="independent"),
                   dict(x=0.5, alpha=2, p=0.37, p_method="static"), dict(x=1, a=2, b=1.5), dict(x=0, alpha=3.1)],
    "BetaInDirichlet": [dict(), dict(a=0.8, alpha=1.6), dict(a=4, alpha=0.7), dict(a=0, alpha=2)],
    "BetaBernoulli": [dict(), dict(p=0.35, alpha=1.8), dict(p=0, alpha=2), dict(p=0.8, alpha=0.6)],
    "BetaBinomial": [dict(), dict(n=3, alpha=1.5), dict(n=12, alpha=0.8), dict(n=1, alpha=3)],
    "DirichletDistribution": [dict(n=3), dict(n=4, alpha=0.7), dict(n=3, alpha=[0.5, 2.0, 3.5]), dict(n=1), dict(n=6, alpha=2)],
    "EqualWeighting": [dict(), dict(n=4), dict(n=7)],
    "FrequencyWeighting": [dict(), dict(n=5), dict(n=3)],
}


def make(name, cfg, seed=0):
    cfg = dict(cfg)
    if "alpha" in cfg and isinstance(cfg["alpha"], list):
        cfg["alpha"] = list(cfg["alpha"])
    m = getattr(W, name)(rng=int(seed), **cfg)
    return m


def models(names=None):
    for name in names or INF + FIN:
        for cfg in CFG[name]:
            yield name, cfg


def rand_d(rng, hi=None, n=None):
    """assignment vectors of every flavour: gaps, single, long, constant"""
    kind = rng.integers(0, 6)
    n = n or int(rng.choice([1, 2, 3, 5, 8, 20]))
    hi = hi if hi is not None else int(rng.choice([1, 2, 3, 5, 9]))
    if kind == 0:
        d = np.full(n, rng.integers(0, hi))
    elif kind == 1:
        d = np.sort(rng.integers(0, hi, n))[::-1].copy()
    elif kind == 2:
        d = np.minimum(rng.integers(0, hi, n) * 2, hi - 1)
    else:
        d = rng.integers(0, hi, n)
    return d.astype(np.int64)


def counts(d, k=None):
    d = np.asarray(d, int)
    k = k or (max(d) + 1 if len(d) else 0)
    n = np.array([np.sum(d == j) for j in range(k)], float)
    m = np.array([np.sum(d > j) for j in range(k)], float)
    return n, m


def label(name, cfg):
    return "%s(%s)" % (name, ", ".join("%s=%r" % kv for kv in cfg.items()))


def slow_tail(name, cfg, m, x):
    """would tail(x) need thousands of extension steps?"""
    if name in FIN or x <= 0:
        return False
    v = np.asarray(getattr(m, "v", []), float)
    if name == "PitmanYorProcess" and cfg.get("pyd", 0) > 0.4:
        return x > (0.6 if cfg["pyd"] < 0.8 else 0.2)
    p = None
    if name == "GeometricProcess" or (name == "BetaInBeta" and cfg.get("x", 0) == 1):
        p = m.p if name == "GeometricProcess" or len(v) else 0.0
    elif name == "BetaInDirichlet" and len(v):
        p = np.mean(v)
    elif name == "BetaBernoulli" and cfg.get("p", 1) < 0.5 and len(v):
        p = v[-1]
    if p is None:
        return name in ("BetaInDirichlet", "BetaBernoulli") and len(v) == 0 and x > 0.9
    return p <= 0 or np.log(1 - x) / np.log1p(-min(p, 1 - 1e-12)) > 400
