"""shared: an exact conditional-independence oracle under causy's independence tests.

Symbolic runs: causy computes its test statistics on fixed generic data; the normal
distribution's cdf is replaced by an oracle that recognises from the statistic which
(x, y | S) is being tested and answers p = 1 or p = 0 by the d-separation formula of
the symbolic DAG.

Concrete runs use nothing of that: data whose sample covariance is *exactly* that of a
linear model of the DAG, so that the unpatched tests themselves answer like the oracle."""
import contextlib
import itertools
import math

import numpy as np
import scipy.stats
import z3

from symx import core
from symx.core import And, Or, Not, Unsupported, SymReal, zterm
from checks.dsep import dsep_formula, subsets

N_SYM = 60


def partial_corr(C, i, j, S):
    idx = [i, j] + list(S)
    P = np.linalg.inv(C[np.ix_(idx, idx)])
    return -P[0, 1] / math.sqrt(P[0, 0] * P[1, 1])


def generic_data(names):
    rng = np.random.default_rng(12345)
    n = len(names)
    W = rng.uniform(0.2, 0.7, (n, n))
    X = rng.normal(size=(N_SYM, n)) @ (np.eye(n) + W)
    return {k: X[:, i].tolist() for i, k in enumerate(names)}


class Table:
    """statistic -> (x, y, S) on the generic data"""

    def __init__(self, names):
        self.names = names
        self.data = generic_data(names)
        X = np.array([self.data[k] for k in names])
        C = np.cov(X)
        self.z = {}
        for i, j in itertools.combinations(range(len(names)), 2):
            rest = [k for k in range(len(names)) if k not in (i, j)]
            for S in subsets(rest):
                r = partial_corr(C, i, j, S)
                z = abs(math.atanh(r)) * math.sqrt(N_SYM - len(S) - 3)
                self.z[z] = (names[i], names[j], tuple(names[k] for k in S))
        zs = sorted(self.z)
        assert min(b - a for a, b in zip(zs, zs[1:])) > 1e-5 if len(zs) > 1 else True
        self.zs = np.array(zs)

    def find(self, z):
        i = int(np.argmin(np.abs(self.zs - z)))
        if abs(self.zs[i] - z) > 1e-7:
            raise Unsupported(f"statistic {z} is none of the expected ones")
        return self.z[float(self.zs[i])]


_TABLES = {}


def table(names):
    k = tuple(names)
    if k not in _TABLES:
        _TABLES[k] = Table(list(names))
    return _TABLES[k]


class Oracle:
    current = None

    def __init__(self, ctx, names, arrow):
        self.ctx, self.names, self.arrow = ctx, list(names), arrow
        self.asked = {}
        Oracle.current = self

    def dsep(self, x, y, S):
        S = tuple(sorted(S))
        return self.ctx.memo(
            ("dsep", min(x, y), max(x, y), S),
            lambda: dsep_formula(self.names, self.arrow, min(x, y), max(x, y), S),
        )

    def indep(self, z):
        x, y, S = table(self.names).find(abs(float(z)))
        self.asked[x, y, S] = self.asked.get((x, y, S), 0) + 1
        return self.dsep(x, y, S)

    def cdf(self, z):
        t = zterm(self.indep(z))
        return SymReal(z3.If(t, z3.RealVal("1/2"), z3.RealVal(1 if float(z) >= 0 else 0)))

    def sf(self, z):
        t = zterm(self.indep(z))
        return SymReal(z3.If(t, z3.RealVal("1/2"), z3.RealVal(0 if float(z) >= 0 else 1)))


@contextlib.contextmanager
def oracle_patches():
    norm = scipy.stats.norm
    saved = {k: norm.__dict__.get(k) for k in ("cdf", "sf")}
    norm.cdf = lambda z, *a, **k: Oracle.current.cdf(z)
    norm.sf = lambda z, *a, **k: Oracle.current.sf(z)
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                norm.__dict__.pop(k, None)
            else:
                setattr(norm, k, v)
        Oracle.current = None


N_CON = 40000


def faithful_data(names, arrow):
    """concrete data with exactly the covariance of a linear model of the DAG in
    which every d-connected pair is clearly dependent"""
    n = len(names)
    for seed in range(200):
        rng = np.random.default_rng(seed)
        B = np.zeros((n, n))
        for (i, a), (j, b) in itertools.permutations(list(enumerate(names)), 2):
            if arrow(a, b):
                B[i, j] = rng.uniform(0.4, 1.1) * rng.choice([-1, 1])
        A = np.linalg.inv(np.eye(n) - B)
        C = A.T @ np.diag(rng.uniform(0.7, 1.3, n)) @ A
        ok = True
        for i, j in itertools.combinations(range(n), 2):
            for S in subsets([k for k in range(n) if k not in (i, j)]):
                sep = dsep_formula(names, arrow, names[i], names[j], tuple(names[k] for k in S))
                r = abs(partial_corr(C, i, j, S))
                if (not sep) and r < 0.03:
                    ok = False
        if ok:
            break
    rng = np.random.default_rng(99)
    Y = rng.normal(size=(N_CON, n))
    Y -= Y.mean(axis=0)
    Q, _ = np.linalg.qr(Y)
    X = (Q * math.sqrt(N_CON)) @ np.linalg.cholesky(C).T
    return {k: X[:, i].tolist() for i, k in enumerate(names)}
