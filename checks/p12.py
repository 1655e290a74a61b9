"""P12: the independence tests decide exactly at the given significance level."""
import contextlib
import itertools
import math

import numpy as np
import scipy.stats
import torch
import z3

from symx import core, samples, symmath
from symx.core import And, Or, Not, Iff, Implies, SymReal, SymInt, Unsupported
from symx.driver import Harness
from symx.symtensor import SymTensor, TorchShim
from symx.graphs import make_model
from causy.graph import GraphManager
from causy.models import TestResultAction as A
import causy.causal_discovery.constraint.independence_tests.common as C
import causy.math_utils as MU

make_model()
ASSUMPTIONS = (
    "log, sqrt, the normal cdf and the t quantile are represented by fresh reals with true facts about them "
    "(monotone, symmetric, inverse arguments); concrete replays use the real functions",
    "arithmetic over mathematical reals; the level is never exactly equal to the p-value",
)


class Sized:
    """sample of symbolic size; nothing but its length can be used"""

    _symx = True

    def __init__(self, n, label):
        self.n, self.label = n, label
        self.shape = (n,)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return self.n

    def __len__(self):
        raise Unsupported("len() of a sample of symbolic size")


def sym_len(x):
    if isinstance(x, Sized):
        return x.n
    return len(x)


class Stack:
    _symx = True

    def __init__(self, vs):
        self.labels = [v.label for v in vs]


class Cov:
    _symx = True

    def __init__(self, labels):
        self.labels = labels


class World:
    """what a test can find out about the sample"""

    def __init__(self, ctx, labels):
        self.ctx, self.labels = ctx, labels

    def P(self, a, b):
        """precision matrix of the labels"""
        a, b = sorted((a, b))
        if a == b:
            return self.ctx.real(f"P_{a}{b}", 0, 50)
        return self.ctx.real(f"P_{a}{b}", -50, 50)

    def declare(self):
        ls = self.labels
        P = {(a, b): self.P(a, b) for a in ls for b in ls}
        dominant(self.ctx, P, ls)
        return P


def sample_with_cov(Cm, n, seed=5):
    """n observations whose covariance (divisor n-1) is exactly Cm"""
    k = len(Cm)
    rng = np.random.default_rng(seed)
    Y = rng.normal(size=(n, k))
    Y -= Y.mean(axis=0)
    Q, _ = np.linalg.qr(Y)
    return (Q * math.sqrt(n - 1)) @ np.linalg.cholesky(np.array(Cm, dtype=float)).T


def graph_of(names, values, corr=None):
    g = GraphManager()
    for a in names:
        g.add_node(a, [0.0], id_=a)
        g.nodes[a].__dict__["values"] = values[a]
    for a, b in itertools.combinations(names, 2):
        g.add_edge(g.nodes[a], g.nodes[b], {})
        if corr:
            for x, y in ((a, b), (b, a)):
                g.edges[x][y].__dict__["metadata"] = {"correlation": corr[a, b]}
    return g


BUDGET = {"quick": 240, "thorough": 3000}


class Fisher(Harness):
    validate_max = 6
    timeout_ms = 4000

    def sym_patches(self):
        return symmath.shims(C, MU, torch=self.shim(), len=sym_len)

    def shim(self):
        return TorchShim()

    def p_ref(self, ctx, r, n, k):
        """two-sided Fisher z p-value of the (partial) correlation r, |r| < 1"""
        if not ctx.symbolic:
            return 2 * scipy.stats.norm.sf(abs(math.atanh(r)) * math.sqrt(n - k - 3))
        r = -r if r < 0 else r
        z = symmath.log((1 + r) / (1 - r)) * 0.5 * symmath.sqrt(n - k - 3)
        return 2 * (1 - symmath.phi(z))

    def levels(self, ctx, p):
        """the significance levels to use: any (symbolic), or the given one and the two
        next to the p-value (concrete)"""
        a = ctx.real("alpha", 0, 1, strict=True)
        if ctx.symbolic:
            ctx.assume(Not(a == p) if p is not None else True)
            return [a]
        out = [a]
        if p is not None:
            eps = 1e-6 * p + 1e-11
            out = [x for x in (a, p - eps, p + eps) if 0 < x < 1 and abs(x - p) >= eps * 0.999]
        return out

    def verdict(self, ctx, res, x, y, S):
        """(removed?, kept?) for the pair in what the test returned"""
        rs = res if isinstance(res, list) else [res]
        mine = [t for t in rs if t is not None and {t.u.id, t.v.id} == {x, y}]
        removed = [t for t in mine if t.action == A.REMOVE_EDGE_UNDIRECTED]
        for t in mine:
            ctx.check(t.action in (A.REMOVE_EDGE_UNDIRECTED, A.DO_NOTHING), "a test only removes or keeps")
        for t in removed:
            ctx.check(
                sorted(z.id for z in t.data["separatedBy"]) == sorted(S),
                f"the recorded separating set of {x},{y} is the set that was tested",
            )
        return bool(removed)

    def falsify(self):
        rs = [s * r for r in (0.01, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9) for s in (1, -1)]
        for n in (6, 7, 10, 30, 200):
            for r in rs:
                yield from self.point(r, n)


class Correlation(Fisher):
    name = "correlation"
    bounds = "every correlation in (-1, 1), sample size 4..5000, every level in (0, 1)"
    stubs = ("math and torch in the test modules, scipy norm/t -> symbolic counterparts (symbolic runs only)",)

    def point(self, r, n):
        yield {"r": r, "n": n, "alpha": 0.05}

    def run(self, ctx):
        r = ctx.real("r", -1, 1, strict=True)
        n = ctx.int("n", 4, 5000)
        if ctx.symbolic:
            symmath.Funcs(ctx)
            values = {a: Sized(n, a) for a in "AB"}
        else:
            rr = max(min(r, 1 - 1e-12), -1 + 1e-12)
            X = sample_with_cov([[1, rr], [rr, 1]], n)
            values = {a: torch.tensor(X[:, i]) for i, a in enumerate("AB")}
        p = self.p_ref(ctx, r, n, 0)
        for a in self.levels(ctx, p):
            g = graph_of("AB", values, {("A", "B"): r})
            step = C.CorrelationCoefficientTest()
            step.__dict__["threshold"] = a
            res = step(["A", "B"], g)
            removed = self.verdict(ctx, res, "A", "B", [])
            ctx.check(
                Iff(removed, p > a),
                "the edge is removed exactly if the p-value of the correlation exceeds the level",
            )


class Perfect(Fisher):
    """two columns that determine each other (listed as a finding: the code raises)"""

    name = "correlation/perfect"
    bounds = "correlation 1 or -1, sample size 4..5000, every level in (0, 1)"
    stubs = Correlation.stubs

    def falsify(self):
        return []

    def run(self, ctx):
        r = ctx.choice("r", (1.0, -1.0))
        n = ctx.int("n", 4, 5000)
        a = ctx.real("alpha", 0, 1, strict=True)
        if ctx.symbolic:
            symmath.Funcs(ctx)
            values = {x: Sized(n, x) for x in "AB"}
        else:
            base = torch.arange(n, dtype=torch.float64)
            values = {"A": base, "B": r * base}
        g = graph_of("AB", values, {("A", "B"): r})
        step = C.CorrelationCoefficientTest()
        step.__dict__["threshold"] = a
        try:
            res = step(["A", "B"], g)
        except (ZeroDivisionError, ValueError):
            ctx.check(False, "perfectly correlated variables are tested without an error")
            return
        ctx.check(not self.verdict(ctx, res, "A", "B", []), "the edge between perfectly correlated variables is kept")


class Partial(Fisher):
    stubs = Correlation.stubs

    def __init__(self, dominant):
        self.dominant = dominant
        self.name = "partial" + ("/dominant" if dominant else "")
        self.bounds = (
            f"three nodes, every {'diagonally dominant' if dominant else 'positive definite'} correlation matrix, "
            "sample size 5..5000, every level in (0, 1); each pair given the third"
        )

    def point(self, r, n):
        for s, t in ((0.3, 0.2), (-0.4, 0.3)):
            c = r * math.sqrt((1 - s * s) * (1 - t * t)) + s * t
            yield {"r_AB": c, "r_AC": s, "r_BC": t, "n": n, "alpha": 0.05}
            yield {"r_AB": s, "r_AC": c, "r_BC": t, "n": n, "alpha": 0.05}
            yield {"r_AB": s, "r_AC": t, "r_BC": c, "n": n, "alpha": 0.05}

    def run(self, ctx):
        prs = (("A", "B"), ("A", "C"), ("B", "C"))
        r = {p: ctx.real("r_" + "".join(p), -1, 1, strict=True) for p in prs}
        a, b, c = (r[p] for p in prs)
        if self.dominant:
            for q, w in ((a, b), (a, c), (b, c)):
                for e, f in itertools.product((1, -1), repeat=2):
                    ctx.assume(e * q + f * w < 1)
        elif not ctx.symbolic:
            # symbolic runs cover more than the positive definite ones
            ctx.assume(1 + 2 * a * b * c - a * a - b * b - c * c > 1e-9)
        n = ctx.int("n", 5, 5000)
        if ctx.symbolic:
            symmath.Funcs(ctx)
            values = {x: Sized(n, x) for x in "ABC"}
        else:
            X = sample_with_cov([[1, a, b], [a, 1, c], [b, c, 1]], n)
            values = {x: torch.tensor(X[:, i]) for i, x in enumerate("ABC")}
        which = ctx.choice("pair", prs)
        (z,) = set("ABC") - set(which)
        R = lambda x, y: r[tuple(sorted((x, y)))]
        x, y = which
        num = R(x, y) - R(x, z) * R(y, z)
        d = (1 - R(x, z) ** 2) * (1 - R(y, z) ** 2)
        if ctx.symbolic:
            # partial correlations lie in (-1, 1) because the matrix is positive definite
            rhos = {}
            for (u, v), w in ((("A", "B"), "C"), (("A", "C"), "B"), (("B", "C"), "A")):
                q = (R(u, v) - R(u, w) * R(v, w)) / symmath.sqrt((1 - R(u, w) ** 2) * (1 - R(v, w) ** 2))
                rhos[u, v] = symmath.define(f"rho_{u}{v}", q, -1, 1)
            rho = rhos[x, y]
        else:
            rho = num / math.sqrt(d)
        p = self.p_ref(ctx, rho, n, 1)
        for al in self.levels(ctx, p):
            g = graph_of("ABC", values, r)
            step = C.PartialCorrelationTest()
            step.__dict__["threshold"] = al
            res = step(["A", "B", "C"], g)
            removed = self.verdict(ctx, res, x, y, [z])
            ctx.check(Iff(removed, p > al), "the edge is removed exactly if the p-value of the partial correlation exceeds the level")


class Matrix(Fisher):
    stubs = Correlation.stubs + ("covariance of the sample -> inverse of an arbitrary precision matrix",)

    def __init__(self, k, which="matrix"):
        self.k = k
        self.names = list("ABCDE"[: k + 2])
        self.name = f"matrix/k{k}"
        self.bounds = (
            f"{k} conditioning nodes, every diagonally dominant precision matrix (every partial correlation in (-1, 1)), "
            f"sample size {k + 4}..5000, every level in (0, 1)"
        )

    def point(self, r, n):
        P = {f"P_{a}{b}": (1.0 if a == b else 0.02 * (i + 1))
             for i, (a, b) in enumerate(itertools.combinations_with_replacement(self.names, 2))}
        P["P_AB"] = -r
        for s in (1.0, 3.0):
            Q = dict(P)
            Q["P_AA"], Q["P_BB"] = 1.0 * s, 1.0 / s
            # keep the matrix dominant
            for a in self.names:
                Q[f"P_{a}{a}"] = max(Q[f"P_{a}{a}"], 1.1 * sum(abs(Q["P_" + "".join(sorted((a, b)))]) for b in self.names if b != a))
            yield dict(Q, n=max(n, self.k + 4), alpha=0.05)

    def shim(self):
        def stack(ts, dim=0):
            if dim != 0 or not all(isinstance(t, Sized) for t in ts):
                raise Unsupported("stack")
            return Stack(ts)

        def inverse(c):
            W = self.world
            ls = c.labels
            if sorted(ls) != sorted(W.labels):
                raise Unsupported("inverse of another covariance matrix")
            return SymTensor([[W.P(a, b) for b in ls] for a in ls])

        def det(c):
            F = symmath.Funcs.current
            v = F.fresh("det")
            F.axiom(v > 0)
            return SymTensor(SymReal(v))

        hooks = {
            "stack": stack, "cov": lambda s: Cov(s.labels), "det": det, "linalg.det": det,
            "inverse": inverse, "linalg.inv": inverse, "linalg.pinv": inverse, "pinverse": inverse,
        }
        return TorchShim(hooks, constructors=True)

    def run(self, ctx):
        names, k = self.names, self.k
        self.world = W = World(ctx, names)
        P = W.declare()
        n = ctx.int("n", k + 4, 5000)
        if ctx.symbolic:
            symmath.Funcs(ctx)
            values = {x: Sized(n, x) for x in names}
            rho = -1 * P["A", "B"] / symmath.sqrt(P["A", "A"] * P["B", "B"])
            rho = symmath.define("rho", rho, -1, 1)
        else:
            M = np.array([[P[a, b] for b in names] for a in names])
            X = sample_with_cov(np.linalg.inv(M), n)
            values = {x: torch.tensor(X[:, i]) for i, x in enumerate(names)}
            rho = -P["A", "B"] / math.sqrt(P["A", "A"] * P["B", "B"])
        p = self.p_ref(ctx, rho, n, k)
        order = ctx.choice("order", ("as is", "swapped", "reversed controls"))
        nodes = {"as is": names, "swapped": [names[1], names[0]] + names[2:], "reversed controls": names[:2] + names[2:][::-1]}[order]
        for al in self.levels(ctx, p):
            g = graph_of(names, values)
            step = C.ExtendedPartialCorrelationTestMatrix()
            step.__dict__["threshold"] = al
            res = step(list(nodes), g)
            removed = self.verdict(ctx, res, "A", "B", names[2:])
            ctx.check(Iff(removed, p > al), "the edge is removed exactly if the p-value of the partial correlation exceeds the level")


class Regression(Fisher):
    """the test that compares a t statistic of regression residuals"""

    stubs = Correlation.stubs + ("samples -> abstract vectors with arbitrary means and covariances",)

    def __init__(self, k):
        self.k = k
        self.names = list("ABCDE"[: k + 2])
        self.name = f"regression/k{k}"
        self.bounds = (
            f"{k} conditioning nodes, centred variables, every diagonally dominant covariance matrix with partial "
            f"correlation in (-0.9999, 0.9999), sample size {k + 4}..5000, every level in (0, 1)"
        )

    def shim(self):
        return samples.sample_shim()

    def sym_patches(self):
        return symmath.shims(C, MU, torch=self.shim(), len=samples.sym_len)

    def point(self, r, n):
        a = {}
        for i, (x, y) in enumerate(itertools.combinations_with_replacement(self.names, 2)):
            a[f"C_{x}{y}"] = 1.0 if x == y else 0.1 + 0.01 * i
        a["C_AB"] = 0.6 * r
        yield dict(a, n=max(n, self.k + 4), alpha=0.05)

    def run(self, ctx):
        names, k = self.names, self.k
        n = ctx.int("n", k + 4, 5000)
        mu = {a: 0.0 for a in names}
        cov = {}
        for a, b in itertools.combinations_with_replacement(names, 2):
            cov[a, b] = cov[b, a] = ctx.real(f"C_{a}{b}", 0 if a == b else -9, 9)
        dominant(ctx, cov, names)
        if ctx.symbolic:
            symmath.Funcs(ctx)
            sp = samples.Space(n, lambda a, b: cov[a, b], mu.get)
            values = {a: sp.var(a) for a in names}
            cen = {a: values[a].centred() for a in names}
            Z = [cen[z] for z in names[2:]]
            res = {}
            for x in names[:2]:
                e = cen[x]
                for c, z in zip(samples.fit(sp, Z, cen[x]), Z):
                    e = e - z * c
                res[x] = e
            # names for what a fit leaves over (sums of squares are positive: the
            # covariance matrix is positive definite)
            for x in "AB":
                symmath.define(f"ss_{x}", sp.dot(res[x], res[x]), 0)
            symmath.define("ss_AB", sp.dot(res["A"], res["B"]))
            q = res["A"].dot(res["B"]) / (res["A"].norm() * res["B"].norm())
            rho = symmath.define("rho", q.item(), -0.9999, 0.9999)
            df = n - 2 - k
            t = rho * symmath.sqrt(df / (1 - rho * rho))
        else:
            M = np.array([[cov[a, b] for b in names] for a in names])
            X = samples.exact_sample(M, [mu[a] for a in names], n)
            values = {a: torch.tensor(X[:, i]) for i, a in enumerate(names)}
            Pm = np.linalg.inv(M)
            rho = -Pm[0, 1] / math.sqrt(Pm[0, 0] * Pm[1, 1])
            ctx.assume(abs(rho) < 0.9999)
            df = n - 2 - k
            t = rho * math.sqrt(df / (1 - rho * rho))
            p = 2 * scipy.stats.t.sf(abs(t), df)
        for al in self.levels(ctx, None if ctx.symbolic else p):
            g = graph_of(names, values)
            step = C.ExtendedPartialCorrelationTestLinearRegression()
            step.__dict__["threshold"] = al
            r = step(list(names), g)
            removed = self.verdict(ctx, r, "A", "B", names[2:])
            if ctx.symbolic:
                crit = symmath.tppf(1 - al / 2, df)
                at = -t if t < 0 else t
                ctx.assume(Not(at == crit))
                want = at < crit
            else:
                want = p > al
            ctx.check(Iff(removed, want), "the edge is removed exactly if the p-value of the partial correlation exceeds the level")


class Offset(Fisher):
    """means of the variables (listed as a finding: the regression has no intercept)"""

    name = "regression/offset"
    bounds = "concrete: two correlated columns, independent given a third, with means chosen from {0, 5}"
    stubs = ()

    def sym_patches(self):
        return contextlib.nullcontext()

    def falsify(self):
        return []

    def run(self, ctx):
        mu = [ctx.choice(f"m_{a}", (0.0, 5.0)) for a in "ABC"]
        rng = np.random.default_rng(3)
        Zv = rng.normal(size=400)
        X = np.stack([0.3 * Zv + rng.normal(size=400), 0.3 * Zv + rng.normal(size=400), Zv])
        X -= X.mean(axis=1, keepdims=True)
        out = []
        for off in ([0.0, 0.0, 0.0], mu):
            values = {a: torch.tensor(X[i] + off[i]) for i, a in enumerate("ABC")}
            step = C.ExtendedPartialCorrelationTestLinearRegression()
            step.__dict__["threshold"] = 0.01
            out.append(self.verdict(ctx, step(list("ABC"), graph_of("ABC", values)), "A", "B", ["C"]))
        ctx.check(out[0] == out[1], "the verdict does not depend on the means of the variables")


def dominant(ctx, M, names):
    """diagonal dominance, as linear constraints"""
    for a in names:
        others = [b for b in names if b != a]
        for signs in itertools.product((1, -1), repeat=len(others)):
            tot = 0
            for s, b in zip(signs, others):
                tot = tot + s * M[a, b]
            ctx.assume(M[a, a] > tot)


def harnesses(tier):
    hs = [Correlation(), Perfect(), Offset(), Partial(False), Matrix(1), Matrix(2), Regression(1), Regression(2)]
    if tier == "thorough":
        hs += [Partial(True), Matrix(3), Regression(3)]
    return hs
