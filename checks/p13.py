"""P13: correlations and direct effects stored on edges are those of the data."""
import itertools
import math

import numpy as np
import torch

from symx import samples, symmath
from symx.core import And, Or, Not, Iff
from symx.driver import Harness
from symx.graphs import make_model
from checks.dsep import dag_vars
from causy.edge_types import DirectedEdge
from causy.graph import GraphManager
import causy.common_pipeline_steps.calculation as CALC
import causy.causal_effect_estimation.multivariate_regression as MR
import causy.math_utils as MU

ASSUMPTIONS = (
    "arithmetic over mathematical reals",
    "samples are abstract vectors: anything the code computes from them must follow from their sizes, means and covariances",
    "covariance matrices are diagonally dominant, so every regression has a unique solution",
)
BUDGET = {"quick": 300, "thorough": 3000}
STUBS = ("torch in the step modules -> abstract sample vectors with symbolic size, means and covariances (symbolic runs only)",)


class Data(Harness):
    validate_max = 8
    timeout_ms = 4000
    stubs = STUBS

    def sym_patches(self):
        return symmath.shims(CALC, MR, MU, torch=samples.sample_shim(), len=samples.sym_len)

    def world(self, ctx):
        names = self.names
        n = ctx.int("n", len(names) + 2, 5000)
        mu = {a: ctx.real(f"m_{a}", -9, 9) for a in names}
        cov = {}
        for a, b in itertools.combinations_with_replacement(names, 2):
            cov[a, b] = cov[b, a] = ctx.real(f"C_{a}{b}", 0 if a == b else -9, 9)
        for a in names:
            rest = [b for b in names if b != a]
            for signs in itertools.product((1, -1), repeat=len(rest)):
                ctx.assume(cov[a, a] > sum(s * cov[a, b] for s, b in zip(signs, rest)))
        self.cov = cov
        if ctx.symbolic:
            symmath.Funcs(ctx)
            self.space = samples.Space(n, lambda a, b: cov[a, b], mu.get)
            return {a: self.space.var(a) for a in names}
        M = np.array([[cov[a, b] for b in names] for a in names])
        ctx.assume(np.linalg.eigvalsh(M).min() > 1e-6)
        X = samples.exact_sample(M, [mu[a] for a in names], n)
        return {a: torch.tensor(X[:, i], dtype=torch.float64) for i, a in enumerate(names)}

    def graph(self, values):
        g = GraphManager()
        for a in self.names:
            g.add_node(a, [0.0], id_=a)
            g.nodes[a].__dict__["values"] = values[a]
        return g

    def same(self, ctx, x, y):
        if ctx.symbolic:
            return x == y
        return isinstance(x, (int, float)) and abs(x - y) <= 1e-8 * (1 + abs(y))

    def base(self):
        a = {"n": 40}
        for x in self.names:
            a[f"m_{x}"] = 3.0 + ord(x) - 65
        for i, (x, y) in enumerate(itertools.combinations_with_replacement(self.names, 2)):
            a[f"C_{x}{y}"] = 2.0 + 0.1 * i if x == y else (0.3 + 0.02 * i) * (-1) ** i
        return a


class Pearson(Data):
    def __init__(self, n):
        self.names = list("ABCD"[:n])
        self.name = f"pearson/n{n}"
        self.bounds = f"{n} variables, any means in [-9, 9], any diagonally dominant covariance matrix, sample size {n + 2}..5000; every pair, both directions"

    def falsify(self):
        yield self.base()
        yield dict(self.base(), n=6)

    def run(self, ctx):
        values = self.world(ctx)
        names, cov = self.names, self.cov
        ref = {}
        for a, b in itertools.combinations(names, 2):
            if ctx.symbolic:
                q = cov[a, b] / (symmath.sqrt(cov[a, a]) * symmath.sqrt(cov[b, b]))
                # Cauchy-Schwarz
                ref[a, b] = symmath.define(f"r_{a}{b}", q, -1, 1)
            else:
                ref[a, b] = cov[a, b] / math.sqrt(cov[a, a] * cov[b, b])
        model = make_model([CALC.CalculatePearsonCorrelations()])()
        model.graph = g = self.graph(values)
        for a, b in itertools.permutations(names, 2):
            g.add_edge(g.nodes[a], g.nodes[b], {"keep": 7})
        model.execute_pipeline_steps()
        for a, b in itertools.combinations(names, 2):
            for x, y in ((a, b), (b, a)):
                md = g.edge_value(g.nodes[x], g.nodes[y])
                ctx.check("correlation" in md, f"an edge has a correlation after the step ({x},{y})")
                ctx.check(
                    self.same(ctx, md["correlation"], ref[a, b]),
                    "the correlation stored on an edge is the Pearson correlation of its two variables",
                    clearly=near(ctx, md["correlation"], ref[a, b]),
                )
                ctx.check(md.get("keep") == 7, "other values stored on the edge are kept")
        for a in names:
            ctx.check(g.nodes[a].values is values[a], "the data of a node are not replaced")


def near(ctx, a, b):
    """a difference above this survives rounding in the replay"""
    return And(a - b < 0.02, b - a < 0.02) if ctx.symbolic else None


class DirectEffects(Data):
    def __init__(self, n, undirected=False):
        self.names = list("ABCD"[:n])
        self.undirected = undirected
        self.name = f"effects/n{n}" + ("/undirected" if undirected else "")
        self.bounds = (
            f"{'every mixed graph' if undirected else 'every DAG'} on {n} nodes, any means in [-9, 9], any diagonally dominant covariance matrix, "
            f"sample size {n + 2}..5000" + ("; effects checked where all edges at the effect are directed" if undirected else "")
        )

    def falsify(self):
        ns = self.names
        order = list(itertools.combinations(ns, 2))
        for drop in [()] + [(e,) for e in order]:
            for flip in (False, True):
                a = self.base()
                for x, y in order:
                    if (x, y) not in drop:
                        u, v = (y, x) if flip else (x, y)
                        a[f"g_{u}{v}"] = True
                yield a

    def run(self, ctx):
        names = self.names
        if self.undirected:
            ar = {}
            state = {}
            for a, b in itertools.combinations(names, 2):
                ar[a, b], ar[b, a] = ctx.bool(f"e_{a}{b}"), ctx.bool(f"e_{b}{a}")
            arrow = {p: bool(ar[p]) for p in ar}
        else:
            f = dag_vars(ctx, names)
            arrow = {(a, b): bool(f(a, b)) for a, b in itertools.permutations(names, 2)}
        values = self.world(ctx)
        model = make_model([MR.ComputeDirectEffectsInDAGsMultivariateRegression()])()
        model.graph = g = self.graph(values)
        for a, b in itertools.combinations(names, 2):
            if arrow[a, b] and arrow[b, a]:
                g.add_edge(g.nodes[a], g.nodes[b], {"keep": 7})
            elif arrow[a, b]:
                g.add_directed_edge(g.nodes[a], g.nodes[b], {"keep": 7})
            elif arrow[b, a]:
                g.add_directed_edge(g.nodes[b], g.nodes[a], {"keep": 7})
        model.execute_pipeline_steps()
        for u, v in itertools.permutations(names, 2):
            ctx.check(
                g.directed_edge_exists(g.nodes[u], g.nodes[v]) == arrow[u, v],
                "estimating effects does not add or remove edges",
            )
            if not arrow[u, v]:
                continue
            md = g.edge_value(g.nodes[u], g.nodes[v])
            ctx.check(md.get("keep") == 7, "other values stored on the edge are kept")
            if arrow[v, u]:
                ctx.check("direct_effect" not in md, "an undirected edge gets no direct effect")
                continue
            if any(arrow[v, w] and arrow[w, v] for w in names if w != v):
                continue
            ctx.check("direct_effect" in md, "every directed edge gets a direct effect")
            pa = [u] + [w for w in names if w not in (u, v) and arrow[w, v]]
            if ctx.symbolic:
                c = {a: values[a].centred() for a in names}
                ref = samples.fit(self.space, [c[w] for w in pa], c[v])[0]
            else:
                M = np.array([[self.cov[a, b] for b in pa] for a in pa])
                ref = float(np.linalg.solve(M, np.array([self.cov[a, v] for a in pa]))[0])
            ctx.check(
                self.same(ctx, md["direct_effect"], ref),
                "the direct effect of u on v is the coefficient of u in the regression of v on all its parents",
                clearly=near(ctx, md["direct_effect"], ref),
            )


class Small(Harness):
    """few observations, extreme scales and correlations close to one (concrete data)"""

    name = "small"
    bounds = "listed data of 2 to 5 observations, scales 1e-3 to 1e3 and offsets up to 1000 per variable; correlations and the direct effect"
    DATA = (
        ([1.0, 2.0], [3.0, 5.0]), ([1.0, 2.0], [5.0, 3.0]), ([1.0, 2.0, 4.0], [3.0, 3.5, 1.0]), ([1.0, 2.0, 3.0, 4.0], [1.0, 2.0, 3.0, 4.001]),
        ([1.0, 2.0, 3.0, 4.0], [-1.0, -2.0, -3.0, -4.001]), ([0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 1.0, 0.0]), ([1.0, -1.0, 1.0, -1.0, 0.0], [1.0, 1.0, -1.0, -1.0, 0.0]),
    )

    def run(self, ctx):
        x, y = ctx.choice("data", self.DATA)
        scale, shift = ctx.choice("scale", ((1.0, 0.0), (1e-3, 1.0), (1e3, 0.0), (1.0, 1000.0)))
        which = ctx.flag("scaled")
        directed = ctx.flag("directed")
        x = [v * (scale if which else 1.0) + shift for v in x]
        y = [v * (1.0 if which else scale) + shift for v in y]
        model = make_model([MR.ComputeDirectEffectsInDAGsMultivariateRegression() if directed else CALC.CalculatePearsonCorrelations()])()
        model.graph = g = GraphManager()
        a, b = g.add_node("A", x, id_="A"), g.add_node("B", y, id_="B")
        g.add_directed_edge(a, b, {"keep": 7}) if directed else g.add_edge(a, b, {"keep": 7})
        model.execute_pipeline_steps()
        X, Y = np.array(x) - np.mean(x), np.array(y) - np.mean(y)
        want = float(X @ Y / (X @ X)) if directed else float(X @ Y / math.sqrt((X @ X) * (Y @ Y)))
        for u, v in ((a, b),) if directed else ((a, b), (b, a)):
            md = g.edge_value(u, v)
            got = md.get("direct_effect" if directed else "correlation")
            ctx.check(
                isinstance(got, (int, float)) and abs(got - want) <= 1e-8 * abs(want) + 1e-8,
                f"the {'direct effect' if directed else 'correlation'} stored on an edge is the one of the data",
            )
            ctx.check(md.get("keep") == 7, "other values stored on the edge are kept")


def harnesses(tier):
    hs = [Small(), Pearson(2), Pearson(3), DirectEffects(2, True), DirectEffects(3), DirectEffects(3, True), DirectEffects(4)]
    if tier == "thorough":
        hs += [Pearson(4), DirectEffects(4, True)]
    return hs
