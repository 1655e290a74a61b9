"""P21: generated samples follow the structural equations they were asked for."""
import contextlib
import itertools
import math

import torch
import z3

from symx import core, samples, symmath
from symx.core import And, Or, Not, SymReal
from symx.driver import Harness
from symx.symtensor import SymTensor, TorchShim, symbolic_nodes
from checks.dsep import dag_vars
import causy.sample_generator as SG
import causy.graph as G

ASSUMPTIONS = (
    "arithmetic over mathematical reals",
    "noise values are pairwise different (so that a value used twice is noticed)",
)
BUDGET = {"quick": 300, "thorough": 3000}


class Opaque:
    """inverse of a large symbolic matrix: nothing is known about what follows from it"""

    _symx = True


def _inverse(m):
    """adjugate / determinant; the harness keeps to invertible matrices"""
    M = m.a.tolist()
    k = len(M)
    d = term(samples.det(M))
    out = [[None] * k for _ in range(k)]
    for i, j in itertools.product(range(k), repeat=2):
        minor = [row[:i] + row[i + 1:] for r, row in enumerate(M) if r != j]
        out[i][j] = SymReal(core.CANON((1 if (i + j) % 2 == 0 else -1) * term(samples.det(minor)) / d))
    return SymTensor(out)


def _matmul(a, b):
    if isinstance(a, Opaque):
        F = symmath.Funcs.current
        out = []
        for _ in range(len(b)):
            v = F.fresh("any")
            F.axiom(v > 0)
            out.append(SymReal(v))
        return SymTensor(out)
    return (a if isinstance(a, SymTensor) else SymTensor(a)).matmul(b)


def hooks(inv):
    return {"linalg.pinv": inv, "linalg.inv": inv, "inverse": inv, "pinverse": inv, "matmul": _matmul, "mv": _matmul}


class Generated(Harness):
    validate_max = 8
    timeout_ms = 4000
    stubs = (
        "torch in the generator and graph modules -> tensors of symbolic reals (symbolic runs only)",
        "random source and initial distribution given by the harness",
    )

    @contextlib.contextmanager
    def sym_patches(self):
        shim = TorchShim(hooks(self.inverse), constructors="all")
        with symmath.shims(SG, G, torch=shim), symbolic_nodes():
            yield

    def inverse(self, m):
        return Opaque()

    def noise(self, ctx, k):
        e = [ctx.real(f"e{i}", -9, 9) for i in range(k)]
        for a, b in itertools.combinations(e, 2):
            ctx.assume(Or(a - b > 0.25, b - a > 0.25))
        it = iter(e)

        def draw():
            try:
                return next(it)
            except StopIteration:
                raise AssertionError("more noise drawn than there are values to generate")

        return e, draw

    def num(self, x):
        return x.item() if hasattr(x, "item") else x

    def close(self, ctx, a, b, tol=1e-6):
        if ctx.symbolic:
            return a == b
        return abs(a - b) <= tol * (1 + abs(b))

    def uses_noise_once(self, ctx, rest, e, what):
        """each of `rest` is one of the drawn values, no two the same"""
        if ctx.symbolic:
            rest = [SymReal(core.CANON(r.t)) if isinstance(r, SymReal) else r for r in rest]
        for r in rest:
            ctx.check(Or(self.close(ctx, r, x) for x in e), what)
        for a, b in itertools.combinations(rest, 2):
            ctx.check(Not(self.close(ctx, a, b)), "every generated value has noise of its own")


class IID(Generated):
    def __init__(self, n, size, orders):
        self.names = list("BADC"[:n])
        self.size, self.orders = size, orders
        self.name = f"iid/n{n}/size{size}"
        self.bounds = (
            f"every DAG on {n} variables, {'every order' if orders == 'all' else 'two orders'} of listing its edges, any coefficients in [-9, 9], "
            f"{size} observations with any noise"
        )

    def run(self, ctx):
        names = self.names
        f = dag_vars(ctx, names)
        edges = [(a, b) for a, b in itertools.permutations(names, 2) if bool(f(a, b))]
        if ctx.symbolic:
            symmath.Funcs(ctx)
        if not edges:
            return
        if self.orders == "all":
            edges = list(ctx.choice("order", list(itertools.permutations(edges))))
        elif ctx.flag("reversed"):
            edges.reverse()
        coef = {p: ctx.real("c_" + "".join(p), -9, 9) for p in edges}
        used = sorted({x for p in edges for x in p})
        e, draw = self.noise(ctx, len(used) * self.size)
        gen = SG.IIDSampleGenerator(
            [SG.SampleEdge(SG.NodeReference(a), SG.NodeReference(b), coef[a, b]) for a, b in edges], random=draw
        )
        data, g = gen.generate(self.size)
        ctx.check(sorted(data) == used, "there are data for exactly the variables of the edges")
        X = {v: [self.num(data[v][t]) for t in range(len(data[v]))] for v in used}
        for v in used:
            ctx.check(len(X[v]) == self.size, "every variable has the requested number of observations")
        rest = [
            X[v][t] - sum(coef[p] * X[p[0]][t] for p in edges if p[1] == v) for v in used for t in range(self.size)
        ]
        self.uses_noise_once(ctx, rest, e, "every value is the sum of coefficient times parent value plus noise")
        check_graph(ctx, g, used, edges)
        for v in used:
            vals = g.nodes[v].values
            ctx.check(
                len(vals) == self.size and And(self.close(ctx, self.num(vals[t]), X[v][t]) for t in range(self.size)),
                "the nodes of the graph carry the generated data",
            )


def check_graph(ctx, g, nodes, edges):
    ctx.check(sorted(g.nodes) == sorted(nodes), "the graph has exactly the generated nodes")
    if sorted(g.nodes) != sorted(nodes):
        return
    for u, v in itertools.permutations(nodes, 2):
        ctx.check(
            bool(g.directed_edge_exists(g.nodes[u], g.nodes[v])) == ((u, v) in edges),
            "the graph has exactly the edges of the model",
        )


class Timeseries(Generated):
    def __init__(self, nvars, lag, size):
        self.vars = list("YX" if nvars == 2 else "YXZ")[:nvars]
        self.lag, self.size = lag, size
        self.name = f"timeseries/v{nvars}/lag{lag}/size{size}"
        self.bounds = (
            f"{nvars} variables, every non-empty set of edges with lags 1..{lag} (self loops included), any coefficients and noise in "
            f"[-9, 9], {size} time steps; values before the start are the initial value"
        )

    def run(self, ctx):
        vs = self.vars
        present = {}
        for a, b in itertools.product(vs, repeat=2):
            for l in range(1, self.lag + 1):
                present[a, b, l] = ctx.bool(f"x_{a}{b}{l}")
        ctx.assume(Or(list(present.values())))
        edges = [k for k, v in present.items() if bool(v)]
        if ctx.symbolic:
            symmath.Funcs(ctx)
        coef = {k: ctx.real("c_%s%s%d" % k, -9, 9) for k in edges}
        used = sorted({x for k in edges for x in k[:2]})
        init = [ctx.real(f"i{i}", -9, 9) for i in range(len(used))]
        for a, b in itertools.combinations(init, 2):
            ctx.assume(Or(a - b > 0.25, b - a > 0.25))
        e, draw = self.noise(ctx, len(used) * (self.size - 1))
        gen = SG.TimeseriesSampleGenerator(
            [
                SG.SampleEdge(SG.TimeAwareNodeReference(a, -l), SG.TimeAwareNodeReference(b), coef[a, b, l])
                for a, b, l in edges
            ],
            random=draw,
        )
        it = iter(init)
        wrap = (lambda x: SymTensor(x)) if ctx.symbolic else (lambda x: torch.tensor(x, dtype=torch.float64))
        gen._initial_distribution_fn = lambda x: wrap(next(it))
        data, g = gen.generate(self.size)
        ctx.check(sorted(data) == used, "there are data for exactly the variables of the edges")
        X = {v: [self.num(data[v][t]) for t in range(len(data[v]))] for v in used}
        for v in used:
            ctx.check(len(X[v]) == self.size, "every variable has the requested number of time steps")
        self.uses_noise_once(ctx, [X[v][0] for v in used], init, "a series starts with a draw from the initial distribution")
        rest = []
        for v in used:
            for t in range(1, self.size):
                rest.append(X[v][t] - sum(coef[k] * X[k[0]][max(t - k[2], 0)] for k in edges if k[1] == v))
        self.uses_noise_once(ctx, rest, e, "every value is the sum of coefficient times lagged parent value plus noise")
        nodes = [f"{v}-t{t}" for v in used for t in range(self.size)]
        want = {
            (f"{a}-t{t - l}", f"{b}-t{t}") for a, b, l in edges for t in range(1, self.size) if t - l >= 0
        }
        check_graph(ctx, g, nodes, want)
        for v in used:
            for t in range(self.size):
                n = g.nodes.get(f"{v}-t{t}")
                if n is not None:
                    ctx.check(
                        self.close(ctx, self.num(n.values[0]), X[v][t]) and n.metadata["time"] == t and n.metadata["variable"] == v,
                        "the nodes of the graph carry the generated data",
                    )


class Initial(Generated):
    """the initial distribution has the stationary variance"""

    def __init__(self, nvars, lag):
        self.vars = list("YX")[:nvars]
        self.lag = lag
        self.name = f"initial/v{nvars}/lag{lag}"
        self.bounds = (
            f"{nvars} variable(s), every non-empty set of edges with lags 1..{lag}, coefficients in (-0.45, 0.45) (stationary): the scale "
            "handed to the initial distribution is the stationary standard deviation for unit noise"
        )

    def inverse(self, m):
        return _inverse(m)

    def falsify(self):
        keys = [f"{a}{b}{l}" for a, b in itertools.product(self.vars, repeat=2) for l in range(1, self.lag + 1)]
        for on in itertools.product((True, False), repeat=len(keys)):
            for values in ((0.4, 0.3, -0.2, 0.35), (-0.4, 0.25, 0.4, 0.1)):
                yield {**{f"x_{k}": o for k, o in zip(keys, on)}, **{f"c_{k}": v for k, v in zip(keys, itertools.cycle(values))}}

    def run(self, ctx):
        vs = self.vars
        present = {}
        for a, b in itertools.product(vs, repeat=2):
            for l in range(1, self.lag + 1):
                present[a, b, l] = ctx.bool(f"x_{a}{b}{l}")
        ctx.assume(And(Or(present[a, b, l] for (a, b, l) in present if x in (a, b)) for x in vs))
        ctx.assume(Or(v for (a, b, l), v in present.items() if l == self.lag))
        edges = [k for k, v in present.items() if bool(v)]
        if ctx.symbolic:
            symmath.Funcs(ctx)
        coef = {k: ctx.real("c_%s%s%d" % k, -0.45, 0.45, strict=True) for k in edges}
        co = lambda a, b, l: coef.get((a, b, l), 0)
        # companion form z_t = M z_{t-1} + (noise), two dimensional
        if len(vs) == 2:
            p, q = vs
            M = [[co(p, p, 1), co(q, p, 1)], [co(p, q, 1), co(q, q, 1)]]
            Q = [1, 0, 1]
        else:
            M = [[co(vs[0], vs[0], 1), co(vs[0], vs[0], 2)], [1, 0]]
            Q = [1, 0, 0]
        (a, b), (c, d) = M
        A = [
            [1 - a * a, -2 * (a * b), 0 - b * b],
            [0 - a * c, 1 - (a * d + b * c), 0 - b * d],
            [0 - c * c, -2 * (c * d), 1 - d * d],
        ]
        D = samples.det(A)
        var = []
        for i in (0, 2):
            num = samples.det([[Q[r] if k == i else A[r][k] for k in range(3)] for r in range(3)])
            var.append(num / D if not ctx.symbolic else SymReal(core.CANON(term(num) / term(D))))
        if len(vs) == 1:
            var = var[:1]
        if ctx.symbolic:
            var = [symmath.define(f"var{i}", v, 0) for i, v in enumerate(var)]
        gen = SG.TimeseriesSampleGenerator(
            [
                SG.SampleEdge(SG.TimeAwareNodeReference(a, -l), SG.TimeAwareNodeReference(b), coef[a, b, l])
                for a, b, l in edges
            ],
            random=lambda: 0.0,
        )
        gen._initial_distribution_fn = lambda x: x
        data, g = gen.generate(2)
        for v, ref in zip(vs, var):
            x = self.num(data[v][0])
            ctx.check(
                self.close(ctx, x * x, ref, 1e-3),
                "the initial distribution of a variable has its stationary variance",
                clearly=And(x * x - ref < 0.05, ref - x * x < 0.05) if ctx.symbolic else None,
            )


def term(x):
    return x.t if isinstance(x, SymReal) else z3.RealVal(str(x))


def harnesses(tier):
    hs = [IID(3, 2, "all"), IID(4, 1, "two"), Timeseries(2, 1, 3), Timeseries(2, 2, 3), Initial(2, 1), Initial(1, 2)]
    if tier == "thorough":
        hs += [IID(4, 2, "two"), Timeseries(2, 2, 5), Timeseries(3, 1, 4)]
    return hs
