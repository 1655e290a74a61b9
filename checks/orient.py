"""shared: formulas over symbolic mixed graphs and running real pipeline steps"""
import itertools

from symx.core import And, Or, Not, Iff, Implies, Ite
from symx.graphs import (
    MixedGraph, make_model, ensure_mixins, cond_list, DIRECTED, UNDIRECTED,
    TestResult, TestResultAction as A, graph_queries, merged_queries,
)

ensure_mixins()


def acyclic(names, arrow):
    """no directed cycle along `arrow(a, b)` (transitive closure, Warshall)"""
    r = {(a, b): (arrow(a, b) if a != b else False) for a in names for b in names}
    for k in names:
        r = {
            (a, b): Or(r[a, b], And(r[a, k], r[k, b]))
            for a in names
            for b in names
        }
    return Not(Or(r[a, a] for a in names))


def closure(names, arrow):
    r = {(a, b): (arrow(a, b) if a != b else False) for a in names for b in names}
    for k in names:
        r = {(a, b): Or(r[a, b], And(r[a, k], r[k, b])) for a in names for b in names}
    return r


class View:
    """live-edge formulas of a (post-)state, read through the real query API"""

    def __init__(self, ctx, mg, tag="post"):
        g = mg.g
        Q = graph_queries(ctx, g, tag)
        self.L = {
            (a, b): Q.q(("de", a, b), lambda: g.directed_edge_exists(a, b)) for a, b in mg.pairs
        }
        self.T = {
            (a, b): Q.q(("ty", a, b), lambda: g.edge_of_type_exists(a, b, DIRECTED))
            for a, b in mg.pairs
        }

    def live(self, a, b):
        return self.L[a, b]

    def adj(self, a, b):
        return Or(self.L[a, b], self.L[b, a])

    def und(self, a, b):
        return And(self.L[a, b], self.L[b, a])

    def only(self, a, b):
        return And(self.L[a, b], Not(self.L[b, a]))


class Pre:
    """same interface over the symbolic pre-state"""

    def __init__(self, mg):
        self.live, self.adj, self.und, self.only = mg.live, mg.adj, mg.undirected, mg.only


def run_step(mg, step):
    model = make_model([step])()
    model.graph = mg.gm
    return model.execute_pipeline_step(step)


# premises of Meek's rules: "x -- y must become x -> y"
def r1(g, names, z, y):
    return Or(
        And(g.only(x, z), g.und(z, y), Not(g.adj(x, y))) for x in names if x not in (z, y)
    )


def r2(g, names, x, y):
    return And(
        g.und(x, y), Or(And(g.only(x, z), g.only(z, y)) for z in names if z not in (x, y))
    )


def r3(g, names, x, z):
    return And(
        g.und(x, z),
        Or(
            And(
                g.und(x, y), g.und(x, w), Not(g.adj(y, w)), g.only(y, z), g.only(w, z)
            )
            for y, w in itertools.combinations([n for n in names if n not in (x, z)], 2)
        ),
    )


def r4(g, names, x, z):
    return And(
        g.und(x, z),
        Or(
            And(
                g.und(x, w), g.und(x, y), Not(g.adj(y, z)), g.only(y, w), g.only(w, z)
            )
            for y, w in itertools.permutations([n for n in names if n not in (x, z)], 2)
        ),
    )


def r1_conflict(g, names, z, y):
    """another arrowhead already points at y from a node not adjacent to z"""
    return Or(And(g.only(n, y), Not(g.adj(n, z))) for n in names if n not in (z, y))
