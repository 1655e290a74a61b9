"""P09: d-separation in DAGs is exact."""
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, merged_queries, graph_queries
from checks import orient as O
from checks.dsep import at_most, dsep_formula, subsets
from causy.graph import Node


class DSep(Harness):
    validate_max = 6

    def __init__(self, n, u, v, sets, form="ids", soft=False, rows="all"):
        self.names = list("ABCDEF"[:n])
        self.u, self.v, self.sets, self.form, self.soft, self.rows = u, v, list(sets), form, soft, rows
        tag = ",".join("".join(s) or "{}" for s in self.sets)
        self.name = f"n{n}/{u}{v}|{tag}/{form}{'/soft' if soft else ''}{'/sparse' if rows != 'all' else ''}"
        self.bounds = (
            f"every DAG on {n} nodes{' (removed edges may be left soft-deleted)' if soft else ''}, "
            f"pair {u},{v}, conditioning sets {tag} given as {form}"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        S = ctx.choice("S", self.sets)
        mg = MixedGraph(ctx, self.names, soft=self.soft, rows=self.rows, types="tied")
        g, names = mg.g, self.names
        if self.soft:
            # types as in a DAG: every live edge is a directed one
            for a, b in itertools.combinations(names, 2):
                ctx.assume(Not(And(mg.present[a, b], mg.present[b, a])))
        arrow = mg.live
        ctx.assume(ctx.memo("acyclic", lambda: O.acyclic(names, arrow)))
        want = ctx.memo(("want", S), lambda: dsep_formula(names, arrow, self.u, self.v, S))
        u, v = self.u, self.v
        conv = (lambda x: x) if self.form == "ids" else (lambda x: mg.node[x])
        got = g.are_nodes_d_separated_dag(conv(u), conv(v), [conv(s) for s in S])
        ctx.check(Iff(got, want), f"d-separation of {u},{v} given {sorted(S)} is exact")


class Long(DSep):
    """six nodes, few edges: the long paths and long chains of descendants that five
    nodes cannot have"""

    def __init__(self, sets, edges, form="ids"):
        super().__init__(6, "A", "F", sets, form)
        self.edges = edges
        self.name = f"long{edges}/" + self.name
        self.bounds += f"; at most {edges} edges, every node connected to another one"

    def run(self, ctx):
        S = ctx.choice("S", self.sets)
        mg = MixedGraph(ctx, self.names, soft=False, rows="all", types="tied")
        g, names, arrow = mg.g, self.names, mg.live
        ctx.assume(ctx.memo("shape", lambda: And(
            O.acyclic(names, arrow),
            at_most([mg.adj(a, b) for a, b in itertools.combinations(names, 2)], self.edges),
            [Or(mg.adj(a, b) for b in names if b != a) for a in names],
        )))
        want = ctx.memo(("want", S), lambda: dsep_formula(names, arrow, self.u, self.v, S))
        conv = (lambda x: x) if self.form == "ids" else (lambda x: mg.node[x])
        got = g.are_nodes_d_separated_dag(conv(self.u), conv(self.v), [conv(s) for s in S])
        ctx.check(Iff(got, want), f"d-separation of {self.u},{self.v} given {sorted(S)} is exact")


def far_case(ctx, names):
    """a DAG with long paths -> (arrows, u, v, S)"""
    order = names if ctx.flag("along") else names[::-1]
    chain = order[2:] if ctx.flag("collider") else order[1:]
    causes = order[:len(order) - len(chain)]
    arrows = {(c, chain[0]) for c in causes} | set(zip(chain, chain[1:]))
    at = ctx.choice("where", range(len(chain) - 1))
    odd = ctx.choice("odd", ("none", "missing", "turned")) if at else "none"
    if odd != "none":
        arrows.remove((chain[at], chain[at + 1]))
    if odd == "turned":
        arrows.add((chain[at + 1], chain[at]))
    u, v = (causes[0], causes[1]) if len(causes) == 2 else (causes[0], chain[-1])
    rest = [x for x in order if x not in (u, v)]
    k = len(rest)
    S = [rest[i] for i in ctx.choice("S", [
        (), (0,), (k // 2,), (k - 1,), (1, k - 1), (k - 1, k - 2, k - 3), (1, 3, k - 2, k - 1), tuple(range(1, k)),
    ])]
    return arrows, u, v, S


FAR = (
    "nodes: two causes of a common effect at the start of a chain, or one long chain; numbered along or against the "
    "chain; any one link missing or turned round; conditioning sets of none to all but three of the nodes"
)


class Far(Harness):
    """colliders opened by a far descendant, long chains blocked in the middle"""

    validate_max = 10

    def __init__(self, n):
        self.n = n
        self.names = [f"N{i}" for i in range(n)]
        self.name = f"far/n{n}"
        self.bounds = f"{n} {FAR}"

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        arrows, u, v, S = far_case(ctx, names)
        mg = MixedGraph(ctx, names, rows="all", types="tied", live={p: p in arrows for p in itertools.permutations(names, 2)})
        want = dsep_formula(names, lambda a, b: (a, b) in arrows, u, v, tuple(S))
        got = mg.g.are_nodes_d_separated_dag(u, v, S)
        ctx.check(Iff(got, want), f"d-separation of {u},{v} given {S} is exact")


def harnesses(tier):
    hs = [Far(9 if tier == "quick" else 13)]
    few, sets = (5, [(), ("B",), ("D",), ("B", "D"), ("C", "E"), ("B", "C", "D", "E")]) if tier == "quick" else (
        6, list(subsets("BCDE")))
    for s in sets:
        hs.append(Long([s], few))
    n4 = list("ABCD")
    for u, v in itertools.permutations(n4, 2):
        others = [x for x in n4 if x not in (u, v)]
        form = "ids" if u < v else "nodes"
        hs.append(DSep(4, u, v, subsets(others), form))
    hs.append(DSep(3, "A", "C", subsets("B"), "ids", soft=True))
    hs.append(DSep(3, "C", "A", subsets("B"), "nodes", rows="sym"))
    n5 = list("ABCDE")
    pairs = [("A", "E")] if tier == "quick" else list(itertools.permutations(n5, 2))
    for u, v in pairs:
        others = [x for x in n5 if x not in (u, v)]
        for s in subsets(others):
            hs.append(DSep(5, u, v, [s], "ids" if u < v else "nodes"))
    return hs
