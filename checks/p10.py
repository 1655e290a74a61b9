"""P10: d-separation on a CPDAG agrees with every DAG of its equivalence class."""
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, merged_queries
from checks import orient as O
from checks.dsep import dsep_formula, subsets, dag_vars, is_cpdag_of, compelled
from checks.p09 import far_case, FAR

ASSUMPTIONS = (
    "a CPDAG is given as causy writes it: compelled edges stored one way with type DirectedEdge, "
    "reversible edges stored both ways with type UndirectedEdge",
)


class CPDSep(Harness):
    validate_max = 6

    def __init__(self, n, u, v, sets, form):
        self.names = list("ABCDEF"[:n])
        self.u, self.v, self.sets, self.form = u, v, list(sets), form
        tag = ",".join("".join(s) or "{}" for s in self.sets)
        self.name = f"n{n}/{u}{v}|{tag}/{form}"
        self.bounds = f"the CPDAG of every DAG on {n} nodes, pair {u},{v}, conditioning sets {tag} as {form}"

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        S = ctx.choice("S", self.sets)
        arrow = dag_vars(ctx, names)
        mg = MixedGraph(ctx, names, rows="all", types="tied")
        ctx.assume(ctx.memo("cpdag", lambda: is_cpdag_of(names, mg.live, arrow)))
        want = ctx.memo(("want", S), lambda: dsep_formula(names, arrow, self.u, self.v, S))
        conv = (lambda x: x) if self.form == "ids" else (lambda x: mg.node[x])
        got = mg.g.are_nodes_d_separated_cpdag(conv(self.u), conv(self.v), [conv(s) for s in S])
        ctx.check(
            Iff(got, want),
            f"d-separation of {self.u},{self.v} given {sorted(S)} on the CPDAG equals the DAG's",
        )


class Far(Harness):
    """long paths and far descendants"""

    validate_max = 10

    def __init__(self, n):
        self.names = [f"N{i}" for i in range(n)]
        self.name = f"far/n{n}"
        self.bounds = f"the CPDAG of a DAG on {n} {FAR}"

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        arrows, u, v, S = far_case(ctx, names)
        arrow = lambda a, b: (a, b) in arrows
        comp = ctx.memo(("comp", tuple(sorted(arrows))), lambda: compelled(names, arrow))
        live = {
            (a, b): bool(arrow(a, b) or arrow(b, a) and not comp[b, a]) for a, b in itertools.permutations(names, 2)
        }
        mg = MixedGraph(ctx, names, rows="all", types="tied", live=live)
        want = dsep_formula(names, arrow, u, v, tuple(S))
        got = mg.g.are_nodes_d_separated_cpdag(u, v, S)
        ctx.check(Iff(got, want), f"d-separation of {u},{v} given {S} on the CPDAG equals the DAG's")


def harnesses(tier):
    hs = [Far(8 if tier == "quick" else 10)]
    n4 = list("ABCD")
    for u, v in itertools.permutations(n4, 2):
        others = [x for x in n4 if x not in (u, v)]
        hs.append(CPDSep(4, u, v, subsets(others), "ids" if u < v else "nodes"))
    n5 = list("ABCDE")
    pairs = [("A", "E")] if tier == "quick" else list(itertools.permutations(n5, 2))
    for u, v in pairs:
        sets = list(subsets([x for x in n5 if x not in (u, v)]))
        if tier == "quick":
            sets = [(), ("C",), ("B", "D"), ("B", "C", "D")]
        for s in sets:
            hs.append(CPDSep(5, u, v, [s], "ids" if u < v else "nodes"))
    return hs
