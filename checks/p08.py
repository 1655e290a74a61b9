"""P08: with exact independence answers every PC variant returns the CPDAG."""
import contextlib
import itertools
import random

import torch.multiprocessing

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies, Unsupported
from checks import oracle as OR
from checks.dsep import at_most, dag_vars, is_cpdag_of
from checks.fakepool import fake_pool

import causy.causal_discovery.constraint.algorithms.pc as PCM
import causy.generators

ASSUMPTIONS = (
    "the distribution is faithful to the DAG and the test answers exactly (d-separation oracle)",
    "worker pool replaced by an in-process one that keeps the chunking of the real one (one chunk per step at this size)",
)


class PCExact(Harness):
    validate_max = 4

    def __init__(self, alg, n, edges=None, least=0):
        self.alg, self.edges, self.least = alg, edges, least
        self.names = list("ABCDE"[:n])
        self.name = f"{alg}/n{n}" + (f"/{least}to{edges}edges" if edges else "")
        self.bounds = (
            f"every DAG on {n} nodes{f' with {least} to {edges} edges, oriented along the alphabet' if edges else ''} "
            f"with an exact independence oracle; whole algorithm {alg}"
        )
        self.stubs = ("scipy.stats.norm.cdf/sf -> d-separation oracle (symbolic runs only)",)

    @contextlib.contextmanager
    def sym_patches(self):
        with OR.oracle_patches(), self.con_patches():
            yield

    def con_patches(self):
        return fake_pool() if self.alg == "ParallelPC" else contextlib.nullcontext()

    def run(self, ctx):
        names = self.names
        arrow = dag_vars(ctx, names)
        if self.edges:
            some = [arrow(a, b) for a, b in itertools.combinations(names, 2)]
            ctx.assume(ctx.memo("few", lambda: And(
                [Not(arrow(b, a)) for a, b in itertools.combinations(names, 2)],
                at_most(some, self.edges), at_most([Not(x) for x in some], len(some) - self.least),
            )))
        random.seed(3)
        if ctx.symbolic:
            orc = OR.Oracle(ctx, names, arrow)
            data = OR.table(names).data
        else:
            data = OR.faithful_data(names, arrow)
        model = getattr(PCM, self.alg)()
        if self.alg == "ParallelPC":
            model.pool.dispatch = "late"
            for s in model.pipeline_steps:
                g = getattr(s, "generator", None)
                if hasattr(g, "every_nth"):
                    g.every_nth = 0 if ctx.flag("sample_all") else 10**9
        model.create_graph_from_data(data)
        model.create_all_possible_edges()
        model.execute_pipeline_steps()
        if ctx.symbolic and not orc.asked and len(names) > 1:
            raise Unsupported("the independence test does not consult the normal cdf")
        g = model.graph
        post = {(a, b): g.directed_edge_exists(g.nodes[a], g.nodes[b]) for a, b in itertools.permutations(names, 2)}
        live = lambda a, b: post[a, b]
        adj = lambda a, b: Or(arrow(a, b), arrow(b, a))
        for a, b in itertools.combinations(names, 2):
            ctx.check(
                Iff(Or(live(a, b), live(b, a)), adj(a, b)),
                f"{self.alg}: {a},{b} adjacent in the result iff adjacent in the DAG",
            )
        for a, b in itertools.permutations(names, 2):
            ctx.check(
                Implies(And(live(a, b), Not(live(b, a))), arrow(a, b)),
                f"{self.alg}: {a}->{b} is directed only if every equivalent DAG has it",
            )
        ctx.check(is_cpdag_of(names, live, arrow), f"{self.alg}: the result is the CPDAG of the DAG")


def harnesses(tier):
    n = 4
    hs = [PCExact(a, n) for a in ("PC", "PCClassic", "PCStable", "ParallelPC")]
    hs += [PCExact(a, 3) for a in ("PC", "PCClassic", "PCStable", "ParallelPC")]
    hs += [PCExact("PC", 5, 6, 4)]
    hs += [PCExact(a, 5, 6, 6) for a in ("PCClassic", "PCStable", "ParallelPC")]
    if tier == "thorough":
        hs += [PCExact(a, 5) for a in ("PC", "PCClassic")]
    return hs
