"""P07: the orientation phase terminates, keeps the skeleton and leaves nothing to orient."""
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import merged_queries, make_model
from checks import orient as O
from checks.dsep import at_most
from checks.p06 import Skeleton, S
from causy.causal_discovery.constraint.algorithms import pc as PCM
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest

ASSUMPTIONS = (
    "every removed edge left one removal record (as the pipeline writes it) with its separating set",
)


class Phase(Harness):
    validate_max = 10

    def __init__(self, n, strategy=None, edges=None):
        self.n, self.strategy, self.edges = n, strategy, edges
        self.names = list("ABCDE"[:n])
        self.name = f"phase/n{n}/{strategy or 'PC'}" + (f"/{edges}edges" if edges else "")
        self.bounds = (
            f"every skeleton on {n} nodes{f' with at most {edges} edges, every node with one, separating sets from common neighbours' if edges else ''} with every choice of separating sets (consistent or not); "
            f"PC's collider step ({strategy or 'as configured'}) followed by its loop over the four rules"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        sk = Skeleton(ctx, names)
        mg = sk.mg
        if self.edges:
            ctx.assume(ctx.memo("few", lambda: And(
                at_most([sk.adj[p] for p in itertools.combinations(names, 2)], self.edges),
                [Or(sk.adj[a, b] for b in names if b != a) for a in names],
                [Implies(bit, And(sk.adj[a, z], sk.adj[b, z])) for (a, b), bits in sk.sep.items() for z, bit in bits.items()],
            )))
        steps = list(PCM.PC_ORIENTATION_RULES)
        if self.strategy:
            steps[0] = ColliderTest(conflict_resolution_strategy=S[self.strategy])
        model = make_model(steps)()
        model.graph = mg.gm
        model.execute_pipeline_steps()
        post = O.View(ctx, mg)
        for a, b in mg.pairs:
            if a < b:
                ctx.check(Iff(post.adj(a, b), sk.adj[a, b]), f"orientation keeps the adjacency of {a},{b}")
            ctx.check(Implies(post.only(a, b), post.T[a, b]), f"{a}->{b} is a directed edge")
            for nm, rule in (("R2", O.r2), ("R3", O.r3), ("R4", O.r4)):
                ctx.check(Implies(rule(post, names, a, b), rule(post, names, b, a)), f"{nm} has nothing left to orient at {a}--{b} (unless it demands both directions)")
            ctx.check(
                Implies(O.r1(post, names, a, b), O.r1_conflict(post, names, a, b)),
                f"R1 leaves {a}--{b} only where another arrowhead conflicts",
            )


class Chain(Harness):
    """orientations that have to travel along a long path, whichever way the nodes are numbered"""

    validate_max = 10

    def __init__(self, n):
        self.n = n
        self.names = [f"N{i}" for i in range(n)]
        self.name = f"chain/n{n}"
        self.bounds = (
            f"a path over {n - 1} nodes and a further node at its second node, numbered along the path, against it or "
            "alternating; every choice of which inner nodes separate their neighbours; PC's orientation phase"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        how = ctx.choice("numbering", ("along", "against", "alternating"))
        path = {"along": names, "against": names[::-1], "alternating": names[::2] + names[1::2][::-1]}[how]
        path, leaf = path[1:], path[0]
        links = {frozenset(p) for p in zip(path, path[1:])} | {frozenset((leaf, path[1]))}
        free = {(frozenset((path[i], path[i + 2])), path[i + 1]) for i in range(len(path) - 2)}
        free.add((frozenset((leaf, path[0])), path[1]))
        inner = {k: ctx.flag(f"separates_{k[1]}_{'_'.join(sorted(k[0]))}") for k in sorted(free, key=lambda k: (k[1], sorted(k[0])))}
        sk = Skeleton(
            ctx, names, fixed=lambda a, b: frozenset((a, b)) in links,
            sep=lambda a, b, z: inner.get((frozenset((a, b)), z), True),
        )
        mg = sk.mg
        model = make_model(list(PCM.PC_ORIENTATION_RULES))()
        model.graph = mg.gm
        model.execute_pipeline_steps()
        post = O.View(ctx, mg)
        for a, b in itertools.combinations(names, 2):
            ctx.check(Iff(post.adj(a, b), sk.adj[a, b]), f"orientation keeps the adjacency of {a},{b}")
        for x, y in sorted(map(sorted, links)):
            for a, b in ((x, y), (y, x)):
                ctx.check(Implies(post.only(a, b), post.T[a, b]), f"{a}->{b} is a directed edge")
                ctx.check(
                    Implies(O.r1(post, names, a, b), O.r1_conflict(post, names, a, b)),
                    f"R1 leaves {a}--{b} only where another arrowhead conflicts",
                )


def harnesses(tier):
    hs = [Phase(5, edges=4), Phase(4), Phase(3), Phase(3, "KEEP_LAST"), Chain(8)]
    if tier == "thorough":
        hs += [Chain(10), Phase(4, "KEEP_LAST"), Phase(5, "KEEP_LAST", edges=4), Phase(5, edges=5), Phase(5)]
    return hs
