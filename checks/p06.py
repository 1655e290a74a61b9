"""P06: the collider step orients exactly the unshielded colliders."""
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, merged_queries, cond_list, TestResult, TestResultAction as A
from checks import orient as O
from causy.causal_discovery.constraint.orientation_rules.pc import (
    ColliderTest, ColliderTestConflictResolutionStrategies as S,
)

ASSUMPTIONS = (
    "every removed edge left one removal record (as the pipeline writes it) with its separating set",
)


class Skeleton:
    """arbitrary undirected skeleton with one separating set per non-adjacent pair"""

    def __init__(self, ctx, names, soft=False, fixed=None, sep=None):
        """fixed(a, b): adjacency given (else free); sep(a, b, z): separator membership given
        as a bool, or None if free"""
        self.names = names
        adj = {}
        for a, b in itertools.combinations(names, 2):
            adj[a, b] = adj[b, a] = ctx.bool(f"adj_{a}{b}") if fixed is None else fixed(a, b)
        pairs = list(adj)
        if soft:
            # removed edges may still be there as soft-deleted leftovers
            left = {}
            for a, b in itertools.combinations(names, 2):
                left[a, b] = left[b, a] = ctx.bool(f"left_{a}{b}")
            live = {k: Or(adj[k], left[k]) for k in pairs}
            mg = MixedGraph(ctx, names, soft=True, rows="all", types="tied", live=live)
            for k in pairs:
                ctx.assume(Iff(mg.deleted[k], And(left[k], Not(adj[k]))))
        else:
            mg = MixedGraph(ctx, names, soft=False, rows="all", types="tied", live=adj)
        self.mg, self.adj = mg, adj
        self.sep = {}
        N = mg.gm.nodes
        for a, b in itertools.combinations(names, 2):
            others = [z for z in names if z not in (a, b)]
            bits = {z: sep(a, b, z) if sep else None for z in others}
            bits = {z: ctx.bool(f"sep_{a}{b}_{z}") if x is None else x for z, x in bits.items()}
            self.sep[a, b] = self.sep[b, a] = bits
            if ctx.symbolic:
                rec = TestResult(
                    u=N[a], v=N[b], action=A.REMOVE_EDGE_UNDIRECTED,
                    data={"separatedBy": cond_list(ctx, [(bits[z], N[z]) for z in others])},
                )
                hist = cond_list(ctx, [(Not(adj[a, b]), rec)])
                mg.g.edge_history[a, b] = hist
                mg.g.edge_history[b, a] = hist
            elif not adj[a, b]:
                rec = TestResult(
                    u=N[a], v=N[b], action=A.REMOVE_EDGE_UNDIRECTED,
                    data={"separatedBy": [N[z] for z in others if bits[z]]},
                )
                mg.gm.add_edge_history(N[a], N[b], rec)
                mg.gm.add_edge_history(N[b], N[a], rec)

    def collider(self, x, z, y):
        return And(
            self.adj[x, z], self.adj[y, z], Not(self.adj[x, y]), Not(self.sep[x, y][z])
        )

    def into(self, x, z):
        """some unshielded collider demands x -> z"""
        return Or(self.collider(x, z, y) for y in self.names if y not in (x, z))


class Collider(Harness):
    validate_max = 15

    def __init__(self, strategy, n, soft=False):
        self.strategy, self.n, self.soft = strategy, n, soft
        self.names = list("ABCDE"[:n])
        self.name = f"{strategy}/n{n}{'/leftovers' if soft else ''}"
        self.bounds = (
            f"every skeleton on {n} nodes with every choice of separating sets"
            f"{', removed edges soft-deleted or gone' if soft else ''}; one collider step"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        sk = Skeleton(ctx, names, self.soft)
        mg = sk.mg
        step = ColliderTest(conflict_resolution_strategy=S[self.strategy])
        O.run_step(mg, step)
        post = O.View(ctx, mg)
        for a, b in mg.pairs:
            ctx.check(
                Iff(post.adj(a, b), sk.adj[a, b]), f"collider step keeps adjacency of {a},{b}"
            )
            ctx.check(
                Implies(And(sk.adj[a, b], Not(post.live(b, a))), sk.into(a, b)),
                f"{a}->{b} is oriented only for an unshielded collider at {b}",
            )
            ctx.check(
                Implies(post.only(a, b), post.T[a, b]), f"{a}->{b} becomes a directed edge"
            )
        for z in names:
            for x, y in itertools.combinations([n for n in names if n != z], 2):
                conflict = Or(sk.into(z, x), sk.into(z, y))
                ctx.check(
                    Implies(
                        And(sk.collider(x, z, y), Not(conflict)),
                        And(post.only(x, z), post.only(y, z)),
                    ),
                    f"unshielded collider {x}->{z}<-{y} without conflict is oriented",
                )


class LargeSets(Harness):
    """separating sets of any size, and several removal records for one pair"""

    validate_max = 15

    def __init__(self, n, records):
        self.n, self.records = n, records
        self.names = list("ABCDEFG"[:n])
        self.name = f"large sets/n{n}/{records} records"
        self.bounds = (
            f"{n} nodes; A and B not adjacent, both adjacent to all others, these mutually adjacent or not; "
            f"{records} removal records of A,B, each with any subset of the others in any of two orders"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        others = names[2:]
        clique = ctx.flag("clique")
        sk = Skeleton(
            ctx, names, fixed=lambda a, b: {a, b} != {"A", "B"} and (clique or a in "AB" or b in "AB"),
            sep=lambda a, b, z: {a, b} != {"A", "B"} and z in "AB",
        )
        gm, N = sk.mg.gm, sk.mg.gm.nodes
        sets = []
        for i in range(self.records):
            sets.append([z for z in others if ctx.flag(f"rec{i}_{z}")])
            if ctx.flag(f"backwards{i}"):
                sets[-1].reverse()
        for k in (("A", "B"), ("B", "A")):
            gm.edge_history[k] = []
        for zs in sets:
            rec = TestResult(u=N["A"], v=N["B"], action=A.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": [N[z] for z in zs]})
            gm.add_edge_history(N["A"], N["B"], rec)
            gm.add_edge_history(N["B"], N["A"], rec)
        O.run_step(sk.mg, ColliderTest())
        post = O.View(ctx, sk.mg)
        # with several records the last one tells which set separated the pair
        for z in others:
            if any(z in zs for zs in sets):
                if self.records == 1:
                    for x in "AB":
                        ctx.check(And(post.live(x, z), post.live(z, x)), f"{z} separates A and B: {x}--{z} stays undirected")
            else:
                for x in "AB":
                    ctx.check(post.only(x, z), f"A->{z}<-B is oriented: {z} is in no separating set")


def harnesses(tier):
    hs = [Collider("KEEP_FIRST", 4), Collider("KEEP_LAST", 4), Collider("KEEP_FIRST", 3, True),
          Collider("KEEP_LAST", 3, True), LargeSets(6, 1), LargeSets(4, 2)]
    if tier == "thorough":
        hs += [LargeSets(7, 1), LargeSets(5, 2), Collider("KEEP_FIRST", 4, True), Collider("KEEP_LAST", 4, True)]
    return hs
