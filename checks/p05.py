"""P05: each Meek rule step orients exactly what its premise allows."""
from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, merged_queries
from checks import orient as O
from causy.causal_discovery.constraint.orientation_rules.pc import (
    FurtherOrientQuadrupleTest, FurtherOrientTripleTest, NonColliderTest, OrientQuadrupleTest,
)

RULES = {
    "R1": (NonColliderTest, O.r1),
    "R2": (FurtherOrientTripleTest, O.r2),
    "R3": (OrientQuadrupleTest, O.r3),
    "R4": (FurtherOrientQuadrupleTest, O.r4),
}


class Rule(Harness):
    validate_max = 15

    def __init__(self, rule, n, soft):
        self.rule, self.n, self.soft = rule, n, soft
        self.names = list("ABCDE"[:n])
        self.name = f"{rule}/n{n}{'/soft' if soft else ''}"
        self.bounds = (
            f"every mixed graph on {n} nodes (each pair: no edge, ->, <-, --"
            f"{'; slots may hold soft-deleted leftovers' if soft else ''}) whose directed part is "
            f"acyclic; one execution of the rule's pipeline step with its own generator"
        )

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        names = self.names
        mg = MixedGraph(ctx, names, soft=self.soft, rows="all", types="tied")
        pre = O.Pre(mg)
        ctx.assume(O.acyclic(names, mg.only))
        cls, premise = RULES[self.rule]
        taken, proposed = O.run_step(mg, cls())
        post = O.View(ctx, mg)
        for a, b in mg.pairs:
            fired = And(pre.live(b, a), Not(post.live(b, a)))
            msg = f"{self.rule} on {a}--{b}"
            ctx.check(Implies(post.live(b, a), pre.live(b, a)), f"{msg}: no edge appears")
            if self.rule == "R1":
                ctx.check(
                    Implies(fired, And(premise(pre, names, a, b), Not(O.r1_conflict(pre, names, a, b)))),
                    f"{msg}: oriented only if the premise holds and no arrowhead conflicts",
                )
            else:
                ctx.check(
                    Iff(fired, premise(pre, names, a, b)),
                    f"{msg}: oriented exactly if the premise holds",
                )
            ctx.check(
                Implies(fired, And(post.live(a, b), post.T[a, b])),
                f"{msg}: becomes a directed edge",
            )
        if self.rule == "R1":
            for i, x in enumerate(names):
                for y in names[i + 1:]:
                    pr, cf = [], []
                    hit = []
                    for z in names:
                        if z in (x, y):
                            continue
                        for s, t in ((x, y), (y, x)):
                            p = And(pre.only(s, z), pre.und(z, t), Not(pre.adj(x, y)))
                            pr.append(p)
                            cf.append(And(p, O.r1_conflict(pre, names, z, t)))
                            hit.append(And(p, post.only(z, t)))
                    ctx.check(
                        Implies(And(Or(pr), Not(Or(cf))), Or(hit)),
                        f"R1: pair {x},{y} with an unconflicted premise makes progress",
                    )


def harnesses(tier):
    hs = [Rule("R1", 4, False), Rule("R1", 3, True), Rule("R2", 4, False), Rule("R2", 3, True),
          Rule("R3", 4, False), Rule("R4", 4, False)]
    if tier == "thorough":
        hs += [Rule(r, 5, False) for r in ("R2", "R3", "R4")]
        hs += [Rule(r, 4, True) for r in RULES]
    return hs
