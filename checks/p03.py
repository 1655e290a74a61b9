"""P03: pipeline actions are applied and recorded exactly when applicable."""
from typing import Any, List, Optional

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import (
    MixedGraph, make_model, ensure_mixins, DIRECTED, UNDIRECTED, BIDIRECTED,
    TestResult, TestResultAction as A,
)
from causy.edge_types import UndirectedEdge
from causy.graph import GraphManager
from causy.interfaces import EdgeTypeInterface, GraphUpdateHook
from checks.p01 import Expected, check_point_queries

ensure_mixins()

ASSUMPTIONS = (
    "UPDATE_EDGE only on pairs with both or no direction (one direction is a documented GraphError)",
    "RESTORE_* only on edges that have been removed before",
    "UPDATE_EDGE_TYPE(_DIRECTED) are outside (the action carries no edge type)",
)

KINDS = (
    A.REMOVE_EDGE_UNDIRECTED,
    A.REMOVE_EDGE_DIRECTED,
    A.UPDATE_EDGE,
    A.UPDATE_EDGE_DIRECTED,
    A.DO_NOTHING,
    A.RESTORE_EDGE,
    A.RESTORE_EDGE_DIRECTED,
)


class Removed:
    """what a restore has to give back, per slot: (can be restored, meta, type)"""

    def __init__(self, mg, ex, pairs):
        self.d = {}
        for k in pairs:
            if mg.deleted[k]:
                self.d[k] = (mg.meta[k], ex.type[k])
            elif mg.stored[k] and not mg.present[k]:
                self.d[k] = (mg.smeta[k], {t: t == mg.stype[k].name for t in ex.type[k]})


def setdir(ex, k):
    ex.type[k] = {t: t == "DIRECTED" for t in ex.type[k]}


def step(ctx, mg, ex, rem, action, a, b, data):
    """reference semantics; -> condition under which the action is applied"""
    L = ex.live
    k, r = (a, b), (b, a)
    if action == A.DO_NOTHING:
        return False
    if action == A.REMOVE_EDGE_UNDIRECTED:
        ok = bool(And(L[k], L[r]))
        if ok:
            for x in (k, r):
                rem.d[x] = (ex.meta[x], ex.type[x])
                ex.drop(*x)
        return ok
    if action == A.REMOVE_EDGE_DIRECTED:
        ok = bool(L[k])
        if ok:
            rem.d[k] = (ex.meta[k], ex.type[k])
            ex.drop(*k)
            if bool(L[r]):
                setdir(ex, r)
        return ok
    if action == A.UPDATE_EDGE:
        if bool(Or(L[k], L[r])):
            ctx.assume(And(L[k], L[r]))
            ex.meta[k] = ex.meta[r] = data
            return True
        return False
    if action == A.UPDATE_EDGE_DIRECTED:
        if bool(L[k]):
            ex.meta[k] = data
            return True
        return False
    if action == A.RESTORE_EDGE:
        if bool(Or(L[k], L[r])):
            return False
        ctx.assume(k in rem.d and r in rem.d)
        for x in (k, r):
            ex.live[x] = True
            ex.meta[x], ex.type[x] = rem.d[x]
        return True
    if action == A.RESTORE_EDGE_DIRECTED:
        if bool(L[k]):
            return False
        ctx.assume(k in rem.d)
        ex.live[k] = True
        ex.meta[k], ex.type[k] = rem.d[k]
        return True
    raise AssertionError(action)


class Drop(GraphUpdateHook):
    """pre hook that drops some of the planned actions"""

    drop: Any = None

    def execute(self, graph, updates):
        return [u for u in updates if not self.drop(u)]


class Record(GraphUpdateHook):
    seen: Any = None

    def execute(self, graph, updates):
        self.seen.extend(updates)


def run_actions(ctx, mg, plan, dry, shape, hooks=None):
    """plan: [(action, a, b)]"""
    ex = Expected(mg)
    pairs = {k: 1 for _, a, b in plan for k in ((a, b), (b, a))}
    rem = Removed(mg, ex, pairs if any("RESTORE" in p[0].value for p in plan) else ())
    seen, seen2 = [], []
    dropped = set()
    kw = {}
    if hooks:
        drop = [ctx.flag(f"drop{i}") for i in range(len(plan))]
        kw = dict(
            pre_graph_update_hooks=[
                Drop(drop=lambda u: drop[u.data["i"]] and not u.data["i"]),
                Drop(drop=lambda u: drop[u.data["i"]] and u.data["i"]),
            ],
            post_graph_update_hooks=[Record(seen=seen), Record(seen=seen2)],
        )
        dropped = {i for i, d in enumerate(drop) if d}
    model = make_model(**kw)()
    model.graph = mg.gm
    N = mg.gm.nodes
    acts = [
        TestResult(u=N[a], v=N[b], action=act, data={"act": f"act{i}", "i": i})
        for i, (act, a, b) in enumerate(plan)
    ]
    results = {
        "flat": acts,
        "nested": [None, list(acts), None],
        "mixed": [None] + acts[:1] + [list(acts[1:])],
    }[shape]
    before = {k: list(mg.g.edge_history.get(k, [])) for k in mg.pairs}
    want_prop = [x for i, x in enumerate(acts) if i not in dropped]
    want_taken = []
    hist = {k: list(v) for k, v in before.items()}
    if dry:
        want_taken = want_prop
    else:
        for i, (act, a, b) in enumerate(plan):
            if i in dropped:
                continue
            if step(ctx, mg, ex, rem, act, a, b, acts[i].data):
                want_taken.append(acts[i])
                hist[a, b].append(acts[i])
                if act in (A.REMOVE_EDGE_UNDIRECTED, A.UPDATE_EDGE, A.RESTORE_EDGE):
                    hist[b, a].append(acts[i])
    taken, proposed = model._take_action(results, dry_run=dry)
    lab = f"{[(x.value, a, b) for x, a, b in plan]}{' dry run' if dry else ''}"
    ctx.check(same(proposed, want_prop), f"{lab}: proposed actions are reported")
    ctx.check(same(taken, want_taken), f"{lab}: exactly the applied actions are reported as taken")
    for k in mg.pairs:
        got = list(mg.g.edge_history.get(k, []))
        ctx.check(same(got, hist[k]), f"{lab}: edge history of {k}")
        for kind in KINDS:
            ctx.check(
                same(mg.gm.retrieve_edge_history(N[k[0]], N[k[1]], kind),
                     [x for x in hist[k] if x.action == kind]),
                f"{lab}: retrieve_edge_history of {k} by action",
            )
    if hooks:
        ctx.check(same(seen, want_taken), f"{lab}: post update hooks see the applied actions")
        ctx.check(same(seen2, want_taken), f"{lab}: every post update hook sees the applied actions")
    check_point_queries(ctx, mg, ex, lab, full=True)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Alike(Harness):
    """actions with equal content or without data are still proposed, applied and recorded one by one"""

    validate_max = 20

    def __init__(self, act, data):
        self.act, self.data = act, data
        self.name = f"alike/{act.value}/{data}"
        self.bounds = (
            f"2 nodes, every slot absent/live/soft-deleted; three equal actions on A,B with the data {data}, "
            "given as one list or several"
        )

    def run(self, ctx):
        mg = MixedGraph(ctx, list("AB"), soft=True, rows="all", types="tied")
        ex = Expected(mg)
        rem = Removed(mg, ex, [("A", "B"), ("B", "A")] if "RESTORE" in self.act.value else ())
        N = mg.gm.nodes
        acts = [TestResult(u=N["A"], v=N["B"], action=self.act, data=self.data) for _ in range(3)]
        want, hist = [], {("A", "B"): [], ("B", "A"): []}
        for x in acts:
            if step(ctx, mg, ex, rem, self.act, "A", "B", self.data):
                want.append(x)
                hist["A", "B"].append(x)
                if self.act in (A.REMOVE_EDGE_UNDIRECTED, A.UPDATE_EDGE, A.RESTORE_EDGE):
                    hist["B", "A"].append(x)
        model = make_model()()
        model.graph = mg.gm
        before = {k: len(mg.g.edge_history.get(k, [])) for k in mg.pairs}
        taken, proposed = model._take_action(acts if ctx.flag("flat") else [acts[:2], acts[2]])
        lab = f"three times {self.act.value} with {self.data}"
        ctx.check(len(proposed) == 3 and all(x == acts[0] for x in proposed), f"{lab}: every proposal is reported")
        ctx.check(len(taken) == len(want) and all(x == acts[0] for x in taken), f"{lab}: every applied action is reported")
        for k in mg.pairs:
            got = list(mg.g.edge_history.get(k, []))[before[k]:]
            ctx.check(len(got) == len(hist[k]) and all(x == acts[0] for x in got), f"{lab}: edge history of {k}")
        for k in mg.pairs:
            if ex.meta[k] is None:
                ex.meta[k] = mg.meta[k]
        check_point_queries(ctx, mg, ex, lab, full=True)


class OneAction(Harness):
    validate_max = 20

    def __init__(self, act, dry, n=3):
        self.act, self.dry, self.n = act, dry, n
        self.name = f"{act.value}{'/dry' if dry else ''}/n{n}"
        self.bounds = (
            f"{n} nodes; arbitrary pre-state (slots absent/live/soft-deleted, "
            f"{'3 types, rows, ' if n == 2 else ''}removed-edge store); one action on a pair, "
            f"results given flat or nested{', dry run' if dry else ''}"
        )

    def run(self, ctx):
        small = self.n == 2
        mg = MixedGraph(ctx, list("ABC"[: self.n]), soft=True, rows="sym" if small else "all",
                        types="free" if small else "tied", deleted_store=small)
        a, b = ctx.choice("pair", [("A", "B"), ("B", "A")])
        run_actions(ctx, mg, [(self.act, a, b)], self.dry, ctx.choice("shape", ["flat", "nested"]))


class TwoActions(Harness):
    validate_max = 20

    def __init__(self, act1, act2, hooks=False):
        self.acts, self.hooks = (act1, act2), hooks
        self.name = f"{act1.value}+{act2.value}{'/hooks' if hooks else ''}"
        self.bounds = (
            "2 nodes; arbitrary pre-state; batch of two actions on (A,B) then (A,B) or (B,A)"
            + ("; pre hook drops an arbitrary subset, post hook observes" if hooks else "")
        )

    def run(self, ctx):
        mg = MixedGraph(ctx, list("AB"), soft=True, rows="all", types="tied")
        second = ctx.choice("pair2", [("A", "B"), ("B", "A")])
        shape = ctx.choice("shape", ["flat", "nested", "mixed"])
        run_actions(ctx, mg, [(self.acts[0], "A", "B"), (self.acts[1], *second)], False, shape,
                    self.hooks)


class Noticing(UndirectedEdge):
    """an edge type which notes down which of its hooks are called"""

    def __eq__(self, o):
        return isinstance(o, EdgeTypeInterface) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def pre_edge_remove_hook(self, graph, edge):
        NOTES.append(("pre_edge_remove_hook", edge.data["i"], graph.directed_edge_exists(edge.u, edge.v)))

    def post_edge_remove_hook(self, graph, edge):
        NOTES.append(("post_edge_remove_hook", edge.data["i"], graph.directed_edge_exists(edge.u, edge.v)))

    def pre_edge_update_hook(self, graph, edge):
        NOTES.append(("pre_edge_update_hook", edge.data["i"], graph.edge_value(edge.u, edge.v) == edge.data))

    def post_edge_update_hook(self, graph, edge):
        NOTES.append(("post_edge_update_hook", edge.data["i"], graph.edge_value(edge.u, edge.v) == edge.data))


NOTES = []
HOOKED = (A.REMOVE_EDGE_UNDIRECTED, A.REMOVE_EDGE_DIRECTED, A.UPDATE_EDGE, A.UPDATE_EDGE_DIRECTED, A.DO_NOTHING)


class EdgeHooks(Harness):
    """the hooks of the edge's type are called before and after, for applied actions only"""

    name = "edge-hooks"
    bounds = (
        "3 nodes; every subset of the edges A--B, B--C present, of a type which records its hooks; "
        "batches of three actions of five kinds on A,B or B,A or B,C"
    )

    def run(self, ctx):
        del NOTES[:]
        gm = make_model([])()
        gm.graph = GraphManager()
        g = gm.graph
        N = {x: g.add_node(x, [1.0], id_=x) for x in "ABC"}
        t = Noticing()
        live, kind = set(), {}
        for a, b in (("A", "B"), ("B", "C")):
            if ctx.choice("edge" + a + b, (True, False)):
                g.add_edge(N[a], N[b], {}, edge_type=t)
                live |= {(a, b), (b, a)}
                kind[a, b] = kind[b, a] = True
        acts, want = [], []
        for i in range(3):
            act = ctx.choice(f"act{i}", HOOKED)
            a, b = ctx.choice(f"pair{i}", [("A", "B"), ("B", "A")] + ([("B", "C")] if i == 1 else []))
            x = TestResult(u=N[a], v=N[b], action=act, data={"i": i})
            acts.append(x)
            both = {(a, b), (b, a)}
            if act == A.DO_NOTHING:
                continue
            if act == A.UPDATE_EDGE:
                # one direction only cannot be updated as a whole
                ctx.assume(len(both & live) != 1)
            whole = act in (A.REMOVE_EDGE_UNDIRECTED, A.UPDATE_EDGE)
            if not (both <= live if whole else (a, b) in live):
                continue
            what = "update" if "UPDATE" in act.value else "remove"
            if kind[a, b]:
                want.append((f"pre_edge_{what}_hook", i, what == "remove"))
                want.append((f"post_edge_{what}_hook", i, what == "update"))
            if act == A.REMOVE_EDGE_UNDIRECTED:
                live -= both
            elif act == A.REMOVE_EDGE_DIRECTED:
                live -= {(a, b)}
                if (b, a) in live:
                    kind[b, a] = False
        gm._take_action(acts)
        lab = [(x.action.value, x.u.id, x.v.id) for x in acts]
        ctx.check(NOTES == want, f"{lab}: the hooks of the edge type are called around each applied action, and only there")


def harnesses(tier):
    hs = [EdgeHooks()]
    for k in KINDS:
        hs.append(Alike(k, {"w": 1}))
        if k not in (A.UPDATE_EDGE, A.UPDATE_EDGE_DIRECTED):
            hs += [Alike(k, None), Alike(k, {})]
    for k in KINDS:
        hs.append(OneAction(k, False, 2))
        hs.append(OneAction(k, False, 3))
        hs.append(OneAction(k, True, 2))
    for k1 in KINDS:
        for k2 in KINDS:
            if A.DO_NOTHING in (k1, k2) and tier == "quick":
                continue
            hs.append(TwoActions(k1, k2))
            if tier == "thorough":
                hs.append(TwoActions(k1, k2, True))
    R, U, O = A.REMOVE_EDGE_UNDIRECTED, A.UPDATE_EDGE_DIRECTED, A.REMOVE_EDGE_DIRECTED
    hs += [TwoActions(R, U, True), TwoActions(O, O, True), TwoActions(U, R, True)]
    if tier == "thorough":
        hs = list({h.name: h for h in hs}.values())
    return hs
