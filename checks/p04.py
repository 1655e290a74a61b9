"""P04: parallel, chunked and one-by-one execution of a step give the same result."""
import contextlib
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, make_model, merged_queries
from checks import orient as O
from checks import oracle as OR
from checks.dsep import dag_vars
from checks.fakepool import fake_pool, FakePool
from checks.plansteps import plan_step, action
from causy.generators import PairsWithEdgesInBetweenGenerator, PairsWithNeighboursGenerator, AllCombinationsGenerator
from causy.models import ComparisonSettings, TestResult, TestResultAction
from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
from causy.causal_discovery.constraint.independence_tests.common import (
    CorrelationCoefficientTest, PartialCorrelationTest,
)

ASSUMPTIONS = (
    "worker pool replaced by an in-process one which keeps chunking and delivers whole chunks in any order",
    "a step's answer for an item depends on that item only (plan steps) or on the graph at dispatch (real tests)",
)

KINDS = ("none", "remove", "remove_uv", "remove_vu", "update", "nothing")


def table(g, names):
    """what the graph says, as comparable terms"""
    return {
        (a, b): (g.directed_edge_exists(a, b), g.edge_exists(a, b)) for a, b in itertools.permutations(names, 2)
    }


class Modes(Harness):
    """a step that proposes one solver-chosen action per pair, in every mode"""

    validate_max = 6

    def __init__(self, mode, n, chunk=1, deep=False, dry=False):
        self.mode, self.chunk, self.deep, self.dry = mode, chunk, deep, dry
        self.names = list("ABCD"[:n])
        self.name = f"{mode}/n{n}/chunk{chunk}{'/deep' if deep else ''}{'/planned only' if dry else ''}"
        self.bounds = (
            f"{'undirected' if deep else 'complete'} graphs on {n} nodes ({'any edge' if deep else 'one or two edges'} possibly missing), "
            f"per pair every choice of none / remove{' / remove one direction / update / do-nothing' if n == 3 else ''}, "
            f"answered as result, list or None; mode {mode}, chunk size {chunk}"
            + (", every completion order of the worker chunks" if mode == "parallel" else "")
            + ("; the step only plans, its actions are not applied (as in a group of steps)" if dry else "")
        )

    @contextlib.contextmanager
    def sym_patches(self):
        with fake_pool(), merged_queries():
            yield

    def con_patches(self):
        return fake_pool()

    def run(self, ctx):
        names = self.names
        pairs = list(itertools.combinations(names, 2))
        order = list(range(len(pairs)))
        if self.mode == "parallel":
            late = ctx.flag("late_dispatch")
            k = -(-len(pairs) // self.chunk)
            if not late:
                left = list(range(k))
                order = []
                while left:
                    order.append(left.pop(ctx.choice(f"next{len(order)}", range(len(left)))))
        kind, wrap = {}, {}
        small = len(pairs) > 3
        varied = pairs[:1] if not small else [pairs[0], pairs[-1]]
        for p in pairs:
            opts = ("none", "remove") if small else (KINDS if p in varied else ("none", "remove", "remove_uv", "update"))
            kind[p] = ctx.choice(f"kind_{p[0]}{p[1]}", opts)
            wrap[p] = ctx.flag("wrap") if p == pairs[-1] and kind[p] != "none" else p == pairs[0]
        adj = {}
        for a, b in pairs:
            adj[a, b] = adj[b, a] = ctx.bool(f"adj_{a}{b}") if (a, b) in varied or self.deep else True
        mg = MixedGraph(ctx, names, rows="all", types="tied", live=adj)

        def plan(nodes, graph):
            p = tuple(sorted(nodes))
            if kind[p] == "none":
                return None
            r = action(graph, p, kind[p], f"{p}")
            return [r] if wrap[p] else r

        kw = {}
        if self.mode == "parallel":
            kw = dict(parallel=True, chunk_size_parallel_processing=self.chunk)
        elif self.mode == "chunked":
            kw = dict(generator=Chunks(pairs, self.chunk))
        elif self.mode == "synchronous":
            kw = dict(apply_synchronous=True)
        step = plan_step(plan, **kw)
        model = make_model([step])()
        model.graph = mg.gm
        if self.mode == "parallel":
            model.pool.dispatch = "late" if late else "early"
            model.pool.order = lambda chunks: [chunks[i] for i in order]
        taken, proposed = model.execute_pipeline_step(step, apply_to_graph=not self.dry)
        post = O.View(ctx, mg)
        if self.dry:
            want = sorted(f"{p}" for p in pairs if kind[p] != "none")
            ctx.check(sorted(str(t.data["tag"]) for t in proposed) == want, "every plan is reported once")
            for a, b in itertools.permutations(names, 2):
                ctx.check(Iff(post.live(a, b), adj[a, b]), f"planning leaves {a}->{b} as it was")
            return
        what = [(str(t.data["tag"]), t.action.name) for t in taken]
        for p in pairs:
            a, b = p
            k = kind[p]
            was = adj[p]
            gone_ab = And(was, k in ("remove", "remove_uv"))
            gone_ba = And(was, k in ("remove", "remove_vu"))
            ctx.check(Iff(post.live(a, b), And(was, Not(gone_ab))), f"{a}->{b} afterwards is as the proposals say")
            ctx.check(Iff(post.live(b, a), And(was, Not(gone_ba))), f"{b}->{a} afterwards is as the proposals say")
            done = sum(1 for t, _ in what if t == f"{p}")
            ctx.check(
                Iff(done == 1, And(was, k not in ("none", "nothing"))) if done <= 1 else False,
                f"the action on {a},{b} is reported as taken exactly if it could be applied",
            )
            props = sum(1 for t in proposed if t.data["tag"] == f"{p}")
            ctx.check(props == (0 if k == "none" else 1), f"the proposal for {a},{b} is reported once")
            if k == "update":
                if was:
                    for x, y in ((a, b), (b, a)):
                        ctx.check(mg.g.edge_value(x, y) == {"tag": f"{p}"}, f"{x}->{y} carries the updated data")


class Repeated(Harness):
    """several work items which propose something for the same pair"""

    validate_max = 6

    def __init__(self, mode, chunk=1):
        self.mode, self.chunk = mode, chunk
        self.name = f"repeated/{mode}/chunk{chunk}"
        self.bounds = (
            "three nodes, complete or without A-B; three work items, each proposing nothing or one or two out of "
            f"remove / remove one direction (last item) / update / do nothing for the pair A,B; mode {mode}, chunk size {chunk}"
            + (", any completion order of the worker chunks" if mode == "parallel" else "")
        )

    @contextlib.contextmanager
    def sym_patches(self):
        with fake_pool(), merged_queries():
            yield

    def con_patches(self):
        return fake_pool()

    def run(self, ctx):
        names = list("ABC")
        items = list(itertools.combinations(names, 2))
        order = None
        if self.mode == "parallel" and not ctx.flag("late_dispatch"):
            left, order = list(range(-(-len(items) // self.chunk))), []
            while left:
                order.append(left.pop(ctx.choice(f"next{len(order)}", range(len(left)))))
        want = {}
        for i, it in enumerate(items):
            want[it] = [
                (k, f"{i}:{j}") for j, k in enumerate(ctx.choice(
                    f"item{i}", ((), ("remove",), ("update",), ("update", "remove"), ("nothing", "remove")) + ((("remove_uv",),) if i == len(items) - 1 and self.mode != "parallel" else ()),
                ))
            ]
        was = ctx.bool("adj_AB")
        adj = {(a, b): was if {a, b} == {"A", "B"} else True for a, b in itertools.permutations(names, 2)}
        mg = MixedGraph(ctx, names, rows="all", types="tied", live=adj)

        def plan(nodes, graph):
            rs = [action(graph, ("A", "B"), k, tag) for k, tag in want[tuple(sorted(nodes))]]
            return rs if len(rs) > 1 else (rs[0] if rs else None)

        kw = {}
        if self.mode == "parallel":
            kw = dict(parallel=True, chunk_size_parallel_processing=self.chunk)
        elif self.mode == "chunked":
            kw = dict(generator=Chunks(items, self.chunk))
        elif self.mode == "synchronous":
            kw = dict(apply_synchronous=True)
        step = plan_step(plan, **kw)
        model = make_model([step])()
        model.graph = mg.gm
        if self.mode == "parallel":
            model.pool.dispatch = "late" if order is None else "early"
            model.pool.order = lambda chunks: [chunks[i] for i in order]
        taken, proposed = model.execute_pipeline_step(step)
        # every proposal is reported, once
        ctx.check(
            sorted(p.data["tag"] for p in proposed) == sorted(t for w in want.values() for _, t in w),
            "every proposal is reported exactly once",
        )
        # what is taken and the final state are those of applying the proposals one after the
        # other; in parallel execution the order of the items is open
        exists = bool(was)

        def outcome(seq):
            fwd = back = exists
            exp, data = [], None
            for it in seq:
                for k, tag in want[it]:
                    if k == "remove" and fwd and back:
                        fwd = back = False
                    elif k == "remove_uv" and fwd:
                        fwd = False
                    elif k == "remove_vu" and back:
                        back = False
                    elif k == "update" and fwd and back:
                        data = tag
                    else:
                        continue
                    exp.append(tag)
            return sorted(exp), fwd, back, data if fwd and back else None

        seqs = itertools.permutations(items) if self.mode == "parallel" else [items]
        outs = [outcome(x) for x in seqs]
        got = sorted(t.data["tag"] for t in taken)
        ctx.check(any(got == o[0] for o in outs), "the applied proposals are reported as taken, once")
        post = O.View(ctx, mg)
        fwd, back = bool(post.live("A", "B")), bool(post.live("B", "A"))
        data = mg.g.edge_value("A", "B").get("tag") if fwd and back else None
        data = data if data in {t for w in want.values() for _, t in w} else None
        ctx.check((got, fwd, back, data) in outs, "the graph afterwards is as the applied proposals say")


class Chunks(AllCombinationsGenerator):
    def __init__(self, pairs, size):
        super().__init__(comparison_settings=ComparisonSettings(min=2, max=2), chunked=True)
        self.__dict__["plan"] = (pairs, size)

    def generate(self, graph, graph_model_instance_):
        pairs, size = self.__dict__["plan"]
        for i in range(0, len(pairs), size):
            yield pairs[i:i + size]


class Generated(Harness):
    """a step over the shipped generators which marks every edge it is given: whatever the
    mode, every existing direction is marked exactly once"""

    validate_max = 6

    def __init__(self, gen, mode, n=3):
        self.gen, self.mode = gen, mode
        self.names = list("ABCD"[:n])
        self.name = f"generated/{gen}/{mode}/n{n}"
        self.bounds = (
            f"every mixed graph on {n} nodes; a step which updates each pair of the {gen} generator; mode {mode}, "
            "chunk sizes 1, 2, 4 and 100"
        )

    @contextlib.contextmanager
    def sym_patches(self):
        with fake_pool(), merged_queries():
            yield

    def con_patches(self):
        return fake_pool()

    def run(self, ctx):
        mg = MixedGraph(ctx, self.names, rows="all", types="tied")
        size = ctx.choice("size", (1, 2, 4, 100)) if self.mode != "plain" else 1
        kw = {}
        if self.mode == "parallel":
            kw = dict(parallel=True, chunk_size_parallel_processing=size)
        elif self.mode == "synchronous":
            kw = dict(apply_synchronous=True)
        if self.gen == "edges":
            g = PairsWithEdgesInBetweenGenerator(**(dict(chunked=True, chunk_size=size) if self.mode == "chunked" else {}))
        else:
            g = PairsWithNeighboursGenerator(
                chunked=self.mode == "chunked", shuffle_combinations=False,
                comparison_settings=ComparisonSettings(min=2, max=2),
            )

        def plan(nodes, graph):
            u, v = (graph.nodes[x] for x in nodes[:2])
            return TestResult(u=u, v=v, action=TestResultAction.UPDATE_EDGE_DIRECTED, data={"mark": u.id + v.id})

        step = plan_step(plan, generator=g, **kw)
        model = make_model([step])()
        model.graph = mg.gm
        if self.mode == "parallel":
            model.pool.dispatch = ctx.choice("dispatch", ("early", "late"))
        taken, proposed = model.execute_pipeline_step(step)
        for what, acts in (("taken", taken), ("proposed", proposed)):
            got = [a.data["mark"] for a in acts]
            for a, b in mg.pairs:
                ctx.check(
                    Iff(got.count(a + b) == 1, mg.live(a, b)) if got.count(a + b) < 2 else False,
                    f"the work item {a}->{b} is reported once as {what} exactly if the edge exists",
                )
        for a, b in mg.pairs:
            if mg.live(a, b):
                ctx.check(mg.g.edge_value(a, b) == {"mark": a + b}, f"the result for {a}->{b} is applied")


class Tests(Harness):
    """the real tests, parallel against one-by-one, for every DAG"""

    validate_max = 4

    def __init__(self, which, n, chunk, dispatch):
        self.which, self.chunk, self.dispatch = which, chunk, dispatch
        self.names = list("ABCD"[:n])
        self.name = f"tests/{which}/n{n}/chunk{chunk}/{dispatch}"
        self.bounds = (
            f"every DAG on {n} nodes (exact independence answers); correlation step then {which} executed in "
            f"parallel, chunk size {chunk}, chunks dispatched {dispatch}"
        )
        self.stubs = ("scipy.stats.norm.cdf/sf -> d-separation oracle (symbolic runs only)",)

    @contextlib.contextmanager
    def sym_patches(self):
        with OR.oracle_patches(), fake_pool():
            yield

    def con_patches(self):
        return fake_pool()

    def run(self, ctx):
        names = self.names
        arrow = dag_vars(ctx, names)
        order = ctx.choice("order", ("as is", "reversed", "rotated", "odd first")) if self.dispatch == "early" else "as is"
        if ctx.symbolic:
            OR.Oracle(ctx, names, arrow)
            data = OR.table(names).data
        else:
            data = OR.faithful_data(names, arrow)
        par = dict(parallel=True, chunk_size_parallel_processing=self.chunk, threshold=0.05)
        seq = dict(parallel=False, threshold=0.05)

        def run(kw):
            first = kw if self.which == "correlation" else seq
            steps = [CalculatePearsonCorrelations(), CorrelationCoefficientTest(**first)]
            if self.which == "partial":
                steps.append(PartialCorrelationTest(**kw))
            m = make_model(steps)()
            if m.pool is not None:
                m.pool.dispatch = self.dispatch
                m.pool.order = {
                    "as is": lambda c: c, "reversed": lambda c: c[::-1],
                    "rotated": lambda c: c[len(c) // 2:] + c[:len(c) // 2],
                    "odd first": lambda c: c[1::2] + c[::2],
                }[order]
            m.create_graph_from_data(data)
            m.create_all_possible_edges()
            m.execute_pipeline_steps()
            return m.graph

        one, two = run(seq), run(par)
        for a, b in itertools.combinations(names, 2):
            x, y = one.edge_exists(a, b), two.edge_exists(a, b)
            if y and not x and self.dispatch == "late":
                ctx.fail(
                    "a triple dispatched after an earlier result removed one of its edges is not tested, "
                    "the parallel run keeps an edge the sequential run removes"
                )
            ctx.check(x == y, f"{a},{b} adjacent after the parallel run iff after the sequential run")
            for g in (one, two):
                for rec in g.retrieve_edge_history(g.nodes[a], g.nodes[b], "REMOVE_EDGE_UNDIRECTED") if not g.edge_exists(a, b) else ():
                    S = tuple(sorted(n.id for n in rec.data["separatedBy"]))
                    if ctx.symbolic:
                        ctx.check(OR.Oracle.current.dsep(a, b, S), f"the recorded separating set of {a},{b} separates them")


def harnesses(tier):
    hs = [
        Modes("plain", 3), Modes("synchronous", 3), Modes("chunked", 3, 1), Modes("chunked", 3, 2),
        Modes("parallel", 3, 1), Modes("parallel", 3, 2), Modes("parallel", 4, 2), Modes("chunked", 4, 4),
        Tests("correlation", 3, 1, "early"), Tests("correlation", 3, 2, "late"),
        Tests("partial", 3, 1, "early"), Tests("partial", 4, 1, "early"), Tests("partial", 4, 50000, "late"),
        Tests("partial", 4, 1, "late"),
    ]
    hs += [Modes(m, 3, 2, dry=True) for m in ("plain", "synchronous", "chunked", "parallel")]
    hs += [Repeated("plain"), Repeated("synchronous"), Repeated("chunked", 2), Repeated("parallel", 1), Repeated("parallel", 2)]
    hs += [Generated("edges", m) for m in ("plain", "synchronous", "chunked", "parallel")]
    hs += [Generated("neighbours", m) for m in ("plain", "chunked", "parallel")]
    if tier == "thorough":
        hs += [Modes(m, 3, c, True) for m, c in (("plain", 1), ("chunked", 2), ("parallel", 1), ("parallel", 2))]
        hs += [Modes("parallel", 4, 2, True), Modes("chunked", 4, 4, True), Tests("correlation", 4, 1, "early"), Tests("partial", 4, 3, "early")]
    return hs
