"""P23: a result says what the run left in the graph, also after saving, loading and serving it."""
import asyncio
import contextlib
import datetime
import json
import os
import sys
import tempfile
from typing import Any, Optional

from symx.core import And
from symx.driver import Harness
from symx.values import Placeholders, SymbolicTypeAdapter, symbolic_models, symbolic_text, v_bool, v_int, v_real
from checks.fakepool import fake_pool
from checks.p15 import same
from checks.p19 import quiet

import causy.serialization as S
import causy.workspaces.cli as CLI
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.data_loader import DataLoaderReference
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.generators import AllCombinationsGenerator
from causy.graph_model import graph_model_factory
from causy.interfaces import GeneratorInterface, PipelineStepInterface
from causy.models import Algorithm, AlgorithmReference, ComparisonSettings, TestResult, TestResultAction as A
from causy.serialization import deserialize_result
from causy.workspaces.models import Experiment, Workspace
import causy.ui.server as UI

ASSUMPTIONS = (
    "JSON text and pydantic hand numbers of a type through unchanged (placeholders in symbolic runs; replays use real files)",
)
BUDGET = {"quick": 300, "thorough": 3000}

CURRENT = {}


class Scripted(PipelineStepInterface):
    """proposes what the script of the current run says for a pair of nodes"""

    generator: Optional[GeneratorInterface] = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    parallel: Any = False
    chunk_size_parallel_processing: Any = 1
    nr: int = 0

    def process(self, nodes, graph):
        CURRENT["graph"] = graph
        return CURRENT["script"](self.nr, tuple(nodes), graph)


def ALGORITHM():
    return graph_model_factory(CURRENT["algorithm"])()


class _Fixed(dict):
    pass


def node_id(x):
    return x["id"] if isinstance(x, dict) else x.id


def equal(a, b, ctx):
    """value in the graph or the history against the value read back: nodes may be read as dictionaries"""
    if hasattr(a, "id") and hasattr(a, "name"):
        return node_id(b) == a.id and (b["name"] if isinstance(b, dict) else b.name) == a.name
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and And(*[equal(a[k], b[k], ctx) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and And(*[equal(x, y, ctx) for x, y in zip(a, b)])
    return same(a, b)


STATES = ("kept", "updated", "one way", "other way", "removed", "one way updated", "removed and restored")


class Saved(Harness):
    validate_max = 15
    validate_every = 3
    timeout_ms = 5000
    stubs = (
        "symbolic numbers pass pydantic and JSON text by placeholders (symbolic runs only)",
        "worker pool and progress display -> in-process stand-ins",
    )

    def __init__(self, nodes, shape, pairs=None):
        self.nodes, self.shape = nodes, shape
        self.pairs = pairs or [(u, v) for i, u in enumerate(nodes) for v in nodes[i + 1:]]
        self.name = f"result/n{len(nodes)}/{shape}"
        self.bounds = (
            f"{len(nodes)} nodes, every pair in {self.pairs} in one of the states {STATES} after two steps ({shape}), metadata with any number, "
            "integer, truth value, text, list and nested value; any order of the nodes in the data"
        )

    @contextlib.contextmanager
    def sym_patches(self):
        saved = S.__dict__.get("TypeAdapter")
        if saved is not None:
            S.TypeAdapter = SymbolicTypeAdapter
        try:
            with symbolic_models(), symbolic_text(Placeholders()), fake_pool(), quiet():
                yield
        finally:
            if saved is not None:
                S.TypeAdapter = saved

    @contextlib.contextmanager
    def con_patches(self):
        with fake_pool(), quiet():
            yield

    @contextlib.contextmanager
    def directory(self):
        old, path = os.getcwd(), list(sys.path)
        with tempfile.TemporaryDirectory(prefix="p23-") as d:
            try:
                os.chdir(d)
                yield d
            finally:
                os.chdir(old)
                sys.path[:] = path

    def script(self, ctx):
        states = {}
        for i, (u, v) in enumerate(self.pairs):
            states[u, v] = ctx.choice(f"{u}{v}", STATES)
        values = {}

        def metadata(tag):
            if tag not in values:
                values[tag] = {
                    "correlation": v_real(ctx, f"r{tag}", -1, 1), "n": v_int(ctx, f"n{tag}", -3, 9),
                    "flag": v_bool(ctx, f"b{tag}") if tag == self.first else True, "label": "x", "more": [v_real(ctx, f"m{tag}", -1, 1), 2],
                    "nested": {"k": v_real(ctx, f"k{tag}", -1, 1)},
                }
            return dict(values[tag])

        self.first = None

        def script(nr, pair, graph):
            key = pair if pair in states else pair[::-1]
            s = states.get(key)
            if s is None:
                return None
            u, v = graph.nodes[key[0]], graph.nodes[key[1]]
            tag = "".join(key)
            if self.first is None and "updated" in s:
                self.first = tag
            if nr == 0:
                if s in ("removed", "removed and restored"):
                    if not graph.edge_exists(u, v):
                        return None
                    return TestResult(u=u, v=v, action=A.REMOVE_EDGE_UNDIRECTED, data={"separatedBy": [graph.nodes[self.nodes[-1]]], "p": 0.5})
                if s.startswith("one way"):
                    return TestResult(u=v, v=u, action=A.REMOVE_EDGE_DIRECTED, data={"between": {"x": u, "y": v}})
                if s == "other way":
                    return [TestResult(u=u, v=v, action=A.REMOVE_EDGE_DIRECTED, data={})]
                return TestResult(u=u, v=v, action=A.DO_NOTHING, data=None)
            if CURRENT["done"].get(tag):
                return None
            CURRENT["done"][tag] = True
            if s == "updated":
                return TestResult(u=u, v=v, action=A.UPDATE_EDGE, data=metadata(tag))
            if s == "one way updated":
                return TestResult(u=u, v=v, action=A.UPDATE_EDGE_DIRECTED, data=metadata(tag))
            if s == "removed and restored":
                return TestResult(u=u, v=v, action=A.RESTORE_EDGE, data={})
            return None

        return script

    def steps(self):
        first, second = Scripted(nr=0), Scripted(nr=1)
        if self.shape == "flat":
            return [first, second]
        if self.shape == "loop":
            return [first, Loop(pipeline_steps=[second], exit_condition=ExitOnNoActions())]
        return [ApplyActionsTogether(pipeline_steps=[first]), second]

    def run(self, ctx):
        CURRENT.clear()
        CURRENT["done"] = {}
        CURRENT["script"] = self.script(ctx)
        CURRENT["algorithm"] = Algorithm(
            name="x", edge_types=[DirectedEdge(), UndirectedEdge()], variables=[], pipeline_steps=self.steps()
        )
        order = ctx.choice("order", (self.nodes, self.nodes[::-1]))
        ws = Workspace(
            name="n", author="a", pipelines={"p": AlgorithmReference(reference="checks.p23.ALGORITHM", type="python_module")},
            dataloaders={"d": DataLoaderReference(type="json", reference="data.json")},
            experiments={"e": Experiment(pipeline="p", dataloader="d")},
        )
        with self.directory():
            with open("data.json", "w") as f:
                f.write(json.dumps({n: [1.0 + i, 2.0, 4.0] for i, n in enumerate(order)}))
            r = CLI._execute_experiment(ws, ws.experiments["e"])
            r.created_at = datetime.datetime.fromtimestamp(1000.25)
            g = CURRENT["graph"]
            g = getattr(g, "graph", g)
            live = {(u, v): e for u, vs in g.edges.items() for v, e in vs.items() if not e.deleted}
            history = list(g.action_history)
            self.compare(ctx, r, live, g, history, "the result of the run", order)
            CLI._save_experiment_result(ws, "e", r)
            loaded = deserialize_result(CLI._load_latest_experiment_result(ws, "e"))
            self.compare(ctx, loaded, live, g, history, "the result read back", order)
            ctx.check(
                loaded.created_at == r.created_at and loaded.algorithm == r.algorithm and loaded.variables == r.variables
                and (loaded.algorithm_hash, loaded.data_loader_hash, loaded.variables_hash)
                == (r.algorithm_hash, r.data_loader_hash, r.variables_hash),
                "the result read back has another head",
            )
            again = deserialize_result(CLI._load_latest_experiment_result(ws, "e"))
            ctx.check(list(loaded.edges) == list(again.edges), "reading a result twice gives edges that differ")
            UI._set_workspace(ws)
            try:
                served = [asyncio.run(UI.get_latest_experiment("e")), asyncio.run(UI.get_experiment("e", 1000))]
            finally:
                UI._set_workspace(None)
            for s in served:
                self.compare(ctx, s, live, g, history, "the result served", order)
                ctx.check(s.version == 1000, "served under another version")
                text = json.loads(s.model_dump_json())
                ctx.check(sorted((e["u"]["id"], e["v"]["id"]) for e in text["edges"]) == sorted(live), "the text served has other edges")
                for e in text["edges"]:
                    want = live[e["u"]["id"], e["v"]["id"]]
                    ctx.check(
                        e["edge_type"]["name"] == want.edge_type.name and equal(want.metadata or {}, e["metadata"] or {}, ctx),
                        "the text served has another edge",
                    )

    def compare(self, ctx, r, live, g, history, what, order):
        ctx.check({k: (n.id, n.name) for k, n in r.nodes.items()} == {n: (n, n) for n in order}, f"{what} has other nodes")
        ctx.check(list(r.nodes) == list(g.nodes), f"{what} has the nodes in another order")
        ctx.check(sorted((e.u.id, e.v.id) for e in r.edges) == sorted(live), f"{what} has other edges")
        for e in r.edges:
            want = live[e.u.id, e.v.id]
            ctx.check(e.edge_type.name == want.edge_type.name, f"{what} has another type of an edge")
            ctx.check(equal(want.metadata or {}, e.metadata or {}, ctx), f"{what} has other metadata of an edge")
        self.compare_history(ctx, r.action_history, history, what)

    def compare_history(self, ctx, got, want, what):
        ctx.check([s.name for s in got] == [s.name for s in want], f"{what} has other steps in its history")
        for a, b in zip(want, got):
            ctx.check(same(a.duration, b.duration), f"{what} has another duration")
            for f in ("actions", "all_proposed_actions"):
                xs, ys = getattr(a, f) or [], getattr(b, f) or []
                ctx.check(len(xs) == len(ys), f"{what} has another number of {f}")
                for x, y in zip(xs, ys):
                    ctx.check(
                        (x.u.id, x.v.id, A(x.action)) == (y.u.id, y.v.id, A(y.action)), f"{what} has other {f}"
                    )
                    ctx.check(equal(x.data or {}, y.data or {}, ctx), f"{what} has other data of {f}")
            self.compare_history(ctx, b.steps or [], a.steps or [], what)


def harnesses(tier):
    n3 = ("a", "b", "c")
    if tier == "quick":
        return [Saved(n3[:2], s) for s in ("flat", "loop", "together")] + [Saved(n3, "loop", [("a", "b"), ("b", "c")])]
    return [Saved(n3, s) for s in ("flat", "loop", "together")]
