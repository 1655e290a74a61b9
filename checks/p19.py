"""P19: an experiment is executed again exactly if something it depends on changed."""
import contextlib
import copy
import datetime
import json
import os
import sys
import tempfile
import types

import yaml

from symx.core import And, Or, Not, Iff
from symx.driver import Harness
from symx.values import Placeholders, symbolic_models, symbolic_text, v_bool, v_int, v_real
from checks.fakepool import fake_pool
from checks.p15 import same

import causy.workspaces.cli as CLI
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import Loop
from causy.data_loader import DataLoaderReference
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.generators import AllCombinationsGenerator
from causy.models import Algorithm, AlgorithmReference, ComparisonSettings
from causy.variables import (
    BoolVariable, FloatVariable, IntegerVariable, StringVariable, VariableReference, resolve_variables,
)
from causy.workspaces.models import Experiment, Workspace

ASSUMPTIONS = (
    "SHA-256 does not collide",
    "JSON text and pydantic hand numbers of a type through unchanged: equal numbers give equal text and different ones "
    "different text (placeholders in symbolic runs; replays use real files and hashes)",
)
BUDGET = {"quick": 300, "thorough": 3000}


class NoProgress:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def add_task(self, *a, **k):
        return 0

    def update(self, *a, **k):
        pass


@contextlib.contextmanager
def quiet():
    saved = getattr(CLI, "Progress", None)
    if saved is not None:
        CLI.Progress = NoProgress
    try:
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            yield
    finally:
        if saved is not None:
            CLI.Progress = saved


class Decision(Harness):
    validate_max = 20
    stubs = (
        "symbolic numbers pass pydantic constructors and JSON text by placeholders, equal ones by equal placeholders (symbolic runs only)",
        "worker pool and progress display -> in-process stand-ins",
    )

    @contextlib.contextmanager
    def sym_patches(self):
        with symbolic_models(), symbolic_text(Placeholders(decide=True)), fake_pool(), quiet():
            yield

    @contextlib.contextmanager
    def con_patches(self):
        with fake_pool(), quiet():
            yield

    @contextlib.contextmanager
    def directory(self):
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="p19-") as d:
            try:
                os.chdir(d)
                yield d
            finally:
                os.chdir(old)

    DATA = {"a": [1.0, 2.0, 3.0, 5.0], "b": [2.0, 1.0, 4.0, 3.0]}

    def write(self, alg=None, data=None, name="alg.json", data_name="data.json"):
        if alg is not None:
            with open(name, "w") as f:
                f.write(alg.model_dump_json())
        if data is not None:
            with open(data_name, "w") as f:
                f.write(json.dumps(data))

    def workspace(self, variables, options=None, name="alg.json", data_name="data.json", extra=()):
        exps = {"e": Experiment(pipeline="p", dataloader="d", variables=variables)}
        for n, v in extra:
            exps[n] = Experiment(pipeline="p", dataloader="d", variables=v)
        return Workspace(
            name="n", author="a", pipelines={"p": AlgorithmReference(reference=name, type="file")},
            dataloaders={"d": DataLoaderReference(type="json", reference=data_name, options=options)}, experiments=exps,
        )

    def execute(self, ws, at=1000, e="e"):
        r = CLI._execute_experiment(ws, ws.experiments[e])
        r.created_at = datetime.datetime.fromtimestamp(at)
        CLI._save_experiment_result(ws, e, r)
        return r

    def decided(self, ctx, ws, changed, what, e="e"):
        need = CLI._experiment_needs_reexecution(ws, e)
        ctx.check(Iff(bool(need), changed), what)

    def value(self, ctx, kind, name):
        return {
            "f": lambda: v_real(ctx, name, 0, 1), "i": lambda: v_int(ctx, name, 1, 9), "b": lambda: v_bool(ctx, name),
            "g": lambda: v_int(ctx, name, 3, 9), "s": lambda: ctx.choice(name, ("KEEP_FIRST", "KEEP_LAST")),
        }[kind]()

    VARS = {"f": FloatVariable, "i": IntegerVariable, "b": BoolVariable, "s": StringVariable}
    SETTING = {"f": "threshold", "i": "chunk_size_parallel_processing", "b": "needs_unapplied_actions", "s": "conflict_resolution_strategy"}


class Variables(Decision):
    def __init__(self, kinds):
        self.kinds = kinds
        self.name = "variables/" + "".join(kinds)
        self.bounds = (
            f"a variable of each type in {kinds} with any default, overridden or not with any value, before and after the run; "
            "used by a step or not; the default may change as well"
        )

    def run(self, ctx):
        kind = ctx.choice("kind", self.kinds)
        d1 = self.value(ctx, kind, "default1")
        d2 = self.value(ctx, kind, "default2") if ctx.flag("new default") else d1

        use = ctx.flag("used")

        def algorithm(d):
            return Algorithm(
                name="x", edge_types=[DirectedEdge(), UndirectedEdge()],
                variables=[self.VARS[kind](name="v", value=d)] + ([FloatVariable(name="w", value=0.5)] if use else []),
                pipeline_steps=[Loop(
                    pipeline_steps=[ColliderTest(**({self.SETTING[kind]: VariableReference(name="v")} if use else {}))],
                    exit_condition=ExitOnNoActions(),
                )],
            )

        o1 = {"v": self.value(ctx, kind, "value1")} if ctx.flag("set1") else {}
        o2 = {"v": self.value(ctx, kind, "value2")} if ctx.flag("set2") else {}
        with self.directory():
            self.write(algorithm(d1), self.DATA)
            r = self.execute(self.workspace(o1))
            v1, v2 = o1.get("v", d1), o2.get("v", d2)
            ctx.check(same(r.variables["v"], v1), "a result has the values of the variables it was made with")
            self.write(algorithm(d2))
            self.decided(
                ctx, self.workspace(o2), Or(Not(v1 == v2), Not(d1 == d2)),
                "an experiment is executed again exactly if its variables or its algorithm changed",
            )


class Settings(Decision):
    name = "settings"
    bounds = (
        "an algorithm with two steps (one in a loop) with any threshold, chunk size, sizes of combinations and strategy, "
        "before and after; steps added, removed or swapped; name or file of the algorithm changed"
    )

    def run(self, ctx):
        what = ctx.choice("what", ("threshold", "nested", "strategy", "generator", "steps", "edge types", "file", "variables"))

        def algorithm(m):
            g = lambda kind, name: self.value(ctx, kind, f"{name}{m}" if what == name else name)
            loop = [ColliderTest(threshold=g("f", "nested"), conflict_resolution_strategy=g("s", "strategy"))]
            steps = [
                ColliderTest(
                    threshold=g("f", "threshold"),
                    generator=AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=g("g", "generator"), max=3)),
                ),
                Loop(pipeline_steps=loop, exit_condition=ExitOnNoActions()),
            ]
            shape = ctx.choice(f"steps{m}", ("both", "first", "swapped")) if what == "steps" else "both"
            steps = {"both": steps, "first": steps[:1], "swapped": steps[::-1]}[shape]
            ets = [DirectedEdge(), UndirectedEdge()]
            if what == "edge types":
                shape = ctx.choice(f"edges{m}", ("both", "one"))
                ets = ets if shape == "both" else ets[:1]
            # values chosen once per name
            return Algorithm(name="x", edge_types=ets, variables=[FloatVariable(name="w", value=0.5)], pipeline_steps=steps), shape

        cache = {}
        value = self.value

        def memo(c, kind, name):
            if name not in cache:
                cache[name] = value(c, kind, name)
            return cache[name]

        self.value = memo
        try:
            (a1, s1), (a2, s2) = algorithm(1), algorithm(2)
        finally:
            del self.value
        changed = s1 != s2
        k = {"threshold": "threshold", "nested": "nested", "strategy": "strategy", "generator": "generator"}.get(what)
        if k:
            changed = Not(same(cache[f"{k}1"], cache[f"{k}2"]))
        with self.directory():
            self.write(a1, self.DATA)
            self.execute(self.workspace({}))
            if what == "file":
                # the same algorithm in another file
                self.write(a2, name="other.yml")
                ws = self.workspace({}, name="other.yml")
            else:
                self.write(a2)
                ws = self.workspace({"w": 0.5} if what == "variables" else {})
            self.decided(ctx, ws, changed, "an experiment is executed again exactly if its algorithm changed")


class Data(Decision):
    name = "data"
    bounds = "any number in the data, before and after; rows swapped; options of the loader (none, empty, any number) before and after"

    def run(self, ctx):
        alg = Algorithm(name="x", edge_types=[DirectedEdge(), UndirectedEdge()], variables=[], pipeline_steps=[ColliderTest()])

        def data(m):
            shape = ctx.choice(f"data{m}", ("value", "swapped", "shorter"))
            x = v_real(ctx, f"x{m}", 100, 101)
            col = {"value": [1.0, 2.0, 3.0, x], "swapped": [1.0, 2.0, x, 3.0], "shorter": [1.0, 2.0, x]}[shape]
            return {"a": col, "b": [2.0, 1.0, 4.0, 3.0][: len(col)]}, shape, x

        def options(m):
            o = ctx.choice(f"options{m}", ("none", "empty", "number"))
            x = v_int(ctx, f"o{m}", 0, 9) if o == "number" else 0
            two = {"k": x, "j": 1} if m == 1 or o != "number" or ctx.flag("same order") else {"j": 1, "k": x}
            return {"none": None, "empty": {}, "number": two}[o], o, x

        (t1, s1, x1), (t2, s2, x2) = data(1), data(2)
        (o1, k1, y1), (o2, k2, y2) = options(1), options(2)
        if {k1, k2} == {"none", "empty"}:
            return  # may count as a change or not
        with self.directory():
            # numbers are printed with the same placeholders as the data
            self.write(alg, self.concrete(ctx, t1))
            self.execute(self.workspace({}, o1))
            self.write(data=self.concrete(ctx, t2))
            changed = Or(s1 != s2, Not(x1 == x2), k1 != k2, Not(y1 == y2))
            self.decided(ctx, self.workspace({}, o2), changed, "an experiment is executed again exactly if its data changed")

    def concrete(self, ctx, d):
        return d

    @contextlib.contextmanager
    def sym_patches(self):
        # the data themselves are not looked at: the numbers in the text are placeholders
        ph = Placeholders(decide=True)
        with symbolic_models(), symbolic_text(ph), fake_pool(), quiet():
            import causy.data_loader as DL

            saved = DL.json

            class Json:
                def __getattr__(self, n):
                    return getattr(json, n)

                def loads(self, t, **k):
                    return ph.plain(json.loads(t, **k))

                def load(self, f, **k):
                    return self.loads(f.read(), **k)

            DL.json = Json()
            try:
                yield
            finally:
                DL.json = saved


class Dynamic(Decision):
    """data from python code, with options"""

    name = "dynamic"
    bounds = (
        "a dynamic data loader whose own hash covers its data only or also its options; data marks and options (none, empty, any "
        "number, another name) before and after"
    )

    def run(self, ctx):
        alg = Algorithm(name="x", edge_types=[DirectedEdge(), UndirectedEdge()], variables=[], pipeline_steps=[ColliderTest()])
        covers = ctx.flag("covers options")
        mark = {"now": None}

        class DataLoader:
            def __init__(self, **options):
                self.options = options

            def load(self):
                yield {"_dict": Decision.DATA}

            def hash(self):
                return f"{mark['now']}" + (f"+{json.dumps(self.options, sort_keys=True)}" if covers else "")

        module = types.ModuleType("p19_dynamic_loader")
        module.DataLoader = DataLoader

        def options(m):
            o = ctx.choice(f"options{m}", ("none", "empty", "number", "other name"))
            x = v_int(ctx, f"o{m}", 0, 9) if o in ("number", "other name") else 0
            return {"none": None, "empty": {}, "number": {"k": x}, "other name": {"j": x}}[o], o, x

        (o1, k1, y1), (o2, k2, y2) = options(1), options(2)
        if {k1, k2} == {"none", "empty"}:
            return  # may count as a change or not
        m1, m2 = ctx.choice("mark1", ("d1", "d2")), "d1"

        def workspace(o):
            ws = self.workspace({})
            ws.dataloaders["d"] = DataLoaderReference(type="dynamic", reference="p19_dynamic_loader", options=o)
            return ws

        sys.modules["p19_dynamic_loader"] = module
        try:
            with self.directory():
                self.write(alg)
                mark["now"] = m1
                self.execute(workspace(o1))
                mark["now"] = m2
                self.decided(
                    ctx, workspace(o2), Or(m1 != m2, k1 != k2, Not(y1 == y2)),
                    "an experiment is executed again exactly if its data or the options of its loader changed",
                )
        finally:
            del sys.modules["p19_dynamic_loader"]


class History(Decision):
    """the latest result counts"""

    name = "history"
    bounds = "up to three earlier runs with any values of a variable, saved in any order of time; results without hashes; no result; another experiment's results"

    def run(self, ctx):
        alg = Algorithm(
            name="x", edge_types=[DirectedEdge(), UndirectedEdge()], variables=[FloatVariable(name="v", value=0.5)],
            pipeline_steps=[ColliderTest(threshold=VariableReference(name="v"))],
        )
        with self.directory():
            self.write(alg, self.DATA)
            times = ctx.choice("times", ((999, 1000, 12000), (1000, 12000, 999), (12000, 999, 1000)))
            n = ctx.choice("runs", (0, 1, 2, 3))
            runs = []
            for i in range(n):
                v = v_real(ctx, f"v{i}", 0, 1)
                self.execute(self.workspace({"v": v}), times[i])
                runs.append((times[i], v))
            other = ctx.choice("other", (None, "e_2", "e2", "f"))
            x = v_real(ctx, "x", 0, 1)
            if other:
                self.execute(self.workspace({}, extra=[(other, {"v": x})]), 50000, other)
            ws = self.workspace({"v": x}, extra=[(other, {"v": x})] if other else ())
            if not runs:
                self.decided(ctx, ws, True, "an experiment without a result is executed")
                return
            t, v = max(runs, key=lambda r: r[0])
            got = CLI._load_latest_experiment_result(ws, "e")
            ctx.check(same(got["variables"]["v"], v), "the latest result is the one of the latest run")
            if ctx.flag("no hashes"):
                f = f"e_{t}.json"
                with open(f) as h:
                    d = json.loads(h.read())
                d[ctx.choice("which", ("algorithm_hash", "data_loader_hash"))] = None
                with open(f, "w") as h:
                    h.write(json.dumps(d))
                self.decided(ctx, ws, True, "a result without hashes is not relied upon")
                return
            self.decided(ctx, ws, Not(v == x), "whether an experiment is executed again depends on its latest result")


class Fine(Decision):
    """small or hidden differences (concrete values)"""

    name = "fine"
    bounds = (
        "variable values that differ by 1e-9 or less, options that differ in type or deep inside, 300 kB of data that differ in the last or "
        "a middle number with size and time stamps kept, files touched or rewritten with the same content"
    )
    OPTIONS = (
        ({"k": 1}, {"k": "1"}), ({"k": True}, {"k": "True"}), ({"k": {"a": [1, {"b": 2}]}}, {"k": {"a": [1, {"b": 3}]}}),
        ({"k": [1, 2]}, {"k": [2, 1]}), ({"k": None}, {"k": "None"}), ({"k": "x"}, {"k": "x "}), ({"k": 0}, {"k": None}), ({"k": 0.1}, {"k": 0.1 + 1e-12}),
    )
    VALUES = ((0.05, 0.05 + 1e-9), (1e-9, 2e-9), (0.0, 1e-12), (0.1 + 0.2, 0.3), (0.05, 0.05000001))

    def sym_patches(self):
        return self.con_patches()

    def run(self, ctx):
        what = ctx.choice("what", ("value", "default", "setting", "options", "data"))
        change = ctx.flag("change")
        case = ctx.choice("case", tuple(range({"options": len(self.OPTIONS), "data": 4}.get(what, len(self.VALUES)))))
        pad = " " * 300000

        def algorithm(v=0.5, s=0.5):
            return Algorithm(
                name="x", edge_types=[DirectedEdge(), UndirectedEdge()], variables=[FloatVariable(name="v", value=v)],
                pipeline_steps=[ColliderTest(threshold=VariableReference(name="v")), ColliderTest(threshold=s)],
            )

        def data(after):
            x, y = ("7.5" if after and case == k else "5.0" for k in (0, 1))
            text = f'{{"a": [1.0,{pad}{x},{pad}3.0, {y}], "b": [2.0, 1.0, 4.0, 3.0]}}'
            name = "data.json"
            stat = os.stat(name) if os.path.exists(name) else None
            if after and case == 3:
                name = "elsewhere.json"
                text = text.replace(f"{pad}5.0", f"{pad}6.0")
            with open(name, "w") as f:
                f.write(text)
            if stat is not None and case != 2:
                os.utime(name, ns=(stat.st_atime_ns, stat.st_mtime_ns))
            return name

        def setup(after):
            k = 1 if after and change else 0
            v, d, st, o, name = {}, 0.5, 0.5, None, "data.json"
            if what == "data":
                name = data(k)
            else:
                self.write(data=self.DATA)
                if what == "options":
                    o = self.OPTIONS[case][k]
                else:
                    x = self.VALUES[case][k]
                    v, d, st = ({"v": x}, d, st) if what == "value" else (v, x, st) if what == "default" else (v, d, x)
            self.write(algorithm(d, st))
            return self.workspace(v, o, data_name=name)

        with self.directory():
            self.execute(setup(False))
            self.decided(
                ctx, setup(True), change and (what, case) != ("data", 2),
                f"{what} {case}: an experiment is executed again exactly if something it depends on changed, however little",
            )


class Execute(Decision):
    """the command that executes all experiments of a workspace"""

    name = "execute"
    bounds = "two experiments with variable values from {0.25, 0.5}, each executed before or not (or interrupted while the result was written), changed or not, forced or not (concrete values)"

    def sym_patches(self):
        return self.con_patches()

    def run(self, ctx):
        alg = Algorithm(
            name="x", edge_types=[DirectedEdge(), UndirectedEdge()], variables=[FloatVariable(name="v", value=0.5)],
            pipeline_steps=[ColliderTest(threshold=VariableReference(name="v"))],
        )
        names = ("e", "g")
        before = {n: ctx.choice(f"before_{n}", (None, 0.25, 0.5) + ((0.75, "empty") if n == "e" else ())) for n in names}
        damaged = before["e"] if before["e"] in (0.75, "empty") else None  # the run was interrupted while its result was written
        now = {n: ctx.choice(f"now_{n}", (0.25, 0.5)) for n in names}
        force = ctx.flag("force")
        one = ctx.choice("which", (None, "g"))
        with self.directory():
            self.write(alg, self.DATA)
            for n in names:
                if before[n] is not None:
                    self.execute(self.workspace({"v": 0.5 if damaged else before["e"] or 0.5}, extra=[("g", {"v": before["g"] or 0.5})]), 1000, n)
            if damaged:
                with open("e_1000.json") as f:
                    text = f.read()
                with open("e_1000.json", "w") as f:
                    f.write("" if damaged == "empty" else text[: len(text) // 2])
            with open("workspace.yml", "w") as f:
                yaml.dump({
                    "name": "n", "author": "a", "pipelines": {"p": {"reference": "alg.json", "type": "file"}},
                    "dataloaders": {"d": {"type": "json", "reference": "data.json"}},
                    "experiments": {n: {"pipeline": "p", "dataloader": "d", "variables": {"v": now[n]}} for n in names},
                }, f)
            CLI.execute(one, force)
            ws = CLI._current_workspace()
            for n in names:
                vs = CLI._load_experiment_versions(ws, n)
                ran = [t for t in vs if t != 1000]
                if one is not None:
                    want = n == one
                else:
                    want = force or before[n] != now[n]
                ctx.check(len(ran) == (1 if want else 0), "exactly the experiments that need it (or are asked for) are executed")
                if want and ran:
                    ctx.check(
                        CLI._load_latest_experiment_result(ws, n)["variables"]["v"] == now[n], "the latest result is the one just made"
                    )
                    ctx.check(CLI._experiment_needs_reexecution(ws, n) is False, "an experiment just executed needs no execution")


def harnesses(tier):
    hs = [Variables(("f", "i", "b", "s")), Settings(), Data(), Dynamic(), History(), Fine(), Execute()]
    return hs
