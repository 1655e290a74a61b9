"""P15: settings are honoured and survive writing an algorithm down and loading it again."""
import contextlib
import copy
import enum
import importlib
import inspect
import json
import os
import pkgutil
import tempfile

import pydantic
import yaml
from pydantic_yaml import to_yaml_str

from symx.core import And, Or, Not, Iff
from symx.driver import Harness
from symx.values import Placeholders, is_symbolic, symbolic_models, symbolic_text, v_bool, v_int, v_real
from checks.fakepool import fake_pool

import causy
import causy.cli as TOP
import causy.workspaces.cli as CLI
from causy.causal_discovery import AVAILABLE_ALGORITHMS
import causy.causal_discovery.constraint.algorithms.pc as PC
from causy.causal_discovery.constraint.independence_tests.common import (
    CorrelationCoefficientTest,
    ExtendedPartialCorrelationTestMatrix,
)
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.contrib.graph_ui import EdgeTypeConfig, GraphUIExtension
from causy.edge_types import (
    BiDirectedEdge, BiDirectedEdgeUIConfig, DirectedEdge, DirectedEdgeUIConfig, UndirectedEdge, UndirectedEdgeUIConfig,
)
from causy.generators import (
    AllCombinationsGenerator,
    PairsWithEdgesInBetweenGenerator,
    PairsWithNeighboursGenerator,
    RandomSampleGenerator,
)
from causy.graph_model import graph_model_factory
from causy.interfaces import GeneratorInterface, PipelineStepInterface
from causy.models import Algorithm, ComparisonSettings
from causy.serialization import load_algorithm_by_reference, load_algorithm_from_specification, serialize_algorithm
from causy.variables import BoolVariable, FloatVariable, IntegerVariable, StringVariable, VariableReference

ASSUMPTIONS = (
    "the JSON and YAML libraries and pydantic hand numbers of a type through unchanged (placeholders in symbolic runs; "
    "replays write and read real text)",
    "texts are chosen from a few, including the empty string and one that looks like a number",
)
BUDGET = {"quick": 300, "thorough": 3000}
FORMS = ("specification", "json text", "yaml text", "json file", "yaml file")


def step_classes():
    """every pipeline step class of the package"""
    for m in pkgutil.walk_packages(causy.__path__, "causy."):
        if m.name.startswith(("causy.causal", "causy.common")):
            importlib.import_module(m.name)
    out, todo = {}, [PipelineStepInterface]
    while todo:
        c = todo.pop()
        todo += c.__subclasses__()
        if c.__module__.startswith("causy.causal") or c.__module__.startswith("causy.common"):
            if not inspect.isabstract(c) and "[" not in c.__name__:
                out[f"{c.__module__}.{c.__name__}"] = c
    return [out[k] for k in sorted(out)]


def same_value(a, b):
    if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
        a, b = getattr(a, "value", a), getattr(b, "value", b)
    if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, int) != isinstance(b, int):
        return False
    return a == b


def same(a, b):
    """same configuration"""
    if isinstance(a, VariableReference) or isinstance(b, VariableReference):
        return isinstance(a, VariableReference) and isinstance(b, VariableReference) and a.name == b.name
    if isinstance(a, pydantic.BaseModel) or isinstance(b, pydantic.BaseModel):
        if type(a) is not type(b) and not (isinstance(a, EdgeTypeConfig) and isinstance(b, EdgeTypeConfig)):
            return False
        return And([same(getattr(a, f), getattr(b, f)) for f in type(a).model_fields])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return And([same(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    return same_value(a, b)


class RoundTrip(Harness):
    validate_max = 20
    forms = FORMS
    stubs = (
        "symbolic numbers pass pydantic constructors and JSON/YAML text by placeholders (symbolic runs only)",
        "worker pool -> in-process stand-in",
    )

    @contextlib.contextmanager
    def sym_patches(self):
        with symbolic_models(), symbolic_text(Placeholders()), fake_pool():
            yield

    def con_patches(self):
        return fake_pool()

    # a setting: absent, a reference or a literal
    def setting(self, ctx, name, kind, modes=("absent", "reference", "literal")):
        mode = ctx.choice(f"how_{name}", modes)
        if mode == "absent":
            return None
        if mode == "reference":
            return VariableReference(name=f"Var_{name}")
        return {
            "f": lambda: v_real(ctx, f"v_{name}", 0, 1), "i": lambda: v_int(ctx, f"v_{name}", 0, 9),
            "b": lambda: v_bool(ctx, f"v_{name}"), "s": lambda: ctx.choice(f"v_{name}", ("", "a", "7", "false")),
            "c": lambda: ctx.choice(f"v_{name}", ("KEEP_FIRST", "KEEP_LAST")),
        }[kind]()

    def given(self, **k):
        return {a: v for a, v in k.items() if v is not None}

    def honoured(self, ctx, obj, given):
        """the object has the given settings and the defaults of its class otherwise"""
        fields = type(obj).model_fields
        for f in fields:
            if f in given:
                ctx.check(same(getattr(obj, f), given[f]), f"a setting has the value it was given ({f})")
            elif not is_symbolic(fields[f].default) and fields[f].default is not None:
                ctx.check(same(getattr(obj, f), fields[f].default), f"a setting which is not given has its default ({f})")

    def algorithm(self, steps, **k):
        return Algorithm(**{"name": "some name", "edge_types": [DirectedEdge(), UndirectedEdge()], "pipeline_steps": steps, **k})

    def reload(self, ctx, alg, form=None):
        form = form or ctx.choice("form", self.forms)
        if form == "specification":
            return load_algorithm_from_specification(alg.model_dump())
        if form == "json text":
            return load_algorithm_from_specification(json.loads(json.dumps(alg.model_dump())))
        if form == "yaml text":
            return load_algorithm_from_specification(yaml.load(to_yaml_str(alg), Loader=yaml.FullLoader))
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="p15-") as d:
            try:
                os.chdir(d)
                with open("alg", "w") as f:
                    f.write(alg.model_dump_json() if form == "json file" else to_yaml_str(alg))
                return load_algorithm_by_reference("file", "alg")
            finally:
                os.chdir(old)

    def compare(self, ctx, alg, new):
        ctx.check(new.name == alg.name, "the loaded algorithm has the same name")
        ctx.check(len(new.pipeline_steps) == len(alg.pipeline_steps), "the loaded algorithm has the same steps")
        for a, b in zip(alg.pipeline_steps, new.pipeline_steps):
            ctx.check(same(a, b), "every step is loaded with the settings that were written down")
        ctx.check(same(list(alg.edge_types or []), list(new.edge_types or [])), "the loaded algorithm has the same edge types")
        ctx.check(same(list(alg.variables or []), list(new.variables or [])), "the loaded algorithm has the same variables")
        ctx.check(same(list(alg.extensions or []), list(new.extensions or [])), "the loaded algorithm has the same extensions")

    def usable(self, ctx, alg, new):
        """a model of the loaded algorithm has the steps a model of the original has"""
        a, b = graph_model_factory(alg)(), graph_model_factory(new)()
        ctx.check(
            len(a.pipeline_steps) == len(b.pipeline_steps) and And([same(x, y) for x, y in zip(a.pipeline_steps, b.pipeline_steps)]),
            "a model of the loaded algorithm has the steps a model of the original has",
        )


class Step(RoundTrip):
    def __init__(self, cls, settings, modes, **extra):
        self.cls, self.settings, self.modes, self.extra = cls, settings, modes, extra
        self.name = f"step/{cls.__name__}/" + "+".join(settings)
        self.bounds = f"settings {', '.join(settings)} of {cls.__name__} each absent, a reference or any value; forms {FORMS}"

    KIND = {
        "threshold": "f", "chunk_size_parallel_processing": "i", "parallel": "b", "display_name": "s",
        "apply_synchronous": "b", "needs_unapplied_actions": "b", "conflict_resolution_strategy": "c",
    }

    def run(self, ctx):
        g = self.given(**{s: self.setting(ctx, s, self.KIND[s], self.modes) for s in self.settings})
        step = self.cls(**g)
        self.honoured(ctx, step, g)
        alg = self.algorithm([step])
        new = self.reload(ctx, alg)
        self.compare(ctx, alg, new)
        if new.pipeline_steps and isinstance(new.pipeline_steps[0], self.cls):
            self.honoured(ctx, new.pipeline_steps[0], g)


class Classes(RoundTrip):
    def __init__(self):
        self.classes = step_classes()
        self.name = "step/classes"
        self.bounds = f"every step class ({len(self.classes)}) with its defaults and with any values; forms {FORMS}"

    def run(self, ctx):
        cls = ctx.choice("class", self.classes)
        g = {}
        if ctx.flag("settings"):
            for f, i in cls.model_fields.items():
                d = i.default
                if isinstance(d, bool):
                    g[f] = not d
                elif isinstance(d, int):
                    g[f] = v_int(ctx, f"v_{f}", 0, 9)
                elif isinstance(d, float) or f == "threshold":
                    g[f] = v_real(ctx, f"v_{f}", 0, 1)
                elif isinstance(d, enum.Enum):
                    g[f] = ctx.choice(f"v_{f}", list(type(d)))
                elif f == "generator" and ctx.flag("own generator"):
                    g[f] = PairsWithNeighboursGenerator(
                        chunked=False, shuffle_combinations=False,
                        comparison_settings=ComparisonSettings(min=v_int(ctx, "min", 0, 9), max=v_int(ctx, "max", 0, 9)),
                    )
                elif isinstance(d, str) or f == "display_name":
                    g[f] = ctx.choice(f"v_{f}", ("", "a"))
        step = cls(**g)
        self.honoured(ctx, step, g)
        alg = self.algorithm([step])
        new = self.reload(ctx, alg)
        self.compare(ctx, alg, new)


class Generators(RoundTrip):
    CLASSES = {
        AllCombinationsGenerator: (), PairsWithEdgesInBetweenGenerator: ("chunk_size", "chunked"),
        PairsWithNeighboursGenerator: ("chunked", "shuffle_combinations"), RandomSampleGenerator: ("every_nth",),
    }
    KIND = {"chunk_size": "i", "chunked": "b", "shuffle_combinations": "b", "every_nth": "i"}

    def __init__(self, classes, modes):
        self.classes, self.modes = classes, modes
        self.name = "generator/" + "+".join(c.__name__[:8] for c in classes) + ("/refs" if "reference" in modes else "")
        self.bounds = (
            "generators " + ", ".join(c.__name__ for c in classes) + f", each setting {', '.join(modes)}, comparison settings "
            f"likewise, also nested in a sampling generator; forms {FORMS}"
        )

    def make(self, ctx, cls, tag):
        own = self.CLASSES[cls]
        g = self.given(**{s: self.setting(ctx, f"{tag}{s}", self.KIND[s], self.modes) for s in own})
        if cls is RandomSampleGenerator:
            inner = ctx.choice("inner", [c for c in self.CLASSES if c is not RandomSampleGenerator])
            g["generator"], _ = self.make(ctx, inner, "inner_")
        elif ctx.flag(f"{tag}comparison"):
            lo = self.setting(ctx, f"{tag}min", "i", self.modes)
            hi = self.setting(ctx, f"{tag}max", "i", ("absent", "literal"))
            c = self.given(min=lo, max=hi)
            g["comparison_settings"] = ComparisonSettings(**c)
            self.honoured(ctx, g["comparison_settings"], c)
        obj = cls(**g)
        self.honoured(ctx, obj, g)
        return obj, g

    def run(self, ctx):
        cls = ctx.choice("class", self.classes)
        gen, g = self.make(ctx, cls, "")
        step = ctx.choice("step", (CorrelationCoefficientTest, ColliderTest))(generator=gen)
        self.honoured(ctx, step, {"generator": gen})
        alg = self.algorithm([step])
        new = self.reload(ctx, alg)
        self.compare(ctx, alg, new)


class Logic(RoundTrip):
    name = "logic"
    bounds = f"loops and joint application, up to two nested levels, display names, exit conditions, references inside; forms {FORMS}"

    def run(self, ctx):
        t = VariableReference(name="T") if ctx.flag("ref") else v_real(ctx, "t", 0, 1)
        # references only inside the nested levels need values when a model is made
        inner = [CorrelationCoefficientTest(threshold=t), ColliderTest(display_name=ctx.choice("name", ("", "a")))]
        kind = ctx.choice("kind", ("loop", "together", "loop in loop", "together in loop", "empty loop"))
        d = ctx.choice("display", (None, "", "shown"))
        if kind == "empty loop":
            step = Loop(pipeline_steps=[], exit_condition=ExitOnNoActions(), display_name=d)
        elif kind == "together":
            step = ApplyActionsTogether(pipeline_steps=inner, display_name=d)
        else:
            if kind == "loop in loop":
                inner = [ColliderTest(), Loop(pipeline_steps=inner, exit_condition=ExitOnNoActions())]
            elif kind == "together in loop":
                inner = [ApplyActionsTogether(pipeline_steps=inner), ColliderTest()]
            step = Loop(pipeline_steps=inner, exit_condition=ExitOnNoActions(), display_name=d)
        if d:
            ctx.check(step.display_name == d, "a setting has the value it was given (display_name)")
        ctx.check(
            kind in ("empty loop",) or len(step.pipeline_steps) == len(inner) and And([same(x, y) for x, y in zip(inner, step.pipeline_steps)]),
            "a logic step has the steps it was given",
        )
        alg = self.algorithm([CorrelationCoefficientTest(), step], variables=[FloatVariable(name="T", value=v_real(ctx, "d", 0, 1))])
        new = self.reload(ctx, alg)
        self.compare(ctx, alg, new)
        self.usable(ctx, alg, new)


class Parts(RoundTrip):
    name = "parts"
    bounds = f"any set of edge types, variables of each type with any value, with and without choices, extensions; forms {FORMS}"

    def run(self, ctx):
        ets = [c() for c in (DirectedEdge, UndirectedEdge, BiDirectedEdge) if ctx.flag(c.__name__)]
        kind = ctx.choice("variable", ("none", "f", "i", "b", "s"))
        vs = None
        if kind != "none":
            x = self.setting(ctx, "x", kind, ("literal",))
            other = {"f": lambda: v_real(ctx, "o", 0, 1), "i": lambda: v_int(ctx, "o", 0, 9), "b": lambda: v_bool(ctx, "o"), "s": lambda: "q"}[kind]
            cls = {"f": FloatVariable, "i": IntegerVariable, "b": BoolVariable, "s": StringVariable}[kind]
            ch = [other(), x] if ctx.flag("choices") else None
            vs = [cls(name="x", value=x, choices=ch), IntegerVariable(name="y", value=0)]
        ext = None
        if ctx.flag("extension"):
            ext = [GraphUIExtension(edges=[BiDirectedEdgeUIConfig(), DirectedEdgeUIConfig(), UndirectedEdgeUIConfig()][: 1 + len(ets)])]
        alg = self.algorithm([CorrelationCoefficientTest()], edge_types=ets, variables=vs, extensions=ext, name=ctx.choice("name", ("n", "7")))
        new = self.reload(ctx, alg)
        self.compare(ctx, alg, new)
        self.usable(ctx, alg, new)


class Shipped(RoundTrip):
    """the shipped algorithms, written down by every command that does"""

    def __init__(self):
        self.algs = [n for n in ("PC", "PCStable", "PCClassic", "ParallelPC") if hasattr(PC, n)]
        self.name = "shipped"
        self.bounds = f"algorithms {', '.join(self.algs)}; forms {FORMS} and `causy eject`"

    def sym_patches(self):
        return fake_pool()

    def run(self, ctx):
        n = ctx.choice("algorithm", self.algs)
        alg = getattr(PC, n)()._original_algorithm
        if n in AVAILABLE_ALGORITHMS:
            ctx.check(AVAILABLE_ALGORITHMS[n]().algorithm.name == n, "an algorithm is available under its name")
            ctx.check(same(load_algorithm_by_reference("name", n), alg), "an algorithm loaded by name is the shipped one")
            model = graph_model_factory(copy.deepcopy(alg))()
            spec = serialize_algorithm(model, "Other")
            ctx.check(spec["name"] == "Other", "an algorithm is written down under the given name")
        if n in AVAILABLE_ALGORITHMS and ctx.flag("eject"):
            old = os.getcwd()
            with tempfile.TemporaryDirectory(prefix="p15-") as d:
                try:
                    os.chdir(d)
                    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                        TOP.eject(n, "out.json")
                    new = load_algorithm_by_reference("file", "out.json")
                finally:
                    os.chdir(old)
            ctx.check(new.name == n, "an ejected algorithm has the name of the algorithm")
            self.usable(ctx, alg, new)
            return
        new = self.reload(ctx, alg)
        self.compare(ctx, alg, new)
        self.usable(ctx, alg, new)
        ctx.check(new.hash() == alg.hash(), "a loaded algorithm has the same hash")


def harnesses(tier):
    lit, ref, full = ("absent", "literal"), ("absent", "reference"), ("absent", "reference", "literal")
    hs = [
        Step(CorrelationCoefficientTest, ("threshold", "chunk_size_parallel_processing", "parallel", "display_name"), lit),
        Step(ColliderTest, ("threshold", "conflict_resolution_strategy", "apply_synchronous", "needs_unapplied_actions"), full),
        Step(ExtendedPartialCorrelationTestMatrix, ("threshold", "chunk_size_parallel_processing", "parallel", "display_name"), ref),
        Classes(), Generators(list(Generators.CLASSES), lit), Generators(list(Generators.CLASSES), ref), Logic(), Parts(), Shipped(),
    ]
    if tier == "thorough":
        hs += [
            Step(ColliderTest, tuple(Step.KIND), full),
            Generators(list(Generators.CLASSES), full),
        ]
    return hs
