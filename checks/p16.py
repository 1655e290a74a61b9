"""P16: variables reach exactly the settings that refer to them, per model."""
import contextlib
import os
import tempfile

import yaml

from symx.core import And, Or, Not, Iff
from symx.driver import Harness
from symx.values import symbolic_models, v_bool, v_int, v_real
from checks.fakepool import fake_pool

import causy.workspaces.cli as CLI
from causy.causal_discovery import AVAILABLE_ALGORITHMS
from causy.causal_discovery.constraint.independence_tests.common import (
    CorrelationCoefficientTest,
    ExtendedPartialCorrelationTestMatrix,
)
from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.edge_types import DirectedEdge, UndirectedEdge
from causy.generators import PairsWithNeighboursGenerator, RandomSampleGenerator
from causy.graph_model import graph_model_factory
from causy.models import Algorithm, ComparisonSettings
from causy.serialization import load_algorithm_by_reference
from causy.variables import (
    BoolVariable,
    FloatVariable,
    IntegerVariable,
    StringVariable,
    VariableReference,
    resolve_variables,
    validate_variable_values,
)

ASSUMPTIONS = (
    "pydantic hands numbers of a type through unchanged (placeholders in symbolic runs; replays use pydantic itself)",
    "strings are chosen from a few, including the empty string",
)
BUDGET = {"quick": 300, "thorough": 3000}
STRATEGIES = ("KEEP_FIRST", "KEEP_LAST")


class Settings(Harness):
    validate_max = 20
    stubs = ("pydantic constructors take symbolic numbers by placeholders (symbolic runs only)", "worker pool -> in-process stand-in")

    @contextlib.contextmanager
    def sym_patches(self):
        with symbolic_models(), fake_pool():
            yield

    def con_patches(self):
        return fake_pool()


class Resolve(Settings):
    """references anywhere in a pipeline are replaced by the value of their variable"""

    # slot -> variable type
    SLOTS = {"thr": "f", "strategy": "s", "min": "i", "max": "i2", "chunked": "b", "nth": "i", "thr2": "f", "deep": "f"}

    def __init__(self, slots, overrides):
        self.slots, self.overrides = slots, overrides
        self.name = "resolve/" + "+".join(slots)
        self.bounds = (
            f"settings {', '.join(slots)} each either a literal or a reference, any default values, variables overridden or "
            "not with any values; two models from the same algorithm with different overrides"
        )

    def run(self, ctx):
        val = {
            "f": lambda n: v_real(ctx, n, 0, 1), "i": lambda n: v_int(ctx, n, 0, 9), "i2": lambda n: v_int(ctx, n, 0, 9),
            "b": lambda n: v_bool(ctx, n), "s": lambda n: ctx.choice(n, STRATEGIES),
        }
        mk = {"f": FloatVariable, "i": IntegerVariable, "i2": IntegerVariable, "b": BoolVariable, "s": StringVariable}
        kinds = sorted({self.SLOTS[s] for s in self.slots})
        default = {k: val[k](f"default_{k}") for k in kinds}
        variables = [mk[k](name=f"var_{k}", value=default[k]) for k in kinds]
        given, slot = {}, {}
        for s, k in self.SLOTS.items():
            if s in self.slots and ctx.flag(f"ref_{s}"):
                slot[s] = VariableReference(name=f"var_{k}")
                given[s] = None
            else:
                lit = val[k](f"lit_{s}") if s in self.slots else {"f": 0.25, "i": 2, "i2": 3, "b": True, "s": "KEEP_FIRST"}[k]
                slot[s] = given[s] = lit
        alg = Algorithm(
            name="x",
            edge_types=[DirectedEdge(), UndirectedEdge()],
            variables=variables,
            pipeline_steps=[
                CorrelationCoefficientTest(threshold=slot["thr"]),
                Loop(
                    pipeline_steps=[
                        ColliderTest(conflict_resolution_strategy=slot["strategy"]),
                        ExtendedPartialCorrelationTestMatrix(
                            threshold=slot["thr2"],
                            generator=RandomSampleGenerator(
                                every_nth=slot["nth"],
                                generator=PairsWithNeighboursGenerator(
                                    chunked=slot["chunked"],
                                    comparison_settings=ComparisonSettings(min=slot["min"], max=slot["max"]),
                                ),
                            ),
                        ),
                        ApplyActionsTogether(pipeline_steps=[ColliderTest(), CorrelationCoefficientTest(threshold=slot["deep"])]),
                    ],
                    exit_condition=ExitOnNoActions(),
                ),
            ],
        )

        def read(steps):
            ext = steps[1].pipeline_steps[1]
            g = ext.generator.generator
            return {
                "thr": steps[0].threshold, "strategy": steps[1].pipeline_steps[0].conflict_resolution_strategy,
                "thr2": ext.threshold, "nth": ext.generator.every_nth, "chunked": g.chunked,
                "min": g.comparison_settings.min, "max": g.comparison_settings.max,
                "deep": steps[1].pipeline_steps[2].pipeline_steps[1].threshold,
            }

        models = []
        for m in (1, 2):
            over = {}
            for k in kinds:
                if k in self.overrides and ctx.flag(f"set{m}_{k}"):
                    over[f"var_{k}"] = val[k](f"value{m}_{k}")
            validate_variable_values(alg, over)
            if not over and m == 1:
                model = graph_model_factory(alg)()
            else:
                model = graph_model_factory(alg, resolve_variables(alg.variables, over))()
            models.append((model, over))
        for i, (model, over) in enumerate(models):
            got = read(model.pipeline_steps)
            for s in self.SLOTS:
                k = self.SLOTS[s]
                want = given[s] if given[s] is not None else over.get(f"var_{k}", default[k])
                ctx.check(
                    Not(isinstance(got[s], VariableReference)) and same(got[s], want),
                    "a setting has the value of the variable it refers to, or its own"
                    + ("" if i == 0 else " (second model from the same algorithm)"),
                )
            orig = read(model._original_algorithm.pipeline_steps)
            for s in self.slots:
                ctx.check(
                    isinstance(orig[s], VariableReference) == (given[s] is None),
                    "the original algorithm of a model keeps its references",
                )
        for v, k in zip(alg.variables, kinds):
            ctx.check(same(v.value, default[k]), "the defaults of the algorithm stay as they are")


def same(a, b):
    if isinstance(b, str) or isinstance(a, str):
        return isinstance(a, str) and isinstance(b, str) and str(getattr(a, "value", a)) == str(getattr(b, "value", b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


class Unknown(Settings):
    name = "unknown"
    bounds = "a reference (in a step, a step of a loop or a generator) to one of four names, one of them that of the setting, overrides for any subset of three names, an algorithm with any subset of three variables"

    def run(self, ctx):
        names = ["a", "b", "threshold"]
        have = [n for n in names if ctx.flag(f"have_{n}")]
        ref = ctx.choice("ref", names + ["d"])
        over = {n: v_real(ctx, f"v_{n}", 0, 1) for n in names if ctx.flag(f"set_{n}")}
        default = {n: v_real(ctx, f"d_{n}", 0, 1) for n in have}
        if not have:
            return
        place = ctx.choice("place", ("loop", "step", "generator"))

        def steps():
            r = VariableReference(name=ref)
            if place == "step":
                return CorrelationCoefficientTest(threshold=r)
            if place == "loop":
                return Loop(pipeline_steps=[CorrelationCoefficientTest(threshold=r)], exit_condition=ExitOnNoActions())
            return ExtendedPartialCorrelationTestMatrix(
                generator=PairsWithNeighboursGenerator(chunked=False, comparison_settings=ComparisonSettings(min=r, max=3))
            )

        alg = Algorithm(
            name="x", edge_types=[], variables=[FloatVariable(name=n, value=default[n]) for n in have],
            pipeline_steps=[steps()],
        )
        try:
            validate_variable_values(alg, over)
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == all(n in have for n in over), "values for variables an algorithm does not have are refused")
        vals = resolve_variables(alg.variables, over)
        ctx.check(
            sorted(vals) == sorted(have) and And(same(vals[n], over.get(n, default[n])) for n in have if n in vals),
            "every variable has its override, or else its default",
        )
        try:
            model = graph_model_factory(alg, vals)()
        except ValueError:
            ctx.check(ref not in have, "a reference to an existing variable is resolved")
            return
        ctx.check(ref in have, "a reference to a variable that does not exist is refused")
        step = model.pipeline_steps[0]
        got = (
            step.threshold if place == "step" else step.pipeline_steps[0].threshold if place == "loop"
            else step.generator.comparison_settings.min
        )
        ctx.check(same(got, vals[ref]), "a nested setting has the value of its variable")


class Validation(Settings):
    name = "validation"
    bounds = "each of the four variable types, a value of each type (numbers symbolic), with and without a list of two choices"

    def run(self, ctx):
        kind = ctx.choice("kind", ("float", "integer", "bool", "string"))
        cls = {"float": FloatVariable, "integer": IntegerVariable, "bool": BoolVariable, "string": StringVariable}[kind]

        def value(k, tag):
            if k == "float":
                return v_real(ctx, f"{tag}_f", -9, 9)
            if k == "integer":
                return v_int(ctx, f"{tag}_i", -9, 9)
            if k == "bool":
                return v_bool(ctx, f"{tag}_b")
            return ctx.choice(f"{tag}_s", ("", "x", "KEEP_FIRST"))

        got_kind = ctx.choice("got", ("float", "integer", "bool", "string"))
        default = value(kind, "default")
        choices = None
        if ctx.flag("choices"):
            choices = [default, value(kind, "other")]
        var = cls(name="v", value=default, choices=choices)
        alg = Algorithm(name="x", edge_types=[], variables=[var], pipeline_steps=[])
        x = value(got_kind, "given")
        try:
            ok = bool(validate_variable_values(alg, {"v": x}))
        except ValueError:
            ok = False
        want = got_kind == kind and (True if choices is None else Or([same(x, c) for c in choices]))
        ctx.check(Iff(ok, want), "a value is accepted exactly if it has the type of the variable and is one of its choices")
        ctx.check(Iff(bool(var.is_valid_value(x)), want), "asking whether a value is valid gives the same answer")


class Shipped(Settings):
    """the shipped algorithms, loaded by name"""

    def __init__(self, names):
        self.algs = names
        self.name = "shipped"
        self.bounds = "every shipped algorithm loaded by name or module, twice, with any two values for its variables"

    def run(self, ctx):
        name = ctx.choice("algorithm", self.algs)
        byname = ctx.flag("by_name")

        def load():
            if byname:
                return load_algorithm_by_reference("name", name)
            return load_algorithm_by_reference("python_module", f"causy.causal_discovery.constraint.algorithms.{name}")

        def refs(steps, path=()):
            out = {}
            for i, s in enumerate(steps):
                for f in getattr(s, "model_fields", {}):
                    v = getattr(s, f)
                    if isinstance(v, VariableReference):
                        out[path + (i, f)] = v.name
                if hasattr(s, "pipeline_steps"):
                    out.update(refs(s.pipeline_steps, path + (i,)))
            return out

        def tests(steps):
            for s in steps:
                if "independence_tests" in type(s).__module__:
                    yield s
                yield from tests(getattr(s, "pipeline_steps", None) or [])

        def at(steps, p):
            for i in p[:-1]:
                s = steps[i]
                steps = getattr(s, "pipeline_steps", None)
            return getattr(s, p[-1])

        pattern = None
        models = []
        for m in (1, 2):
            alg = load()
            rs = refs(alg.pipeline_steps)
            pattern = rs if pattern is None else pattern
            ctx.check(rs == pattern, "loading an algorithm again gives the same algorithm")
            alg2 = load()
            for step in alg2.pipeline_steps:
                if hasattr(step, "threshold"):
                    step.threshold = 0.875
            alg2.pipeline_steps = alg2.pipeline_steps[:1]
            vals = {v.name: v_real(ctx, f"m{m}_{v.name}", 0, 1) for v in alg.variables if isinstance(v, FloatVariable)}
            full = resolve_variables(alg.variables, vals)
            models.append((graph_model_factory(alg, full)(), full))
        ctx.check(len(pattern) > 0, "the shipped algorithms have references to their variables")
        for model, full in models:
            if "threshold" in full:
                for t in tests(model.pipeline_steps):
                    ctx.check(same(t.threshold, full["threshold"]), "the significance level reaches every independence test of a shipped algorithm")
            for p, v in pattern.items():
                ctx.check(same(at(model.pipeline_steps, p), full[v]), "a model of a shipped algorithm uses the values it was given")


class UpdateVariable(Settings):
    """`causy workspace experiment update-variable` stores the value that was meant"""

    name = "update"
    TEXT = {
        "float": {"0.5": 0.5, "0": 0.0, "x": None, "1e-3": 0.001},
        "integer": {"3": 3, "0": 0, "1.5": None, "x": None},
        "bool": {"true": True, "false": False, "False": False, "0": False, "1": True, "maybe": None},
        "string": {"": "", "false": "false", "3": "3"},
    }
    bounds = "each variable type, texts " + repr({k: list(v) for k, v in TEXT.items()})

    def sym_patches(self):
        return fake_pool()

    def run(self, ctx):
        kind = ctx.choice("kind", tuple(self.TEXT))
        text = ctx.choice("text", tuple(self.TEXT[kind]))
        want = self.TEXT[kind][text]
        cls = {"float": FloatVariable, "integer": IntegerVariable, "bool": BoolVariable, "string": StringVariable}[kind]
        start = {"float": 0.75, "integer": 7, "bool": not want if want is not None else True, "string": "start"}[kind]
        alg = Algorithm(
            name="x", edge_types=[], variables=[cls(name="v", value=start), IntegerVariable(name="w", value=1)],
            pipeline_steps=[],
        )
        old = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="p16-") as d:
            try:
                os.chdir(d)
                with open("alg.json", "w") as f:
                    f.write(alg.model_dump_json())
                ws = {
                    "name": "n", "author": "a", "pipelines": {"p": {"reference": "alg.json", "type": "file"}},
                    "dataloaders": {"d": {"type": "json", "reference": "data.json"}},
                    "experiments": {"e": {"pipeline": "p", "dataloader": "d", "variables": {"v": start, "w": 5}}},
                }
                with open("workspace.yml", "w") as f:
                    yaml.dump(ws, f)
                with open(os.devnull, "w") as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                    CLI.update_experiment_variable("e", "v", text)
                now = CLI._current_workspace().experiments["e"].variables
            finally:
                os.chdir(old)
        got = now["v"]
        exp = start if want is None else want
        ctx.check(
            got == exp and type(got) is type(exp) and now["w"] == 5 and set(now) == {"v", "w"},
            "the experiment has the value the text stands for; impossible texts change nothing",
        )


def harnesses(tier):
    algs = sorted(n for n in AVAILABLE_ALGORITHMS)
    hs = [
        Resolve(("thr", "thr2", "min", "chunked"), ("f", "i")),
        Resolve(("strategy", "nth", "max"), ("s", "i", "i2")),
        Resolve(("deep", "thr"), ("f",)),
        Unknown(), Validation(), Shipped(algs), UpdateVariable(),
    ]
    if tier == "thorough":
        hs += [Resolve(("thr", "strategy", "min", "max", "chunked", "nth", "thr2", "deep"), ("f", "i", "i2", "b", "s"))]
    return hs
