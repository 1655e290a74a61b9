"""P22: pipelines run their steps in order, loops run until nothing changes."""
import contextlib
import itertools

from symx.driver import Harness
from symx.core import And, Or, Not, Iff, Implies
from symx.graphs import MixedGraph, make_model, merged_queries
from checks import orient as O
from checks.fakepool import fake_pool
from checks.plansteps import PlanStep, plan_step, action
from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
from causy.generators import AllCombinationsGenerator
from causy.interfaces import ExitConditionInterface
from causy.models import ComparisonSettings

ASSUMPTIONS = ("a loop's steps stop proposing after a bounded number of iterations (otherwise it need not end)",)

KINDS = ("none", "remove", "remove_uv", "nothing")


class Items(AllCombinationsGenerator):
    """offers a fixed list of pairs and counts how often it was asked"""

    def __init__(self, pairs, log, chunked=False):
        super().__init__(comparison_settings=ComparisonSettings(min=2, max=2), chunked=chunked)
        self.__dict__["items"] = [pairs[:1], pairs[1:]] if chunked else pairs
        self.__dict__["log"] = log

    def generate(self, graph, graph_model_instance_):
        self.__dict__["log"].append(1)
        yield from self.__dict__["items"]


class AskedExit(ExitConditionInterface):
    """answers per question what the solver chooses; keeps what it was told"""

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        tell, answer = self.__dict__["plan"]
        tell.append((iteration, [x.data["tag"] for x in actions_taken or ()], graph))
        return answer(len(tell) - 1)


class Ref:
    """reference graph: live slots as terms"""

    def __init__(self, adj, pairs):
        self.L = {}
        for a, b in pairs:
            self.L[a, b] = self.L[b, a] = adj[a, b]

    def apply(self, pair, kind):
        """-> condition under which the action is applied (forks)"""
        a, b = pair
        if kind in ("none", "nothing"):
            return False
        if kind == "restore":
            ok = not bool(Or(self.L[a, b], self.L[b, a]))
            if ok:
                self.L[a, b] = self.L[b, a] = True
            return ok
        if kind == "remove":
            ok = bool(And(self.L[a, b], self.L[b, a]))
            if ok:
                self.L[a, b] = self.L[b, a] = False
        else:
            ok = bool(self.L[a, b])
            if ok:
                self.L[a, b] = False
        return ok


class Pipe(Harness):
    validate_max = 8

    def __init__(self, shape, n=3, rounds=2, mode="plain"):
        self.shape, self.rounds, self.mode = shape, rounds, mode
        self.names = list("ABCD"[:n])
        self.name = f"{shape}/n{n}/rounds{rounds}" + (f"/{mode}" if mode != "plain" else "")
        self.bounds = (
            f"pipeline {shape}; every graph on {n} nodes; per step execution and offered pair every proposal out of "
            f"{KINDS}, steps stop proposing after {rounds} executions; first step executed {mode}"
        )
        if mode == "parallel":
            self.stubs = ("worker pool -> in-process pool",)

    @contextlib.contextmanager
    def sym_patches(self):
        with fake_pool(), merged_queries():
            yield

    def con_patches(self):
        return fake_pool()

    def run(self, ctx):
        names = self.names
        allp = list(itertools.combinations(names, 2))
        adj = {}
        for a, b in allp:
            adj[a, b] = adj[b, a] = ctx.bool(f"adj_{a}{b}") if (a, b) == allp[0] else True
        mg = MixedGraph(ctx, names, rows="all", types="tied", live=adj)
        ref = Ref(adj, allp)
        calls = []
        made = {}

        def step(label, pairs, watch=None):
            """proposes per execution; with `watch` the proposal is made only while
            that edge exists"""
            log = []

            def want(p, e):
                k = (label, p, e)
                if k not in made:
                    # an edge can be brought back where the first step of the group always removes it
                    more = ("restore",) if label == "t2" and made.get(("t1", p, e)) == "remove" else ()
                    made[k] = "none" if e >= self.rounds else ctx.choice(f"{label}_{p[0]}{p[1]}_{e}", KINDS + more)
                return made[k]

            def plan(nodes, graph):
                p, e = tuple(nodes), len(log) - 1
                calls.append((label, e, p))
                k = want(p, e)
                if watch and not graph.edge_exists(*watch):
                    k = "none"
                return None if k == "none" else action(graph, p, k, f"{label}:{e}:{p}")

            first = label in ("s1", "l1", "t1")
            mode = self.mode if first else "plain"
            s = plan_step(
                plan, generator=Items(pairs, log, mode == "chunked"), display_name=label,
                parallel=mode == "parallel", apply_synchronous=mode == "synchronous",
            )
            s.__dict__["ref"] = (label, pairs, watch, want)
            return s

        # reference run -------------------------------------------------------
        seen = {}

        def ref_proposals(s):
            label, pairs, watch, want = s.__dict__["ref"]
            e = seen.get(label, 0)
            seen[label] = e + 1
            on = True if not watch else bool(Or(ref.L[watch], ref.L[watch[::-1]]))
            return [(label, e, p, want(p, e)) for p in pairs if on and want(p, e) != "none"]

        def ref_apply(props):
            return [f"{l}:{e}:{p}" for l, e, p, k in props if ref.apply(p, k)]

        AB, AC, BC = allp[0], allp[1], allp[2] if len(allp) > 2 else allp[0]
        hist = []
        if self.shape == "sequence":
            ss = [step("s1", [AB, AC]), step("s2", [AC, BC], watch=AB), step("s3", [BC], watch=AC)]
            steps = ss
            model_steps = ss
        elif self.shape == "loop":
            ss = [step("l1", [AB]), step("l2", [AC], watch=AB)]
            model_steps = [Loop(pipeline_steps=ss, exit_condition=ExitOnNoActions()), step("after", [BC], watch=AC)]
        elif self.shape == "loop_asked":
            ss = [step("l1", [AB]), step("l2", [AC], watch=AB)]
            told, answers = [], {}

            def answer(i):
                if i not in answers:
                    answers[i] = i >= self.rounds or ctx.flag(f"exit_{i}")
                return answers[i]

            ec = AskedExit()
            ec.__dict__["plan"] = (told, answer)
            model_steps = [Loop(pipeline_steps=ss, exit_condition=ec), step("after", [BC], watch=AC)]
            # the model may hold copies: hand the plan to whatever it executes
            model_steps[0].exit_condition.__dict__["plan"] = (told, answer)
        elif self.shape == "together":
            ss = [step("t1", [AB, AC]), step("t2", [AC, BC], watch=AB)]
            model_steps = [ApplyActionsTogether(pipeline_steps=ss), step("after", [BC], watch=AC)]
        model = make_model(model_steps)()
        model.graph = mg.gm
        model.execute_pipeline_steps()
        got = mg.g.action_history

        def tags(xs):
            return [x.data["tag"] for x in xs]

        def entry(props, taken):
            return ([f"{l}:{e}:{p}" for l, e, p, k in props], taken)

        want_hist = []
        if self.shape == "sequence":
            for s in ss:
                props = ref_proposals(s)
                want_hist.append(entry(props, ref_apply(props)))
            got_hist = [(tags(h.all_proposed_actions), tags(h.actions)) for h in got]
            ctx.check(got_hist == want_hist, "the history lists every step in order with its proposals and taken actions")
        else:
            inner = []
            if self.shape == "loop_asked":
                n, want_told, acted = 0, [], []
                while True:
                    want_told.append((n, list(acted)))
                    if answer(n):
                        break
                    acted = []
                    for s in ss:
                        props = ref_proposals(s)
                        taken = ref_apply(props)
                        acted += taken
                        inner.append(entry(props, taken))
                    n += 1
                ctx.check(
                    [(i, t) for i, t, _ in told] == want_told,
                    "the exit condition is asked before every iteration with its number and the actions of the last one",
                )
            elif self.shape == "loop":
                n = 0
                while True:
                    any_taken = False
                    for s in ss:
                        props = ref_proposals(s)
                        taken = ref_apply(props)
                        any_taken = any_taken or bool(taken)
                        inner.append(entry(props, taken))
                    n += 1
                    if not any_taken:
                        break
                    ctx.check(n < 20, "reference loop ends")
            else:
                allprops = []
                for s in ss:
                    props = ref_proposals(s)
                    allprops += props
                    inner.append([f"{l}:{e}:{p}" for l, e, p, k in props])
                ref_apply(allprops)
            last = model_steps[-1]
            props = ref_proposals(last)
            want_last = entry(props, ref_apply(props))
            ctx.check(len(got) == 2, "one history entry per pipeline step")
            if self.shape in ("loop", "loop_asked"):
                gi = [(tags(h.all_proposed_actions), tags(h.actions)) for h in got[0].steps]
                ctx.check(
                    gi == inner,
                    "the loop repeats its steps in order until a full iteration changes nothing, and records each execution",
                )
            else:
                gi = [tags(h.all_proposed_actions) for h in got[0].steps]
                ctx.check(gi == inner, "no step of the group sees what another one of the group proposed")
            ctx.check(
                (tags(got[1].all_proposed_actions), tags(got[1].actions)) == want_last,
                "the step after the group sees the graph as the group left it",
            )
        post = O.View(ctx, mg)
        for p in allp:
            for a, b in (p, p[::-1]):
                ctx.check(Iff(post.live(a, b), ref.L[a, b]), f"{a}->{b} at the end is as the applied actions say")


class Long(Harness):
    """a loop goes on for as long as there is something to do"""

    validate_max = 8

    def __init__(self, rounds):
        self.rounds = rounds
        self.name = f"long loop/{rounds}"
        self.bounds = f"a loop over two steps; each changes the graph up to some round of 0..{rounds}"

    @contextlib.contextmanager
    def sym_patches(self):
        with merged_queries():
            yield

    def run(self, ctx):
        adj = {(a, b): True for a, b in itertools.permutations("AB", 2)}
        mg = MixedGraph(ctx, list("AB"), rows="all", types="tied", live=adj)
        ends = [ctx.choice(f"end{i}", range(self.rounds + 1)) for i in range(2)]
        logs = [[], []]

        def mk(i):
            def plan(nodes, graph):
                e = len(logs[i]) - 1
                return action(graph, ("A", "B"), "update", f"{i}:{e}") if e < ends[i] else None

            return plan_step(plan, generator=Items([("A", "B")], logs[i]), display_name=f"s{i}")

        model = make_model([Loop(pipeline_steps=[mk(0), mk(1)], exit_condition=ExitOnNoActions())])()
        model.graph = mg.gm
        model.execute_pipeline_steps()
        n = max(ends) + 1
        for i in range(2):
            ctx.check(len(logs[i]) == n, "the loop runs until a full iteration changes nothing, and then stops")
        got = [[x.data["tag"] for x in h.actions] for h in mg.g.action_history[0].steps]
        want = [[f"{i}:{e}"] if e < ends[i] else [] for e in range(n) for i in range(2)]
        ctx.check(got == want, "every round's actions are recorded")


class Alike(Harness):
    """proposals that look alike are proposals of their own"""

    name = "alike"
    validate_max = 8
    bounds = "three steps applied together or one after the other, each proposes one of two updates of the same edge, or an update and the same update again"

    def sym_patches(self):
        return merged_queries()

    def run(self, ctx):
        adj = {(a, b): True for a, b in itertools.permutations("AB", 2)}
        mg = MixedGraph(ctx, list("AB"), rows="all", types="tied", live=adj)
        tags = [ctx.choice(f"tag{i}", ("t", "u", None)) for i in range(3)]
        together = ctx.flag("together")

        def mk(i):
            return plan_step(
                lambda nodes, graph: action(graph, ("A", "B"), "update", tags[i]) if tags[i] else None,
                generator=Items([("A", "B")], []), display_name=f"s{i}",
            )

        steps = [mk(i) for i in range(3)]
        model = make_model([ApplyActionsTogether(pipeline_steps=steps)] if together else steps)()
        model.graph = mg.gm
        model.execute_pipeline_steps()
        want = [t for t in tags if t]
        if want:
            ctx.check(mg.gm.edge_value("A", "B")["tag"] == want[-1], "the last proposal is the one that remains")
        ctx.check([x.data["tag"] for x in mg.g.edge_history["A", "B"]] == want, "every proposal is applied, also one like an earlier one")
        h = mg.g.action_history[0].steps if together else mg.g.action_history
        ctx.check([[x.data["tag"] for x in s.all_proposed_actions] for s in h] == [[t] if t else [] for t in tags], "every proposal is recorded")


def harnesses(tier):
    hs = [Pipe("sequence", 3, 1), Pipe("loop", 3, 2), Pipe("together", 3, 1), Pipe("loop_asked", 3, 2)]
    hs += [Pipe("together", 3, 1, m) for m in ("parallel", "chunked", "synchronous")]
    hs += [Pipe("sequence", 3, 1, m) for m in ("parallel", "chunked", "synchronous")]
    hs += [Long(12), Alike()]
    if tier == "thorough":
        hs += [Long(40), Pipe("loop", 3, 3)]
        hs += [Pipe("loop", 3, 2, m) for m in ("parallel", "chunked", "synchronous")]
    return hs
