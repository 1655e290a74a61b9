"""shared: a pipeline step whose proposals are solver variables"""
import itertools
from typing import Any, Optional

from causy.generators import AllCombinationsGenerator
from causy.interfaces import GeneratorInterface, PipelineStepInterface
from causy.models import ComparisonSettings, TestResult, TestResultAction as A

KINDS = ("none", "remove", "remove_uv", "remove_vu", "update")


class PlanStep(PipelineStepInterface):
    """proposes, for the pair it is given, what the plan says"""

    generator: Optional[GeneratorInterface] = AllCombinationsGenerator(
        comparison_settings=ComparisonSettings(min=2, max=2)
    )
    parallel: Any = False
    chunk_size_parallel_processing: Any = 1

    def process(self, nodes, graph):
        return self.__dict__["plan"](tuple(nodes), graph)


def plan_step(plan, **kw):
    s = PlanStep(**kw)
    s.__dict__["plan"] = plan
    return s


def action(graph, pair, kind, tag="t"):
    u, v = (graph.nodes[n] for n in pair)
    if kind == "remove":
        return TestResult(u=u, v=v, action=A.REMOVE_EDGE_UNDIRECTED, data={"tag": tag})
    if kind == "remove_uv":
        return TestResult(u=u, v=v, action=A.REMOVE_EDGE_DIRECTED, data={"tag": tag})
    if kind == "remove_vu":
        return TestResult(u=v, v=u, action=A.REMOVE_EDGE_DIRECTED, data={"tag": tag})
    if kind == "update":
        return TestResult(u=u, v=v, action=A.UPDATE_EDGE, data={"tag": tag})
    if kind == "nothing":
        return TestResult(u=u, v=v, action=A.DO_NOTHING, data={"tag": tag})
    if kind == "restore":
        return TestResult(u=u, v=v, action=A.RESTORE_EDGE, data={"tag": tag})
    raise AssertionError(kind)
