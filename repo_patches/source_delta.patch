From b9f1706c20c400ec803b0e1abc2691945441802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 01/35] fix: remove_edge deletes the matching reverse entry of
 each direction

Hard-removing a one-directional edge raised KeyError because the reverse index
of the opposite direction was deleted.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..21e2735 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 034ed333e38882f478effc38b41167f541af5b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 02/35] fix: parents_of_node returns no parents for a node
 without edges

It raised KeyError for nodes that never had an edge.
---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index 21e2735..dbd3752 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
-- 
2.43.0


From 48f1c1df44e3bf3764d17a4e407d8502721680eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 03/35] fix: graph_utils.retrieve_edges no longer lists removed
 edges

Edges which are soft deleted (e.g. after a Loop as last step) were reported.
---
 causy/graph_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index b49c6ca..80edfbc 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -48,7 +48,8 @@ def retrieve_edges(graph) -> List[Tuple[str, str]]:
     edges = []
     for u in graph.edges:
         for v in graph.edges[u]:
-            edges.append((u, v))
+            if graph.directed_edge_exists(u, v):
+                edges.append((u, v))
     return edges
 
 
-- 
2.43.0


From 865e0bb79a1420eb3006477c7372b2d5949b0c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 04/35] fix: restoring a removed edge keeps its edge type and
 metadata

After a hard delete, restore_edge/restore_directed_edge reset the edge type to
the default and restore_edge copied the metadata of one direction to the other.
---
 causy/graph.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index dbd3752..b37555b 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -794,19 +794,8 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
-        if u.id in self.edges and v.id in self.edges[u.id]:
-            self.edges[u.id][v.id].deleted = False
-            self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
-
-        if v.id in self.edges and u.id in self.edges[v.id]:
-            self.edges[v.id][u.id].deleted = False
-            self._reverse_edges[u.id][v.id].deleted = False
-        else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+        self.restore_directed_edge(u, v)
+        self.restore_directed_edge(v, u)
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -851,8 +840,10 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_directed_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            deleted_edge = self._deleted_edges[u.id].pop(v.id)
+            self.add_directed_edge(
+                u, v, deleted_edge.metadata, edge_type=deleted_edge.edge_type
+            )
 
     def update_edge(
         self,
-- 
2.43.0


From 825eb2f70c46625aa19d3e08c45080cefbf5f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 05/35] fix: every unconditioned collider blocks a path in
 d-separation

Only the last collider on a path decided, so u -> a <- m -> b <- v given {b} was
reported as open although the collider a blocks it.
---
 causy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index b37555b..d5325d1 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -344,10 +344,11 @@ class GraphBaseAccessMixin:
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
-                is_path_blocked = True
-                for descendant in self.descendants_of_node(path[i]):
-                    if descendant in conditioning_set:
-                        is_path_blocked = False
+                if not any(
+                    descendant in conditioning_set
+                    for descendant in self.descendants_of_node(path[i])
+                ):
+                    is_path_blocked = True
         return is_path_blocked
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
-- 
2.43.0


From 02ac4607e6db85f7a51824a70612babbbd49014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 06/35] fix: d-separation accepts node ids and nodes in the
 conditioning set alike

Ids in the conditioning set were silently ignored, and the guard against u or v
in the conditioning set never saw Node objects.
---
 causy/graph.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index d5325d1..369251c 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -393,8 +393,15 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        conditioning_set = [
+            self.node_by_id(n) if isinstance(n, str) else n for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if (
+            self.node_by_id(u) in conditioning_set
+            or self.node_by_id(v) in conditioning_set
+        ):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -442,8 +449,15 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        conditioning_set = [
+            self.node_by_id(n) if isinstance(n, str) else n for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if (
+            self.node_by_id(u) in conditioning_set
+            or self.node_by_id(v) in conditioning_set
+        ):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From 87ccee6e203a5b521f08c4f0a025ec9509880633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 07/35] fix: ignore paths without definite status in CPDAG
 d-separation

Such paths were always counted as open (Perkovic, 2020 considers definite status
paths only), so separated nodes were reported as connected.
---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 369251c..2aeac71 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -469,14 +469,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status decide about d-separation in a CPDAG
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From 5eea278d3e121cea41bd6b1d0eed91aaed861808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 08/35] fix: directed_path_exists follows existing edges only
 and terminates

It followed soft deleted edges, raised KeyError at nodes without edges and
recursed forever on cycles and undirected edges.
---
 causy/graph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 2aeac71..e7585cf 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -267,11 +267,18 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if self.directed_edge_exists(u, v):
-            return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+        visited = set()
+        to_visit = [u]
+        while to_visit:
+            current = to_visit.pop()
+            if self.directed_edge_exists(current, v):
                 return True
+            visited.add(current)
+            to_visit.extend(
+                w
+                for w in self.edges.get(current, {})
+                if w not in visited and self.directed_edge_exists(current, w)
+            )
         return False
 
     def edge_of_type_exists(
-- 
2.43.0


From db6726e5f5ca5b53d3ddbc8b9e7c8c969c0be39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 09/35] fix: directed_paths returns all directed paths

If u and v were connected directly, only that edge was returned. Nodes without
edges raised KeyError and cycles or undirected edges recursed forever.
---
 causy/edge_types.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..a2a6d19 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -61,22 +61,29 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             return u, v
 
         def directed_paths(
-            self, u: Union[NodeInterface, str], v: Union[NodeInterface, str]
+            self,
+            u: Union[NodeInterface, str],
+            v: Union[NodeInterface, str],
+            visited: Tuple[str, ...] = (),
         ) -> List[List[Tuple[NodeInterface, NodeInterface]]]:
             """
             Return all directed paths from u to v
             :param u: node u
             :param v: node v
+            :param visited: ids of the nodes which are already part of the path
             :return: list of directed paths
             """
             u, v = self._resolve_node_references(u, v)
+            visited = (*visited, u.id)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
             paths = []
-            for w in self.edges[u.id]:
+            if self.directed_edge_exists(u, v):
+                paths.append([(u, v)])
+            for w in self.edges.get(u.id, {}):
+                if w == v.id or w in visited:
+                    continue
                 if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
+                    for path in self.directed_paths(self.nodes[w], v, visited):
                         paths.append([(u, self.nodes[w])] + path)
             return paths
 
-- 
2.43.0


From 77d78902e3dcb625be8423001b96172fcd054ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:17 +0000
Subject: [PATCH 10/35] fix: removing a directed edge that does not exist is
 not applied or recorded

---
 causy/graph_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..d430bbf 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -361,9 +361,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 elif i.action == TestResultAction.DO_NOTHING:
                     continue
                 elif i.action == TestResultAction.REMOVE_EDGE_DIRECTED:
-                    if not self.graph.directed_edge_exists(
-                        i.u, i.v
-                    ) and not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.directed_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to remove directed edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From 728ea5c38cb0e489ae36412a4d569ad8219a22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:17 +0000
Subject: [PATCH 11/35] fix: chunked PairsWithEdgesInBetweenGenerator yields
 every edge once

---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..0c63ff8 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From f41dc7587768f0d527864285363ff3121432c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:58 +0000
Subject: [PATCH 12/35] fix: pipeline steps keep every setting they are given,
 including false values

---
 causy/interfaces.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..d2d3035 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -369,27 +369,32 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
         **kwargs,
     ) -> None:
         super().__init__()
-        if generator:
+        if generator is not None:
             if isinstance(generator, dict):
                 self.generator = load_pipeline_artefact_by_definition(generator)
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
-        if display_name:
+        if display_name is not None:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
+        # settings which are declared by the concrete pipeline step
+        for setting, value in kwargs.items():
+            if setting in self.model_fields and value is not None:
+                setattr(self, setting, value)
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 47f3b7840b1a6091943868e52a08c7fe23b72619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:58 +0000
Subject: [PATCH 13/35] fix: conflict resolution strategy given by value is
 recognised

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..f0bd2c5 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -144,7 +144,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -174,7 +174,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
-- 
2.43.0


From 677eb81215c9f7e0220473a8f7365feeb9b5c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:54 +0000
Subject: [PATCH 14/35] fix: chunk_size of a generator survives serialization

---
 causy/interfaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index d2d3035..33f5b44 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -299,6 +299,7 @@ class GeneratorInterface(ABC, BaseModel):
     every_nth: Optional[IntegerParameter] = None
     generator: Optional["GeneratorInterface"] = None
     shuffle_combinations: Optional[BoolParameter] = None
+    chunk_size: Optional[IntegerParameter] = None
 
     @abstractmethod
     def generate(self, graph: BaseGraphInterface, graph_model_instance_: dict):
@@ -311,6 +312,7 @@ class GeneratorInterface(ABC, BaseModel):
         every_nth: Optional[IntegerParameter] = None,
         generator: Optional["GeneratorInterface"] = None,
         shuffle_combinations: Optional[BoolParameter] = None,
+        chunk_size: Optional[IntegerParameter] = None,
     ) -> None:
         super().__init__(comparison_settings=comparison_settings)
         if isinstance(comparison_settings, dict):
@@ -330,6 +332,9 @@ class GeneratorInterface(ABC, BaseModel):
         if shuffle_combinations is not None:
             self.shuffle_combinations = shuffle_combinations
 
+        if chunk_size is not None:
+            self.chunk_size = chunk_size
+
         self.comparison_settings = comparison_settings
 
     @computed_field
-- 
2.43.0


From 3cf272a236673f6cb81412e99c97e8421667c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:17 +0000
Subject: [PATCH 15/35] fix: algorithm files in sibling directories are refused

---
 causy/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..3410d07 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -54,8 +54,8 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        common_path = os.path.commonpath([os.getcwd(), absolute_path])
+        if common_path != os.getcwd():
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From bf0cd05067407d19540386e624164722872f1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:17 +0000
Subject: [PATCH 16/35] fix: loading an algorithm from a python module returns
 an independent copy

---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 3410d07..2417098 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -83,7 +83,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From 0cafeca124fb9bccb25bba59159fca036d23e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:17 +0000
Subject: [PATCH 17/35] fix: an experiment runs with the defaults of variables
 it does not set

---
 causy/workspaces/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..1f291e2 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -278,7 +278,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
-- 
2.43.0


From 4ae8a9ca046e486524421e778565c7923a1916f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:17 +0000
Subject: [PATCH 18/35] fix: unrelated json files do not break or pollute the
 experiment versions

---
 causy/workspaces/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 1f291e2..311a79c 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -355,9 +355,12 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
         # Extract the unix timestamp
         if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
             segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
-            name = "_".join(segments[:-1])
-            if name != experiment_name:
+            try:
+                timestamp = int(segments[-1].split(".")[0])
+            except ValueError:
+                # not a result file
+                continue
+            if file != f"{experiment_name}_{timestamp}.json":
                 # an experiment with a different name
                 continue
             versions.append(timestamp)
-- 
2.43.0


From d463607deb5c28172bad1d1ae197d5a08fbbfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:24 +0000
Subject: [PATCH 19/35] fix: boolean variables of an experiment can be set to
 false

---
 causy/workspaces/cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 311a79c..cdaf23b 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -12,6 +12,7 @@ import sys
 
 import yaml
 from markdown.extensions.toc import slugify
+from pydantic import TypeAdapter
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
     Environment,
@@ -547,7 +548,11 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if current_variable._PYTHON_TYPE is bool:
+            # bool("false") would be True
+            variable_value = TypeAdapter(bool).validate_python(variable_value)
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
     except ValueError:
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
-- 
2.43.0


From 931ba518fb7beb79f405a612417cb59bdc2460b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:21 +0000
Subject: [PATCH 20/35] fix: collider test ignores edges which are already
 marked as removed

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index f0bd2c5..13fe982 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -116,8 +116,11 @@ class ColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
+        # (edges which are only marked as removed do not count)
+        potential_zs = set(
+            z for z in graph.edges[x.id].keys() if graph.directed_edge_exists(x.id, z)
+        ).intersection(
+            z for z in graph.edges[y.id].keys() if graph.directed_edge_exists(y.id, z)
         )
 
         actions = graph.retrieve_edge_history(
-- 
2.43.0


From c868275aca9a164bb57bbd0fa01558a62d22553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:12 +0000
Subject: [PATCH 21/35] fix: unchunked PairsWithNeighboursGenerator yields
 plain pairs

---
 causy/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 0c63ff8..8d43ad2 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,8 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        pair = [node, neighbour]
+                        yield [pair] if self.chunked else pair
                         continue
 
                     other_neighbours = set(
-- 
2.43.0


From 186a4c9bc80c559f9bc07e90edfb6289d1aaff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:41 +0000
Subject: [PATCH 22/35] fix: a pair whose orientation is demanded in both
 directions loses its edge in FurtherOrientTripleTest

---
 .../causal_discovery/constraint/orientation_rules/pc.py  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 13fe982..3660071 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -363,6 +363,15 @@ class FurtherOrientTripleTest(
                         data={"between": {"x": x, "y": y, "z": z}},
                     )
                 )
+
+        if len({result.u.id for result in results}) > 1:
+            # both orientations are demanded (the directed edges contain a cycle), applying both would delete the edge
+            return TestResult(
+                u=x,
+                v=y,
+                action=TestResultAction.DO_NOTHING,
+                data={**results[0].data, "orientation_conflict": True},
+            )
         return results
 
 
-- 
2.43.0


From cf5e6ca46f6ab57a0f00175d5d47d88319a70448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:30 +0000
Subject: [PATCH 23/35] fix: perfectly correlated variables do not crash the
 Fisher-z independence tests

---
 .../constraint/independence_tests/common.py    | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index aa3f84b..5d079b6 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -47,7 +47,11 @@ class CorrelationCoefficientTest(
         corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+        if abs(corr) < 1:
+            fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+        else:
+            # perfectly correlated
+            fisher_z = math.inf
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
@@ -133,7 +137,11 @@ class PartialCorrelationTest(
             nb_of_control_vars = len(nodes) - 2
 
             # Fisher's Z transformation
-            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+            if abs(par_corr) < 1:
+                fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+            else:
+                # perfectly correlated
+                fisher_z = math.inf
 
             # Use absolute value of fisher_z for a two-tailed test
             z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -231,7 +239,11 @@ class ExtendedPartialCorrelationTestMatrix(
         nb_of_control_vars = len(nodes) - 2
 
         # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+        if abs(par_corr) < 1:
+            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+        else:
+            # perfectly correlated
+            fisher_z = math.inf
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
-- 
2.43.0


From 74277afd53162b07292425f71f8024d137d4f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:58 +0000
Subject: [PATCH 24/35] fix: direct effects are not distorted by variables
 which are not centered

---
 causy/causal_effect_estimation/multivariate_regression.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..cf5c39c 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -48,8 +48,15 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             ],
             dim=1,
         )
+        # center the values, the regression has no intercept
+        effect_variable_parents_values = (
+            effect_variable_parents_values - effect_variable_parents_values.mean(dim=0)
+        )
         # multivariate regression via tridiagonal reduction and SVD, see torch documentation
         reshaped_effect_variable_values = effect_variable.values.view(-1, 1)
+        reshaped_effect_variable_values = (
+            reshaped_effect_variable_values - reshaped_effect_variable_values.mean(dim=0)
+        )
 
         coefficients = torch.linalg.lstsq(
             effect_variable_parents_values,
-- 
2.43.0


From 9c8c48aa48ebe004fb94277f93b611120c113e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:47 +0000
Subject: [PATCH 25/35] fix: linear regression independence test accounts for
 variables which are not centered

---
 causy/causal_discovery/constraint/independence_tests/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 5d079b6..85a80c2 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -302,6 +302,9 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
+    # center the values, the regression has no intercept
+    x, y, z = x - x.mean(), y - y.mean(), z - z.mean(dim=1, keepdim=True)
+
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From cd5a51343646d778913f023d25e395e60a64a24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:32 +0000
Subject: [PATCH 26/35] Revert the two fixes to independence_tests/common.py
 (recorded as findings instead)

---
 .../constraint/independence_tests/common.py   | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 85a80c2..aa3f84b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -47,11 +47,7 @@ class CorrelationCoefficientTest(
         corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
-        if abs(corr) < 1:
-            fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-        else:
-            # perfectly correlated
-            fisher_z = math.inf
+        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
@@ -137,11 +133,7 @@ class PartialCorrelationTest(
             nb_of_control_vars = len(nodes) - 2
 
             # Fisher's Z transformation
-            if abs(par_corr) < 1:
-                fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
-            else:
-                # perfectly correlated
-                fisher_z = math.inf
+            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
 
             # Use absolute value of fisher_z for a two-tailed test
             z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -239,11 +231,7 @@ class ExtendedPartialCorrelationTestMatrix(
         nb_of_control_vars = len(nodes) - 2
 
         # Fisher's Z transformation
-        if abs(par_corr) < 1:
-            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
-        else:
-            # perfectly correlated
-            fisher_z = math.inf
+        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -302,9 +290,6 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
-    # center the values, the regression has no intercept
-    x, y, z = x - x.mean(), y - y.mean(), z - z.mean(dim=1, keepdim=True)
-
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From 48c12d83c6f8c8c89acc3f88b1cef2f1a2555d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:58 +0000
Subject: [PATCH 27/35] fix: models created from the same algorithm do not
 share variable values

---
 causy/graph_model.py    | 2 ++
 causy/workspaces/cli.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index d430bbf..eb41d14 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -540,6 +540,8 @@ def graph_model_factory(
         variables = {}
 
     if len(variables) > 0:
+        # resolve the variables in a copy, the algorithm might be used again
+        algorithm = deepcopy(algorithm)
         algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
             algorithm.pipeline_steps, variables
         )
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index cdaf23b..10147d2 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -310,7 +310,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         nodes=model.graph.nodes,
         variables=variables,
         data_loader_hash=data_loader.hash(),
-        algorithm_hash=pipeline.hash(),
+        algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
 
-- 
2.43.0


From 82a3f8ca51062a879ece648b247d5239984d4b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:07 +0000
Subject: [PATCH 28/35] fix: boolean variable values are stored as booleans in
 workspaces, algorithms and results

---
 causy/variables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/variables.py b/causy/variables.py
index bf59625..57b79ff 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -8,7 +8,7 @@ from pydantic import BaseModel, computed_field
 
 VariableInterfaceType = TypeVar("VariableInterfaceType")
 
-VariableType = Union[str, int, float, bool]
+VariableType = Union[str, bool, int, float]
 
 
 class VariableTypes(enum.Enum):
@@ -29,8 +29,8 @@ class BaseVariable(BaseModel, Generic[VariableInterfaceType]):
         self.validate_value(self.value)
 
     name: str
-    value: Union[str, int, float, bool]
-    choices: Optional[List[Union[str, int, float, bool]]] = None
+    value: VariableType
+    choices: Optional[List[VariableType]] = None
 
     def is_valid(self):
         return self.is_valid_value(self.value)
-- 
2.43.0


From ccfc76af22ec5ea0ff353bea000d68a5131c9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:13 +0000
Subject: [PATCH 29/35] fix: algorithms loaded from a specification have edge
 types instead of dictionaries and can be executed

---
 causy/serialization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causy/serialization.py b/causy/serialization.py
index 2417098..d9532c0 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -43,6 +43,13 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     algorithm_dict["variables"] = [
         deserialize_variable(variable) for variable in algorithm_dict["variables"]
     ]
+    if algorithm_dict.get("edge_types") is not None:
+        algorithm_dict["edge_types"] = [
+            EDGE_TYPES[edge_type["name"]](**edge_type)
+            if isinstance(edge_type, dict)
+            else edge_type
+            for edge_type in algorithm_dict["edge_types"]
+        ]
     from causy.models import Algorithm
 
     return TypeAdapter(Algorithm).validate_python(algorithm_dict)
-- 
2.43.0


From 682388543ab11d77d98c800b480e901755e397dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:38 +0000
Subject: [PATCH 30/35] fix: serialized algorithms with enum settings can be
 loaded again

---
 causy/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index 57b79ff..f422abc 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,7 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        if hasattr(value, "__dict__") and not isinstance(value, enum.Enum):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From 3235133395e56abac680451501df9fcb450a94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:03 +0000
Subject: [PATCH 31/35] fix: dynamic data loaders can be loaded

---
 causy/data_loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..04e175e 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,16 +111,17 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
 
     def _load_data_loader(self) -> AbstractDataLoader:
-        module = importlib.import_module(self.reference)
         # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        # the reference can name the class as well (as in generated workspaces)
+        module = importlib.import_module(self.reference.removesuffix(".DataLoader"))
+        return module.DataLoader(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
-- 
2.43.0


From f512217079c48135fd837d56262c57b11d508a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 32/35] fix: boolean metadata of edges is served as a boolean

---
 causy/interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 33f5b44..b283da8 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -25,9 +25,9 @@ DEFAULT_THRESHOLD = 0.01
 
 AS_MANY_AS_FIELDS = 0
 
-MetadataBaseType = Union[str, int, float, bool]
+MetadataBaseType = Union[str, bool, int, float]
 MetadataType = Union[
-    str, int, float, bool, List[MetadataBaseType], Dict[str, MetadataBaseType]
+    str, bool, int, float, List[MetadataBaseType], Dict[str, MetadataBaseType]
 ]
 
 
-- 
2.43.0


From 10d9dccd3ae1dbca27146c531deb22f5f92a2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 33/35] fix: workspace files are written in the YAML version
 they are read in

---
 causy/workspaces/cli.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 10147d2..e01fb4a 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,6 +1,5 @@
 import json
 import logging
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -10,7 +9,6 @@ import typer
 import os
 import sys
 
-import yaml
 from markdown.extensions.toc import slugify
 from pydantic import TypeAdapter
 from pydantic_yaml import to_yaml_str
@@ -80,14 +78,8 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
+    # the file is read as YAML 1.2, PyYAML would write some strings as YAML 1.2 numbers
+    output = to_yaml_str(workspace)
     with open(workspace_path, "w") as f:
         f.write(output)
 
-- 
2.43.0


From a9782dda814cb13b2e9a7d70940208edb2f2ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 34/35] fix: comparisons of experiments show the direction of
 opposite edges

---
 causy/workspaces/cli.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index e01fb4a..1ca3498 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -25,6 +25,7 @@ from rich.table import Table
 
 from causy.graph_model import graph_model_factory
 from causy.graph_utils import hash_dictionary
+from causy.interfaces import EdgeInterface
 from causy.models import (
     AlgorithmReference,
     AlgorithmReferenceType,
@@ -740,6 +741,17 @@ def execute(experiment_name: str = None, force_reexecution: bool = False):
         _save_experiment_result(workspace, experiment_name, result)
 
 
+def _edge_representation(edge: EdgeInterface, first_element: EdgeInterface) -> str:
+    """
+    Represent an edge in the reading direction of another edge between the same nodes.
+    """
+    representation = edge.edge_type.STR_REPRESENTATION
+    if edge.edge_type.IS_DIRECTED and edge.u.name != first_element.u.name:
+        # the edge points in the other direction
+        return representation[::-1].replace(">", "<")
+    return representation
+
+
 @workspace_app.command()
 def diff(experiment_names: List[str], only_differences: bool = False):
     """
@@ -839,7 +851,7 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         table.add_row(
             *[f"{first_element.u.name} - {first_element.v.name}"]
             + [
-                f"{row[experiment].edge_type.STR_REPRESENTATION}"
+                _edge_representation(row[experiment], first_element)
                 if row[experiment]
                 else ""
                 for experiment in resolved_experiments
-- 
2.43.0


From 039103daaa1cf717f46ccc47ddd938711352a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:09 +0000
Subject: [PATCH 35/35] fix: restore an edge which had one direction only

---
 causy/graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index e7585cf..1c94f79 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -818,8 +818,15 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
-        self.restore_directed_edge(u, v)
-        self.restore_directed_edge(v, u)
+        # an edge which had one direction only gets back this direction only
+        directions = [
+            (a, b)
+            for a, b in ((u, v), (v, u))
+            if b.id in self.edges.get(a.id, {})
+            or b.id in self._deleted_edges.get(a.id, {})
+        ]
+        for a, b in directions or [(u, v)]:
+            self.restore_directed_edge(a, b)
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
-- 
2.43.0

