From 73e9c2ea8853760472d6713760f80585c84a1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:58 +0000
Subject: [PATCH 01/16] fix: self-configuring bounds re-anchored themselves
 whenever the bound was 0

---
 gerrychain/constraints/bounds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 88dd8a6..2d259be 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -116,7 +116,7 @@ class SelfConfiguringUpperBound:
         self.bound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition)
         return self.func(partition) <= self.bound
 
@@ -153,7 +153,7 @@ class SelfConfiguringLowerBound:
         self.epsilon = epsilon
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition) - self.epsilon
         return self.func(partition) >= self.bound
 
@@ -196,7 +196,7 @@ class WithinPercentRangeOfBounds:
         self.ubound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not (self.lbound and self.ubound):
+        if self.lbound is None or self.ubound is None:
             self.lbound = self.func(partition) * (1.0 - self.percent)
             self.ubound = self.func(partition) * (1.0 + self.percent)
             return True
-- 
2.43.0


From 04cf8c34001de08b0f572fc1da4ec255812bcf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 02/16] fix: Grid wrote its default updaters into the caller's
 updaters dictionary

---
 gerrychain/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index b635c80..ef9a7f5 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -107,7 +107,7 @@ class Grid(Partition):
 
             if not updaters:
                 updaters = dict()
-            updaters.update(self.default_updaters)
+            updaters = {**updaters, **self.default_updaters}
 
             super().__init__(graph, assignment, updaters)
         elif parent:
-- 
2.43.0


From 958b15543ad3335eaf86b5adbe51b76fd4cc0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 03/16] fix: LocalitySplits returned one shared dict, so cached
 scores of earlier partitions changed

---
 gerrychain/updaters/locality_split_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 28720b2..e0abbd1 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -195,7 +195,7 @@ class LocalitySplits:
             if s == "num_split_localities":
                 self.scores[s] = self.num_split_localities(partition)
 
-        return self.scores
+        return dict(self.scores)
 
     def num_parts(self, partition) -> int:
         """
-- 
2.43.0


From aabdcc8bb71e374bd6be4dd65aefaa23ac6c225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 04/16] fix: LocalitySplits entropies raised KeyError for
 localities that are not strings

---
 gerrychain/updaters/locality_split_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index e0abbd1..d0d4587 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -307,7 +307,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
@@ -350,7 +350,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
-- 
2.43.0


From 8a4f7ef3ec73d0bd514cb402b8dcef74b376af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 05/16] fix: affected_parts ignored the parts that nodes left
 once the parent link is gone

---
 gerrychain/constraints/contiguity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index e1077e4..b8c8eca 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -152,12 +152,9 @@ def affected_parts(partition: Partition) -> Set[int]:
     flips = partition.flips
     parent = partition.parent
 
-    if flips is None:
+    if flips is None or parent is None:
         return partition.parts
 
-    if parent is None:
-        return set(flips.values())
-
     affected = set()
     for node, part in flips.items():
         affected.add(part)
-- 
2.43.0


From d196a11bfc3f17f15d7b8169924dc6498fed99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:21 +0000
Subject: [PATCH 06/16] fix: county_splits kept reporting NEW_SPLIT for a
 county already split in the parent

---
 gerrychain/updaters/county_splits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/county_splits.py b/gerrychain/updaters/county_splits.py
index fad28f4..4732d39 100644
--- a/gerrychain/updaters/county_splits.py
+++ b/gerrychain/updaters/county_splits.py
@@ -107,7 +107,7 @@ def compute_county_splits(
         split = CountySplit.NOT_SPLIT
 
         if len(seen) > 1:
-            if county_info.split != CountySplit.OLD_SPLIT:
+            if county_info.split == CountySplit.NOT_SPLIT:
                 split = CountySplit.NEW_SPLIT
             else:
                 split = CountySplit.OLD_SPLIT
-- 
2.43.0


From 4986ffcb597fb93a7df27003f40f63ab95fbe2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:05 +0000
Subject: [PATCH 07/16] fix: get_boundary_perim undercounted the exposed sides
 of cells in grids one cell wide

---
 gerrychain/grid.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index ef9a7f5..5e0292d 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -235,12 +235,8 @@ def get_boundary_perim(node: Tuple[int, int], dimensions: Tuple[int, int]) -> in
     :rtype: int
     """
     m, n = dimensions
-    if node in [(0, 0), (m - 1, 0), (0, n - 1), (m - 1, n - 1)]:
-        return 2
-    elif node[0] in [0, m - 1] or node[1] in [0, n - 1]:
-        return 1
-    else:
-        return 0
+    x, y = node
+    return (x == 0) + (x == m - 1) + (y == 0) + (y == n - 1)
 
 
 def color_half(node: Tuple[int, int], threshold: int) -> int:
-- 
2.43.0


From e0d9c2ed9b67d977cd1424965f72999cc92786b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:05 +0000
Subject: [PATCH 08/16] fix: DataTally kept the attribute values of the first
 graph it saw and used them for other graphs

---
 gerrychain/updaters/tally.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 97305b3..c487f01 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -34,15 +34,15 @@ class DataTally:
         self.data = data
         self.alias = alias
 
-        def initialize_tally(partition):
+        def value_of(partition, node):
             if isinstance(self.data, str):
-                nodes = partition.graph.nodes
-                attribute = self.data
-                self.data = {node: nodes[node][attribute] for node in nodes}
+                return partition.graph.nodes[node][self.data]
+            return self.data[node]
 
+        def initialize_tally(partition):
             tally = collections.defaultdict(int)
             for node, part in partition.assignment.items():
-                add = self.data[node]
+                add = value_of(partition, node)
 
                 if math.isnan(add):
                     warnings.warn(
@@ -56,8 +56,8 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(self.data[node] for node in new_nodes)
-            outflow = sum(self.data[node] for node in old_nodes)
+            inflow = sum(value_of(partition, node) for node in new_nodes)
+            outflow = sum(value_of(partition, node) for node in old_nodes)
             return previous + inflow - outflow
 
         self._call = update_tally
-- 
2.43.0


From 261411fc74afeb9712445fbc74b102d22e5d60ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:24 +0000
Subject: [PATCH 09/16] fix: moving a node with a nan value poisoned tallies
 that ignore nan nodes initially

---
 gerrychain/updaters/tally.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index c487f01..ed34db3 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -56,9 +56,13 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(value_of(partition, node) for node in new_nodes)
-            outflow = sum(value_of(partition, node) for node in old_nodes)
-            return previous + inflow - outflow
+            inflow = (value_of(partition, node) for node in new_nodes)
+            outflow = (value_of(partition, node) for node in old_nodes)
+            return (
+                previous
+                + sum(value for value in inflow if not math.isnan(value))
+                - sum(value for value in outflow if not math.isnan(value))
+            )
 
         self._call = update_tally
 
@@ -185,7 +189,8 @@ def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "out" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["out"] for field in fields)
+    values = (sum(graph.lookup(node, field) for field in fields) for node in flow["out"])
+    return sum(value for value in values if not math.isnan(value))
 
 
 def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
@@ -203,4 +208,5 @@ def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "in" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["in"] for field in fields)
+    values = (sum(graph.lookup(node, field) for field in fields) for node in flow["in"])
+    return sum(value for value in values if not math.isnan(value))
-- 
2.43.0


From 6491f2bf1cb65503caeef2b44923350c4de4aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:24 +0000
Subject: [PATCH 10/16] fix: Gingleator partial-credit scores crashed when
 every district meets the threshold

---
 gerrychain/optimization/gingleator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 77399b3..903611d 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -141,7 +141,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=0)
         return num_opport_dists + next_dist
 
     @classmethod
@@ -168,7 +168,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=-np.inf)
 
         if next_dist < threshold - 0.1:
             return num_opport_dists
-- 
2.43.0


From 43d665d11f9ba5e6a41616f9acdf68662cad7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:24 +0000
Subject: [PATCH 11/16] fix: Graph.add_data added every dataframe column
 instead of the requested ones

---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index fdd905a..3247eb3 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -326,7 +326,7 @@ class Graph(networkx.Graph):
 
         check_dataframe(df[columns])
 
-        column_dictionaries = df.to_dict("index")
+        column_dictionaries = df[columns].to_dict("index")
         networkx.set_node_attributes(self, column_dictionaries)
 
         if hasattr(self, "data"):
-- 
2.43.0


From cef9c4eeab3a2cd5dfed0632286d4f41a8ef4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:32 +0000
Subject: [PATCH 12/16] fix: bipartition_tree_random ignored one_sided_cut, so
 two-district cuts could leave one side unbalanced

---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 06ce843..0103af7 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -866,7 +866,7 @@ def bipartition_tree_random(
     :rtype: Union[Set[Any], None]
     """
     if "one_sided_cut" in signature(balance_edge_fn).parameters:
-        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=True)
+        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=one_sided_cut)
 
     possible_cuts = _bipartition_tree_random_all(
         graph=graph,
@@ -1093,7 +1093,9 @@ def get_seed_chunks(
     pop_col: str,
     epsilon: float,
     node_repeats: int = 1,
-    method: Callable = partial(bipartition_tree_random, max_attempts=10000),
+    method: Callable = partial(
+        bipartition_tree_random, max_attempts=10000, one_sided_cut=True
+    ),
 ) -> List[List[int]]:
     """
     Helper function for recursive_seed_part. Partitions the graph into ``num_chunks`` chunks,
-- 
2.43.0


From 03214b177df97c3169334933c5990e26b439547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 13/16] fix: slow_reversible_propose_bi crashed on a node with
 no neighbor in its own district

---
 gerrychain/proposals/proposals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 988c746..20a3ab6 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -124,7 +124,8 @@ def slow_reversible_propose_bi(partition: Partition) -> Partition:
             ]
         )
     )
-    neighbor_assignments.remove(partition.assignment.mapping[flip])
+    if partition.assignment.mapping[flip] in neighbor_assignments:
+        neighbor_assignments.remove(partition.assignment.mapping[flip])
     flips = {flip: random.choice(neighbor_assignments)}
 
     return partition.flip(flips)
-- 
2.43.0


From 44973b1e5de1e518955458a466bc29fece057a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:35 +0000
Subject: [PATCH 14/16] fix: refusing an invalid initial state crashed on
 constraints without a __name__ (Validator, partial)

---
 gerrychain/chain.py                | 6 ++++--
 gerrychain/constraints/validity.py | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 9b63f8a..33de549 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -89,7 +89,8 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according is_valid. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: "
+                + ",".join([getattr(f, "__name__", str(f)) for f in failed])
             )
             raise ValueError(message)
 
@@ -143,7 +144,8 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according to the new constraints. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: "
+                + ",".join([getattr(f, "__name__", str(f)) for f in failed])
             )
             raise ValueError(message)
 
diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index c93d74f..65d3b99 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -56,7 +56,10 @@ class Validator:
         return True
 
     def __repr__(self) -> str:
-        constraint_names = [constraint.__name__ for constraint in self.constraints]
+        constraint_names = [
+            getattr(constraint, "__name__", str(constraint))
+            for constraint in self.constraints
+        ]
         return f"Validator(constraints={constraint_names})"
 
 
-- 
2.43.0


From dc2e458872269680a162a7e4df90bd722e479d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 15/16] fix: simulated annealing overflowed on large score
 improvements instead of accepting them

---
 gerrychain/optimization/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5b45e3c..749434d 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -179,7 +179,9 @@ class SingleMetricOptimizer:
             beta = beta_function(part[self._step_indexer])
             if self._maximize:
                 score_delta *= -1
-            return random.random() < math.exp(-beta * beta_magnitude * score_delta)
+            return random.random() < math.exp(
+                min(0, -beta * beta_magnitude * score_delta)
+            )
 
         return simulated_annealing_acceptance_function
 
-- 
2.43.0


From 71f42fd9f1852987b380cd23a27a4b5e972dafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:18 +0000
Subject: [PATCH 16/16] fix: logit beta schedules returned 0 on the first cold
 step when there is no cooldown

---
 gerrychain/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 749434d..924d29f 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -309,7 +309,7 @@ class SingleMetricOptimizer:
 
         def beta_function(step: int):
             time_in_cycle = step % cycle_length
-            if time_in_cycle <= duration_hot:
+            if time_in_cycle < duration_hot + min(1, duration_cooldown):
                 return 0
             elif time_in_cycle < duration_hot + duration_cooldown:
                 value = logit((time_in_cycle - duration_hot) / duration_cooldown)
@@ -361,7 +361,7 @@ class SingleMetricOptimizer:
 
         def beta_function(step: int):
             time_in_cycle = step % cycle_length
-            if time_in_cycle <= duration_hot:
+            if time_in_cycle < duration_hot + min(1, duration_cooldown):
                 return 0
             elif time_in_cycle < duration_hot + duration_cooldown:
                 value = logit((time_in_cycle - duration_hot) / duration_cooldown)
-- 
2.43.0

