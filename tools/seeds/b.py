PRE = "import random\nfrom gerrychain import Partition, GeographicPartition, Graph\nfrom gerrychain import tree as T\n"
SEEDS = [
dict(id="C15-one-side-only", property="C15", file="tree.py",
 edits=[('''        if (abs(tree_pop - h.ideal_pop) <= h.ideal_pop * h.epsilon) and (
            abs((total_pop - tree_pop) - h.ideal_pop) <= h.ideal_pop * h.epsilon
        ):
            e = (node, pred[node])''', '''        if abs((total_pop - tree_pop) - h.ideal_pop) <= h.ideal_pop * h.epsilon:
            e = (node, pred[node])''')],
 needs="a tree whose total population is not twice the target", breaks="cuts are reported that leave the other side out of tolerance",
 demo=PRE+'''
import networkx as nx
t = nx.path_graph(6)
h = T.PopulatedGraph(t, {x: 1 for x in t}, 2, 0.25)
assert T.find_balanced_edge_cuts_memoization(h) == []
'''),
dict(id="C15-contraction-strict", property="C15", file="tree.py",
 edits=[('''                - self.ideal_pop
            )
            <= self.epsilon * self.ideal_pop
        )''', '''                - self.ideal_pop
            )
            < self.epsilon * self.ideal_pop
        )''')] ,
 needs="a side that lies exactly on the tolerance", breaks="the contraction search misses the edge",
 demo=PRE+'''
import networkx as nx
t = nx.path_graph(4)
pops = {0: 1, 1: 2, 2: 2, 3: 3}
h = T.PopulatedGraph(t, pops, 4, 0.25)
assert {frozenset(c.edge) for c in T.find_balanced_edge_cuts_contraction(h)} == {frozenset((1, 2))}
'''),
dict(id="C16-stale-tree", property="C16", file="tree.py",
 edits=[('''    restarts = 0
    attempts = 0

    while max_attempts is None or attempts < max_attempts:
        if restarts == node_repeats:
            spanning_tree = spanning_tree_fn(graph)
            restarts = 0
        h = PopulatedGraph(spanning_tree, populations, pop_target, epsilon)

        is_region_cut''', '''    restarts = 0
    attempts = 0

    h = PopulatedGraph(spanning_tree, populations, pop_target, epsilon)
    while max_attempts is None or attempts < max_attempts:
        if restarts == node_repeats:
            spanning_tree = spanning_tree_fn(graph)
            h = PopulatedGraph(spanning_tree, populations, pop_target, epsilon)
            restarts = 0

        is_region_cut''')],
 needs="the contraction search with node_repeats > 1 and a first tree without a balanced cut", breaks="the second search of a tree runs on populations already merged by the first: it crashes or returns a wrong piece",
 demo=PRE+'''
import networkx as nx
g = Graph.from_networkx(nx.path_graph(5))
for x in g: g.nodes[x]["P"] = [1, 1, 5, 1, 1][x]
for s in range(20):
    random.seed(s)
    try:
        S = T.bipartition_tree(g, "P", 4.5, 0.125, node_repeats=2, max_attempts=4, balance_edge_fn=T.find_balanced_edge_cuts_contraction)
    except RuntimeError:
        continue
    raise SystemExit("unexpected cut %r" % (S,))
'''),
dict(id="C16-sum-first", property="C16", file="tree.py",
 edits=[('power_set, key=lambda s: (len(s), sum(d[i] for i in s)), reverse=True', 'power_set, key=lambda s: (sum(d[i] for i in s), len(s)), reverse=True')],
 needs="three region columns, one with a surcharge above the sum of the other two", breaks="a cut that crosses one expensive region is preferred to one crossing two regions",
 demo=PRE+'''
import networkx as nx
t = nx.path_graph(4)
for x, (a, b, c) in enumerate([(0, 0, 0), (0, 1, 1), (1, 1, 1), (1, 1, 1)]): t.nodes[x].update(a=a, b=b, c=c)
h = T.PopulatedGraph(t, {x: 1 for x in t}, 2, 1)
cuts = [T.Cut(edge=(0, 1), weight=0.1, subset=frozenset([0])), T.Cut(edge=(1, 2), weight=0.9, subset=frozenset([0, 1]))]
c = T._region_preferred_max_weight_choice(h, {"a": 5, "b": 1, "c": 1}, cuts)
assert c.edge == (0, 1), c
'''),
dict(id="C17-old-seam", property="C17", file="proposals/tree_proposals.py",
 edits=[('seam_length = len(dist_pair_edges(new_part, *random_pair))', 'seam_length = len(dist_pair_edges(partition, *random_pair))')],
 needs="a re-split whose new border has a different length than the old one", breaks="reversible ReCom accepts with the wrong probability (the old border's length)",
 demo=PRE+'''
from unittest import mock
from gerrychain.proposals import reversible_recom
# 2x3 ladder; the only balanced cut of the forced tree has a border of length 2, the old border has length 3
g = Graph([(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)])
for x in g: g.nodes[x]["P"] = 1
p = Partition(g, {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 2})
bad = tot = 0
for s in range(400):
    random.seed(s)
    seen = []
    def ch(cuts):
        c = random.choice(cuts); seen.append((len(cuts), c)); return c
    with mock.patch("random.random", lambda: 0.4):
        q = reversible_recom(p, "P", 3, 0, M=1, choice=ch, repeat_until_valid=True)
    if not seen: continue
    n, c = seen[-1]
    S = c.subset
    seam = sum((u in S) != (v in S) for u, v in g.edges)
    tot += 1
    bad += (q is not p) != (0.4 < n / seam)
assert tot > 50 and bad == 0, (bad, tot)
'''),
dict(id="C18-square", property="C18", file="tree.py",
 edits=[('    while i * i <= n:\n', '    while i * i < n:\n')],
 needs="a number of districts that is the square of an odd prime (or such a cofactor)", breaks="the chunk count is not a prime factor",
 demo=PRE+'''
bad = [(n, c) for n in range(2, 200) for c in range(2, 60)
       if T.get_max_prime_factor_less_than(n, c) != max([p for p in range(2, n + 1) if n % p == 0 and p <= c and all(p % q for q in range(2, p))], default=None)]
assert not bad, bad[:5]
'''),
dict(id="C18-last-chunk", property="C18", file="tree.py",
 edits=[('''        elif part_pop_as_dist > max_pop_as_dist:
            new_epsilon = new_epsilon / 2
        else:
            break''', '''        else:
            break''')],
 needs="seed plans cut into three or more chunks whose earlier chunks are all small", breaks="the last district may exceed the tolerance",
 demo=PRE+'''
import networkx as nx
g = Graph.from_networkx(nx.path_graph(30))
for x in g: g.nodes[x]["P"] = 1
def small(graph, pop_col, pop_target, epsilon, node_repeats=1, one_sided_cut=False, **kw):
    ns = sorted(graph.nodes)
    k = 1
    while not abs(k - pop_target) <= epsilon * pop_target: k += 1
    if not one_sided_cut:
        while not abs(len(ns) - k - pop_target) <= epsilon * pop_target: k += 1
    if k >= len(ns): raise RuntimeError
    return set(ns[:k])
fl = T.recursive_seed_part(g, range(3), 10, "P", 0.25, method=small)
sizes = [sum(1 for v in fl.values() if v == i) for i in range(3)]
assert all(7.5 <= s <= 12.5 for s in sizes), sizes
'''),
dict(id="C19-one-end", property="C19", file="proposals/proposals.py",
 edits=[('''    b_nodes = {
        (x[0], partition.assignment.mapping[x[1]]) for x in partition["cut_edges"]
    }.union(
        {(x[1], partition.assignment.mapping[x[0]]) for x in partition["cut_edges"]}
    )
''', '''    b_nodes = {
        (x[0], partition.assignment.mapping[x[1]]) for x in partition["cut_edges"]
    }
''')],
 needs="many draws: flips of the larger end of a cut edge never happen", breaks="half of the boundary flips can no longer be proposed",
 demo=PRE+'''
from gerrychain.proposals.proposals import slow_reversible_propose
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
seen = {tuple(slow_reversible_propose(p).flips.items()) for _ in range(200)}
assert seen == {((1, 2),), ((2, 1),)}, seen
'''),
dict(id="C19-chunk-one-district", property="C19", file="proposals/proposals.py",
 edits=[('''        if partition.assignment.mapping[nbr]
        != partition.assignment.mapping[flipped_node]
    ]''', '''        if partition.assignment.mapping[nbr]
        == partition.assignment.mapping[edge[1 - index]]
    ]''')],
 needs="a boundary node that touches two other districts", breaks="the chunk flip leaves the neighbors of the third district where they are",
 demo=PRE+'''
from gerrychain.proposals import propose_chunk_flip
g = Graph([(0, 1), (1, 2)])
p = Partition(g, {0: 1, 1: 2, 2: 3})
for s in range(100):
    q = propose_chunk_flip(p)
    ch = {x: q.assignment.mapping[x] for x in g if q.assignment.mapping[x] != p.assignment.mapping[x]}
    assert ch in ({0: 2, 2: 2}, {1: 1}, {1: 3}), ch
'''),
dict(id="C20-tilted-equal", property="C20", file="optimization/optimization.py",
 edits=[('            if self._is_improvement(part_score, prev_score):\n                return True\n            else:', '            if part_score != prev_score and self._is_improvement(part_score, prev_score):\n                return True\n            else:')],
 needs="a proposal with the same score as the current plan", breaks="equal scores are only accepted with probability p",
 demo=PRE+'''
from gerrychain.optimization import SingleMetricOptimizer
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
o = SingleMetricOptimizer(lambda q: q.flip({1: 2}), lambda q: True, p, lambda q: 7)
out = list(o.tilted_run(3, 0))
assert out[1] is not p, "an equal score was rejected"
'''),
dict(id="C20-logit-over-one", property="C20", file="optimization/optimization.py",
 edits=[('''            elif time_in_cycle < duration_hot + duration_cooldown:
                value = logit((time_in_cycle - duration_hot) / duration_cooldown)
                if value < 0:
                    return 0
                if value > 1:
                    return 1
                return value
            else:
                return 1
''', '''            elif time_in_cycle < duration_hot + duration_cooldown:
                value = logit((time_in_cycle - duration_hot) / duration_cooldown)
                return max(0, value)
            else:
                return 1
''')],
 needs="a cooldown of more than 149 steps", breaks="beta exceeds 1 at the end of the cooldown and then drops back",
 demo=PRE+'''
from gerrychain.optimization import SingleMetricOptimizer as S
f = S.logit_jumpcycle_beta_function(10, 1000, 10)
vs = [f(i) for i in range(1020)]
assert all(0 <= v <= 1 for v in vs), max(vs)
'''),
dict(id="C21-second-run", property="C21", file="optimization/optimization.py",
 edits=[('''            self._initial_part,
            num_steps,
        )

        self._best_part = self._initial_part
        self._best_score = self.score(self._best_part)

        chain_generator = tqdm(chain) if with_progress_bar else chain

        for part in chain_generator:
            yield part
            part_score = self.score(part)

            if''', '''            self._initial_part,
            num_steps,
        )

        if self._best_score is None:
            self._best_part = self._initial_part
            self._best_score = self.score(self._best_part)

        chain_generator = tqdm(chain) if with_progress_bar else chain

        for part in chain_generator:
            yield part
            part_score = self.score(part)

            if''')],
 needs="a tilted run after another run of the same optimizer found a better plan", breaks="best score and plan are those of an earlier run, not of this one",
 demo=PRE+'''
from gerrychain.optimization import SingleMetricOptimizer
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
moves = [{1: 2}]
o = SingleMetricOptimizer(lambda q: q.flip(moves[0]), lambda q: True, p, lambda q: len(q.parts[2]))
list(o.short_bursts(2, 2))
assert o.best_score == 3
moves[0] = {2: 1}
ys = list(o.tilted_run(2, 1.0))
assert o.best_score == max(len(y.parts[2]) for y in ys), o.best_score
'''),
dict(id="C22-avg-strict", property="C22", file="optimization/gingleator.py",
 edits=[('opport_dists = list(filter(lambda v: v >= threshold, dist_percs))', 'opport_dists = list(filter(lambda v: v > threshold, dist_percs))')],
 needs="a district whose share equals the threshold exactly", breaks="it no longer counts as an opportunity district in the average-based score",
 demo=PRE+'''
from gerrychain.optimization import Gingleator
s = Gingleator.penalize_avg_over({"m": {1: 0.5, 2: 0.75}}, "m", 0.5)
assert abs(s - (2 + (1 - 0.625) / 0.5)) < 1e-12, s
'''),
dict(id="C23-label-key", property="C23", file="meta/diversity.py",
 edits=[('hashable_nodes = tuple(sorted(list(nodes)))', 'hashable_nodes = (district, tuple(sorted(list(nodes))))')],
 needs="two plans that contain the same district under different labels", breaks="the same district is counted twice",
 demo=PRE+'''
from gerrychain.meta import collect_diversity_stats
g = Graph([(0, 1), (1, 2), (2, 3)])
ps = [Partition(g, {0: 1, 1: 1, 2: 2, 3: 2}), Partition(g, {0: 2, 1: 2, 2: 1, 3: 1})]
st = [s for _, s in collect_diversity_stats(ps)]
assert st[-1].unique_districts == 2, st
'''),
dict(id="C24-frozen-join", property="C24", file="graph/graph.py",
 edits=[('        self.graph.join = frozen\n', '')],
 needs="joining a dataframe to a plan's frozen graph", breaks="the frozen graph accepts changes of node data",
 demo=PRE+'''
import pandas as pd, networkx as nx
from gerrychain.graph import FrozenGraph
f = FrozenGraph(Graph([(0, 1), (1, 2)]))
try:
    f.join(pd.DataFrame({"z": [1, 2, 3]}))
except nx.NetworkXError:
    raise SystemExit(0)
print("join changed a frozen graph"); raise SystemExit(1)
'''),
dict(id="C25-diagonals", property="C25", file="grid.py",
 edits=[('((i, j + 1), (i + 1, j)) for i in range(m - 1) for j in range(n - 1)', '((i, j + 1), (i + 1, j)) for i in range(n - 1) for j in range(m - 1)')],
 needs="a grid with diagonals that is not square", breaks="diagonal edges are missing and cells outside the grid appear",
 demo=PRE+'''
from gerrychain.grid import Grid, create_grid_graph
g = create_grid_graph((2, 3), True)
assert set(g.nodes) == {(i, j) for i in range(2) for j in range(3)}, sorted(g.nodes)
'''),
dict(id="C26-none-region", property="C26", file="tree.py",
 edits=[('''            if (
                graph.nodes[edge[0]][key] != graph.nodes[edge[1]][key]
                or graph.nodes[edge[0]][key] is None
                or graph.nodes[edge[1]][key] is None
            ):
                weight += value''', '''            if graph.nodes[edge[0]][key] != graph.nodes[edge[1]][key]:
                weight += value''')],
 needs="an edge between two nodes that belong to no region (None)", breaks="such edges are not surcharged, so the tree is not minimal for the surcharged weights",
 demo=PRE+'''
g = Graph([(0, 1), (1, 2), (2, 0)])
for x, r in enumerate([None, None, "a"]): g.nodes[x]["r"] = r
T.random_spanning_tree(g, region_surcharge={"r": 10})
assert all(g.edges[e]["random_weight"] >= 10 for e in g.edges), dict(g.edges)
'''),
dict(id="C27-sliver", property="C27", file="graph/adjacency.py",
 edits=[('if data["shared_perim"] > 0}', 'if data["shared_perim"] > 1e-3}')],
 needs="polygons in small units (degrees) whose shared border is shorter than 0.001", breaks="rook neighbors with a short common border are not adjacent",
 demo=PRE+'''
import geopandas as gp
from shapely.geometry import box
e = 1 / 2048
df = gp.GeoDataFrame({"v": [1, 2]}, geometry=[box(0, 0, e, e), box(e, 0, 2 * e, e)])
g = Graph.from_geodataframe(df)
assert list(g.edges) == [(0, 1)], list(g.edges)
'''),
]
