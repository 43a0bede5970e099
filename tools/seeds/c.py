PRE = "import random\nimport networkx as nx\nfrom gerrychain import Partition, Graph\n"
SEEDS = [
dict(id="C02-empty-flip", property="C02", file="partition/partition.py",
 edits=[('''        return self.__class__(parent=self, flips=flips)''', '''        return self.__class__(parent=self, flips=flips) if flips else self''')],
 needs="a flip dictionary without entries", breaks="no new plan is made, and the old plan is not the parent of the result",
 demo=PRE+'''
g = Graph.from_networkx(nx.path_graph(4))
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
c = p.flip({})
assert c is not p and c.parent is p
'''),
dict(id="C03-inherit-unflipped", property="C03", file="partition/partition.py",
 edits=[('''            self._cache[key] = self.updaters[key](self)
''', '''            if self.parent is not None and not self.flips:
                self._cache[key] = self.parent[key]
            else:
                self._cache[key] = self.updaters[key](self)
''')],
 needs="a plan made by a flip without entries and an updater that depends on the history", breaks="the old plan's value is answered instead of what the updater computes",
 demo=PRE+'''
g = Graph.from_networkx(nx.path_graph(4))
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2}, {"step": lambda q: 0 if q.parent is None else q.parent["step"] + 1}, use_default_updaters=False)
assert p.flip({})["step"] == 1
'''),
dict(id="C08-identity", property="C08", file="updaters/locality_split_scores.py",
 edits=[('''            if county_1 == county_2:''', '''            if county_1 is county_2:''')],
 needs="equal locality labels that are different objects", breaks="cut edges inside a locality are not counted",
 demo=PRE+'''
from gerrychain.updaters.locality_split_scores import LocalitySplits
g = Graph.from_networkx(nx.path_graph(4))
for n in g:
    g.nodes[n]["county"] = "".join(["coun", "ty"]); g.nodes[n]["POP"] = 1
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2}, {"s": LocalitySplits("s", "county", "POP", ["naked_boundary"])})
assert p["s"]["naked_boundary"] == 1
'''),
dict(id="C14-search-limit", property="C14", file="constraints/contiguity.py",
 edits=[('''    while not all(t in seen for t in targets) and fringe:''', '''    while not all(t in seen for t in targets) and fringe and len(dist) < 256:''')],
 needs="a district in which more than 256 nodes lie between two neighbours of the moved node", breaks="the single-flip check refuses a plan whose districts are connected",
 demo=PRE+'''
from gerrychain.constraints import single_flip_contiguous
g = Graph.from_networkx(nx.cycle_graph(900))
g.add_edge(0, 1000)
p = Partition(g, {n: 2 if n == 1000 else 1 for n in g})
assert single_flip_contiguous(p.flip({0: 2}))
'''),
dict(id="C17-bound-off", property="C17", file="proposals/tree_proposals.py",
 edits=[('''        if len(cuts) > M:
''', '''        if len(cuts) > M + 1:
''')],
 needs="exactly one balanced cut more than the bound and a seam longer than one", breaks="too many balanced cuts are not refused",
 demo=PRE+'''
from functools import partial
from gerrychain.proposals import reversible_recom
from gerrychain.proposals.tree_proposals import ReversibilityError
from gerrychain.tree import Cut
g = Graph.from_networkx(nx.grid_2d_graph(4, 2))
for n in g:
    g.nodes[n]["POP"] = 1
p = Partition(g, {n: 1 + (n[0] > 1) for n in g})
half = frozenset(n for n in g if n[0] < 2)
cuts = [Cut(edge=((1, 0), (2, 0)), subset=half), Cut(edge=((1, 1), (2, 1)), subset=half)]
for s in range(30):
    random.seed(s)
    try:
        q = reversible_recom(p, "POP", 4, 0.1, balance_edge_fn=lambda h, *a, **k: cuts, M=1)
    except ReversibilityError:
        continue
    st = random.getstate()
    random.seed(s)
    pair = random.choice([(a, b) for a in (1, 2) for b in (1, 2)])
    assert pair[0] == pair[1], "not refused"
'''),
dict(id="C23-known-plans", property="C23", file="meta/diversity.py",
 edits=[('''        for district, nodes in partition.assignment.parts.items():
            hashable_nodes = tuple(sorted(list(nodes)))
            if hashable_nodes not in seen_districts:
                unique_districts += 1
                seen_districts[hashable_nodes] = 1

        cut_edges = partition["cut_edges"]
        hashable_cut_edges = tuple(sorted(list(cut_edges)))
        if hashable_cut_edges not in seen_plans:
            unique_plans += 1
            seen_plans[hashable_cut_edges] = 1
''', '''        cut_edges = partition["cut_edges"]
        hashable_cut_edges = tuple(sorted(list(cut_edges)))
        if hashable_cut_edges not in seen_plans:
            unique_plans += 1
            seen_plans[hashable_cut_edges] = 1

            for district, nodes in partition.assignment.parts.items():
                hashable_nodes = tuple(sorted(list(nodes)))
                if hashable_nodes not in seen_districts:
                    unique_districts += 1
                    seen_districts[hashable_nodes] = 1
''')],
 needs="two plans with the same cut edges and different districts (a district in two pieces)", breaks="districts of the second plan are not counted",
 demo=PRE+'''
from gerrychain.meta.diversity import collect_diversity_stats
g = Graph.from_networkx(nx.path_graph(3))
a = Partition(g, {0: 1, 1: 2, 2: 1})
b = Partition(g, {0: 1, 1: 2, 2: 3})
assert [s.unique_districts for _, s in collect_diversity_stats([a, b])] == [2, 4]
'''),
]
