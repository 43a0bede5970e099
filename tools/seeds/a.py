PRE = "import random\nfrom gerrychain import Partition, GeographicPartition, Graph\n"
SEEDS = [
dict(id="C01-extra-keys", property="C01", file="partition/partition.py",
 edits=[('if set(self.assignment) != set(graph):', 'if not set(graph) <= set(self.assignment):')],
 needs="an assignment that has a key which is not a node of the graph", breaks="extra keys are no longer rejected, so districts contain nodes that are not in the graph",
 demo=PRE+'''
g = Graph([(0, 1), (1, 2)])
try:
    p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
except KeyError:
    raise SystemExit(0)
print("accepted an assignment of a node that is not in the graph", p.parts)
raise SystemExit(1)
'''),
dict(id="C02-shared-parts", property="C02", file="partition/assignment.py",
 edits=[('return Assignment(self.parts.copy(), self.mapping.copy(), validate=False)', 'return Assignment(self.parts, self.mapping.copy(), validate=False)')],
 needs="reading the parent's districts after a child was created", breaks="child and parent share one district dictionary, so flipping changes the parent's districts",
 demo=PRE+'''
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
before = dict(p.parts)
q = p.flip({1: 2})
assert dict(p.parts) == before, "parent's districts changed"
'''),
dict(id="C02-shared-tally", property="C02", file="updaters/tally.py",
 edits=[('        new_tally = dict(old_tally)\n', '        new_tally = old_tally\n')],
 needs="reading a tally on a child and then again on its parent (or a sibling)", breaks="the child's tally is written into the parent's cached tally",
 demo=PRE+'''
from gerrychain.updaters import Tally
g = Graph([(0, 1), (1, 2), (2, 3)])
for x in g: g.nodes[x]["pop"] = x + 1
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2}, {"pop": Tally("pop", alias="pop")})
before = dict(p["pop"])
q = p.flip({1: 2}); q["pop"]
assert dict(p["pop"]) == before, (p["pop"], before)
'''),
dict(id="C03-reuse-parent", property="C03", file="partition/partition.py",
 edits=[('''            self._cache[key] = self.updaters[key](self)
''', '''            if self.parent is not None and not self.flows and key in self.parent._cache:
                self._cache[key] = self.parent._cache[key]
            else:
                self._cache[key] = self.updaters[key](self)
''')],
 needs="a proposal that moves no node, and an updater that looks at more than the assignment (a step counter, the county split status)", breaks="the plan reports its parent's value instead of what the updater computes for it",
 demo=PRE+'''
g = Graph([(0, 1), (1, 2), (2, 3)])
step = lambda p: 0 if p.parent is None else p.parent["step"] + 1
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2}, {"step": step})
assert p["step"] == 0
q = p.flip({1: 1})
assert q["step"] == 1, q["step"]
'''),
dict(id="C04-both-ends-move", property="C04", file="updaters/flows.py",
 edits=[('''            for part in no_longer_incident_parts:
                edge_flows[part]["out"].add(edge)

''', '''            if no_longer_incident_parts:
                edge_flows[no_longer_incident_parts.pop()]["out"].add(edge)

''')],
 needs="one flip that moves both ends of a cut edge into two other districts (at least four districts)", breaks="the edge stays listed for one of the districts it left",
 demo=PRE+'''
from gerrychain.updaters import cut_edges_by_part
g = Graph([(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2, 4: 3, 5: 4}, {"cut_edges_by_part": cut_edges_by_part})
p["cut_edges_by_part"]
q = p.flip({1: 3, 2: 4})
got = {k: set(v) for k, v in q["cut_edges_by_part"].items() if v}
m = q.assignment.mapping
want = {}
for e in g.edges:
    if m[e[0]] != m[e[1]]:
        for x in e: want.setdefault(m[x], set()).add(tuple(sorted(e)))
assert got == want, (got, want)
'''),
dict(id="C05-equal-columns", property="C05", file="updaters/tally.py",
 edits=[('return sum(partition.graph.lookup(node, field) for field in self.fields)', 'return sum({partition.graph.lookup(node, field) for field in self.fields})')],
 needs="a tally of several columns and a node on which two columns have the same value", breaks="equal values are counted once, so the district totals are too small",
 demo=PRE+'''
from gerrychain.updaters import Tally
g = Graph([(0, 1), (1, 2)])
for x in g: g.nodes[x].update(a=x, b=2)
p = Partition(g, {0: 1, 1: 1, 2: 2}, {"t": Tally(["a", "b"], alias="t")})
assert p["t"] == {1: 5, 2: 4}, p["t"]
'''),
dict(id="C06-inner-district", property="C06", file="updaters/compactness.py",
 edits=[('return {part: perimeter_of_part(partition, part) for part in partition.parts}', 'return {\n        part: perimeter_of_part(partition, part)\n        for part in partition["exterior_boundaries"]\n    }')],
 needs="a district with no node on the outer boundary", breaks="enclosed districts have no perimeter (and no Polsby-Popper score)",
 demo=PRE+'''
from gerrychain.grid import Grid
p = Grid((3, 3), assignment={(i, j): int((i, j) == (1, 1)) for i in range(3) for j in range(3)})
assert dict(p["perimeter"]).get(1) == 4, p["perimeter"]
'''),
dict(id="C07-status-kept", property="C07", file="updaters/county_splits.py",
 edits=[('''        seen = set(partition.assignment.mapping[node] for node in county_info.nodes)

''', '''        if partition.flips.keys().isdisjoint(county_info.nodes):
            new_county_dict[county] = county_info
            continue

        seen = {partition.assignment.mapping[node] for node in county_info.nodes}

''')],
 needs="a county newly split by one flip, then another flip that does not touch it", breaks="the county is still reported as NEW_SPLIT although its parent plan already split it",
 demo=PRE+'''
from gerrychain.updaters import county_splits, CountySplit
g = Graph([(0, 1), (1, 2), (2, 3), (3, 4)])
for x in g: g.nodes[x]["c"] = "a" if x < 3 else "b"
p = Partition(g, {0: 1, 1: 1, 2: 1, 3: 2, 4: 2}, {"s": county_splits("s", "c")})
p["s"]
q = p.flip({2: 2}); assert q["s"]["a"].split == CountySplit.NEW_SPLIT
r = q.flip({3: 2}); 
assert r["s"]["a"].split == CountySplit.OLD_SPLIT, r["s"]
'''),
dict(id="C08-locality-none", property="C08", file="updaters/locality_split_scores.py",
 edits=[('''            if len(v) > 1:
                total_splits += 1''', '''            total_splits += max(len(v) - 1, 0)''')],
 needs="a locality that lies in three or more districts", breaks="the number of split localities counts extra pieces instead of localities",
 demo=PRE+'''
from gerrychain.updaters.locality_split_scores import LocalitySplits
g = Graph([(0, 1), (1, 2), (2, 3)])
for x in g: g.nodes[x].update(c="a", pop=1)
p = Partition(g, {0: 1, 1: 2, 2: 3, 3: 3}, {"s": LocalitySplits("s", "c", "pop", ["num_split_localities"])})
assert p["s"]["num_split_localities"] == 1, p["s"]
'''),
dict(id="C09-region-zero", property="C09", file="updaters/election.py",
 edits=[('''        if region is not None:
            return self.percents_for_party[party][region]
''', '''        if region:
            return self.percents_for_party[party][region]
''')],
 needs="a district labelled 0 (a falsy label)", breaks="percent(party, 0) returns the statewide share",
 demo=PRE+'''
from gerrychain.updaters import Election
g = Graph([(0, 1), (1, 2)])
for x in g: g.nodes[x].update(A=x + 1, B=5)
p = Partition(g, {0: 0, 1: 0, 2: 1}, {"E": Election("E", {"A": "A", "B": "B"})})
assert p["E"].percent("A", 0) == 3 / 13, p["E"].percent("A", 0)
'''),
dict(id="C09-majority", property="C09", file="updaters/election.py",
 edits=[('''        return all(
            self.totals_for_party[party][region]
            > self.totals_for_party[opponent][region]
            for opponent in self.election.parties
            if opponent != party
        )''', '''        opponents = [p for p in self.election.parties if p != party]
        return self.totals_for_party[party][region] > sum(
            self.totals_for_party[opponent][region] for opponent in opponents
        )''')],
 needs="an election with three or more parties and a district won with a plurality", breaks="a plurality winner is not credited with the district",
 demo=PRE+'''
from gerrychain.updaters import Election
g = Graph([(0, 1), (1, 2)])
for x in g: g.nodes[x].update(A=4, B=3, C=2)
p = Partition(g, {0: 0, 1: 0, 2: 1}, {"E": Election("E", {"A": "A", "B": "B", "C": "C"})})
assert p["E"].seats("A") == 2, p["E"].seats("A")
'''),
dict(id="C10-bias-ties", property="C10", file="metrics/partisan.py",
 edits=[('party_shares[party_shares > mean_share]', 'party_shares[party_shares >= mean_share]')],
 needs="a district whose vote share equals the mean share", breaks="such districts count as above the mean, so the partisan bias is too high",
 demo=PRE+'''
from gerrychain.updaters import Election
g = Graph([(0, 1), (1, 2)])
for x, (a, b) in zip(g, [(1, 3), (2, 2), (3, 1)]): g.nodes[x].update(A=a, B=b)
p = Partition(g, {0: 0, 1: 1, 2: 2}, {"E": Election("E", {"A": "A", "B": "B"})})
assert abs(p["E"].partisan_bias() - (1 / 3 - 0.5)) < 1e-12, p["E"].partisan_bias()
'''),
dict(id="C11-setter-current", property="C11", file="chain.py",
 edits=[('        if not is_valid(self.initial_state):\n', '        if not is_valid(self.state):\n')],
 needs="replacing the constraints after the chain has moved, with constraints the initial state violates", breaks="constraints that the initial state violates are accepted, and re-iterating yields an invalid state",
 demo=PRE+'''
from gerrychain import MarkovChain
from gerrychain.accept import always_accept
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
c = MarkovChain(lambda q: q.flip({1: 2}), lambda q: True, always_accept, p, 3)
for s in c: pass
ok = lambda q: len(q.parts[2]) == 3
try:
    c.constraints = [ok]
except ValueError:
    raise SystemExit(0)
print("constraints violated by the initial state were accepted"); raise SystemExit(1)
'''),
dict(id="C11-reiterate", property="C11", file="chain.py",
 edits=[('''        self.counter = 0
        self.state = self.initial_state
''', '''        self.counter = 0
''')],
 needs="iterating the same chain object twice", breaks="the second run continues from the last state instead of the initial state",
 demo=PRE+'''
from gerrychain import MarkovChain
from gerrychain.accept import always_accept
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
c = MarkovChain(lambda q: q.flip({1: 2}), lambda q: True, always_accept, p, 3)
assert list(c)[0] is p
assert list(c)[0] is p, "second run does not start at the initial state"
'''),
dict(id="C12-falsy", property="C12", file="constraints/validity.py",
 edits=[('''            if is_valid is False:
                return False
            elif''', '''            if is_valid is False or is_valid == 0:
                return False
            elif''')],
 needs="a constraint that returns the integer 0", breaks="a non-boolean answer is silently read as a rejection instead of raising TypeError",
 demo=PRE+'''
from gerrychain.constraints import Validator
try:
    Validator([lambda p: 0])(None)
except TypeError:
    raise SystemExit(0)
print("0 accepted as a verdict"); raise SystemExit(1)
'''),
dict(id="C13-one-percent", property="C13", file="constraints/validity.py",
 edits=[('    if percentage >= 1:\n', '    if percentage > 1:\n')],
 needs="a tolerance of exactly 1 (one percent)", breaks="1 is read as 100 percent instead of 1 percent",
 demo=PRE+'''
from gerrychain.constraints import districts_within_tolerance
class P(dict): pass
assert not districts_within_tolerance({"population": {1: 100, 2: 150}}, "population", 1)
'''),
dict(id="C14-two-nodes", property="C14", file="constraints/contiguity.py",
 edits=[('    if total_vertices <= 1:\n', '    if total_vertices <= 2:\n')],
 needs="a district of exactly two nodes that are not adjacent", breaks="contiguous_bfs accepts a disconnected district",
 demo=PRE+'''
from gerrychain.constraints import contiguous_bfs
g = Graph([(0, 1), (1, 2), (2, 3)])
p = Partition(g, {0: 1, 1: 2, 2: 2, 3: 1})
assert not contiguous_bfs(p)
'''),
]
