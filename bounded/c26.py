from .core import *

RULE = "random connected graphs of 2-12 nodes (also subgraphs), with and without region surcharges (missing/None regions included), both samplers; distinct by (graph, sampler, surcharges)"


def st(ctx):
    from gerrychain import tree as T, Graph

    rng = ctx.rng
    g = graph(rng, n=rng.choice([2, 3, 4, 5, 6, 8, 10, 12]))
    for x in g.nodes:
        g.nodes[x]["r1"] = rng.choice(["a", "b", None])
        g.nodes[x]["r2"] = rng.choice([0, 1, 2])
    if rng.random() < 0.3:
        nodes = list(g.nodes)
        S = {nodes[0]}
        adj = adj_of(g)
        for _ in range(rng.randint(1, len(nodes))):
            S |= {rng.choice(sorted(set().union(*(adj[x] for x in S)), key=repr))}
        g = g.subgraph(S)
    nodes0, edges0 = set(g.nodes), {frozenset(e) for e in g.edges}
    attrs0 = {x: dict(g.nodes[x]) for x in g.nodes}
    which = rng.choice(["mst", "mst", "ust"])
    sur = {k: rng.choice([0.25, 0.5, 1, 2]) for k in rng.sample(["r1", "r2"], rng.randint(0, 2))}
    case = dict(sampler=which, edges=list(g.edges), surcharges=sur, attrs={x: (d["r1"], d["r2"]) for x, d in attrs0.items()})
    log = []
    real = random.random

    def rnd():
        v = rng.randint(0, 1023) / 1024
        log.append(v)
        return v

    if which == "mst":
        random.random = rnd
        try:
            t = T.random_spanning_tree(g, region_surcharge=sur) if sur or rng.random() < 0.5 else T.random_spanning_tree(g)
        finally:
            random.random = real
    else:
        t = T.uniform_spanning_tree(g)
    te = [frozenset(e) for e in t.edges]
    require(set(t.nodes) == nodes0, "nodes of the tree", got=list(t.nodes), **case)
    require(set(te) <= edges0 and len(set(te)) == len(te), "tree edge not in the graph", got=list(t.edges), **case)
    require(len(te) == len(nodes0) - 1, "number of edges", got=list(t.edges), **case)
    require(connected_set({x: set(t.neighbors(x)) for x in t.nodes}, nodes0), "tree not connected", got=list(t.edges), **case)
    require(nodes0 == set(g.nodes) and edges0 == {frozenset(e) for e in g.edges} and attrs0 == {x: dict(g.nodes[x]) for x in g.nodes}, "graph changed", **case)
    if which == "mst":
        w = {frozenset(e): g.edges[e].get("random_weight") for e in g.edges}
        if None not in w.values():
            for e in g.edges:
                s = sum(v for k, v in sur.items() if attrs0[e[0]][k] != attrs0[e[1]][k] or attrs0[e[0]][k] is None)
                base = w[frozenset(e)] - s
                require(-1e-12 <= base < 1, "weight is not a draw plus the surcharges of the regions crossed", edge=e, weight=w[frozenset(e)], surcharge=s, **case)
                if log:
                    require(any(abs(base - l) < 1e-9 for l in log), "weight is not a draw plus the surcharges", edge=e, **case)
            # minimum spanning tree: every non-tree edge is at least as heavy as each edge on its tree path
            tadj = {x: set(t.neighbors(x)) for x in t.nodes}
            for e in g.edges:
                if frozenset(e) in te:
                    continue
                u, v = e
                prev, todo = {u: None}, [u]
                while todo:
                    x = todo.pop()
                    for y in tadj[x]:
                        if y not in prev:
                            prev[y] = x
                            todo.append(y)
                x = v
                while prev[x] is not None:
                    require(w[frozenset((x, prev[x]))] <= w[frozenset(e)], "not a minimum spanning tree", edge=e, **case)
                    x = prev[x]
    ctx.note(which, sorted(map(repr, edges0)), repr(sur))


def all_trees(ctx):
    """Both samplers reach every spanning tree of a small graph."""
    from gerrychain import tree as T, Graph

    rng = ctx.rng
    g = Graph()
    g.add_edges_from([(0, 1), (1, 2), (2, 3), (3, 0)] + ([(0, 2)] if rng.random() < 0.5 else []))
    want = set()
    for c in itertools.combinations(list(g.edges), 3):
        adj = {x: set() for x in g}
        for u, v in c:
            adj[u].add(v)
            adj[v].add(u)
        if connected_set(adj, list(g)):
            want.add(frozenset(frozenset(e) for e in c))
    for f in (T.random_spanning_tree, T.uniform_spanning_tree):
        seen = set()
        for _ in range(600):
            seen.add(frozenset(frozenset(e) for e in f(g).edges))
        require(seen == want, "spanning trees never drawn", sampler=f.__name__, missing=want - seen)
    ctx.note(len(g.edges))


SCENARIOS = [("st", st, 1500), ("all_trees", all_trees, 10)]
