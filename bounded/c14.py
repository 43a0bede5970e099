from .core import *

RULE = "random (also disconnected) graphs, contiguous and non-contiguous plans, flips, cut parent links; oracle is an independent search; distinct by (graph, plan, flip)"


def check_full(p, g, w, parts, **case):
    from gerrychain.constraints.contiguity import contiguous, contiguous_bfs, number_of_contiguous_parts, contiguous_components

    adj = adj_of(g)
    conn = {k: connected_set(adj, [x for x in w if w[x] == k]) for k in p.parts}
    want = all(conn[k] for k in parts)
    case = dict(case, assignment=w, edges=list(g.edges))
    fs = [("contiguous", contiguous), ("contiguous_bfs", contiguous_bfs)]
    for nm, f in fs:
        require(bool(f(p)) == want, nm, got=f(p), want=want, checked=list(parts), **case)
    require(number_of_contiguous_parts(p) == sum(conn.values()), "number of contiguous parts", got=number_of_contiguous_parts(p), **case)
    comps = contiguous_components(p)
    require(set(comps) == set(p.parts), "components: districts", **case)
    for k in comps:
        got = sorted((frozenset(c.nodes) for c in comps[k]), key=lambda s: sorted(map(repr, s)))
        wnt = sorted(components(adj, [x for x in w if w[x] == k]), key=lambda s: sorted(map(repr, s)))
        require(got == wnt, "components", part=k, got=got, want=wnt, **case)


def full(ctx):
    from gerrychain import Partition

    rng = ctx.rng
    g = graph(rng, connected=rng.random() < 0.8, density=rng.choice([None, 0, 0.1]))
    a = plan(rng, g, contiguous=False)
    if rng.random() < 0.6:
        import networkx as nx
        if nx.is_connected(g):
            a = plan(rng, g, contiguous=True)
    p = Partition(g, a)
    check_full(p, g, a, list(p.parts), initial=a)
    w = dict(a)
    log = []
    for i in range(rng.choice([1, 2, 5])):
        fl = flips_for(rng, w, p.parts, keep_nonempty=True, maxn=3)
        if not fl:
            continue
        log.append(fl)
        q = p.flip(fl)
        touched = set(fl.values()) | {w[x] for x in fl}
        w2 = {**w, **fl}
        if rng.random() < 0.3:
            q.parent = None
            touched = set(q.parts)
        check_full(q, g, w2, touched, initial=a, flips=log)
        ctx.count += 1
        ctx.note(sorted(map(repr, g.edges)), w, fl)
        p, w = q, w2


def single(ctx):
    from gerrychain import Partition
    from gerrychain.constraints import single_flip_contiguous

    rng = ctx.rng
    g = graph(rng, n=rng.choice([4, 6, 8, 9, 12]), density=rng.choice([0, 0.05, 0.1, 0.3]))
    adj = adj_of(g)
    a = plan(rng, g, k=rng.choice([2, 2, 3]), contiguous=True)
    p = Partition(g, a)
    require(bool(single_flip_contiguous(p)) is True, "initial contiguous plan refused", assignment=a, edges=list(g.edges))
    ctx.note(sorted(map(repr, g.edges)), a)
    for x in g.nodes:
        rest = [y for y in a if a[y] == a[x] and y != x]
        if not rest:
            continue
        for t in sorted({a[y] for y in adj[x]} - {a[x]}, key=repr):
            q = p.flip({x: t})
            want = connected_set(adj, rest)
            for _ in range(3):
                got = single_flip_contiguous(q)
                require(bool(got) == want, "single_flip_contiguous", node=x, target=t, got=got, want=want, assignment=a, edges=list(g.edges))
            ctx.count += 1
    # without flips / parent: same as full contiguity
    b = plan(rng, g, k=2)
    q = Partition(g, b)
    want = all(connected_set(adj, [x for x in b if b[x] == k]) for k in set(b.values()))
    require(bool(single_flip_contiguous(q)) == want, "single_flip_contiguous on a plan without parent", assignment=b, edges=list(g.edges))


def reach(ctx):
    from gerrychain.constraints.contiguity import are_reachable

    rng = ctx.rng
    g = graph(rng, connected=rng.random() < 0.5, density=rng.choice([0, 0.1]))
    nodes = list(g.nodes)
    s = rng.choice(nodes)
    ts = rng.sample(nodes, rng.randint(0, min(4, len(nodes))))
    blocked = {(u, v) for u in nodes for v in g.neighbors(u) if rng.random() < 0.3}
    if rng.random() < 0.5:
        blocked |= {(v, u) for u, v in blocked}
    got = are_reachable(g, s, lambda u, v, e: (u, v) in blocked, ts)
    seen = {s}
    todo = [s]
    while todo:
        x = todo.pop()
        for y in g.neighbors(x):
            if (x, y) not in blocked and y not in seen:
                seen.add(y)
                todo.append(y)
    require(bool(got) == (set(ts) <= seen), "are_reachable", source=s, targets=ts, edges=list(g.edges), blocked=sorted(map(repr, blocked)))
    ctx.note(sorted(map(repr, g.edges)), s, ts)


SCENARIOS = [("full", full, 1200), ("single", single, 800), ("reach", reach, 800)]
