from .core import *

RULE = ("random graphs/plans, flip histories with 1..n simultaneously moved nodes, updaters read at every or random steps; "
        "oracle recomputes from scratch; distinct by (graph, plan, flips) with at least one moved node")


def check(p, g, w, **case):
    want = cut_edges_of(g, w)
    got = p["cut_edges"]
    require(set(got) == want and len(list(got)) == len(want), "cut edges wrong", got=sorted(map(repr, got)), want=sorted(map(repr, want)), assignment=w, edges=list(g.edges), **case)


def check_by_part(p, g, w, **case):
    want = {}
    for e in cut_edges_of(g, w):
        want.setdefault(w[e[0]], set()).add(e)
        want.setdefault(w[e[1]], set()).add(e)
    got = {k: set(v) for k, v in p["cut_edges_by_part"].items() if v}
    require(got == want, "cut edges by district wrong", got=got, want=want, assignment=w, edges=list(g.edges), **case)


def history(ctx):
    from gerrychain import Partition
    from gerrychain.updaters import cut_edges, cut_edges_by_part

    rng = ctx.rng
    g = graph(rng, connected=rng.random() < 0.8)
    a = plan(rng, g)
    p = Partition(g, a, {"cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part})
    w = dict(a)
    log = []
    eager = rng.random() < 0.7
    chainlike = rng.random() < 0.3
    for i in range(rng.choice([1, 2, 3, 8]) + 1):
        if i:
            fl = flips_for(rng, w, p.parts)
            log.append(fl)
            q = p.flip(fl)
            if chainlike:
                p.parent = None
            p = q
            if {**w, **fl} != w:
                ctx.note(sorted(map(repr, g.edges)), w, fl)
            w = {**w, **fl}
        if eager or rng.random() < 0.4:
            order = [check, check_by_part]
            rng.shuffle(order)
            for f in order[: rng.randint(1, 2)]:
                f(p, g, w, flips=log, initial=a)
                ctx.count += 1
    check(p, g, w, flips=log, initial=a)
    check_by_part(p, g, w, flips=log, initial=a)
    for e in g.edges:
        require(bool(p.crosses_parts(e)) == (w[e[0]] != w[e[1]]), "crosses_parts wrong", edge=e)


def exhaustive(ctx):
    """All one-step moves (every new assignment) of a random small plan."""
    from gerrychain import Partition
    from gerrychain.updaters import cut_edges, cut_edges_by_part

    rng = ctx.rng
    g = graph(rng, n=rng.choice([3, 4]))
    pl = part_labels(rng, 3)
    a = plan(rng, g, k=3, pl=pl)
    p = Partition(g, a, {"cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part})
    check(p, g, a)
    check_by_part(p, g, a)
    nodes = list(g.nodes)
    for new in itertools.product(pl, repeat=len(nodes)):
        w = dict(zip(nodes, new))
        fl = {x: w[x] for x in nodes if w[x] != a[x] or rng.random() < 0.2}
        q = p.flip(fl)
        check(q, g, w, initial=a, flips=fl)
        check_by_part(q, g, w, initial=a, flips=fl)
        ctx.count += 1
        ctx.note(a, fl, sorted(map(repr, g.edges)))


SCENARIOS = [("history", history, 1500), ("exhaustive", exhaustive, 120)]
