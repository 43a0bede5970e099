from .core import *

RULE = "random connected graphs with 1-5 districts (contiguous or not), proposals applied along histories; coverage of the full flip set by repeated draws on plans with at most 6 cut edges; distinct by (graph, plan, proposal)"


def setup(ctx, k=None, nmax=12):
    from gerrychain import Partition, updaters

    rng = ctx.rng
    g = graph(rng, n=rng.choice([2, 3, 4, 5, 6, 8, 9, nmax]))
    a = plan(rng, g, k=k or rng.randint(1, min(5, len(g.nodes))), contiguous=rng.random() < 0.5)
    P = Partition(g, a, updaters={"cut_edges": updaters.cut_edges, "cut_edges_by_part": updaters.cut_edges_by_part})
    if rng.random() < 0.5:
        fl = flips_for(rng, a, set(a.values()), keep_nonempty=True)
        if fl:
            P = P.flip(fl)
            a = asg_of(P)
    return rng, g, a, P


def pairs_of(g, a):
    out = set()
    for u, v in g.edges:
        if a[u] != a[v]:
            out.add((u, a[v]))
            out.add((v, a[u]))
    return out


def props():
    from gerrychain.proposals import proposals as M

    return dict(random=M.propose_random_flip, slow=M.slow_reversible_propose, bi=M.slow_reversible_propose_bi, flip=M.flip)


def one(P, g, a, nm, f):
    Q = f(P)
    b = asg_of(Q)
    case = dict(proposal=nm, edges=list(g.edges), assignment=a, new=b, flips=Q.flips)
    require(asg_of(P) == a, "the current plan was modified", **case)
    diff = {x: b[x] for x in b if b[x] != a[x]}
    require(len(diff) == 1, "not exactly one node changed", **case)
    (x, t), = diff.items()
    require((x, t) in pairs_of(g, a), "node moved is not a boundary node or the new district is not a neighbor's", **case)
    require(Q.parent is P, "parent", **case)
    return Q, (x, t)


def single(ctx):
    rng, g, a, P = setup(ctx)
    ps = props()
    for step in range(4):
        ctx.count += 1
        pr = pairs_of(g, a)
        nm = rng.choice(sorted(ps))
        if not pr:
            if nm in ("random", "flip"):
                require(ps[nm](P) is P, "plan without cut edges not returned unchanged")
            break
        Q, (x, t) = one(P, g, a, nm, ps[nm])
        ctx.note(nm, sorted(map(repr, g.edges)), sorted(map(repr, a.items())))
        if sum(1 for v in a.values() if v == a[x]) == 1:
            break
        P, a = Q, asg_of(Q)


def coverage(ctx):
    rng, g, a, P = setup(ctx, nmax=7)
    pr = pairs_of(g, a)
    ne = sum(1 for u, v in g.edges if a[u] != a[v])
    if not pr or ne > 6:
        return
    ps = props()
    for nm, f in ps.items():
        seen = set()
        for i in range(400):
            seen.add(one(P, g, a, nm, f)[1])
            if seen == pr:
                break
        ctx.count += 1
        require(seen == pr, "flip never proposed in 400 draws", proposal=nm, missing=pr - seen, edges=list(g.edges), assignment=a)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())))


def multi(ctx):
    from gerrychain.proposals import proposals as M

    rng, g, a, P = setup(ctx)
    pr = pairs_of(g, a)
    adj = adj_of(g)
    if pr:
        Q = M.propose_chunk_flip(P)
        b = asg_of(Q)
        case = dict(edges=list(g.edges), assignment=a, new=b)
        diff = {x: b[x] for x in b if b[x] != a[x]}
        ok = any({y: a[x] for y in adj[x] if a[y] != a[x]} == diff for x in {p[0] for p in pr})
        require(ok, "chunk flip is not the other-district neighborhood of one boundary node", **case)
        require(asg_of(P) == a and Q.parent is P, "the current plan was modified", **case)
        seen = set()
        if len({p[0] for p in pr}) <= 6 and rng.random() < 0.2:
            want = {frozenset((y, a[x]) for y in adj[x] if a[y] != a[x]) for x in {p[0] for p in pr}}
            for _ in range(600):
                c = asg_of(M.propose_chunk_flip(P))
                seen.add(frozenset((x, c[x]) for x in c if c[x] != a[x]))
                if seen == want:
                    break
            require(seen == want, "chunk flip never proposed", missing=want - seen, **case)
    # every-district variant: all districts of the plan must have cut edges or there are none
    if set(P["cut_edges_by_part"]) and all(P["cut_edges_by_part"].values()):
        Q = M.propose_flip_every_district(P)
        b = asg_of(Q)
        case = dict(edges=list(g.edges), assignment=a, new=b, flips=Q.flips)
        require(asg_of(P) == a and Q.parent is P, "the current plan was modified", **case)
        for x in b:
            if b[x] != a[x]:
                require((x, b[x]) in pr, "every-district: node moved is not boundary or target not a neighbor's", **case)
        ch = {x for x in b if b[x] != a[x]}
        ds = {p[1] for p in pr}
        for d in ds:
            require(any(a[x] == d or any(a[y] == d for y in adj[x] if a[y] != a[x]) for x in ch), "no flip for district %r" % (d,), **case)
        require(len(ch) <= len(ds), "more flips than districts", **case)
    Q = M.propose_any_node_flip(P)
    b = asg_of(Q)
    require(sum(1 for x in b if b[x] != a[x]) <= 1 and set(b.values()) <= set(a.values()) and asg_of(P) == a, "any-node flip", assignment=a, new=b)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())))


def every_cov(ctx):
    """Every-district: each end of each cut edge of a district can be drawn (two districts: exact set of outcomes)."""
    from gerrychain.proposals import proposals as M

    rng, g, a, P = setup(ctx, k=2, nmax=6)
    pr = pairs_of(g, a)
    ne = sum(1 for u, v in g.edges if a[u] != a[v])
    if not pr or ne > 3:
        return
    seen = set()
    for _ in range(500):
        b = asg_of(M.propose_flip_every_district(P))
        seen |= {(x, b[x]) for x in b if b[x] != a[x]}
        if seen == pr:
            break
    require(seen == pr, "every-district: flip never proposed", missing=pr - seen, edges=list(g.edges), assignment=a)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())))


SCENARIOS = [("single", single, 1000), ("coverage", coverage, 120), ("multi", multi, 800), ("every_cov", every_cov, 60)]
