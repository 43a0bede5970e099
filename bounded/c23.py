from .core import *
from collections import Counter

RULE = "random graphs and plans, random constraint sets given as list, Validator or function; plan streams with repeats and revisits; oracle enumerates cut-edge ends directly; distinct by (graph, plan, constraints)"


def meta(ctx):
    from gerrychain import Partition
    from gerrychain import metagraph as M
    from gerrychain.constraints import Validator

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    P = Partition(g, a)
    if rng.random() < 0.4:
        P = P.flip(flips_for(rng, a, set(a.values()), keep_nonempty=True))
        a = asg_of(P)
    salt = rng.randrange(100)
    parts = list(P.parts)
    ok1 = lambda p: hash((salt, tuple(sorted(repr(x) for x in p.parts[parts[0]])))) % 3 != 0
    ok2 = lambda p: all(len(v) > 0 for v in p.parts.values())
    form = rng.choice(["list", "validator", "fn", "true", "two"])
    cons = {"list": [ok1], "validator": Validator([ok1, ok2]), "fn": ok1, "true": [], "two": (ok1, ok2)}[form]
    fs = {"list": [ok1], "validator": [ok1, ok2], "fn": [ok1], "true": [], "two": [ok1, ok2]}[form]
    al, valid, res = Counter(), Counter(), Counter()
    for u, v in g.edges:
        if a[u] != a[v]:
            for x, y in ((u, v), (v, u)):
                al[(x, a[y])] += 1
                b = dict(a)
                b[x] = a[y]
                Q = P.flip({x: a[y]})
                if all(f(Q) for f in fs):
                    valid[(x, a[y])] += 1
                    res[frozenset(b.items())] += 1
    case = dict(edges=list(g.edges), assignment=a, constraints=form)
    got = Counter()
    for f in M.all_cut_edge_flips(P):
        require(len(f) == 1, "flip of several nodes", flip=f, **case)
        got[next(iter(f.items()))] += 1
    require(got == al, "all cut-edge flips", got=got, want=al, **case)
    got = Counter(frozenset(asg_of(q).items()) for q in M.all_valid_states_one_flip_away(P, cons))
    require(got == res, "valid neighbouring plans", got=got, want=res, **case)
    got = Counter()
    for f in M.all_valid_flips(P, cons):
        require(len(f) == 1, "flip of several nodes", flip=f, **case)
        got[next(iter(f.items()))] += 1
    require(got == valid, "valid flips", got=got, want=valid, **case)
    d = M.metagraph_degree(P, cons)
    require(d == sum(valid.values()), "degree", got=d, want=sum(valid.values()), **case)
    require(asg_of(P) == a, "plan modified", **case)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())), form)


def diversity(ctx):
    from gerrychain import Partition
    from gerrychain.meta import collect_diversity_stats

    rng = ctx.rng
    g = graph(rng, n=rng.choice([3, 4, 5, 6]), kind=rng.choice(["int", "str", "shuffled"]))
    a = plan(rng, g, k=rng.randint(1, 3))
    cur = Partition(g, a)
    ps = [cur]
    for _ in range(rng.randint(0, 12)):
        m = rng.random()
        if m < 0.2:
            ps.append(ps[-1])
        elif m < 0.4:
            ps.append(rng.choice(ps))
        elif m < 0.5:
            b = asg_of(ps[-1])
            ls = sorted(set(b.values()), key=repr)
            perm = dict(zip(ls, rng.sample(ls, len(ls))))
            ps.append(Partition(g, {x: perm[b[x]] for x in b}))
        else:
            b = asg_of(ps[-1])
            fl = flips_for(rng, b, set(a.values()), maxn=2, keep_nonempty=True)
            ps.append(ps[-1].flip(fl) if fl else ps[-1])
    plans, dists = set(), set()
    n = 0
    for i, (p, st) in enumerate(collect_diversity_stats(iter(ps))):
        ctx.count += 1
        b = asg_of(ps[i])
        plans.add(frozenset(cut_edges_of(g, b)))
        dists |= {frozenset(x for x in b if b[x] == k) for k in set(b.values())}
        case = dict(index=i, plans=[asg_of(q) for q in ps[: i + 1]], edges=list(g.edges), got=st)
        require(p is ps[i], "plan not passed through", **case)
        require(st.steps_taken == i + 1, "plans seen", **case)
        require(st.unique_plans == len(plans), "distinct plans (want %d)" % len(plans), **case)
        require(st.unique_districts == len(dists), "distinct districts (want %d)" % len(dists), **case)
        n += 1
    require(n == len(ps), "number of plans")
    ctx.note(sorted(map(repr, g.edges)), [sorted(map(repr, asg_of(q).items())) for q in ps])


SCENARIOS = [("meta", meta, 700), ("diversity", diversity, 500)]
