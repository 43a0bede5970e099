from .core import *

RULE = "random county columns, plans and flip histories with reports read at every step (and sometimes only late); oracle from definitions; distinct by (counties, plan, flips)"


def check_report(rep, g, w, prev_split, has_parent, cs, **case):
    from gerrychain.updaters.county_splits import CountySplit

    want = {}
    for x in g.nodes:
        want.setdefault(g.nodes[x]["county"], []).append(x)
    require(set(rep) == set(want), "counties", got=set(rep), want=set(want), **case)
    split = {}
    for c, xs in want.items():
        info = rep[c]
        require(sorted(map(repr, info.nodes)) == sorted(map(repr, xs)), "county nodes", county=c, got=info.nodes, want=xs, **case)
        ds = {w[x] for x in xs}
        require(set(info.contains) == ds, "districts of a county", county=c, got=info.contains, want=ds, **case)
        split[c] = len(ds) > 1
        if not split[c]:
            st = CountySplit.NOT_SPLIT
        elif not has_parent or prev_split[c]:
            st = CountySplit.OLD_SPLIT
        else:
            st = CountySplit.NEW_SPLIT
        require(info.split == st, "split status", county=c, got=info.split, want=st, **case)
    return split


def history(ctx):
    from gerrychain import Partition
    from gerrychain.updaters import county_splits, tally_region_splits, cut_edges
    from gerrychain.updaters.county_splits import CountySplit
    from gerrychain.constraints import refuse_new_splits

    rng = ctx.rng
    g = graph(rng)
    if rng.random() < 0.3:
        for x in g.nodes:
            g.nodes[x]["county"] = rng.choice([0, 1, None])
    a = plan(rng, g)
    name = rng.choice(["cs", "county_splits", "zz"])
    p = Partition(g, a, {name: county_splits(name, "county"), "reg": tally_region_splits(["county", "loc"]), "cut_edges": cut_edges})
    w = dict(a)
    split = None
    log = []
    refuse = refuse_new_splits(name)
    every = rng.random() < 0.8
    cut = rng.random() < 0.3
    for i in range(rng.choice([1, 2, 4, 8]) + 1):
        if i:
            fl = flips_for(rng, w, p.parts)
            log.append(fl)
            q = p.flip(fl)
            old = w
            w = {**w, **fl}
            if cut and every:
                p.parent = None
            p = q
            ctx.note(sorted((repr(x), repr(d["county"])) for x, d in g.nodes(data=True)), old, fl)
        if every:
            rep = p[name]
            new = check_report(rep, g, w, split, i > 0, None, initial=a, flips=log)
            want = not any(new[c] and i > 0 and not split[c] for c in new)
            require(refuse(p) is want, "refuse_new_splits", got=refuse(p), want=want, initial=a, flips=log)
            split = new
            ctx.count += 1
        ce = cut_edges_of(g, w)
        for col in ("county", "loc"):
            n = len({g.nodes[u][col] for u, v in ce if g.nodes[u][col] == g.nodes[v][col]})
            require(p["reg"][col] == n, "region splits", col=col, got=p["reg"], want=n, initial=a, flips=log)
        require(set(p["reg"]) == {"county", "loc"}, "region columns", got=p["reg"])


SCENARIOS = [("history", history, 1500)]
