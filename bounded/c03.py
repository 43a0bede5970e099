from .core import *

RULE = ("random plans with counting/lazy updaters and the library updaters; updaters read in random order over several plans, "
        "some plans with the parent link cut after creation, compared with a fresh plan of the same assignment; "
        "distinct by (graph, plan, flips, read order)")


def lib_updaters():
    from gerrychain.updaters import (Tally, DataTally, cut_edges, cut_edges_by_part, exterior_boundaries, interior_boundaries,
                                     perimeter, boundary_nodes, exterior_boundaries_as_a_set, Election, county_splits,
                                     tally_region_splits)
    from gerrychain.updaters.locality_split_scores import LocalitySplits
    from gerrychain.metrics import polsby_popper
    return {
        "pop": Tally("pop", alias="pop"), "area": Tally("area", alias="area"),
        "multi": Tally(["pop", "pop2"], alias="multi"),
        "q": DataTally("q", "q"),
        "cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part,
        "exterior_boundaries": exterior_boundaries, "interior_boundaries": interior_boundaries,
        "perimeter": perimeter, "boundary_nodes": boundary_nodes,
        "exterior_boundaries_as_a_set": exterior_boundaries_as_a_set,
        "el": Election("el", {"X": "A", "Y": "B"}, alias="el"),
        "regions": tally_region_splits(["county"]),
        "splits": LocalitySplits("splits", "county", "pop", ["num_parts", "num_pieces", "naked_boundary", "num_split_localities"]),
        "polsby_popper": polsby_popper,
    }


def canon(v):
    if hasattr(v, "totals_for_party"):
        return {"t": canon(v.totals_for_party), "totals": canon(v.totals), "p": canon(v.percents_for_party)}
    if isinstance(v, dict):
        out = {k: canon(x) for k, x in v.items()}
        # zero / empty entries of defaultdicts carry no information
        return {k: x for k, x in out.items() if not (isinstance(x, (set, frozenset)) and not x) and x != 0}
    if isinstance(v, (set, frozenset)):
        return frozenset(v)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, float) and math.isnan(v):
        return "nan"
    return v


def order(ctx):
    from gerrychain import Partition

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    ups = lib_updaters()
    names = list(ups)
    p = Partition(g, a, dict(ups), use_default_updaters=False)
    plans = [(p, dict(a))]
    log = []
    got = {}

    def read(i, nm):
        q, w = plans[i]
        v = q[nm]
        c = canon(v)
        if (i, nm) in got:
            require(got[(i, nm)][1] == c, "second read gives a different value", name=nm, first=got[(i, nm)][1], second=c, log=log)
            require(got[(i, nm)][0] is v, "updater value recomputed", name=nm, log=log)
        else:
            got[(i, nm)] = (v, c)
        return c

    for step in range(rng.choice([2, 4, 7])):
        op = rng.choice(["flip", "read", "read", "cut", "flip"])
        if op == "flip":
            i = len(plans) - 1 if rng.random() < 0.7 else rng.randrange(len(plans))
            q, w = plans[i]
            fl = flips_for(rng, w, q.parts, keep_nonempty=True)
            if not fl:
                continue
            plans.append((q.flip(fl), {**w, **fl}))
            log.append(("flip", i, fl))
        elif op == "read":
            i = rng.randrange(len(plans))
            for nm in rng.sample(names, rng.choice([1, 3, len(names)])):
                log.append(("read", i, nm))
                read(i, nm)
        else:
            i = rng.randrange(len(plans))
            plans[i][0].parent = None
            log.append(("cut", i))
        ctx.count += 1
    ctx.note(sorted(map(repr, g.edges)), a, log)
    for i, (q, w) in enumerate(plans):
        clean_defaults()
        fresh = Partition(g, w, lib_updaters(), use_default_updaters=False)
        for nm in names:
            log.append(("final read", i, nm))
            c = read(i, nm)
            f = canon(fresh[nm])
            require(c == f, "value differs from the updater's value for that plan", name=nm, got=c, fresh=f, assignment=w, log=log)
    for (i, nm), (v, c) in got.items():
        require(canon(v) == c, "an already read value changed later", name=nm, before=c, after=canon(v), log=log)


def counting(ctx):
    from gerrychain import Partition

    rng = ctx.rng
    g = graph(rng, n=rng.randint(2, 6))
    a = plan(rng, g)
    calls = []

    def mk(nm):
        val = rng.choice([0, None, "", [], 7, False, {}])
        vals = {}

        def upd(part):
            calls.append((nm, id(part)))
            vals[id(part)] = [val, len(calls)] if rng.random() < 0.5 else val
            return vals[id(part)]

        return upd, vals

    fs = {nm: mk(nm) for nm in ("u", "v", "w")}
    given = {k: f[0] for k, f in fs.items()}
    keep = dict(given)
    p = Partition(g, a, given, use_default_updaters=rng.random() < 0.5)
    require(given == keep, "constructor changed the caller's updaters", before=list(keep), after=list(given))
    plans = [p]
    for i in range(rng.randint(2, 8)):
        if rng.random() < 0.4:
            plans.append(plans[-1].flip(flips_for(rng, asg_of(plans[-1]), plans[-1].parts)))
        q = rng.choice(plans)
        nm = rng.choice("uvw")
        v = q[nm] if rng.random() < 0.7 else getattr(q, nm)
        require(calls.count((nm, id(q))) == 1, "updater not computed exactly once", name=nm, calls=calls)
        require(v is fs[nm][1][id(q)], "value is not what the updater returned", name=nm, got=v)
        ctx.count += 1
    ctx.note(a, calls and len(calls))
    for bad in ("nope", "pop"):
        try:
            p[bad]
        except KeyError:
            pass
        else:
            raise Violation("unknown updater name did not raise KeyError", name=bad)
    require(set("uvw") <= set(p.keys()), "keys() lists the updaters")


def grid_args(ctx):
    from gerrychain.grid import Grid

    rng = ctx.rng
    u = {"one": lambda p: 1}
    before = dict(u)
    Grid((rng.randint(1, 4), rng.randint(1, 4)), updaters=u)
    require(u == before, "Grid changed the caller's updaters", after=sorted(u))
    ctx.note(rng.random())


def known():
    """Known finding: constructors write custom updaters into the class-wide default_updaters."""
    clean_defaults()
    from gerrychain import Partition, Graph

    g = Graph([(0, 1), (1, 2)])
    p1 = Partition(g, {0: 0, 1: 0, 2: 1}, {"x": lambda p: "first"})
    p2 = Partition(g, {0: 0, 1: 0, 2: 1}, {"x": lambda p: "second"})
    bad = p1["x"] != "first"
    clean_defaults()
    return [dict(id="C03-default-updaters-shared", what="a custom updater of one plan is read through another plan")] if bad else []


SCENARIOS = [("order", order, 700), ("counting", counting, 800), ("grid_args", grid_args, 20)]
