from .core import *
from .c01 import check
from .c03 import canon

RULE = ("random plans, 2-6 children of one parent and grandchildren created in random order; snapshots of every plan's "
        "assignment, districts, graph, parent, flips and cached updater values re-compared after all of them exist; "
        "distinct by (graph, plan, flips)")


def siblings(ctx):
    from gerrychain import Partition, GeographicPartition
    from gerrychain.updaters import Tally
    import copy

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    geo = rng.random() < 0.5
    if geo:
        p = GeographicPartition(g, a, {"pop": Tally("pop", alias="pop")})
        names = ["pop", "perimeter", "exterior_boundaries", "interior_boundaries", "cut_edges", "cut_edges_by_part", "area"]
    else:
        p = Partition(g, a, {"pop": Tally("pop", alias="pop")})
        names = ["pop", "cut_edges"]
    plans = []

    def add(q, want, parent, fl):
        check(q, g, want, flips=fl)
        require(q.parent is parent, "parent of a flipped plan", flips=fl)
        require(q.graph is p.graph, "graph of a flipped plan", flips=fl)
        require(type(q) is type(p), "class of a flipped plan")
        if fl is not None:
            require(dict(q.flips) == fl, "flips of a flipped plan", flips=fl, got=q.flips)
        vals = {}
        if rng.random() < 0.7:
            for nm in rng.sample(names, rng.randint(1, len(names))):
                v = q[nm]
                vals[nm] = (v, copy.deepcopy(dict(v) if isinstance(v, dict) else v))
        plans.append((q, dict(want), {k: frozenset(v) for k, v in q.parts.items()}, vals, fl, parent))

    add(p, a, None, None)
    for i in range(rng.choice([2, 3, 6])):
        src, sw = plans[0][:2] if rng.random() < 0.6 else rng.choice(plans)[:2]
        fl = flips_for(rng, sw, src.parts)
        arg = dict(fl)
        q = src.flip(arg)
        require(arg == fl, "flip changed its argument", flips=fl, got=arg)
        add(q, {**sw, **fl}, src, fl)
        ctx.count += 1
        ctx.note(sorted(map(repr, g.edges)), a, fl)
    for q, want, parts, vals, fl, parent in plans:
        check(q, g, want, when="after siblings were created", initial=a, flips=[x[4] for x in plans])
        require({k: frozenset(v) for k, v in q.parts.items()} == parts, "districts of an older plan changed")
        require(q.parent is parent, "parent link of an older plan changed")
        for nm, (v, snap) in vals.items():
            require(q[nm] is v or q[nm] == v, "cached value replaced", name=nm)
            require(canon(v) == canon(snap), "cached result of an older plan changed", name=nm, before=snap, after=v, flips=[x[4] for x in plans])


SCENARIOS = [("siblings", siblings, 1500)]
