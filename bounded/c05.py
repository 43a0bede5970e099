from .core import *

RULE = ("random graphs with integer/dyadic node data (zeros, negatives, NaN nodes), one or several fields, dict/Series/column DataTally, "
        "flip histories incl. swaps, tally objects reused on a second graph; exact comparison with direct sums; distinct by (graph data, plan, flips)")


def want_tally(g, w, val, parts):
    out = {p: 0 for p in parts}
    for x in g.nodes:
        v = val(x)
        if not (isinstance(v, float) and math.isnan(v)):
            out[w[x]] += v
    return out


def cmp(got, want, parts, msg, **case):
    for k in parts:
        if k in got:
            require(same(got[k], want[k]), msg, part=k, got=dict(got), want=want, **case)
        else:
            require(want[k] == 0, msg + " (district missing)", part=k, got=dict(got), want=want, **case)
    require(set(got) <= set(parts), msg + " (extra district)", got=dict(got), want=want, **case)


def history(ctx):
    from gerrychain import Partition
    from gerrychain.updaters import Tally, DataTally
    import pandas

    rng = ctx.rng
    g = graph(rng)
    nan = rng.random() < 0.3
    a = plan(rng, g)
    if nan:
        by = {}
        for x in a:
            by.setdefault(a[x], []).append(x)
        for k, xs in by.items():
            for x in rng.sample(xs, rng.randint(0, len(xs) - 1)):
                g.nodes[x]["q"] = float("nan")
    ext = {x: rng.randint(-3, 9) for x in g.nodes}
    fields = rng.sample(["pop", "pop2", "q", "A"], rng.randint(1, 3))
    if rng.random() < 0.1:
        fields = fields + [fields[0]]
    ups = {
        "one": Tally("pop", alias="one"),
        "pop2": Tally("pop2"),
        "fq": Tally("q", alias="fq", dtype=float),
        "many": Tally(list(fields), alias="many"),
        "data": DataTally(dict(ext), "data"),
        "col": DataTally("q", "col"),
        "series": DataTally(pandas.Series(ext), "series") if not isinstance(list(g.nodes)[0], tuple) else DataTally(dict(ext), "series"),
    }
    val = {
        "one": lambda x: g.nodes[x]["pop"], "pop2": lambda x: g.nodes[x]["pop2"], "fq": lambda x: g.nodes[x]["q"],
        "many": lambda x: sum(g.nodes[x][f] for f in fields), "data": lambda x: ext[x], "col": lambda x: g.nodes[x]["q"],
        "series": lambda x: ext[x],
    }
    p = Partition(g, a, dict(ups))
    w = dict(a)
    parts = list(p.parts)
    log = []
    eager = rng.random() < 0.6
    chainlike = rng.random() < 0.3
    bad_nan = {"fq", "col"} | ({"many"} if "q" in fields else set())
    for i in range(rng.choice([1, 2, 4, 10]) + 1):
        if i:
            fl = flips_for(rng, w, p.parts, keep_nonempty=True)
            if not fl:
                continue
            log.append(fl)
            q = p.flip(fl)
            if chainlike:
                p.parent = None
            p = q
            if {**w, **fl} != w:
                ctx.note(sorted(map(repr, g.nodes(data=True))), w, fl)
            w = {**w, **fl}
        for nm in ups if eager else rng.sample(list(ups), 2):
            if nan and nm in bad_nan:
                cur = p
                # a lazily initialised tally only lists districts with a usable value
                if not eager or chainlike:
                    continue
            cmp(p[nm], want_tally(g, w, val[nm], parts), parts, "tally %s wrong" % nm, initial=a, flips=log, fields=fields)
            ctx.count += 1
    if not nan:
        for nm in ups:
            cmp(p[nm], want_tally(g, w, val[nm], parts), parts, "tally %s wrong" % nm, initial=a, flips=log, fields=fields)


def two_graphs(ctx):
    from gerrychain import Partition, Graph
    from gerrychain.updaters import Tally, DataTally

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    h = Graph(g)
    for x in h.nodes:
        h.nodes[x].update(dict(g.nodes[x]))
        h.nodes[x]["pop"] = rng.randint(0, 50)
    ups = {"t": Tally("pop", alias="t"), "d": DataTally("pop", "d")}
    p = Partition(g, a, dict(ups))
    q = Partition(h, a, dict(ups))
    objs = [(p, g), (q, h)]
    rng.shuffle(objs)
    for o, gg in objs:
        w = dict(a)
        for i in range(3):
            for nm in ups:
                cmp(o[nm], want_tally(gg, w, lambda x: gg.nodes[x]["pop"], o.parts), list(o.parts), "tally %s on a second graph" % nm, initial=a)
                ctx.count += 1
            fl = flips_for(rng, w, o.parts, keep_nonempty=True)
            o = o.flip(fl)
            w = {**w, **fl}
    ctx.note(sorted(map(repr, g.nodes(data=True))), a)


SCENARIOS = [("history", history, 1500), ("two_graphs", two_graphs, 150)]
