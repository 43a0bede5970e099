from .core import *

RULE = "random graphs with dyadic boundary/shared lengths and areas, flip histories; exact comparison of boundaries and perimeters with direct sums; distinct by (graph data, plan, flips)"


def check(p, g, w, names, **case):
    parts = list(p.parts)
    bn = {x for x in g.nodes if g.nodes[x]["boundary_node"]}
    ext = {k: sum(g.nodes[x]["boundary_perim"] for x in bn if w[x] == k) for k in parts}
    inte = {k: 0 for k in parts}
    for u, v in g.edges:
        if w[u] != w[v]:
            inte[w[u]] += g.edges[u, v]["shared_perim"]
            inte[w[v]] += g.edges[u, v]["shared_perim"]
    area = {k: sum(g.nodes[x]["area"] for x in g.nodes if w[x] == k) for k in parts}
    case = dict(case, assignment=w, nodes=dict(g.nodes(data=True)), edges=list(g.edges(data=True)))
    for nm in names:
        got = p[nm]
        if nm == "boundary_nodes":
            require(set(got) == bn, "boundary nodes", got=got, want=bn, **case)
        elif nm == "exterior_boundaries_as_a_set":
            for k in parts:
                require(set(got.get(k, ())) == {x for x in bn if w[x] == k}, "exterior boundary node sets", part=k, got=dict(got), **case)
        elif nm == "exterior_boundaries":
            for k in parts:
                require(same(got.get(k, 0), ext[k]), "exterior boundary", part=k, got=dict(got), want=ext, **case)
        elif nm == "interior_boundaries":
            require_same_dict(got, inte, "interior boundary", **case)
        elif nm == "perimeter":
            require_same_dict(got, {k: ext[k] + inte[k] for k in parts}, "perimeter", **case)
        elif nm == "polsby_popper":
            want = {}
            for k in parts:
                per = ext[k] + inte[k]
                want[k] = float("nan") if per == 0 else 4 * math.pi * area[k] / per ** 2
            require_same_dict(got, want, "polsby popper", eq=close, **case)


def history(ctx):
    from gerrychain import Partition, GeographicPartition
    from gerrychain.metrics import polsby_popper
    from gerrychain.updaters import exterior_boundaries_as_a_set

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    p = GeographicPartition(g, a, {"polsby_popper": polsby_popper, "exterior_boundaries_as_a_set": exterior_boundaries_as_a_set})
    names = ["boundary_nodes", "exterior_boundaries_as_a_set", "exterior_boundaries", "interior_boundaries", "perimeter", "polsby_popper"]
    w = dict(a)
    log = []
    eager = rng.random() < 0.6
    cut = rng.random() < 0.3
    check(p, g, w, names if eager else rng.sample(names, 2), initial=a)
    for i in range(rng.choice([1, 2, 3, 8])):
        fl = flips_for(rng, w, p.parts, keep_nonempty=True)
        if not fl:
            continue
        log.append(fl)
        q = p.flip(fl)
        if cut:
            p.parent = None
        p, w = q, {**w, **fl}
        check(p, g, w, names if eager else rng.sample(names, rng.randint(0, 4)), initial=a, flips=log)
        ctx.count += 1
        ctx.note(sorted(map(repr, g.nodes(data=True))), a, log)
    check(p, g, w, names, initial=a, flips=log)


def pp(ctx):
    from gerrychain.metrics.compactness import compute_polsby_popper
    rng = ctx.rng
    ar, pe = rng.randint(0, 100) / 4, rng.choice([0, 0.0, 1, 2.5, rng.randint(1, 400) / 4])
    v = compute_polsby_popper(ar, pe)
    want = float("nan") if pe == 0 else 4 * math.pi * ar / pe ** 2
    require(close(v, want), "polsby popper formula", area=ar, perimeter=pe, got=v, want=want)
    ctx.note(ar, pe)


SCENARIOS = [("history", history, 1500), ("pp", pp, 200)]
