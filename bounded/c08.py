from .core import *

RULE = "random locality columns (strings and other labels), positive populations, plans, score subsets, alphas and flip histories; entropies compared to 1e-9; distinct by (localities, plan, flips)"
ALL = ["num_parts", "num_pieces", "naked_boundary", "shannon_entropy", "power_entropy", "symmetric_entropy", "num_split_localities"]


def oracle(g, w, col, alpha):
    adj = adj_of(g)
    loc = {x: g.nodes[x][col] for x in g.nodes}
    inter = {}
    for x in g.nodes:
        inter.setdefault((w[x], loc[x]), set()).add(x)
    out = {}
    out["num_parts"] = len(inter)
    out["num_pieces"] = sum(len(components(adj, s)) for s in inter.values())
    out["naked_boundary"] = sum(1 for u, v in g.edges if w[u] != w[v] and loc[u] == loc[v])
    locs = set(loc.values())
    out["num_split_localities"] = sum(1 for l in locs if len({d for (d, m) in inter if m == l}) > 1)
    N = len(loc)
    sh = pw = 0.0
    for l in locs:
        tot = sum(1 for x in loc if loc[x] == l)
        q = tot / N
        ps = [len(s) / tot for (d, m), s in inter.items() if m == l]
        sh += q * sum(p * math.log(1 / p) for p in ps)
        pw += (1 / q) * (sum(p ** (1 - alpha) for p in ps) - 1)
    out["shannon_entropy"], out["power_entropy"] = sh, pw
    pop = {k: sum(g.nodes[x]["pop"] for x in s) for k, s in inter.items()}
    sym = 0.0
    for d in set(w.values()):
        t = sum(v for (e, l), v in pop.items() if e == d)
        sym += t * sum(math.sqrt(v / t) for (e, l), v in pop.items() if e == d)
    for m in locs:
        t = sum(v for (e, l), v in pop.items() if l == m)
        sym += t * sum(math.sqrt(v / t) for (e, l), v in pop.items() if l == m)
    out["symmetric_entropy"] = sym
    return out


def history(ctx):
    from gerrychain import Partition
    from gerrychain.updaters.locality_split_scores import LocalitySplits
    from gerrychain.updaters import cut_edges

    rng = ctx.rng
    g = graph(rng)
    for x in g.nodes:
        g.nodes[x]["pop"] = rng.randint(1, 30)
    col = rng.choice(["county", "loc"])
    if rng.random() < 0.2:
        for x in g.nodes:
            g.nodes[x][col] = rng.choice([1, 2, (0, 1), 0])
    sc = rng.sample(ALL, rng.randint(1, len(ALL)))
    alpha = rng.choice([0.05, 0.5, 0.25, 0])
    upd = LocalitySplits("s", col, "pop", list(sc), alpha)
    a = plan(rng, g)
    p = Partition(g, a, {"s": upd, "cut_edges": cut_edges})
    w = dict(a)
    log, seen = [], []
    for i in range(rng.choice([1, 2, 4]) + 1):
        if i:
            fl = flips_for(rng, w, p.parts, keep_nonempty=True)
            if not fl:
                continue
            log.append(fl)
            p, w = p.flip(fl), {**w, **fl}
        if rng.random() < 0.8:
            got = p["s"]
            want = {k: v for k, v in oracle(g, w, col, alpha).items() if k in sc}
            require_same_dict(got, want, "locality scores", eq=close, assignment=w, localities={x: g.nodes[x][col] for x in g.nodes},
                              pops={x: g.nodes[x]["pop"] for x in g.nodes}, edges=list(g.edges), flips=log)
            for k in ("num_parts", "num_pieces", "naked_boundary", "num_split_localities"):
                if k in sc:
                    require(got[k] == want[k], "count score", score=k, got=got[k], want=want[k])
            seen.append((p, dict(want)))
            ctx.count += 1
            ctx.note(sorted((repr(x), repr(g.nodes[x][col])) for x in g.nodes), w, sc)
    for q, want in seen:
        require_same_dict(q["s"], want, "locality scores of an earlier plan changed", eq=close, flips=log)


SCENARIOS = [("history", history, 1500)]
