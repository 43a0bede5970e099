from .core import *
from .treegen import *

RULE = "random connected graphs of 3-10 nodes, integer populations, dyadic tolerances, both tree samplers, both cut searches, with and without region surcharges; distinct by (graph, populations, target, tolerance, options)"


def check_subset(g, S, tgt_, eps_, one, pops, **case):
    S = set(S)
    adj = adj_of(g)
    nodes = set(g.nodes)
    require(S and S < nodes, "subset is empty, everything or not made of nodes", subset=S, **case)
    require(connected_set(adj, S), "subset not connected", subset=S, **case)
    require(connected_set(adj, nodes - S), "complement not connected", subset=S, **case)
    ps, tot = sum(pops[x] for x in S), sum(pops.values())
    require(within(ps, tgt_, eps_), "subset out of tolerance", subset=S, pop=ps, **case)
    if not one:
        require(within(tot - ps, tgt_, eps_), "complement out of tolerance", subset=S, pop=tot - ps, **case)


def setup(ctx):
    from gerrychain import tree as T

    rng = ctx.rng
    n = rng.choice([3, 4, 5, 6, 7, 8, 10])
    g = graph(rng, n=n)
    pops = pops_of(rng, g.nodes)
    for x in g.nodes:
        g.nodes[x]["P"] = pops[x]
    tot = sum(pops.values())
    target = rng.choice([tot / 2, tot / 2, tot / 4, max(1, tot // 3), max(1, tot - 1)]) or 1
    eps = rng.choice(EPS[:6])
    sub = g
    m = rng.choice(["graph", "frozen"])
    if m == "frozen":
        from gerrychain.graph import FrozenGraph
        sub = FrozenGraph(g)
    return rng, T, g, pops, target, eps


def bip(ctx):
    rng, T, g, pops, target, eps = setup(ctx)
    import inspect

    one = rng.random() < 0.5
    bal = rng.choice([T.find_balanced_edge_cuts_memoization, T.find_balanced_edge_cuts_contraction])
    st = rng.choice([T.random_spanning_tree, T.uniform_spanning_tree])
    kw = dict(balance_edge_fn=bal, spanning_tree_fn=st, max_attempts=rng.choice([1, 2, 5]), node_repeats=rng.choice([1, 2, 3]))
    which = rng.choice(["tree", "tree", "random", "all"])
    if which == "tree":
        kw["one_sided_cut"] = one
        kw["allow_pair_reselection"] = rng.random() < 0.4
        if rng.random() < 0.5:
            kw["region_surcharge"] = {k: rng.choice([0.25, 0.5, 1]) for k in rng.sample(["county", "loc", "C"], rng.randint(0, 2))}
        if rng.random() < 0.3:
            kw["cut_choice"] = T._max_weight_choice
    elif which == "random":
        kw["repeat_until_valid"] = rng.random() < 0.5
        kw["one_sided_cut"] = one
    else:
        kw["repeat_until_valid"] = rng.random() < 0.5
        one = False
    f = dict(tree=T.bipartition_tree, random=T.bipartition_tree_random, all=T._bipartition_tree_random_all)[which]
    case = dict(fn=f.__name__, edges=list(g.edges), populations=pops, target=target, epsilon=eps, options={k: getattr(v, "__name__", v) for k, v in kw.items()})
    nodes0, edges0 = set(g.nodes), {frozenset(e) for e in g.edges}
    S = None
    try:
        S = f(g, "P", target, eps, **kw)
    except RuntimeError as e:
        require(not kw.get("allow_pair_reselection"), "wrong error kind", **case)
        if which != "tree":
            require(kw["repeat_until_valid"], "error although repeat_until_valid is off", **case)
        S = "error"
    except T.ReselectException:
        require(kw.get("allow_pair_reselection"), "reselection raised although not allowed", **case)
        S = "error"
    if S != "error":
        if which == "all":
            require(len(S) > 0 or not kw["repeat_until_valid"], "no cuts returned", **case)
            for c in S:
                check_subset(g, c.subset, target, eps, one, pops, **case)
                require(g.has_edge(*c.edge), "cut edge not in graph", **case)
        elif S is None:
            require(which == "random" and not kw["repeat_until_valid"], "nothing returned", **case)
        else:
            check_subset(g, S, target, eps, one, pops, **case)
    require(nodes0 == set(g.nodes) and edges0 == {frozenset(e) for e in g.edges}, "graph changed", **case)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, pops.items())), target, eps, repr(case["options"]), which)


def attempts(ctx):
    """Attempts are exhausted exactly after max_attempts searches; trees are redrawn every node_repeats searches."""
    rng, T, g, pops, target, eps = setup(ctx)
    log = []
    k = rng.randint(0, 6)
    mx, nr = rng.choice([1, 2, 3, 5, 7]), rng.choice([1, 2, 3])

    def st(graph):
        log.append("tree")
        return T.random_spanning_tree(graph)

    def bal(h, one_sided_cut=False, choice=random.choice):
        log.append("search")
        if log.count("search") <= k:
            return []
        e = next(iter(h.graph.edges))
        A, B = sides(h.graph, e)
        return [T.Cut(edge=e, weight=0.5, subset=A)]

    which = rng.choice(["tree", "random"])
    f = T.bipartition_tree if which == "tree" else T.bipartition_tree_random
    resel = which == "tree" and rng.random() < 0.5
    kw = dict(allow_pair_reselection=resel) if which == "tree" else {}
    case = dict(fn=f.__name__, empty_searches=k, max_attempts=mx, node_repeats=nr)
    try:
        S = f(g, "P", target, eps, spanning_tree_fn=st, balance_edge_fn=bal, max_attempts=mx, node_repeats=nr, **kw)
        require(k < mx, "returned a cut that no search found", log=log, **case)
        require(log.count("search") == k + 1, "searches", log=log, **case)
    except RuntimeError:
        require(k >= mx and not resel, "gave up early or with the wrong error", log=log, **case)
        require(log.count("search") == mx, "searches", log=log, **case)
    except T.ReselectException:
        require(k >= mx and resel, "gave up early or with the wrong error", log=log, **case)
    ctx.note(k, mx, nr, which, resel)


def choice_rule(ctx):
    from gerrychain import tree as T

    rng = ctx.rng
    n = rng.choice([3, 4, 6, 8, 10])
    t = nx_tree(rng, n)
    keys = ["r1", "r2", "r3", "r4"]
    for x in t.nodes:
        for k in keys:
            if rng.random() < 0.9:
                t.nodes[x][k] = rng.choice([None, 0, 1, 2]) if rng.random() < 0.3 else rng.choice([1, 2])
    es = rng.sample(list(t.edges), rng.randint(1, len(t.edges)))
    cuts = []
    for e in es:
        e = e if rng.random() < 0.5 else (e[1], e[0])
        cuts.append(T.Cut(edge=e, weight=rng.randint(0, 9) / 16, subset=sides(t, e)[0]))
    h = T.PopulatedGraph(t, {x: 1 for x in t.nodes}, 1, 0.5)
    c = T._max_weight_choice(cuts)
    case = dict(cuts=[(c.edge, c.weight) for c in cuts], attrs={x: dict(t.nodes[x]) for x in t.nodes})
    require(any(c is d for d in cuts) and c.weight == max(d.weight for d in cuts), "max weight choice", got=c, **case)
    m = rng.randint(0, 4)
    ks = rng.sample(keys, m)
    vals = [0.5, 1.0, 2.0, 4.25]
    rng.shuffle(vals)
    sur = {k: v for k, v in zip(ks, vals)}
    c = T._region_preferred_max_weight_choice(h, sur, cuts)
    require(any(c is d for d in cuts), "choice not among the cuts", got=c, **case)
    cross = lambda d, k: t.nodes[d.edge[0]].get(k) != t.nodes[d.edge[1]].get(k)
    pool = cuts
    if 1 <= m <= 3:
        combos = [s for i in range(1, m + 1) for s in itertools.combinations(ks, i)]
        combos.sort(key=lambda s: (len(s), sum(sur[k] for k in s)), reverse=True)
        for s in combos:
            p = [d for d in cuts if all(cross(d, k) for k in s)]
            if p:
                pool = p
                break
    require(c in pool and c.weight == max(d.weight for d in pool), "region-preferred choice", got=(c.edge, c.weight), surcharge=sur, **case)
    bare = [T.Cut(edge=d.edge, subset=d.subset) for d in cuts]
    require(T._max_weight_choice(bare) in bare, "choice without weights")
    require(T._region_preferred_max_weight_choice(h, sur, bare) in bare, "choice without weights")
    ctx.note(case["cuts"], sur)


SCENARIOS = [("bip", bip, 1500), ("attempts", attempts, 300), ("choice_rule", choice_rule, 1200)]
