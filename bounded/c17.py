from .core import *
from .treegen import *
from functools import partial

RULE = "random connected graphs of 4-12 nodes with 2-4 connected districts (each adjacent pair has at least 3 nodes), integer populations, tolerances that keep the current plan feasible; all three proposals and several bipartition methods; distinct by (graph, plan, options)"


def setup(ctx, kmax=4):
    from gerrychain import Partition, updaters

    rng = ctx.rng
    while True:
        n = rng.choice([4, 5, 6, 8, 9, 12])
        g = graph(rng, n=n)
        a = plan(rng, g, k=rng.randint(2, min(kmax, n - 2)), contiguous=True)
        parts = sorted(set(a.values()), key=repr)
        size = {p: sum(1 for v in a.values() if v == p) for p in parts}
        if all(size[a[u]] + size[a[v]] >= 3 for u, v in g.edges if a[u] != a[v]):
            break
    pops = pops_of(rng, g.nodes)
    for x in g.nodes:
        g.nodes[x]["P"] = pops[x]
    P = Partition(g, a, updaters={"cut_edges": updaters.cut_edges, "population": updaters.Tally("P", alias="population")})
    tot = sum(pops.values())
    target = Fraction(tot, len(parts))
    dp = {p: sum(pops[x] for x in a if a[x] == p) for p in parts}
    if tot == 0:
        target = Fraction(1)
    dev = max(abs(Fraction(v) - target) / target for v in dp.values())
    eps = max(0.125, math.ceil(dev * 8) / 8)
    target = int(target) if target.denominator == 1 else float(target)
    return rng, g, a, parts, pops, P, target, eps


def near(p, target, eps):
    return abs(p - target) <= eps * target * (1 + 1e-9) + 1e-9


def check(old, new, g, pops, target, eps, balanced, **case):
    a, b = old, new
    require(set(a) == set(b), "nodes changed", **case)
    diff = [x for x in a if a[x] != b[x]]
    labs = {a[x] for x in diff} | {b[x] for x in diff}
    case = dict(case, old=a, new=b, edges=list(g.edges), populations=pops, target=target, epsilon=eps)
    adjp = {frozenset((a[u], a[v])) for u, v in g.edges if a[u] != a[v]}
    adj = adj_of(g)
    require(len(labs) <= 2, "more than two districts changed", **case)
    if labs:
        require(labs <= set(a.values()), "new labels", **case)
        if len(labs) == 2:
            require(frozenset(labs) in adjp, "the two changed districts were not adjacent", **case)

    def ok(pair):
        for l in pair:
            S = [x for x in b if b[x] == l]
            if not S or not connected_set(adj, S) or not near(sum(pops[x] for x in S), target, eps):
                return False
        return True

    if balanced:
        cand = [p for p in adjp if labs <= p]
        require(any(ok(p) for p in cand), "a new district is empty, disconnected or out of tolerance", **case)


def recom_(ctx):
    from gerrychain.proposals import recom, ReCom
    from gerrychain.proposals.tree_proposals import MetagraphError
    from gerrychain import tree as T

    rng, g, a, parts, pops, P, target, eps = setup(ctx)
    all_adj = len({frozenset((a[u], a[v])) for u, v in g.edges if a[u] != a[v]}) == len(parts) * (len(parts) - 1) // 2
    resel = all_adj and rng.random() < 0.5
    bal = rng.choice([T.find_balanced_edge_cuts_memoization, T.find_balanced_edge_cuts_contraction])
    st = rng.choice([T.random_spanning_tree, T.uniform_spanning_tree])
    m = rng.choice(["tree", "tree", "random"])
    if rng.random() < 0.2:
        eps = rng.choice([0, 0.125])
    if m == "tree":
        meth = partial(T.bipartition_tree, max_attempts=20, allow_pair_reselection=resel, balance_edge_fn=bal, spanning_tree_fn=st)
    else:
        resel = False
        meth = partial(T.bipartition_tree_random, max_attempts=20, balance_edge_fn=bal, spanning_tree_fn=st)
    opts = dict(method=m, bal=bal.__name__, st=st.__name__, resel=resel)
    cur, curp = dict(a), P
    for step in range(3):
        size = {p: sum(1 for v in cur.values() if v == p) for p in parts}
        if any(size[cur[u]] + size[cur[v]] < 3 for u, v in g.edges if cur[u] != cur[v]):
            break
        ctx.count += 1
        try:
            if rng.random() < 0.3:
                Q = ReCom("P", target, eps, method=meth)(curp)
            else:
                kw = dict(node_repeats=rng.choice([1, 2]))
                if m == "tree" and rng.random() < 0.5:
                    kw["region_surcharge"] = {"county": 0.5}
                Q = recom(curp, "P", target, eps, method=meth, **kw)
        except RuntimeError:
            require(not resel, "attempts exhausted although reselection is on")
            break
        except MetagraphError:
            require(resel, "metagraph error without reselection")
            break
        new = asg_of(Q)
        require(Q.parent is curp, "parent of the proposal")
        require(asg_of(curp) == cur, "current plan was modified")
        check(cur, new, g, pops, target, eps, True, options=opts)
        cur, curp = new, Q
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())), repr(opts), eps)


def reselect(ctx):
    from gerrychain.proposals import recom
    from gerrychain.proposals.tree_proposals import MetagraphError
    from gerrychain import tree as T

    rng, g, a, parts, pops, P, target, eps = setup(ctx)
    pairs = {frozenset((a[u], a[v])) for u, v in g.edges if a[u] != a[v]}
    if len(pairs) != len(parts) * (len(parts) - 1) // 2:
        return
    good = rng.choice([None] + sorted(pairs, key=repr))
    tried = []

    def meth(graph, pop_col, pop_target, epsilon, node_repeats, one_sided_cut=False):
        pr = frozenset(a[x] for x in graph.nodes)
        tried.append(pr)
        require(set(graph.nodes) == {x for x in a if a[x] in pr} and len(pr) == 2, "merged region is not the union of two districts")
        require(not one_sided_cut, "two-district split asked for one-sided")
        require(pop_col == "P" and pop_target == target and epsilon == eps, "arguments of the method")
        if pr == good:
            return {x for x in a if a[x] == min(pr, key=repr)}
        raise T.ReselectException("no")

    try:
        Q = recom(P, "P", target, eps, method=meth)
        require(good is not None and tried[-1] == good, "returned without a split", tried=tried)
        check(a, asg_of(Q), g, pops, target, eps, True, tried=tried)
    except MetagraphError:
        require(good is None and set(tried) == pairs, "gave up although pairs were left", tried=tried, pairs=pairs)
    except T.PopulationBalanceError:
        require(False, "balanced split refused", tried=tried, assignment=a, populations=pops, target=target, epsilon=eps)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())), repr(good))


def badmethod(ctx):
    """A split outside the tolerance is refused, not proposed."""
    from gerrychain.proposals import recom
    from gerrychain import tree as T

    rng, g, a, parts, pops, P, target, eps = setup(ctx)

    def meth(graph, **kw):
        nodes = list(graph.nodes)
        return set(rng.sample(nodes, rng.randint(0, len(nodes)))) if rng.random() < 0.9 else None

    for _ in range(4):
        try:
            Q = recom(P, "P", target, eps, method=meth)
        except (T.PopulationBalanceError, T.BalanceError):
            continue
        b = asg_of(Q)
        labs = {b[x] for x in b if b[x] != a[x]} | {a[x] for x in b if b[x] != a[x]}
        for l in labs:
            require(near(sum(pops[x] for x in b if b[x] == l), target, eps), "unbalanced split proposed", old=a, new=b, populations=pops, target=target, epsilon=eps)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())))


def reversible(ctx):
    from gerrychain.proposals import reversible_recom
    from gerrychain.proposals import tree_proposals as TP
    from gerrychain import tree as T

    rng, g, a, parts, pops, P, target, eps = setup(ctx)
    bal0 = rng.choice([T.find_balanced_edge_cuts_memoization, T.find_balanced_edge_cuts_contraction])
    for _ in range(6):
        ctx.count += 1
        M = rng.choice([1, 2, 3, 5, 30])
        c = rng.randint(0, 63) / 64
        st = dict(found=[], chosen=None, after=0)

        def bal(*args, **kw):
            r = bal0(*args, **kw)
            st["found"].append(len(r))
            return r

        def choice(seq):
            r = random_choice(seq)
            if isinstance(r, T.Cut):
                st["chosen"], st["offered"], st["after"] = r, len(seq), 0
            return r

        def rnd():
            st["after"] += 1
            return c

        random_choice = random.choice
        rep = rng.random() < 0.3
        real = random.random
        case = dict(M=M, draw=c, repeat_until_valid=rep)
        random.random = rnd
        try:
            kw = dict(repeat_until_valid=True) if rep else {}
            Q = reversible_recom(P, "P", target, eps, balance_edge_fn=bal, M=M, choice=choice, **kw)
        except TP.ReversibilityError:
            require(st["found"] and st["found"][-1] > M, "refused although the bound is kept", found=st["found"], **case)
            continue
        except RuntimeError:
            require(rep, "attempts exhausted", **case)
            continue
        finally:
            random.random = real
        require(not st["found"] or max(st["found"]) <= M, "more cuts than the bound were not refused", found=st["found"], **case)
        b = asg_of(Q)
        require(asg_of(P) == a, "current plan modified")
        if Q is not P:
            check(a, b, g, pops, target, eps, True, **case)
            require(st["chosen"] is not None, "a new plan without a cut", **case)
        if st["chosen"] is not None and st["after"] >= 1:
            S = set(st["chosen"].subset)
            e = st["chosen"].edge
            pr = {a[x] for x in S} | {a[x] for x in e}
            U = {x for x in a if a[x] in pr}
            if len(pr) == 2:
                seam = sum(1 for u, v in g.edges if u in U and v in U and ((u in S) != (v in S)))
                want = c < Fraction(st["offered"], M * seam)
                require((Q is not P) == want, "acceptance of the re-split", cuts=st["offered"], seam=seam, accepted=Q is not P, old=a, edges=list(g.edges), subset=S, **case)
        elif st["chosen"] is None:
            require(Q is P, "no cut but a new plan", **case)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())), eps)


def rev_stat(ctx):
    """Acceptance frequency on a 4-cycle and a 4-path (known exactly)."""
    from gerrychain import Partition, Graph
    from gerrychain.proposals import reversible_recom

    rng = ctx.rng
    cyc = rng.random() < 0.5
    M = rng.choice([1, 2, 4])
    g = Graph()
    g.add_edges_from([(0, 1), (1, 2), (2, 3)] + ([(3, 0)] if cyc else []))
    for x in g:
        g.nodes[x]["P"] = 1
    P = Partition(g, {0: 1, 1: 1, 2: 2, 3: 2})
    N = 2000
    k = sum(reversible_recom(P, "P", 2, 0, M=M) is not P for _ in range(N))
    p = 0.5 / (M * (2 if cyc else 1))
    require(abs(k - N * p) <= 6.5 * math.sqrt(N * p * (1 - p)), "acceptance frequency", cycle=cyc, M=M, accepted=k, draws=N, expected=N * p)
    ctx.note(cyc, M)


def spectral(ctx):
    from gerrychain.proposals import spectral_recom

    rng, g, a, parts, pops, P, target, eps = setup(ctx)
    kw = dict(weight_type=rng.choice([None, "random"]), lap_type=rng.choice(["normalized", "regular"]))
    Q = spectral_recom(P, **kw)
    require(asg_of(P) == a, "current plan modified")
    check(a, asg_of(Q), g, pops, target, eps, False, options=kw)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, a.items())), repr(kw))


SCENARIOS = [("recom", recom_, 500), ("reselect", reselect, 300), ("badmethod", badmethod, 400), ("reversible", reversible, 500), ("rev_stat", rev_stat, 12), ("spectral", spectral, 250)]
