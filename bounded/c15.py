from .core import *
from .treegen import *

RULE = "random labelled trees of 3-14 nodes, integer populations (incl. zeros), targets from half the total to off-balance values, dyadic tolerances, every possible root; oracle removes each edge; distinct by (tree, populations, target, tolerance)"


def fns():
    from gerrychain.tree import find_balanced_edge_cuts_memoization, find_balanced_edge_cuts_contraction

    return find_balanced_edge_cuts_memoization, find_balanced_edge_cuts_contraction


def cutsearch(ctx):
    from gerrychain.tree import PopulatedGraph

    rng = ctx.rng
    n = rng.choice([3, 3, 4, 5, 6, 7, 8, 10, 14])
    t = nx_tree(rng, n, weights=rng.random() < 0.5)
    pops = pops_of(rng, t.nodes)
    tot = sum(pops.values())
    target = rng.choice([tot / 2, tot / 2, tot / 4, tot / 2 + 0.5, max(1, tot // 3), 1, tot])
    if target <= 0:
        target = 1
    eps = rng.choice(EPS)
    one = rng.random() < 0.5
    memo, contr = fns()
    before = (sorted(map(repr, t.nodes)), sorted(repr(e) for e in t.edges(data=True)))
    case = dict(edges=list(t.edges), populations=pops, target=target, epsilon=eps, one_sided=one)
    internal = [x for x in t.nodes if t.degree(x) > 1]
    roots = internal if len(internal) < 4 else rng.sample(internal, 3)
    for root in roots:
        offered = []

        def choice(seq):
            seq = list(seq)
            offered.append(seq)
            return root if root in seq else random.choice(seq)

        for f in (memo, contr):
            ctx.count += 1
            h = PopulatedGraph(t, pops, target, eps)
            cuts = f(h, one_sided_cut=one, choice=choice) if one or rng.random() < 0.5 else f(h, choice=choice)
            c = dict(case, root=root, algorithm=f.__name__, cuts=cuts)
            got = {}
            for cut in cuts:
                e = frozenset(cut.edge)
                require(t.has_edge(*cut.edge), "cut edge is not an edge of the tree", **c)
                require(e not in got, "edge reported twice", **c)
                got[e] = cut
                A, B = sides(t, cut.edge)
                require(frozenset(cut.subset) in (A, B), "subset is not one side of its edge", **c)
                w = t.edges[cut.edge].get("random_weight")
                require(cut.weight == w if w is not None else 0 <= cut.weight < 1, "weight of the cut", **c)
            for e in t.edges:
                A, B = sides(t, e)
                pa, pb = sum(pops[x] for x in A), sum(pops[x] for x in B)
                fe = frozenset(e)
                if not one:
                    want = within(pa, target, eps) and within(pb, target, eps)
                    require((fe in got) == want, "balanced edge missing or unbalanced edge reported", edge=e, sides=(pa, pb), **c)
                elif fe in got:
                    ps = sum(pops[x] for x in got[fe].subset)
                    require(within(ps, target, eps), "one-sided cut out of tolerance", edge=e, pop=ps, **c)
                elif f is memo:
                    require(not within(pa, target, eps) and not within(pb, target, eps), "one-sided search missed an edge", edge=e, sides=(pa, pb), **c)
                else:
                    below = B if root in A else A
                    require(not strictly_within(sum(pops[x] for x in below), target, eps), "one-sided contraction search missed an edge", edge=e, **c)
    require(before == (sorted(map(repr, t.nodes)), sorted(repr(e) for e in t.edges(data=True))), "the tree was modified", **case)
    require(all(len(s) > 0 for s in offered), "root offered")
    ctx.note(sorted(map(repr, t.edges)), sorted(map(repr, pops.items())), target, eps, one)


SCENARIOS = [("cutsearch", cutsearch, 2500)]
