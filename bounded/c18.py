from .core import *
from .treegen import *
from functools import partial

RULE = "random connected graphs of 3-10 nodes, 2-6 labels, integer populations, dyadic tolerances; the real bipartition methods and a brute-force conforming method that returns arbitrary allowed subsets; exhaustive prime-factor table; distinct by (graph, populations, labels, options)"


def setup(ctx):
    rng = ctx.rng
    n = rng.choice([3, 4, 5, 6, 7, 8, 9, 10])
    g = graph(rng, n=n, density=rng.choice([None, 0.5]))
    k = rng.randint(2, max(2, min(6, n // 2 + 1)))
    m = rng.choice(["ones", "ones", "small", "skew"])
    pops = {x: {"ones": 1, "small": rng.randint(1, 3), "skew": rng.choice([1, 2, 5])}[m] for x in g.nodes}
    for x in g.nodes:
        g.nodes[x]["P"] = pops[x]
    tot = sum(pops.values())
    eps = rng.choice([0.125, 0.25, 0.5, 0.5, 0.75, 0.875])
    return rng, g, k, pops, tot, eps


class NoCut(Exception):
    pass


def brute(rng):
    def method(graph, pop_col, pop_target, epsilon, node_repeats=1, one_sided_cut=False, **kw):
        nodes = list(graph.nodes)
        adj = adj_of(graph)
        pop = {x: graph.nodes[x][pop_col] for x in nodes}
        tot = sum(pop.values())
        ok = []
        for m in range(1, 1 << len(nodes)):
            S = {nodes[i] for i in range(len(nodes)) if m >> i & 1}
            if len(S) == len(nodes):
                continue
            p = sum(pop[x] for x in S)
            if abs(p - pop_target) > epsilon * pop_target:
                continue
            if not one_sided_cut and abs(tot - p - pop_target) > epsilon * pop_target:
                continue
            if connected_set(adj, S) and connected_set(adj, set(nodes) - S):
                ok.append(S)
        if not ok:
            raise NoCut()
        mode = rng.choice(["any", "min", "max"])
        if mode == "any":
            return rng.choice(ok)
        return (min if mode == "min" else max)(ok, key=lambda S: (sum(pop[x] for x in S), sorted(map(repr, S))))

    return method


def check(g, flips, parts, pops, target, eps, **case):
    case = dict(case, edges=list(g.edges), populations=pops, parts=list(parts), target=target, epsilon=eps, flips=flips)
    require(set(flips) == set(g.nodes), "nodes covered", **case)
    require(set(flips.values()) == set(parts), "labels used", **case)
    adj = adj_of(g)
    for p in parts:
        S = [x for x in flips if flips[x] == p]
        require(connected_set(adj, S), "district %r not connected" % (p,), **case)
        q = sum(pops[x] for x in S)
        require(abs(q - target) <= eps * target + 1e-9 * max(1, target), "district %r out of tolerance (%s)" % (p, q), **case)


def tree_part(ctx):
    from gerrychain import tree as T, Partition

    rng, g, k, pops, tot, eps = setup(ctx)
    parts = part_labels(rng, k)
    target = tot / k
    which = rng.choice(["tree", "random", "brute", "brute", "brute"])
    if which == "brute":
        meth = brute(rng)
    elif which == "tree":
        meth = partial(T.bipartition_tree, max_attempts=20)
    else:
        meth = partial(T.bipartition_tree_random, max_attempts=20)
    errs = (RuntimeError, T.BalanceError, T.PopulationBalanceError, NoCut, IndexError)
    fn = rng.choice(["tree", "seed", "seed", "epsilon", "class"])
    kw = {}
    try:
        if fn == "tree":
            fl = T.recursive_tree_part(g, parts, target, "P", eps, method=meth)
        elif fn == "epsilon":
            parts, target = parts[:2], tot / 2
            fl = T.epsilon_tree_bipartition(g, parts, target, "P", eps, method=meth)
        elif fn == "seed":
            o = rng.choice(["none", "n", "ceil"])
            if o == "n":
                kw["n"] = rng.choice([2, 3, 4])
            elif o == "ceil":
                kw["ceil"] = rng.choice([2, 3, 4])
            fl = T.recursive_seed_part(g, parts, target, "P", eps, method=meth, **kw)
        else:
            parts = list(range(k))
            inner = rng.choice([T.recursive_tree_part, T.recursive_seed_part])
            p = Partition.from_random_assignment(g, k, eps, "P", method=partial(inner, method=meth))
            fl = asg_of(p)
    except errs:
        ctx.note("failed", fn)
        return
    check(g, fl, parts, pops, target, eps, constructor=fn, method=which, options=kw)
    ctx.note(sorted(map(repr, g.edges)), sorted(map(repr, pops.items())), parts, eps, fn, which, repr(kw))


def refusal(ctx):
    """Methods that return wrong pieces or None never lead to an out-of-tolerance plan."""
    from gerrychain import tree as T

    rng, g, k, pops, tot, eps = setup(ctx)
    parts = part_labels(rng, k)
    target = tot / k

    def meth(graph, **kw):
        ns = list(graph.nodes)
        return set(rng.sample(ns, rng.randint(0, len(ns)))) if rng.random() < 0.95 else None

    for _ in range(5):
        ctx.count += 1
        try:
            fl = T.recursive_tree_part(g, parts, target, "P", eps, method=meth)
        except (T.BalanceError, T.PopulationBalanceError, ZeroDivisionError):
            continue
        require(set(fl) == set(g.nodes), "nodes covered", flips=fl)
        for p in parts:
            q = sum(pops[x] for x in fl if fl[x] == p)
            require(abs(q - target) <= eps * target + 1e-9 * max(1, target), "district out of tolerance", flips=fl, part=p, pop=q, target=target, epsilon=eps)
    ctx.note(sorted(map(repr, g.edges)), parts, eps)


def primes(ctx):
    from gerrychain.tree import get_max_prime_factor_less_than as f

    i = ctx.rng.randrange(40)
    for n in range(-2 + i * 15, 13 + i * 15):
        pf = [p for p in range(2, n + 1) if n % p == 0 and all(p % q for q in range(2, p))] if n > 1 else []
        for c in list(range(-1, 40)) + [n - 1, n, n + 1]:
            ctx.count += 1
            w = [p for p in pf if p <= c]
            want = max(w) if w else None
            got = f(n, c)
            require(got == want, "largest prime factor not above the ceiling", n=n, ceil=c, got=got, want=want)
    ctx.note(i)


SCENARIOS = [("tree_part", tree_part, 1200), ("refusal", refusal, 300), ("primes", primes, 80)]
