"""Generators and oracles shared by the tree-related modules."""
from .core import *


def nx_tree(rng, n, weights=False):
    import networkx as nx

    ls = labels(rng, n)
    order = ls[:]
    rng.shuffle(order)
    t = nx.Graph()
    t.add_nodes_from(order)
    shape = rng.choice(["random", "random", "path", "star", "caterpillar", "binary"])
    es = []
    for i in range(1, n):
        j = {"random": rng.randrange(i), "path": i - 1, "star": 0, "caterpillar": (i - 1) if i % 2 else max(0, i - 2), "binary": (i - 1) // 2}[shape]
        es.append((ls[i], ls[j]) if rng.random() < 0.5 else (ls[j], ls[i]))
    rng.shuffle(es)
    t.add_edges_from(es)
    if weights:
        for e in t.edges:
            if rng.random() < 0.8:
                t.edges[e]["random_weight"] = rng.randint(0, 64) / 64
    return t


def sides(t, e):
    """The two node sets left after removing edge e of tree t."""
    adj = {x: set(t.neighbors(x)) for x in t.nodes}
    u, v = e
    seen, todo = {u}, [u]
    while todo:
        x = todo.pop()
        for y in adj[x]:
            if (x, y) in ((u, v), (v, u)) or y in seen:
                continue
            seen.add(y)
            todo.append(y)
    return frozenset(seen), frozenset(t.nodes) - seen


def within(p, target, eps):
    return abs(Fraction(p) - Fraction(target)) <= Fraction(eps) * Fraction(target)


def strictly_within(p, target, eps):
    return abs(Fraction(p) - Fraction(target)) < Fraction(eps) * Fraction(target)


def pops_of(rng, nodes, lo=0, hi=12):
    m = rng.choice(["ones", "small", "skew", "zeros"])
    out = {}
    for x in nodes:
        out[x] = {"ones": 1, "small": rng.randint(1, hi), "skew": rng.choice([1, 1, 2, 40]), "zeros": rng.choice([0, 0, 1, 2])}[m]
    return out


EPS = [0, 0.125, 0.25, 0.5, 0.75, 1, 2]
