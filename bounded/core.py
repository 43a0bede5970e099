"""Bounded executable-contract harness: shared generators, oracles and runner.

Runs the real code of /repo under /opt/venv python.  Every case is a function
of (scenario name, integer case seed), so a failing case can be replayed.
"""
import hashlib, itertools, json, math, os, random, signal, sys, time, traceback, warnings
from fractions import Fraction

warnings.simplefilter("ignore")


class Violation(Exception):
    def __init__(self, msg, **case):
        super().__init__(msg)
        self.msg = msg
        self.case = case


def require(cond, msg, **case):
    if not cond:
        raise Violation(msg, **case)


def same(a, b):
    """Exact equality, NaN equal to NaN, ints/floats/Fractions compared by value."""
    try:
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        return bool(a == b)
    except Exception:
        return False


def close(a, b, tol=1e-9):
    try:
        a = float(a)
        b = float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def require_same_dict(got, want, msg, eq=same, **case):
    require(set(got.keys()) == set(want.keys()), msg + ": keys differ", got=got, want=want, **case)
    for k in want:
        require(eq(got[k], want[k]), msg + ": value differs at %r" % (k,), got=got, want=want, **case)


class Ctx:
    """Per-case context: a seeded rng and a note of the non-trivial shape of the case."""

    def __init__(self, rng, tier):
        self.rng = rng
        self.tier = tier
        self.key = []
        self.count = 0

    def note(self, *xs):
        self.key.append(repr(xs))


# ---------------------------------------------------------------- generators
def labels(rng, n, kind=None):
    kind = kind or rng.choice(["int", "int0", "str", "tuple", "shuffled"])
    if kind == "int":
        out = list(range(1, n + 1))
    elif kind == "int0":
        out = list(range(n))
    elif kind == "str":
        out = ["%s%d" % ("abc"[i % 3], i) for i in range(n)]
    elif kind == "tuple":
        out = [(i // 3, i % 3) for i in range(n)]
    else:
        out = rng.sample(range(-5, 3 * n), n)
    return out


def graph(rng, n=None, connected=True, kind=None, density=None):
    """Random simple graph as a gerrychain Graph with node/edge data."""
    from gerrychain import Graph

    if n is None:
        n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    ls = labels(rng, n, kind)
    order = ls[:]
    rng.shuffle(order)
    g = Graph()
    g.add_nodes_from(order)
    shape = rng.choice(["random", "random", "path", "cycle", "star", "grid", "complete"])
    E = set()

    def add(a, b):
        if a != b and (a, b) not in E and (b, a) not in E:
            E.add((a, b) if rng.random() < 0.5 else (b, a))

    if shape == "path" or shape == "cycle":
        for i in range(n - 1):
            add(ls[i], ls[i + 1])
        if shape == "cycle" and n > 2:
            add(ls[0], ls[-1])
    elif shape == "star":
        for i in range(1, n):
            add(ls[0], ls[i])
    elif shape == "grid":
        w = max(1, int(math.sqrt(n)))
        for i in range(n):
            if i % w:
                add(ls[i], ls[i - 1])
            if i >= w:
                add(ls[i], ls[i - w])
    elif shape == "complete":
        for i in range(n):
            for j in range(i):
                add(ls[i], ls[j])
    else:
        for i in range(1, n):
            if connected or rng.random() < 0.7:
                add(ls[i], ls[rng.randrange(i)])
    if shape in ("random", "path", "star", "grid"):
        d = density if density is not None else rng.choice([0, 0.1, 0.3, 0.6])
        for i in range(n):
            for j in range(i):
                if rng.random() < d:
                    add(ls[i], ls[j])
    es = list(E)
    rng.shuffle(es)
    g.add_edges_from(es)
    if connected:
        import networkx as nx
        assert nx.is_connected(g)
    zero = rng.random() < 0.3
    for x in g.nodes:
        d = g.nodes[x]
        d["pop"] = rng.choice([0, 1, 1, 2, 3, 5, 8, 100]) if zero else rng.randint(1, 20)
        d["pop2"] = rng.randint(-5, 9)
        d["q"] = rng.randint(-16, 64) / 4
        d["county"] = rng.choice("xyz")
        d["loc"] = rng.choice([0, 1, 2, "a"]) if n % 2 else rng.choice(["p", "q", "r", "s"])
        d["A"] = rng.randint(0, 9)
        d["B"] = rng.randint(0, 9)
        d["C"] = rng.choice([0, 0, 1, 4])
        d["area"] = rng.randint(1, 40) / 4
        d["boundary_node"] = rng.random() < 0.5
        if d["boundary_node"]:
            d["boundary_perim"] = rng.randint(0, 12) / 4
    for e in g.edges:
        g.edges[e]["shared_perim"] = rng.randint(0, 20) / 4
    return g


def part_labels(rng, k):
    kind = rng.choice(["int0", "int1", "str", "neg"])
    if kind == "int0":
        return list(range(k))
    if kind == "int1":
        return list(range(1, k + 1))
    if kind == "neg":
        return rng.sample(range(-3, 2 * k), k)
    return ["D%d" % i for i in range(k)]


def plan(rng, g, k=None, contiguous=False, pl=None):
    nodes = list(g.nodes)
    n = len(nodes)
    if k is None:
        k = rng.randint(1, min(n, 5))
    k = min(k, n)
    pl = pl or part_labels(rng, k)
    if not contiguous:
        order = nodes[:]
        rng.shuffle(order)
        a = {}
        for i, x in enumerate(order):
            a[x] = pl[i] if i < k else rng.choice(pl)
    else:
        seeds = rng.sample(nodes, k)
        a = {s: pl[i] for i, s in enumerate(seeds)}
        while len(a) < n:
            front = [(x, y) for x in a for y in g.neighbors(x) if y not in a]
            x, y = rng.choice(sorted(front, key=repr))
            a[y] = a[x]
    items = list(a.items())
    rng.shuffle(items)
    return dict(items)


def flips_for(rng, asg, parts, maxn=None, keep_nonempty=False):
    """Random flips to existing labels (may include no-ops)."""
    nodes = list(asg)
    m = rng.choice([1, 1, 1, 2, 2, 3, max(1, len(nodes) // 2), len(nodes)])
    m = min(m, len(nodes))
    if maxn:
        m = min(m, maxn)
    out = {}
    cur = dict(asg)
    for x in rng.sample(nodes, m):
        t = rng.choice(list(parts))
        if keep_nonempty:
            cnt = sum(1 for v in cur.values() if v == cur[x])
            if cnt <= 1 and t != cur[x]:
                continue
        out[x] = t
        cur[x] = t
    return out


def clean_defaults():
    """Known finding (see known_findings.json): constructors write into the class-wide
    default_updaters; restore them so that cases stay independent."""
    from gerrychain import Partition, GeographicPartition
    from gerrychain.grid import Grid

    for c in (Partition, GeographicPartition, Grid):
        if c not in clean_defaults.saved:
            clean_defaults.saved[c] = dict(c.default_updaters)
        else:
            c.default_updaters.clear()
            c.default_updaters.update(clean_defaults.saved[c])


clean_defaults.saved = {}


# ---------------------------------------------------------------- oracles
def adj_of(g):
    return {x: set(g.neighbors(x)) - {x} for x in g.nodes}


def connected_set(adj, nodes):
    nodes = set(nodes)
    if not nodes:
        return True
    seen = {next(iter(nodes))}
    todo = list(seen)
    while todo:
        x = todo.pop()
        for y in adj[x]:
            if y in nodes and y not in seen:
                seen.add(y)
                todo.append(y)
    return seen == nodes


def components(adj, nodes):
    nodes = set(nodes)
    out = []
    while nodes:
        seen = {next(iter(nodes))}
        todo = list(seen)
        while todo:
            x = todo.pop()
            for y in adj[x]:
                if y in nodes and y not in seen:
                    seen.add(y)
                    todo.append(y)
        out.append(frozenset(seen))
        nodes -= seen
    return out


def cut_edges_of(g, asg):
    return {tuple(sorted((u, v))) for u, v in g.edges if asg[u] != asg[v]}


def asg_of(p):
    return dict(p.assignment.mapping)


# ---------------------------------------------------------------- runner
class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def describe(x, depth=0):
    try:
        s = repr(x)
    except Exception as e:
        s = "<unprintable %s>" % type(x)
    return s if len(s) < 2000 else s[:2000] + "..."


def run_case(pid, name, fn, seed, tier, limit=60):
    """Returns (status, key, evaluations, info)."""
    rng = random.Random("%s/%s/%d" % (pid, name, seed))
    random.seed(rng.randrange(1 << 30))
    try:
        import numpy
        numpy.random.seed(rng.randrange(1 << 30))
    except Exception:
        pass
    ctx = Ctx(rng, tier)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        clean_defaults()
        fn(ctx)
        st, info = "ok", None
    except Violation as v:
        st, info = "violation", {"message": v.msg, "case": {k: describe(x) for k, x in v.case.items()}}
    except CaseTimeout:
        st, info = "violation", {"message": "case did not terminate within %d s (typical: well below 1 s)" % limit, "case": {}}
    except Exception as e:
        st, info = "violation", {
            "message": "unexpected %s: %s" % (type(e).__name__, e),
            "case": {"traceback": traceback.format_exc()[-3000:]},
        }
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    key = hashlib.sha1("|".join(ctx.key).encode()).hexdigest() if ctx.key else None
    return st, key, max(1, ctx.count), info
