from .core import *

RULE = ("random graphs (2-12 nodes, int/str/tuple labels), random plans with 1-5 labels incl. falsy ones, "
        "flip histories up to 12 steps incl. no-op, multi-node and district-emptying flips; a case is non-trivial "
        "when at least one flip changes a node; distinct by (graph, plan, flips)")


def check(p, g, want, **case):
    asg = p.assignment
    nodes = set(g.nodes)
    require(set(asg.mapping) == nodes, "mapping keys are not the graph's nodes", want=want, got=asg.mapping, **case)
    require(dict(asg.mapping) == want, "assignment differs", want=want, got=dict(asg.mapping), **case)
    seen = {}
    for part, ns in p.parts.items():
        for x in ns:
            require(x not in seen, "node in two districts", node=x, want=want, **case)
            seen[x] = part
    require(seen == want, "district sets are not the inverse of the mapping", parts=dict(p.parts), want=want, **case)
    require(len(asg) == len(nodes), "len(assignment)", want=want, **case)
    require(set(iter(asg)) == nodes and set(asg.keys()) == nodes, "assignment keys", want=want, **case)
    require(dict(asg.items()) == want, "assignment items", want=want, **case)
    require(sorted(map(repr, asg.values())) == sorted(map(repr, want.values())), "assignment values", want=want, **case)
    for x in nodes:
        require(asg[x] == want[x], "assignment[x]", node=x, want=want, **case)
        require(x in p.parts[asg[x]], "x not in its district", node=x, want=want, **case)
    require(len(p) == len(p.parts), "len(partition)", **case)
    require(asg.to_dict() == want, "to_dict", want=want, **case)


def history(ctx):
    from gerrychain import Partition, GeographicPartition, Graph
    import networkx as nx

    rng = ctx.rng
    g = graph(rng, connected=rng.random() < 0.8)
    a = plan(rng, g)
    how = rng.choice(["dict", "attr", "assignment", "nx", "frozen", "from_dict", "geo"])
    cls = GeographicPartition if how == "geo" else Partition
    upd = {} if rng.random() < 0.7 else None
    if how == "attr":
        for x in g.nodes:
            g.nodes[x]["D"] = a[x]
        p = cls(g, "D", upd)
    elif how == "assignment":
        p0 = Partition(g, a, upd)
        p = cls(g, p0.assignment, upd)
        check(p0, g, a)
    elif how == "nx":
        h = nx.Graph(g)
        p = cls(h, a, upd)
    elif how == "frozen":
        from gerrychain.graph import FrozenGraph
        p = cls(FrozenGraph(g), a, upd)
    elif how == "from_dict":
        from gerrychain.partition.assignment import Assignment
        p = cls(g, Assignment.from_dict(a), upd)
    else:
        p = cls(g, dict(a), upd, use_default_updaters=rng.random() < 0.5 or how == "geo")
    want = dict(a)
    check(p, g, want, how=how)
    hist = [(p, dict(want))]
    steps = rng.choice([1, 2, 4, 12])
    log = []
    for i in range(steps):
        src, sw = hist[-1] if rng.random() < 0.8 else rng.choice(hist)
        fl = flips_for(rng, sw, src.parts)
        log.append(fl)
        q = src.flip(dict(fl))
        qw = {**sw, **fl}
        check(q, g, qw, how=how, initial=a, flips=log)
        hist.append((q, qw))
        ctx.count += 1
        if qw != sw:
            ctx.note(sorted(map(repr, g.edges)), a, fl)
    for q, qw in hist:
        check(q, g, qw, how=how, initial=a, flips=log, when="rechecked at the end")


def reject(ctx):
    from gerrychain import Partition
    from gerrychain.partition.assignment import Assignment

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    kind = rng.choice(["missing", "extra", "swap", "overlap", "notfrozen", "notype", "nograph"])
    ctx.note(kind, sorted(map(repr, a.items())))
    bad = dict(a)
    try:
        if kind == "missing":
            del bad[rng.choice(list(bad))]
            Partition(g, bad)
        elif kind == "extra":
            bad["__extra__"] = list(a.values())[0]
            Partition(g, bad)
        elif kind == "swap":
            x = rng.choice(list(bad))
            bad["__other__"] = bad.pop(x)
            Partition(g, bad)
        elif kind == "overlap":
            x = rng.choice(list(a))
            parts = {}
            for k, v in a.items():
                parts.setdefault(v, set()).add(k)
            parts["__p__"] = {x}
            Assignment({k: frozenset(v) for k, v in parts.items()})
        elif kind == "notfrozen":
            parts = {}
            for k, v in a.items():
                parts.setdefault(v, set()).add(k)
            Assignment(parts)
        elif kind == "notype":
            Partition(g, 5)
        else:
            Partition({1: 2}, a)
    except (KeyError, ValueError, TypeError):
        ctx.count += 1
        return
    raise Violation("invalid assignment accepted", kind=kind, assignment=bad, nodes=list(g.nodes))


SCENARIOS = [("history", history, 1500), ("reject", reject, 400)]
