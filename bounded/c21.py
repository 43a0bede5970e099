from .core import *

RULE = "optimizer runs (all run types, with and without progress bar, maximize/minimize) over flip proposals on small graphs with arbitrary score tables, tied scores included; oracle recomputes scores of everything yielded; distinct by (graph, scores, run parameters)"


def make(ctx):
    from gerrychain import Partition
    from gerrychain.optimization import SingleMetricOptimizer
    import zlib

    rng = ctx.rng
    g = graph(rng, n=rng.choice([3, 4, 5, 6]))
    nodes = list(g.nodes)
    k = rng.randint(2, 3)
    a = plan(rng, g, k=k, pl=list(range(k)))
    P0 = Partition(g, a)
    a0 = asg_of(P0)
    salt, m = rng.randrange(1000), rng.choice([2, 3, 5, 50])

    def score_a(b):
        return zlib.crc32(repr((salt, [b[x] for x in nodes])).encode()) % m - m // 2

    score = lambda p: score_a(asg_of(p))
    log = []

    def prop(p):
        x = rng.choice(nodes)
        q = p.flip({x: rng.choice(range(k))})
        log.append((p, q))
        return q

    cons = rng.choice([lambda p: True, [lambda p: True], lambda p: asg_of(p) == a0 or score(p) % 7 != 6])
    if callable(cons) and not cons(P0):
        cons = [lambda p: True]
    mx = rng.random() < 0.5
    o = SingleMetricOptimizer(prop, cons, P0, score, maximize=mx) if (rng.random() < 0.7 or not mx) else SingleMetricOptimizer(prop, cons, P0, score)
    return rng, o, P0, score, mx, log


def runs(ctx):
    import contextlib, io
    rng, o, P0, score, mx, log = make(ctx)
    better = max if mx else min
    for rep in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["short", "short", "tilted_short", "var", "tilted", "anneal"])
        pb = rng.random() < 0.25
        bl, nb, n = rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 25)
        acc = rng.choice([lambda p: True, lambda p: rng.random() < 0.5])
        del log[:]
        if kind == "short":
            it = o.short_bursts(bl, nb, accept=acc, with_progress_bar=pb) if rng.random() < 0.8 else o.short_bursts(bl, nb, with_progress_bar=pb)
            want = bl * nb
        elif kind == "tilted_short":
            it, want = o.tilted_short_bursts(bl, nb, rng.choice([0, 0.3, 1]), with_progress_bar=pb), bl * nb
        elif kind == "var":
            it, want = o.variable_length_short_bursts(n, rng.choice([1, 2, 3]), accept=acc, with_progress_bar=pb), n
        elif kind == "tilted":
            it, want = o.tilted_run(n, rng.choice([0, 0.3, 1]), with_progress_bar=pb), n
        else:
            it, want = o.simulated_annealing(n, rng.choice([lambda s: 0, lambda s: 1, lambda s: (s % 3) / 2]), beta_magnitude=rng.choice([0.5, 1, 3]), with_progress_bar=pb), n
        with contextlib.redirect_stderr(io.StringIO()):
            ys = list(it)
        ctx.count += 1
        sc = [score(p) for p in ys]
        case = dict(kind=kind, burst_length=bl, num_bursts=nb, num_steps=n, progress_bar=pb, maximize=mx, scores=sc, initial=score(P0), best_score=o.best_score)
        require(len(ys) == want, "number of plans yielded: %d instead of %d" % (len(ys), want), **case)
        require(ys[0] is P0, "first plan", **case)
        best = better([score(P0)] + sc)
        require(o.best_score == best, "best score", want=best, **case)
        require(any(o.best_part is p for p in [P0] + ys), "best plan is none of the plans seen", **case)
        require(score(o.best_part) == best, "best plan does not have the best score", **case)
        frm = {}
        for p, q in log:
            frm.setdefault(id(q), p)
        if kind in ("short", "tilted_short"):
            for b in range(1, nb):
                require(sc[b * bl] == better([score(P0)] + sc[: b * bl]), "burst %d does not start from the best plan so far" % b, **case)
                require(any(ys[b * bl] is p for p in [P0] + ys[: b * bl]), "burst starts from an unseen plan", **case)
        for i in range(1, want):
            start = kind in ("short", "tilted_short") and i % bl == 0
            if not start and kind != "var":
                require(ys[i] is ys[i - 1] or frm.get(id(ys[i])) is ys[i - 1], "plan not reached from the previous one", index=i, **case)
            elif kind == "var":
                sofar = better([score(P0)] + sc[:i])
                require(ys[i] is ys[i - 1] or frm.get(id(ys[i])) is ys[i - 1] or (sc[i] == sofar and any(ys[i] is p for p in ys[:i])), "plan neither next nor a restart from the best plan", index=i, **case)
        ctx.note(kind, bl, nb, n, pb, mx, sc)


def early(ctx):
    """Stopping early: everything consumed before the last yielded plan is accounted for."""
    rng, o, P0, score, mx, log = make(ctx)
    better = max if mx else min
    n = rng.randint(2, 12)
    it = o.short_bursts(rng.randint(2, 5), 20)
    ys = [next(it) for _ in range(n)]
    seen = [score(P0)] + [score(p) for p in ys[:-1]]
    full = seen + [score(ys[-1])]
    require(o.best_score in (better(seen), better(full)) and score(o.best_part) == o.best_score, "best score after an early stop", scores=full, got=o.best_score)
    ctx.note(full, mx)


SCENARIOS = [("runs", runs, 1200), ("early", early, 200)]
