from .core import *

RULE = "plans with random cut-edge counts and flips, dyadic draws around the acceptance probability (random.random replaced by a constant; a statistical check covers other ways of drawing); beta schedules compared at every step of three cycles with their definition; distinct by inputs"


class fixed_random:
    def __init__(self, c):
        self.c = c
        self.n = 0

    def __enter__(self):
        self.real = random.random
        def f():
            self.n += 1
            return self.c
        random.random = f
        return self

    def __exit__(self, *a):
        random.random = self.real


def cutacc(ctx):
    from gerrychain import Partition, accept

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g, k=rng.randint(2, min(5, len(g.nodes))))
    P = Partition(g, a)
    fl = flips_for(rng, a, set(a.values()))
    Q = P.flip(fl)
    b = asg_of(Q)
    old, new = len(cut_edges_of(g, a)), len(cut_edges_of(g, b))
    case = dict(edges=list(g.edges), assignment=a, flips=fl, old=old, new=new)
    require(accept.always_accept(Q) is True and accept.always_accept(P) is True, "always_accept")
    for i in range(8):
        ctx.count += 1
        c = rng.randint(0, 255) / 256
        with fixed_random(c):
            require(bool(accept.cut_edge_accept(P)) is True, "plan without parent not accepted", draw=c, **case)
        if new == 0:
            continue
        p = min(Fraction(1), Fraction(old, new))
        # draws placed just around the acceptance probability
        if i < 4:
            c = float(p) + rng.choice([-1, 1]) / 4096
        if not 0 <= c < 1 or c == p:
            continue
        with fixed_random(c) as fr:
            got = accept.cut_edge_accept(Q)
        if fr.n:
            require(bool(got) == (c < p), "cut-edge acceptance", draw=c, got=got, **case)
        else:
            k = sum(bool(accept.cut_edge_accept(Q)) for _ in range(600))
            require(abs(k - 600 * p) <= 6.5 * math.sqrt(600 * max(p * (1 - p), 0.0001)) + 0.5, "cut-edge acceptance rate", rate=k / 600, **case)
    ctx.note(old, new, sorted(map(repr, fl.items())))


def opt(ctx):
    from gerrychain import Partition
    from gerrychain.optimization import SingleMetricOptimizer

    rng = ctx.rng
    g = graph(rng, n=4)
    nodes = list(g.nodes)
    a = {x: i % 2 for i, x in enumerate(nodes)}
    s0 = rng.choice([0, 1, -2, 0.5, 8])
    s1 = s0 + rng.choice([0, 0, 0.25, -0.25, 1, -1, 2, -2, 3, -1000, 1000, 5000])
    mx = rng.random() < 0.5
    P0 = Partition(g, a, updaters={"n": lambda p: 0 if p.parent is None else p.parent["n"] + 1})
    P0["n"]

    def prop(p):
        q = p.flip({nodes[0]: 1 - p.assignment.mapping[nodes[0]]})
        q["n"]
        return q

    score = lambda p: s0 if p["n"] == 0 else s1
    calls = []
    kind = rng.choice(["tilted", "tilted_bursts", "annealing", "annealing"])
    loss = (s0 - s1) if mx else (s1 - s0)
    beta, mag = rng.choice([0, 0.25, 0.5, 1]), rng.choice([0.5, 1, 2])
    p = rng.choice([0, 0.125, 0.5, 1])
    import math as m
    if kind.startswith("tilted"):
        prob = 1 if loss <= 0 else p
    else:
        e = -beta * mag * loss
        prob = 1 if e >= 0 else m.exp(e)

    def once(c):
        o = SingleMetricOptimizer(prop, lambda q: True, P0, score, maximize=mx)
        if kind == "tilted":
            it = o.tilted_run(2, p)
        elif kind == "tilted_bursts":
            it = o.tilted_short_bursts(2, 1, p)
        else:
            def bf(step):
                calls.append(step)
                return beta
            it = o.simulated_annealing(2, bf, beta_magnitude=mag)
        out = list(it)
        require(len(out) == 2 and out[0] is P0, "run")
        return out[1] is not P0

    case = dict(kind=kind, score0=s0, score1=s1, maximize=mx, p=p, beta=beta, magnitude=mag, probability=prob)
    for i in range(5):
        ctx.count += 1
        c = rng.randint(0, 255) / 256 if i < 3 else min(0.999, max(0, prob + rng.choice([-1, 1]) / 512))
        if abs(c - prob) < 1e-6:
            continue
        with fixed_random(c) as fr:
            got = once(c)
        if fr.n or prob in (0, 1):
            require(got == (c < prob), "acceptance", draw=c, accepted=got, **case)
        else:
            k = sum(once(0) for _ in range(400))
            require(abs(k - 400 * prob) <= 6.5 * math.sqrt(400 * prob * (1 - prob)) + 0.5, "acceptance rate", rate=k / 400, **case)
    require(all(s == 1 for s in calls), "beta taken at the wrong step", steps=calls, **case)
    ctx.note(kind, s0, s1, mx, p, beta, mag)


def annealing_steps(ctx):
    """The schedule is read at the plan's step number along the chain."""
    from gerrychain import Partition
    from gerrychain.optimization import SingleMetricOptimizer

    rng = ctx.rng
    g = graph(rng, n=5)
    nodes = list(g.nodes)
    P0 = Partition(g, {x: i % 2 for i, x in enumerate(nodes)})
    log = []
    pat = [rng.choice([0, 1]) for _ in range(6)]

    def prop(p):
        x = rng.choice(nodes)
        return p.flip({x: 1 - p.assignment.mapping[x]})

    accs = []

    def bf(step):
        log.append(step)
        return 0

    o = SingleMetricOptimizer(prop, lambda q: True, P0, lambda p: 0, maximize=rng.random() < 0.5)
    n = rng.randint(2, 7)
    out = list(o.simulated_annealing(n, bf))
    require(log == list(range(1, n)), "beta steps", steps=log, n=n)
    require([p["step"] for p in out] == list(range(n)), "step numbers")
    ctx.note(n, pat)


def logit(x):
    return (math.log(x / (1 - x)) + 5) / 10


def clamp(v):
    return 0 if v < 0 else 1 if v > 1 else v


def betas(ctx):
    from gerrychain.optimization import SingleMetricOptimizer as S

    rng = ctx.rng
    h, d, c = rng.randint(0, 7), rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]), rng.randint(0, 7)
    if h + c == 0:
        c = 1
    if rng.random() < 0.04:
        d = rng.choice([150, 151, 200, 333, 500, 1000])

    def chk(nm, f, L, want):
        prev = None
        for s in range(3 * L):
            ctx.count += 1
            v = f(s)
            t = s % L
            require(close(v, want(t), 1e-12), nm, step=s, got=v, want=want(t), hot=h, cooldown=d, cold=c)
            require(0 <= v <= 1, nm + " outside [0,1]", step=s, got=v)

    chk("jumpcycle", S.jumpcycle_beta_function(h, c), h + c, lambda t: 1 if t >= h else 0)

    def ramp(t, fn):
        return 0 if t < h or (t == h and d) else fn((t - h) / d) if t < h + d else 1

    def updown(t, fn):
        L = h + 2 * d + c
        if t < h + d:
            return ramp(t, fn)
        return 1 if t <= L - d else 1 - fn((t - (L - d)) / d)

    lin = lambda x: x
    lg = lambda x: clamp(logit(x)) if 0 < x < 1 else (0 if x <= 0 else 1)
    chk("linear_jumpcycle", S.linear_jumpcycle_beta_function(h, d, c), h + d + c, lambda t: ramp(t, lin))
    chk("linearcycle", S.linearcycle_beta_function(h, d, c), h + 2 * d + c, lambda t: updown(t, lin))
    chk("logit_jumpcycle", S.logit_jumpcycle_beta_function(h, d, c), h + d + c, lambda t: ramp(t, lg))
    chk("logitcycle", S.logitcycle_beta_function(h, d, c), h + 2 * d + c, lambda t: updown(t, lg))
    ctx.note(h, d, c)


SCENARIOS = [("cutacc", cutacc, 600), ("opt", opt, 800), ("annealing_steps", annealing_steps, 100), ("betas", betas, 400)]
