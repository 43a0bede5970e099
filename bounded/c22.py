from .core import *

RULE = "random share vectors on a dyadic grid around the threshold (none, some or all districts at or above it, equality included), all five scores through the class and through Gingleator.score with either column kind; distinct by inputs"

SC = ["num_opportunity_dists", "reward_partial_dist", "reward_next_highest_close", "penalize_maximum_over", "penalize_avg_over"]


def want(nm, v, t):
    num = sum(1 for x in v if x >= t)
    below = [x for x in v if x < t]
    opp = [x for x in v if x >= t]
    if nm == "num_opportunity_dists":
        return num
    if nm == "reward_partial_dist":
        return num + (max(below) if below else 0)
    if nm == "reward_next_highest_close":
        if not below or max(below) < t - 0.1:
            return num
        return num + (max(below) - t + 0.1) * 10
    if num == 0:
        return 0
    if nm == "penalize_maximum_over":
        return num + (1 - max(v)) / (1 - t)
    return num + (1 - sum(opp) / len(opp)) / (1 - t)


def shares(rng):
    t = rng.choice([0.5, 0.5, 0.25, 0.375, 0.75])
    k = rng.randint(1, 7)
    mode = rng.choice(["mix", "mix", "above", "below", "near"])
    vs = []
    for _ in range(k):
        if mode == "mix":
            v = rng.randint(0, 64) / 64
        elif mode == "above":
            v = t + rng.randint(0, int((1 - t) * 64)) / 64
        elif mode == "below":
            v = rng.randint(0, int(t * 64) - 1) / 64
        else:
            v = min(1, max(0, t + rng.randint(-9, 4) / 64))
        vs.append(v)
    return t, vs


def direct(ctx):
    from gerrychain.optimization import Gingleator

    rng = ctx.rng
    t, vs = shares(rng)
    ks = part_labels(rng, len(vs))
    part = {"m": dict(zip(ks, vs))}
    for nm in SC:
        ctx.count += 1
        got = getattr(Gingleator, nm)(part, "m", t)
        require(close(got, want(nm, vs, t), 1e-12), nm, shares=vs, threshold=t, got=got, want=want(nm, vs, t))
    ctx.note(t, vs)


def cls(ctx):
    from gerrychain import Partition, updaters
    from gerrychain.optimization import Gingleator
    from gerrychain.proposals import propose_random_flip

    rng = ctx.rng
    g = graph(rng, n=rng.choice([3, 4, 6, 8]))
    for x in g.nodes:
        g.nodes[x]["T"] = rng.randint(1, 9)
        g.nodes[x]["M"] = rng.randint(0, g.nodes[x]["T"])
    a = plan(rng, g)
    t = rng.choice([0.5, 0.25, 0.375])
    mode = rng.choice(["pop", "pop", "perc", "both", "none"])
    tot = rng.choice(["TOTPOP", "tp"])
    ups = {tot: updaters.Tally("T", alias=tot), "mp": updaters.Tally("M", alias="mp")}
    tab = {}
    ups["pc"] = lambda p: {k: ((7 * len(p.parts[k])) % 8) / 8 for k in p.parts}
    P = Partition(g, a, updaters=ups)
    nm = rng.choice(SC)
    kw = dict(score_function=getattr(Gingleator, nm)) if nm != SC[0] or rng.random() < 0.5 else {}
    if mode == "none":
        try:
            Gingleator(propose_random_flip, [], P, threshold=t)
        except ValueError:
            ctx.note("none")
            return
        require(False, "no columns given but no ValueError")
    if mode in ("pop", "both"):
        kw["minority_pop_col"] = "mp"
    if mode in ("perc", "both"):
        kw["minority_perc_col"] = "pc"
    if tot != "TOTPOP" or rng.random() < 0.5:
        kw["total_pop_col"] = tot
    if t != 0.5 or rng.random() < 0.5:
        kw["threshold"] = t
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        G = Gingleator(propose_random_flip, [], P, **kw)
    cur = P
    for _ in range(3):
        ctx.count += 1
        b = asg_of(cur)
        if mode == "pop":
            vs = [sum(g.nodes[x]["M"] for x in b if b[x] == k) / sum(g.nodes[x]["T"] for x in b if b[x] == k) for k in cur.parts]
        else:
            vs = list(cur["pc"].values())
        got = G.score(cur)
        require(close(got, want(nm, vs, t), 1e-9), "score %s (%s columns)" % (nm, mode), shares=vs, threshold=t, got=got, want=want(nm, vs, t), assignment=b)
        fl = flips_for(rng, b, cur.parts, keep_nonempty=True)
        cur = cur.flip(fl) if fl else cur
    require(G._maximize, "Gingleator maximizes")
    ctx.note(mode, nm, t, sorted(map(repr, a.items())))


SCENARIOS = [("direct", direct, 3000), ("cls", cls, 500)]
