from .core import *

RULE = "random 1-4 party elections (dict, list, external data), integer votes incl. zeros and ties, flip histories; exact comparison; distinct by (votes, plan, flips)"


def check(res, g, w, parts, votes, parties, **case):
    cnt = {p: {d: sum(votes[p][x] for x in g.nodes if w[x] == d) for d in parts} for p in parties}
    tot = {d: sum(cnt[p][d] for p in parties) for d in parts}
    case = dict(case, counts=cnt, assignment=w)
    require_same_dict(res.totals, tot, "district totals", **case)
    require(set(res.totals_for_party) == set(parties), "parties", **case)
    for p in parties:
        require_same_dict(res.totals_for_party[p], cnt[p], "votes of %s" % p, **case)
        pc = {d: (cnt[p][d] / tot[d] if tot[d] > 0 else float("nan")) for d in parts}
        require_same_dict(res.percents_for_party[p], pc, "percents of %s" % p, **case)
        require(list(res.counts(p)) == [cnt[p][d] for d in parts], "counts tuple", party=p, got=res.counts(p), **case)
        require(list(res.votes(p)) == [cnt[p][d] for d in parts], "votes tuple", party=p, **case)
        require(all(same(x, y) for x, y in zip(res.percents(p), [pc[d] for d in parts])) and len(res.percents(p)) == len(parts),
                "percents tuple", party=p, got=res.percents(p), **case)
        won = {}
        for d in parts:
            require(res.count(p, d) == cnt[p][d], "count(party, region)", party=p, region=d, got=res.count(p, d), **case)
            require(same(res.percent(p, d), pc[d]), "percent(party, region)", party=p, region=d, **case)
            won[d] = all(cnt[p][d] > cnt[o][d] for o in parties if o != p)
            require(bool(res.won(p, d)) == won[d], "won", party=p, region=d, got=res.won(p, d), **case)
        require(res.seats(p) == sum(won.values()), "seats", party=p, got=res.seats(p), **case)
        require(res.wins(p) == sum(won.values()), "wins", party=p, got=res.wins(p), **case)
        require(res.count(p) == sum(cnt[p].values()), "statewide count", party=p, got=res.count(p), **case)
        if sum(tot.values()) > 0:
            require(same(res.percent(p), sum(cnt[p].values()) / sum(tot.values())), "statewide percent", party=p, got=res.percent(p), **case)
    require(res.total_votes() == sum(tot.values()), "total votes", got=res.total_votes(), **case)


def history(ctx):
    from gerrychain import Partition
    from gerrychain.updaters import Election

    rng = ctx.rng
    g = graph(rng)
    cols = rng.sample(["A", "B", "C", "pop"], rng.choice([1, 2, 2, 2, 3, 4]))
    if rng.random() < 0.3:
        for x in g.nodes:
            g.nodes[x]["A"] = g.nodes[x]["B"] = rng.choice([0, 1, 2])
    form = rng.choice(["dict", "list", "data"])
    if form == "list":
        parties = list(cols)
        e = Election("E", list(cols))
    elif form == "dict":
        parties = ["P%d" % i for i in range(len(cols))]
        e = Election("E", dict(zip(parties, cols)))
    else:
        parties = ["P%d" % i for i in range(len(cols))]
        e = Election("E", {p: {x: g.nodes[x][c] for x in g.nodes} for p, c in zip(parties, cols)})
    votes = {p: {x: g.nodes[x][c] for x in g.nodes} for p, c in zip(parties, cols)}
    if rng.random() < 0.3:
        al = "el"
        e = Election("E", e.parties_to_columns if form != "list" else list(cols), alias="el")
    else:
        al = "E"
    a = plan(rng, g)
    p = Partition(g, a, {al: e})
    w = dict(a)
    log = []
    kept = []
    cut = rng.random() < 0.3
    for i in range(rng.choice([1, 2, 4, 8]) + 1):
        if i:
            fl = flips_for(rng, w, p.parts, keep_nonempty=True)
            if not fl:
                continue
            log.append(fl)
            q = p.flip(fl)
            if cut:
                p.parent = None
            p, w = q, {**w, **fl}
        if rng.random() < 0.8 or i == 0:
            r = p[al]
            check(r, g, w, list(p.parts), votes, parties, initial=a, flips=log)
            kept.append((r, dict(w), list(p.parts)))
            ctx.count += 1
            ctx.note(votes, w)
    for r, ww, parts in kept:
        check(r, g, ww, parts, votes, parties, initial=a, flips=log, when="rechecked at the end")


SCENARIOS = [("history", history, 1500)]
