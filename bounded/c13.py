from .core import *

RULE = "populations chosen on, just inside and just outside the (dyadic, exactly representable) limits; distinct by population vectors and tolerance"


class Plan(dict):
    parent = None
    flips = None


def ideal(ctx):
    from gerrychain.constraints import within_percent_of_ideal_population, deviation_from_ideal, districts_within_tolerance

    rng = ctx.rng
    k = rng.choice([1, 2, 4, 8])
    key = rng.choice(["population", "TOTPOP"])
    base = rng.choice([64, 128, 1024])
    first = [base] * k
    for _ in range(k):
        i, j = rng.randrange(k), rng.randrange(k)
        d = rng.randint(0, base // 2)
        first[i] += d
        first[j] -= d
    pct = rng.choice([0, 0.125, 0.25, 0.5, 1])
    P0 = Plan({key: {("d", i): v for i, v in enumerate(first)}})
    c = within_percent_of_ideal_population(P0, pct, key) if key != "population" or rng.random() < 0.5 else within_percent_of_ideal_population(P0, percent=pct)
    idl = Fraction(sum(first), k)
    lo, hi = idl * (1 - Fraction(pct)), idl * (1 + Fraction(pct))
    for _ in range(4):
        kk = rng.choice([k, k, max(1, k - 1), k + 1])
        pops = [rng.choice([lo, hi, idl, lo - 1, hi + 1, lo + 1, hi - 1, Fraction(rng.randint(0, 2 * base))]) for _ in range(kk)]
        if rng.random() < 0.5:
            pops = [min(max(p, lo), hi) for p in pops]
        P = Plan({key: {i: float(v) for i, v in enumerate(pops)}})
        want = all(lo <= v <= hi for v in pops)
        require(bool(c(P)) == want, "percent of ideal population", initial=first, percent=pct, pops=list(map(float, pops)), want=want)
        ctx.count += 1
        m = Fraction(sum(pops), len(pops))
        if m != 0:
            got = deviation_from_ideal(P, key) if key != "population" else deviation_from_ideal(P)
            require_same_dict(got, {i: float((v - m) / m) for i, v in enumerate(pops)}, "deviation from ideal", eq=close, pops=list(map(float, pops)))
    require(bool(c(P0)) == all(lo <= v <= hi for v in first), "initial plan verdict", initial=first, percent=pct)
    ctx.note(first, pct)


def tolerance(ctx):
    from gerrychain.constraints import districts_within_tolerance

    rng = ctx.rng
    mn = rng.choice([0, 8, 16, 64])
    pc = rng.choice([0, 0.25, 0.5, 0.125, 25, 50, 0.75, 1, 100])
    frac = Fraction(pc) if pc < 1 else Fraction(pc) / 100
    if pc == 1:
        frac = Fraction(1, 100)
        mn = rng.choice([0, 100 * 64])
    lim = mn + frac * mn
    vals = [mn] + [rng.choice([lim, mn, lim + 1, lim - 1 if lim > mn else lim, (mn + lim) / 2]) for _ in range(rng.randint(0, 4))]
    if pc == 1:  # 1 * 0.01 is not exactly representable: stay clear of the limit
        vals = [v if abs(v - lim) > Fraction(1, 2) or mn == 0 else v + 1 for v in vals]
    rng.shuffle(vals)
    key = rng.choice(["population", "x"])
    P = Plan({key: {i: float(v) for i, v in enumerate(vals)}})
    want = max(vals) - min(vals) <= frac * min(vals)
    got = districts_within_tolerance(P, key, pc) if rng.random() < 0.7 or key != "population" else districts_within_tolerance(P, percentage=pc)
    require(bool(got) == want, "districts within tolerance", values=list(map(float, vals)), percentage=pc, got=got, want=want)
    ctx.note(vals, pc)


def vanish(ctx):
    from gerrychain import Partition
    from gerrychain.constraints import no_vanishing_districts

    rng = ctx.rng
    g = graph(rng)
    a = plan(rng, g)
    p = Partition(g, a)
    require(bool(no_vanishing_districts(p)) is True, "initial plan refused")
    w = dict(a)
    for i in range(rng.randint(1, 5)):
        fl = flips_for(rng, w, p.parts)
        p, w = p.flip(fl), {**w, **fl}
        want = set(w.values()) == set(a.values())
        require(bool(no_vanishing_districts(p)) == want, "no vanishing districts", assignment=w, labels=list(p.parts))
        ctx.count += 1
    ctx.note(a, w)


SCENARIOS = [("ideal", ideal, 1500), ("tolerance", tolerance, 1500), ("vanish", vanish, 800)]
