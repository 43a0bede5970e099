from .core import *

RULE = "scripted constraint verdicts, value vectors around the bounds (incl. equality and zero), call histories of 1-6 calls on self-configuring bounds; distinct by inputs"


def validator(ctx):
    from gerrychain.constraints import Validator
    import numpy

    rng = ctx.rng
    n = rng.randint(0, 5)
    calls = []
    vs = [rng.choice([True, True, True, False, numpy.bool_(True), numpy.bool_(False), "x"]) for _ in range(n)]
    bad_vals = [None, 0, 1, "yes", [], numpy.int64(1), 1.0]
    vs = [rng.choice(bad_vals) if isinstance(v, str) and v == "x" else v for v in vs]

    def mk(i):
        def c(p):
            calls.append(i)
            require(p == "P", "constraint not called with the plan")
            return vs[i]
        return c

    V = Validator([mk(i) for i in range(n)])
    want, stop = True, n
    for i, v in enumerate(vs):
        if not isinstance(v, (bool, numpy.bool_)):
            want, stop = TypeError, i + 1
            break
        if not v:
            want, stop = False, i + 1
            break
    try:
        got = V("P")
    except TypeError:
        got = TypeError
    require(got is want or (want is not TypeError and got is not TypeError and bool(got) == want and isinstance(got, (bool, numpy.bool_))),
            "validator verdict", verdicts=vs, got=got, want=want)
    require(calls == list(range(stop)), "validator did not stop at the first false", verdicts=vs, calls=calls)
    ctx.note(list(map(repr, vs)))


def bounds(ctx):
    from gerrychain.constraints import Bounds, UpperBound, LowerBound

    rng = ctx.rng
    lo, hi = sorted([rng.randint(-8, 8) / 2, rng.randint(-8, 8) / 2])
    vals = [rng.choice([lo, hi, rng.randint(-10, 10) / 2, lo - 0.5, hi + 0.5, (lo + hi) / 2]) for _ in range(rng.randint(1, 5))]
    if rng.random() < 0.5:
        vals = [v for v in vals if lo <= v <= hi] or [lo]
    arg = object()

    def f(p):
        require(p is arg, "bound function not called with the plan")
        return {i: v for i, v in enumerate(vals)}.values()

    got = Bounds(f, (lo, hi))(arg)
    require(bool(got) == all(lo <= v <= hi for v in vals), "Bounds", vals=vals, bounds=(lo, hi), got=got)
    v = vals[0]
    require(bool(UpperBound(lambda p: v, hi)(arg)) == (v <= hi), "UpperBound", value=v, bound=hi)
    require(bool(LowerBound(lambda p: v, lo)(arg)) == (v >= lo), "LowerBound", value=v, bound=lo)
    ctx.note(vals, lo, hi)


def selfconf(ctx):
    from gerrychain.constraints import SelfConfiguringUpperBound, SelfConfiguringLowerBound, WithinPercentRangeOfBounds

    rng = ctx.rng
    first = rng.choice([0, 0.0, 1, 4, -4, -2, 0.5, 8])
    seq = [first] + [rng.choice([0, first, first + 1, first - 1, first + 0.25, first - 0.25, first * 2, first / 2, -first, first + 3, first - 3]) for _ in range(rng.randint(1, 6))]
    u = SelfConfiguringUpperBound(lambda p: p)
    require([bool(u(v)) for v in seq] == [v <= first for v in seq], "self-configuring upper bound", values=seq)
    eps = rng.choice([0, 0.25, 1, 4, None, 0.5])
    l = SelfConfiguringLowerBound(lambda p: p) if eps is None else SelfConfiguringLowerBound(lambda p: p, epsilon=eps)
    b = first - (0.05 if eps is None else eps)
    require([bool(l(v)) for v in seq] == [v >= b for v in seq], "self-configuring lower bound", values=seq, epsilon=eps)
    f = abs(first)
    pct = rng.choice([0, 25, 50, 100, 12.5, 200])
    s2 = [f] + [rng.choice([f, f * (1 + pct / 100), f * (1 - pct / 100), f * (1 + pct / 100) + 0.25, f * (1 - pct / 100) - 0.25, 2 * f, 0, f / 2]) for _ in range(rng.randint(1, 6))]
    r = WithinPercentRangeOfBounds(lambda p: p, pct)
    want = [f * (1 - pct / 100) <= v <= f * (1 + pct / 100) for v in s2]
    require([bool(r(v)) for v in s2] == want, "percent range", values=s2, percent=pct, want=want)
    ctx.note(seq, eps, s2, pct)


SCENARIOS = [("validator", validator, 1500), ("bounds", bounds, 2000), ("selfconf", selfconf, 2000)]
