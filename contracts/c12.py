from .lib import *

BND = "gerrychain.constraints.bounds:"


def values_fn(vals):
    return PyFn(lambda E, p: BagC(E.map_iter(vals, "values")))


def bounds(E):
    """Bounds: true exactly when every value lies in [lower, upper]"""
    vals, d, v = real_map("val")
    k = E.bvars([A], "k")[0]
    E.assume(z3.Exists([k], d(k)))
    lo, hi = z3.Reals("lo hi")
    o = call(E, BND + "Bounds", values_fn(vals), Tup([lo, hi]))
    r = truth(E, E.call(o, [plan("p")], {}))
    E.ensure("result is 'all values within the inclusive bounds'", r == ForAll([k], Implies(d(k), And(lo <= v(k), v(k) <= hi))))


def updown(E):
    f, b = z3.Reals("f b")
    fn = PyFn(lambda E, p: f)
    r = truth(E, E.call(call(E, BND + "UpperBound", fn, b), [plan("p")], {}))
    E.ensure("UpperBound is f <= bound", r == (f <= b))
    r = truth(E, E.call(call(E, BND + "LowerBound", fn, b), [plan("p")], {}))
    E.ensure("LowerBound is f >= bound", r == (f >= b))


def plans(E, n=3):
    """plans with arbitrary scores; the score is a function of the plan"""
    ps = [Opaque("p%d" % i, tags=("Partition",), attrs={"score": z3.Real("score%d" % i)}) for i in range(n)]
    return ps, [p.attrs["score"] for p in ps], PyFn(lambda E, p: p.attrs["score"])


def self_upper(E):
    """first call fixes the bound at f(p0); the invariant 'bound = f(p0)' survives every further call"""
    (p0, p1, p2), (s0, s1, s2), fn = plans(E)
    o = call(E, BND + "SelfConfiguringUpperBound", fn)
    E.ensure("first call accepts", truth(E, E.call(o, [p0], {})))
    frame(E, o, lambda: (E.call(o, [p1], {})), lambda r: E.ensure("later calls decide f(p) <= f(first)", truth(E, r) == (s1 <= s0)))
    E.ensure("later calls decide f(p) <= f(first) (again)", truth(E, E.call(o, [p2], {})) == (s2 <= s0))


def self_lower(E):
    (p0, p1, p2), (s0, s1, s2), fn = plans(E)
    eps = z3.Real("eps")
    E.assume(eps >= 0)
    o = call(E, BND + "SelfConfiguringLowerBound", fn, eps)
    E.ensure("first call accepts", truth(E, E.call(o, [p0], {})))
    frame(E, o, lambda: (E.call(o, [p1], {})), lambda r: E.ensure("later calls decide f(p) >= f(first) - epsilon", truth(E, r) == (s1 >= s0 - eps)))
    E.ensure("later calls decide f(p) >= f(first) - epsilon (again)", truth(E, E.call(o, [p2], {})) == (s2 >= s0 - eps))
    o = call(E, BND + "SelfConfiguringLowerBound", fn)
    E.call(o, [p0], {})
    E.ensure("default epsilon is 0.05", truth(E, E.call(o, [p1], {})) == (s1 >= s0 - z3.Q(5, 100)))


def within_range(E):
    (p0, p1, p2), (s0, s1, s2), fn = plans(E)
    pc = z3.Real("percent")
    o = call(E, BND + "WithinPercentRangeOfBounds", fn, pc)
    E.ensure("first call accepts", truth(E, E.call(o, [p0], {})))
    q = lambda s: And(s0 * (1 - pc / 100) <= s, s <= s0 * (1 + pc / 100))
    frame(E, o, lambda: (E.call(o, [p1], {})), lambda r: E.ensure("later calls decide lower <= f(p) <= upper", truth(E, r) == q(s1)))
    E.ensure("later calls decide lower <= f(p) <= upper (again)", truth(E, E.call(o, [p2], {})) == q(s2))


def frame(E, o, thunk, post):
    """the call leaves every field of the configured object as it was (so the state after
    the first call is invariant under every later call, by induction)"""
    before = dict(E.content(o).fields)
    r = thunk()
    after = E.content(o).fields
    for k, v in before.items():
        w = after.get(k)
        same = v is w or zbool(E.equal(v, w))
        E.ensure("field %s does not move after the first call" % k, same if not same is True else z3.BoolVal(True))
    post(r)


def validator(E):
    """constraints is any finite sequence; kind(i) is what the i-th one answers"""
    n = z3.Int("n")
    E.assume(n >= 0)
    kind = z3.Function("kind", I, I)
    number = z3.Function("number", I, I)
    i = z3.Int("i")
    E.assume(ForAll([i], And(0 <= kind(i), kind(i) <= 7)))

    def constraint(i):
        def f(E, p):
            if E.branch(kind(i) <= 1):
                return kind(i) == 0
            if E.branch(kind(i) <= 3):
                return Opaque("numpy bool", tags=("bool_", "closed"), truth=kind(i) == 2)
            if E.branch(kind(i) == 4):
                return None
            if E.branch(kind(i) == 5):
                return number(i)
            return Opaque("not a bool", tags=("closed",), truth=kind(i) == 6)
        return PyFn(f)
    cs = E.alloc(SeqC(n, constraint))
    V = call(E, "gerrychain.constraints.validity:Validator", cs)
    exc, r = raises(E, lambda: E.call(V, [plan("p")], {}))
    true = lambda i: Or(kind(i) == 0, kind(i) == 2)
    false = lambda i: Or(kind(i) == 1, kind(i) == 3)
    inr = lambda i: And(0 <= i, i < n)
    firstbad = lambda i: And(inr(i), Not(true(i)), ForAll([z3.Int("j")], Implies(And(0 <= z3.Int("j"), z3.Int("j") < i), true(z3.Int("j")))))
    if exc is None:
        t = truth(E, r)
        E.ensure("accepts exactly when every constraint is true", t == ForAll([i], Implies(inr(i), true(i))))
        E.ensure("rejection means the first constraint that is not true is false", Implies(Not(t), Exists([i], And(firstbad(i), false(i)))))
    else:
        E.ensure("only TypeError is raised", z3.BoolVal(exc_name(exc) == "TypeError"))
        E.ensure("TypeError means the first constraint that is not true is no boolean", Exists([i], And(firstbad(i), kind(i) >= 4)))
    E.ensure("the constraints are left as they were", z3.BoolVal(E.getattr(V, "constraints") is cs))


SPECS = [("Bounds.__call__", bounds), ("UpperBound/LowerBound.__call__", updown), ("SelfConfiguringUpperBound", self_upper),
         ("SelfConfiguringLowerBound", self_lower), ("WithinPercentRangeOfBounds", within_range), ("Validator.__call__", validator)]
META = {"level": "proof", "trusted": ["the user's value functions are functions of the plan"], "bounded": []}
