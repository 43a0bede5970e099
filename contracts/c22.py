from .lib import *

G = "gerrychain.optimization.gingleator:Gingleator"


def setup(E):
    m, d, v = real_map("share")
    k = E.bvars([A], "k")[0]
    th = z3.Real("threshold")
    p = plan("p", perc=E.alloc(m))
    x = E.bvars([A], "x")[0]
    n = E.sum([x], And(d(x), v(x) >= th), z3.IntVal(1))
    return p, d, v, th, n


def score(E, name, p, th):
    return real(E.call(E.getattr(imp(E, G), name), [p], dict(minority_perc_col="perc", threshold=th)))


def is_max(E, d, v, cond, m):
    a, b = E.bvars([A, A], "m")
    return And(z3.Exists([a], And(d(a), cond(a), v(a) == m)), z3.ForAll([b], Implies(And(d(b), cond(b)), v(b) <= m)))


def num(E):
    p, d, v, th, n = setup(E)
    E.ensure("number of districts at or above the threshold", score(E, "num_opportunity_dists", p, th) == z3.ToReal(n))


def partial_dist(E):
    p, d, v, th, n = setup(E)
    r = score(E, "reward_partial_dist", p, th)
    m = E.bvars([R], "m")[0]
    a = E.bvars([A], "a")[0]
    below = lambda a: v(a) < th
    E.ensure("count plus the highest share below the threshold", ForAll([m], Implies(is_max(E, d, v, below, m), r == z3.ToReal(n) + m)))
    E.ensure("count alone when no share is below it", Implies(Not(z3.Exists([a], And(d(a), below(a)))), r == z3.ToReal(n)))


def close(E):
    p, d, v, th, n = setup(E)
    r = score(E, "reward_next_highest_close", p, th)
    m = E.bvars([R], "m")[0]
    a = E.bvars([A], "a")[0]
    below = lambda a: v(a) < th
    E.ensure("count plus the scaled closeness within 0.1", ForAll([m], Implies(is_max(E, d, v, below, m), r == z3.ToReal(n) + z3.If(m >= th - z3.Q(1, 10), (m - th + z3.Q(1, 10)) * 10, z3.RealVal(0)))))
    E.ensure("count alone when no share is below it", Implies(Not(z3.Exists([a], And(d(a), below(a)))), r == z3.ToReal(n)))


def max_over(E):
    p, d, v, th, n = setup(E)
    E.assume(th != 1)
    r = score(E, "penalize_maximum_over", p, th)
    m = E.bvars([R], "m")[0]
    opp = lambda a: v(a) >= th
    a = E.bvars([A], "a")[0]
    E.ensure("count plus the scaled distance of the maximum from 1", ForAll([m], Implies(is_max(E, d, v, opp, m), r == z3.ToReal(n) + (1 - m) / (1 - th))))
    E.ensure("0 without opportunity districts", Implies(Not(z3.Exists([a], And(d(a), opp(a)))), r == 0))


def avg_over(E):
    p, d, v, th, n = setup(E)
    E.assume(th != 1)
    r = score(E, "penalize_avg_over", p, th)
    x, a = E.bvars([A, A], "a")
    tot = E.sum([x], And(d(x), v(x) >= th), v(x))
    opp = lambda a: v(a) >= th
    some = z3.Exists([a], And(d(a), opp(a)))
    E.ensure("count plus the scaled distance of the mean from 1", Implies(some, r == z3.ToReal(n) + (1 - tot / z3.ToReal(n)) / (1 - th)))
    E.ensure("0 without opportunity districts", Implies(Not(some), r == 0))


def init_(E, perc=None):
    """the constructor: share updater, score and parent call"""
    seen = {}

    def parent_init(E, self, proposal, constraints, initial_state, optimization_metric, maximize=True):
        seen.update(score=optimization_metric, state=initial_state, maximize=maximize, proposal=proposal, constraints=constraints)
    E.contracts["gerrychain.optimization.optimization:SingleMetricOptimizer.__init__"] = parent_init
    mp, d, mv = real_map("minority")
    tp, _, tv = real_map("total", d)
    k = E.bvars([A], "k")[0]
    E.assume(ForAll([k], Implies(d(k), tv(k) != 0)))
    share, _, sv = real_map("sharecol", d)
    ups = E.alloc(RecC({"minor": PyFn(lambda E, p: E.alloc(mp)), "TOT": PyFn(lambda E, p: E.alloc(tp)), "perc": PyFn(lambda E, p: E.alloc(share))}))
    state = Opaque("initial", tags=("Partition",))
    state.attrs["updaters"] = ups
    state.attrs["parts"] = E.alloc(MapC(A, lambda k: d(k), lambda k: SetC(A, lambda x: z3.Function("in_part", A, A, B)(k, x), True)))
    state.attrs["getitem"] = lambda E, name: E.call(E.getitem(ups, name), [state], {})
    th = z3.Real("threshold")
    prop, cons = Opaque("proposal"), Opaque("constraints")
    kw = dict(threshold=th, total_pop_col="TOT")
    if perc in ("perc", "both"):
        kw["minority_perc_col"] = "perc"
    if perc in (None, "both"):
        kw["minority_pop_col"] = "minor"
    before = dict(E.content(ups).d)
    call(E, G, prop, cons, state, **kw)
    after = E.content(ups).d
    for n, f in before.items():
        E.ensure("updater %s is kept" % n, z3.BoolVal(after.get(n) is f))
    E.ensure("the optimizer gets the caller's state, proposal and constraints, and maximizes", z3.BoolVal(seen.get("state") is state and seen.get("maximize") is True and seen.get("proposal") is prop and seen.get("constraints") is cons))
    r = real(E.call(seen["score"], [state], {}))
    x = E.bvars([A], "x")[0]
    val = (lambda x: sv(x)) if perc else (lambda x: mv(x) / tv(x))
    E.ensure("default score counts the districts whose share reaches the threshold", r == z3.ToReal(E.sum([x], And(d(x), val(x) >= th), z3.IntVal(1))))


def init_none(E):
    exc, _ = raises(E, lambda: call(E, G, Opaque("proposal"), Opaque("constraints"), Opaque("state"), threshold=z3.Real("th")))
    E.ensure("neither column given: ValueError", z3.BoolVal(exc is not None and exc_name(exc) == "ValueError"))


SPECS = [("num_opportunity_dists", num), ("reward_partial_dist", partial_dist), ("reward_next_highest_close", close), ("penalize_maximum_over", max_over), ("penalize_avg_over", avg_over),
         ("__init__ with population columns", lambda E: init_(E, None)), ("__init__ with a share column", lambda E: init_(E, "perc")), ("__init__ with both", lambda E: init_(E, "both")), ("__init__ without columns", init_none)]
META = {}
