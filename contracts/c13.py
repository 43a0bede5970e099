from .lib import *

V = "gerrychain.constraints.validity:"


def pop_plan(E, name, default=False):
    m, d, v = real_map("pop_" + name)
    k = E.bvars([A], "k")[0]
    E.assume(z3.Exists([k], d(k)))
    ref = E.alloc(m)
    return ref, d, v


def total(E, d, v):
    x = E.bvars([A], "x")[0]
    n = E.sum([x], d(x), z3.IntVal(1))
    t = E.sum([x], d(x), v(x))
    return t, n


def ideal(E):
    p0, d0, v0 = pop_plan(E, "initial")
    p1, d1, v1 = pop_plan(E, "other")
    eps = z3.Real("percent")
    c = call(E, V + "within_percent_of_ideal_population", plan("initial", pops=p0), eps, "pops")
    r = truth(E, E.call(c, [plan("other", pops=p1)], {}))
    t, n = total(E, d0, v0)
    k = E.bvars([A], "k")[0]
    lo, hi = (1 - eps) * (t / z3.ToReal(n)), (1 + eps) * (t / z3.ToReal(n))
    E.ensure("accepts exactly when each population is within the fraction of the initial average", r == ForAll([k], Implies(d1(k), And(lo <= v1(k), v1(k) <= hi))))
    r = truth(E, E.call(c, [plan("initial", pops=p0)], {}))
    E.ensure("same on the initial plan itself", r == ForAll([k], Implies(d0(k), And(lo <= v0(k), v0(k) <= hi))))


def ideal_defaults(E):
    p0, d0, v0 = pop_plan(E, "initial")
    c = call(E, V + "within_percent_of_ideal_population", plan("initial", population=p0))
    r = truth(E, E.call(c, [plan("initial", population=p0)], {}))
    t, n = total(E, d0, v0)
    k = E.bvars([A], "k")[0]
    av = t / z3.ToReal(n)
    E.ensure("default: one percent of 'population'", r == ForAll([k], Implies(d0(k), And(z3.Q(99, 100) * av <= v0(k), v0(k) <= z3.Q(101, 100) * av))))


def deviation(E):
    p0, d0, v0 = pop_plan(E, "plan")
    t, n = total(E, d0, v0)
    E.assume(t != 0)
    res = E.as_map(E.content(call(E, V + "deviation_from_ideal", plan("p", pops=p0), "pops")))
    k = E.bvars([A], "k")[0]
    E.ensure("one entry per district", ForAll([k], zbool(E.map_dom(res, k)) == d0(k)))
    av = t / z3.ToReal(n)
    E.ensure("deviation is (population - average)/average", ForAll([k], Implies(d0(k), real(E.map_getd(res, k)) == (v0(k) - av) / av)))


def tolerance(E):
    p0, d0, v0 = pop_plan(E, "plan")
    pc = z3.Real("percentage")
    r = truth(E, call(E, V + "districts_within_tolerance", plan("p", pops=p0), "pops", pc))
    a, b, c = E.bvars([A, A, A], "k")
    frac = z3.If(pc >= 1, pc / 100, pc)
    mx, mn = z3.Reals("mx mn")
    lim = lambda m, s: And(z3.Exists([a], And(d0(a), v0(a) == m)), z3.ForAll([b], Implies(d0(b), (v0(b) <= m) if s else (v0(b) >= m))))
    E.ensure("accepts exactly when max - min <= fraction * min", ForAll([mx, mn], Implies(And(lim(mx, True), lim(mn, False)), r == (mx - mn <= frac * mn))))


def vanishing(E):
    n_dom = z3.Function("parts_dom", A, B)
    mem = z3.Function("in_part", A, A, B)
    hp = z3.Bool("has_parent")
    parts = MapC(A, lambda k: n_dom(k), lambda k: SetC(A, lambda x: mem(k, x), True))
    asg = Opaque("assignment", attrs={"parts": E.alloc(parts)})
    par = Opaque("parent", tags=("Partition",), truth=True)
    p = Opaque("p", tags=("Partition",), attrs={"parent": ChoiceV(hp, par, None), "assignment": asg, "parts": asg.attrs["parts"]})
    r = truth(E, call(E, V + "no_vanishing_districts", p))
    k, x = E.bvars([A, A], "k")
    E.ensure("rejects exactly the flipped plans with an empty district", r == Or(Not(hp), ForAll([k], Implies(n_dom(k), z3.Exists([x], mem(k, x))))))


SPECS = [("within_percent_of_ideal_population", ideal), ("within_percent_of_ideal_population (defaults)", ideal_defaults), ("deviation_from_ideal", deviation),
         ("districts_within_tolerance", tolerance), ("no_vanishing_districts", vanishing)]
META = {}
