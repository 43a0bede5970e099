from .lib import *
from .c04 import cut_spec

CS = "gerrychain.updaters.county_splits:"


class Counties:
    def __init__(self, E):
        self.E = E
        self.g = G(E)
        self.cty = self.g.attr("COUNTY", A)
        self.p = P(E, self.g)
        self.info = imp(E, CS + "CountyInfo")
        en = imp(E, CS + "CountySplit")
        self.NOT, self.NEW, self.OLD = [E.getattr(en, x) for x in ("NOT_SPLIT", "NEW_SPLIT", "OLD_SPLIT")]

    def county(self, k, ok=lambda n: True):
        n = self.E.bvars([A], "n")[0]
        return Exists([n], And(self.g.N(n), self.cty(n) == k, ok(n)))

    def nodes(self, k, ok=lambda n: True):
        return BagC([Iter([A], lambda bs: (And(self.g.N(bs[0]), self.cty(bs[0]) == k, ok(bs[0])), bs[0]), distinct=True)])

    def seen(self, asg, k, ok=lambda n: True):
        n = self.E.bvars([A], "n")[0]
        return lambda d: Exists([n], And(self.g.N(n), self.cty(n) == k, asg(n) == d, ok(n)))

    def split(self, asg, k, ok=lambda n: True):
        """the county's nodes lie in more than one district"""
        a, b = self.E.bvars([A, A], "n")
        N = self.g.N
        return Exists([a, b], And(N(a), N(b), self.cty(a) == k, self.cty(b) == k, asg(a) != asg(b), ok(a), ok(b)))


def status(E, v, m):
    """formula: v is the enum member m"""
    if isinstance(v, ChoiceV):
        return z3.If(v.c, status(E, v.a, m), status(E, v.b, m))
    if isinstance(v, EnumMember):
        return z3.BoolVal(v.cls is m.cls and v.name == m.name)
    raise Unsupported("split status")


def at(E, m, k):
    v = E.map_getd(m, k)
    return v


def report(E, c, m, k, asg, expect, ok=lambda n: True, tag=""):
    """obligations on the report entry of county k"""
    out = []
    d, n = E.bvars([A, A], "r")
    return [(tag + "lists exactly the graph's counties", ForAll([k], zbool(E.map_dom(m, k)) == c.county(k, ok))),
            (tag + "districts are exactly those of its nodes", ForAll([k, d], Implies(c.county(k, ok), zbool(field_set(E, m, k, 2).mem(d)) == c.seen(asg, k, ok)(d)))),
            (tag + "nodes are exactly the county's nodes", ForAll([k, n], Implies(c.county(k, ok), zbool(field_set(E, m, k, 1).mem(n)) == And(c.g.N(n), c.cty(n) == k, ok(n))))),
            (tag + "no node is listed twice", ForAll([k], Implies(c.county(k, ok), E.length(field(E, m, k, 1)) == E.length(c.nodes(k, ok))))),
            (tag + "status", ForAll([k], Implies(c.county(k, ok), expect(k, field(E, m, k, 0)))))]


def field(E, m, k, i):
    v = at(E, m, k)
    return fieldv(E, v, i)


def fieldv(E, v, i):
    if isinstance(v, ChoiceV):
        return E.ite(v.c, fieldv(E, v.a, i), fieldv(E, v.b, i))
    if isinstance(v, Tup):
        x = v.items[i]
        return E.content(x) if isinstance(x, (Ref, PathRef)) else x
    raise Unsupported("report entry")


def field_set(E, m, k, i):
    v = field(E, m, k, i)
    return E.to_set(v)


class NodeLoop:
    """after the nodes in `done`: the report restricted to them"""

    def __init__(self, c):
        self.c = c

    def where(self, E, fr):
        return E.getvar("county_dict", fr)

    def havoc(self, E, fr, done):
        c = self.c
        ref = self.where(E, fr)
        E.heap[ref.loc] = MapC(A, lambda k: c.county(k, done), lambda k: Tup([ChoiceV(c.split(c.p.asg, k, done), c.OLD, c.NOT), c.nodes(k, done), SetC(A, c.seen(c.p.asg, k, done))], c.info))

    def inv(self, E, fr, done):
        c = self.c
        m = E.as_map(E.content(self.where(E, fr)))
        k = E.bvars([A], "k")[0]
        if m.ksort is None:
            return [("nothing reported yet", ForAll([k], Not(c.county(k, done))))]
        exp = lambda k, v: And(status(E, v, c.OLD) == c.split(c.p.asg, k, done), status(E, v, c.NOT) == Not(c.split(c.p.asg, k, done)))
        return report(E, c, m, k, c.p.asg, exp, done)


def first(E):
    c = Counties(E)
    E.invariants[(CS + "compute_county_splits", 0)] = NodeLoop(c)
    r = call(E, CS + "compute_county_splits", c.p.ref, "COUNTY", "splits")
    m = E.as_map(E.content(r))
    k = E.bvars([A], "k")[0]
    exp = lambda k, v: And(status(E, v, c.OLD) == c.split(c.p.asg, k), status(E, v, c.NOT) == Not(c.split(c.p.asg, k)))
    for n, f in report(E, c, m, k, c.p.asg, exp):
        E.ensure(n, f)


def step(E):
    c = Counties(E)
    p = c.p
    st = z3.Function("parent_is_new", A, B)
    val = lambda k: Tup([ChoiceV(c.split(p.asg, k), ChoiceV(st(k), c.NEW, c.OLD), c.NOT), c.nodes(k), SetC(A, c.seen(p.asg, k))], c.info)
    p.put("splits", MapC(A, lambda k: c.county(k), val))
    f = Flip(E, p)
    s = Snapshot(E, p.ref)
    child = flip_child(E, c.g, p, f)
    r = E.call(call(E, CS + "county_splits", "splits", "COUNTY"), [child], {})
    m = E.as_map(E.content(r))
    k = E.bvars([A], "k")[0]
    sp, old = lambda k: c.split(f.fn, k), lambda k: c.split(p.asg, k)
    exp = lambda k, v: And(status(E, v, c.NOT) == Not(sp(k)), status(E, v, c.OLD) == And(sp(k), old(k)), status(E, v, c.NEW) == And(sp(k), Not(old(k))))
    for n, fm in report(E, c, m, k, f.fn, exp):
        E.ensure(n, fm)
    s.check("the parent's report is unchanged", grow=(p.cache.loc,))


def constraint(E):
    """no_new_splits-style constraint"""
    c = Counties(E)
    st = z3.Function("status", A, I)
    k = E.bvars([A], "k")[0]
    E.assume(z3.ForAll([k], And(st(k) >= 0, st(k) <= 2)))
    mp = MapC(A, lambda k: c.county(k), lambda k: Tup([ChoiceV(st(k) == 1, c.NEW, ChoiceV(st(k) == 2, c.OLD, c.NOT)), c.nodes(k), SetC(A, c.seen(c.p.asg, k))], c.info))
    c.p.put("splits", mp)
    con = call(E, "gerrychain.constraints.validity:refuse_new_splits", "splits")
    r = truth(E, E.call(con, [c.p.ref], {}))
    E.ensure("accepts exactly when no county is NEW_SPLIT", r == ForAll([k], Implies(c.county(k), st(k) != 1)))


def regions(E):
    g = G(E)
    p = P(E, g)
    reg = g.attr("REGION", A)
    p.put("cut_edges", SetC(PAIR, cut_spec(g, p.asg)))
    p.register("cut_edges")
    r = E.call(call(E, CS + "tally_region_splits", E.alloc(ListC(["REGION"]))), [p.ref], {})
    v = E.getitem(r, "REGION")
    x = E.bvars([A], "r")[0]
    a, b = E.bvars([A, A], "e")
    cnt = E.sum([x], Exists([a, b], And(g.adj(a, b), reg(a) == x, reg(b) == x, p.asg(a) != p.asg(b))), z3.IntVal(1))
    E.ensure("the number of regions containing a cut edge", num(v) == cnt)


SPECS = [("county report of a first plan", first), ("county report after a flip", step), ("refuse_new_splits", constraint), ("tally_region_splits", regions)]
META = {}
