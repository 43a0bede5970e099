from .lib import *

CE = "gerrychain.updaters.cut_edges:"


def cut_spec(g, asg):
    return lambda e: And(g.adj(p0(e), p1(e)), spair(p0(e), p1(e)) == e, asg(p0(e)) != asg(p1(e)))


def as_set(E, v, sort=PAIR):
    return E.to_set(v)


def exact(E, name, v, spec):
    s = as_set(E, v)
    e = E.bvars([PAIR], "e")[0]
    if s.sort is None:
        E.ensure(name, ForAll([e], Not(spec(e))))
    else:
        E.ensure(name, ForAll([e], zbool(s.mem(e)) == spec(e)))


def initial(E):
    g = G(E)
    p = P(E, g)
    exact(E, "exactly the edges between districts, as sorted pairs", call(E, CE + "cut_edges", p.ref), cut_spec(g, p.asg))


def step_plan(E, by_part=False):
    """a plan whose results are right, and a flip of it"""
    g = G(E)
    p = P(E, g)
    p.register("cut_edges")
    f = Flip(E, p)
    p.put("cut_edges", SetC(PAIR, cut_spec(g, p.asg)))
    if by_part:
        p.register("cut_edges_by_part", imp(E, CE + "cut_edges_by_part"))
        h = z3.Function("has_entry", A, B)
        k, e = E.bvars([A, PAIR], "h")
        E.assume(z3.ForAll([e], Implies(cut_spec(g, p.asg)(e), And(h(p.asg(p0(e))), h(p.asg(p1(e)))))))
        p.put("cut_edges_by_part", MapC(A, lambda k: h(k), lambda k: SetC(PAIR, part_spec(g, p.asg, k)), PyFn(lambda E: E.alloc(SetC(None, lambda y: z3.BoolVal(False))))))
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    return g, p, f, child


def step(E):
    g, p, f, child = step_plan(E)
    exact(E, "exactly the edges between the new districts, as sorted pairs", E.getitem(child, "cut_edges"), cut_spec(g, f.new))


def part_spec(g, asg, k):
    c = cut_spec(g, asg)
    return lambda e: And(c(e), Or(asg(p0(e)) == k, asg(p1(e)) == k))


def by_part_exact(E, g, asg, v):
    m = E.as_map(E.content(v))
    k, e = E.bvars([A, PAIR], "bp")
    if m.ksort is None:
        return E.ensure("no cut edge is missing", ForAll([e], Not(cut_spec(g, asg)(e))))
    s = E.map_getd(m, k)
    s = s if isinstance(s, SetC) else E.content(E.force(s))
    E.ensure("each listed district has exactly its cut edges", ForAll([k, e], Implies(E.map_dom(m, k), zbool(s.mem(e)) == part_spec(g, asg, k)(e))))
    E.ensure("every district with a cut edge is listed", ForAll([e], Implies(cut_spec(g, asg)(e), And(zbool(E.map_dom(m, asg(p0(e)))), zbool(E.map_dom(m, asg(p1(e))))))))


def by_part_initial(E):
    g = G(E)
    p = P(E, g)
    by_part_exact(E, g, p.asg, call(E, CE + "cut_edges_by_part", p.ref))


def by_part_step(E):
    g, p, f, child = step_plan(E, True)
    by_part_exact(E, g, f.new, E.getitem(child, "cut_edges_by_part"))


def crosses(E):
    g = G(E)
    p = P(E, g)
    a, b = z3.Consts("a b", A)
    E.assume(And(g.N(a), g.N(b)))
    r = truth(E, E.call(E.getattr(p.ref, "crosses_parts"), [Tup([a, b])], {}))
    E.ensure("crosses_parts compares the districts of the ends", r == (p.asg(a) != p.asg(b)))


SPECS = [("cut_edges of a first plan", initial), ("cut_edges after a flip", step),
         ("cut_edges_by_part of a first plan", by_part_initial), ("cut_edges_by_part after a flip", by_part_step), ("Partition.crosses_parts", crosses)]
META = {}
