from .lib import *
from .c04 import cut_spec, part_spec

CM = "gerrychain.updaters.compactness:"


class Setup:
    def __init__(self, E, cut=False):
        self.E = E
        self.g = g = G(E)
        self.bn = g.attr("boundary_node", B)
        self.perim = g.attr("boundary_perim")
        self.shared = g.edge_attr("shared_perim")
        self.p = P(E, g)
        if cut:
            self.p.register("cut_edges")

    def boundary(self):
        return SetC(A, lambda x: And(self.g.N(x), self.bn(x)))

    def ext(self, asg, d):
        n = self.E.bvars([A], "n")[0]
        return self.E.sum([n], And(self.g.N(n), self.bn(n), asg(n) == d), self.perim(n))

    def inn(self, asg, d):
        e = self.E.bvars([PAIR], "e")[0]
        return self.E.sum([e], part_spec(self.g, asg, d)(e), self.shared(p0(e), p1(e)))

    def flip(self):
        self.f = Flip(self.E, self.p)
        self.snap = Snapshot(self.E, self.p.ref)
        self.child = self.E.call(self.E.getattr(self.p.ref, "flip"), [self.f.map], {})
        return self.f, self.child

    def framed(self):
        self.snap.check("the parent's results are unchanged", grow=(self.p.cache.loc,))


def values(E, name, v, spec, need, D):
    m = E.as_map(E.content(v))
    d = E.bvars([A], "d")[0]
    if m.ksort is None:
        return E.ensure(name + " (nothing is missing)", ForAll([d], Not(need(d))))
    E.ensure(name, ForAll([d], Implies(And(E.map_dom(m, d), D(d)), real(num(E.map_getd(m, d))) == real(spec(d)))))
    E.ensure("no district is missing", ForAll([d], Implies(need(d), E.map_dom(m, d))))


def has_boundary(s, asg):
    n = s.E.bvars([A], "hb")[0]
    return lambda d: Exists([n], And(s.g.N(n), s.bn(n), asg(n) == d))


def b_initial(E):
    s = Setup(E)
    r = E.to_set(call(E, CM + "boundary_nodes", s.p.ref))
    n = E.bvars([A], "n")[0]
    E.ensure("exactly the nodes flagged as boundary nodes", ForAll([n], zbool(r.mem(n)) == And(s.g.N(n), s.bn(n))))


def b_step(E):
    s = Setup(E)
    s.p.put("boundary_nodes", s.boundary())
    f, child = s.flip()
    r = E.to_set(call(E, CM + "boundary_nodes", child))
    n = E.bvars([A], "n")[0]
    E.ensure("exactly the nodes flagged as boundary nodes", ForAll([n], zbool(r.mem(n)) == And(s.g.N(n), s.bn(n))))
    s.framed()


def ext_initial(E):
    s = Setup(E)
    s.p.put("boundary_nodes", s.boundary())
    values(E, "exterior boundary is the sum over the district's boundary nodes", call(E, CM + "exterior_boundaries", s.p.ref), lambda d: s.ext(s.p.asg, d), has_boundary(s, s.p.asg), s.p.D)


def zero():
    return PyFn(lambda E: 0)


def ext_step(E):
    s = Setup(E)
    h = z3.Function("has_entry", A, B)
    n = E.bvars([A], "n")[0]
    E.assume(z3.ForAll([n], Implies(And(s.g.N(n), s.bn(n)), h(s.p.asg(n)))))
    s.p.put("exterior_boundaries", MapC(A, lambda k: h(k), lambda k: real(s.ext(s.p.asg, k)), zero()))
    s.p.put("boundary_nodes", s.boundary())
    s.p.register("boundary_nodes", imp(E, CM + "boundary_nodes"))
    f, child = s.flip()
    v = call(E, CM + "exterior_boundaries", child)
    values(E, "exterior boundary is the sum over the district's boundary nodes", v, lambda d: s.ext(f.new, d), has_boundary(s, f.new), s.p.D)
    s.framed()


def set_values(E, v, spec, need, D):
    m = E.as_map(E.content(v))
    d, n = E.bvars([A, A], "d")
    if m.ksort is None:
        return E.ensure("nothing is missing", ForAll([d], Not(need(d))))
    x = E.map_getd(m, d)
    x = x if isinstance(x, SetC) else E.content(E.force(x))
    E.ensure("the district's outer-boundary nodes are exact", ForAll([d, n], Implies(And(E.map_dom(m, d), D(d)), (zbool(x.mem(n)) if x.sort is not None else z3.BoolVal(False)) == spec(d, n))))
    E.ensure("no district is missing", ForAll([d], Implies(need(d), E.map_dom(m, d))))


def set_initial(E):
    s = Setup(E)
    s.p.put("boundary_nodes", s.boundary())
    set_values(E, call(E, CM + "exterior_boundaries_as_a_set", s.p.ref), lambda d, n: And(s.g.N(n), s.bn(n), s.p.asg(n) == d), has_boundary(s, s.p.asg), s.p.D)


def set_step(E):
    s = Setup(E)
    h = z3.Function("has_entry", A, B)
    n = E.bvars([A], "n")[0]
    E.assume(z3.ForAll([n], Implies(And(s.g.N(n), s.bn(n)), h(s.p.asg(n)))))
    s.p.put("exterior_boundaries_as_a_set", MapC(A, lambda k: h(k), lambda k: SetC(A, lambda x: And(s.g.N(x), s.bn(x), s.p.asg(x) == k)), PyFn(lambda E: E.alloc(SetC(None, lambda y: z3.BoolVal(False))))))
    s.p.put("boundary_nodes", s.boundary())
    s.p.register("boundary_nodes", imp(E, CM + "boundary_nodes"))
    f, child = s.flip()
    set_values(E, call(E, CM + "exterior_boundaries_as_a_set", child), lambda d, n: And(s.g.N(n), s.bn(n), f.new(n) == d), has_boundary(s, f.new), s.p.D)
    s.framed()


def by_part(E, s, asg, h):
    e = E.bvars([PAIR], "e")[0]
    E.assume(z3.ForAll([e], Implies(cut_spec(s.g, asg)(e), And(h(asg(p0(e))), h(asg(p1(e)))))))
    return MapC(A, lambda k: h(k), lambda k: SetC(PAIR, part_spec(s.g, asg, k)), PyFn(lambda E: E.alloc(SetC(None, lambda y: z3.BoolVal(False)))))


def int_initial(E):
    s = Setup(E)
    s.p.put("cut_edges_by_part", by_part(E, s, s.p.asg, z3.Function("has_entry", A, B)))
    values(E, "interior boundary is the sum over the district's cut edges", call(E, CM + "interior_boundaries", s.p.ref), lambda d: s.inn(s.p.asg, d), s.p.D, s.p.D)


def int_step(E):
    s = Setup(E, cut=True)
    s.p.put("interior_boundaries", MapC(A, lambda k: s.p.D(k), lambda k: real(s.inn(s.p.asg, k))))
    f, child = s.flip()
    values(E, "interior boundary is the sum over the district's cut edges", call(E, CM + "interior_boundaries", child), lambda d: s.inn(f.new, d), s.p.D, s.p.D)
    s.framed()


def perimeter(E):
    s = Setup(E)
    ex, inn = z3.Function("ext", A, R), z3.Function("int", A, R)
    h = z3.Function("has_entry", A, B)
    s.p.put("exterior_boundaries", MapC(A, lambda k: h(k), lambda k: ex(k), zero()))
    s.p.put("interior_boundaries", MapC(A, lambda k: s.p.D(k), lambda k: inn(k)))
    v = call(E, CM + "perimeter", s.p.ref)
    values(E, "perimeter is exterior plus interior boundary", v, lambda d: z3.If(h(d), ex(d), z3.RealVal(0)) + inn(d), s.p.D, s.p.D)
    m = E.as_map(E.content(v))
    d = E.bvars([A], "d")[0]
    E.ensure("exactly the plan's districts", ForAll([d], zbool(E.map_dom(m, d)) == s.p.D(d)))


def pp(E):
    s = Setup(E)
    a, q = z3.Function("area", A, R), z3.Function("per", A, R)
    s.p.put("area", MapC(A, lambda k: s.p.D(k), lambda k: a(k)))
    s.p.put("perimeter", MapC(A, lambda k: s.p.D(k), lambda k: q(k)))
    v = call(E, "gerrychain.metrics.compactness:polsby_popper", s.p.ref)
    m = E.as_map(E.content(v))
    d = E.bvars([A], "d")[0]
    x = tonan(E.map_getd(m, d))
    E.ensure("exactly the plan's districts", ForAll([d], zbool(E.map_dom(m, d)) == s.p.D(d)))
    E.ensure("NaN exactly when the perimeter is 0", ForAll([d], Implies(s.p.D(d), x.nan == (q(d) == 0))))
    pi = E.ext("math.pi")
    E.ensure("4*pi*area/perimeter^2", ForAll([d], Implies(And(s.p.D(d), q(d) != 0), x.val * (q(d) * q(d)) == 4 * pi * a(d))))


SPECS = [("boundary_nodes of a first plan", b_initial), ("boundary_nodes after a flip", b_step),
         ("exterior_boundaries of a first plan", ext_initial), ("exterior_boundaries after a flip", ext_step),
         ("exterior_boundaries_as_a_set of a first plan", set_initial), ("exterior_boundaries_as_a_set after a flip", set_step),
         ("interior_boundaries of a first plan", int_initial), ("interior_boundaries after a flip", int_step),
         ("perimeter", perimeter), ("polsby_popper", pp)]
META = {}
