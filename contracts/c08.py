from .lib import *
from pyvc.methods import SQRT

LS = "gerrychain.updaters.locality_split_scores:LocalitySplits"
METHODS = ["num_parts", "num_pieces", "naked_boundary", "shannon_entropy", "power_entropy", "symmetric_entropy", "num_split_localities"]


def fromkeys(E, keys, v=None):
    ks = [E.force(k) for k in E.segments(keys)]
    if not all(isinstance(k, str) for k in ks):
        raise Unsupported("dict.fromkeys of unknown keys")
    return E.alloc(RecC({k: v for k in ks}))


MODELS["builtins.dict.fromkeys"] = fromkeys


class W:
    """an arbitrary plan with a locality and a population per node; the updater in the state its __call__ establishes"""

    def __init__(self, E, state=True):
        self.E = E
        self.g = g = G(E)
        self.loc = g.attr("county", A)
        self.pop = g.attr("POP")
        self.p = P(E, g)
        self.asg = self.p.asg
        D = lambda d: E.map_dom(E.as_map(E.content(E.getattr(self.p.ref, "parts"))), d)
        self.D = lambda d: zbool(D(d))
        self.obj = call(E, LS, "name", "county", "POP", list_of(E, METHODS), pent_alpha=z3.Real("alpha"))
        if state:
            self.establish()

    def cnt(self, d, l):
        x = self.E.bvars([A], "v")[0]
        return self.E.sum([x], And(self.g.N(x), self.asg(x) == d, self.loc(x) == l), z3.IntVal(1))

    def has(self, d, l):
        x = self.E.bvars([A], "v")[0]
        return Exists([x], And(self.g.N(x), self.asg(x) == d, self.loc(x) == l))

    def isloc(self, l):
        x = self.E.bvars([A], "v")[0]
        return Exists([x], And(self.g.N(x), self.loc(x) == l))

    def establish(self):
        E = self.E
        c, h = z3.Function("count", A, A, I), z3.Function("meets", A, A, B)
        self.c, self.h = c, h
        d, l = E.bvars([A, A], "d")
        E.assume(ForAll([d, l], h(d, l) == self.has(d, l), ))
        E.assume(ForAll([d, l], Implies(h(d, l), And(c(d, l) >= 1, self.D(d)))))
        self.L = z3.Function("locality", A, B)
        E.assume(ForAll([l], self.L(l) == self.isloc(l)))
        E.setattr(self.obj, "locality_splits", E.alloc(MapC(A, lambda d: self.D(d), lambda d: MapC(A, lambda l: h(d, l), lambda l: c(d, l)))))
        E.setattr(self.obj, "locality_splits_inv", E.alloc(MapC(A, lambda l: self.L(l), lambda l: MapC(A, lambda d: h(d, l), lambda d: c(d, l)))))
        E.setattr(self.obj, "localitydict", E.alloc(MapC(A, lambda n: self.g.N(n), lambda n: self.loc(n))))
        E.setattr(self.obj, "localities", E.alloc(SetC(A, lambda l: self.L(l))))


def positive(E, w):
    """the sums of the (positive) intersection sizes are positive"""
    d, l = E.bvars([A, A], "d")
    E.trusted.add("a sum of positive integers over a nonempty finite set is at least 1")
    E.assume(E.sum([d], w.D(d), E.sum([l], w.h(d, l), w.c(d, l))) >= 1)
    E.assume(E.sum([d, l], And(w.D(d), w.h(d, l)), w.c(d, l)) >= 1)
    d, l = E.bvars([A, A], "d")
    E.assume(ForAll([l], Implies(w.L(l), E.sum([d], And(w.D(d), w.h(d, l)), w.c(d, l)) >= 1)))


def list_of(E, xs):
    return E.alloc(ListC(tuple(xs)))


def method(name, want):
    def spec(E):
        w = W(E)
        if name.endswith("entropy"):
            (positive_pops if name.startswith("sym") else positive)(E, w)
        r = num(E.call(E.getattr(w.obj, name), [w.p.ref], {}))
        want(E, w, r)
    return spec


def parts(E, w, r):
    d, l = E.bvars([A, A], "d")
    E.ensure("the number of (district, locality) intersections", r == E.sum([d], w.D(d), E.sum([l], w.h(d, l), z3.IntVal(1))))


def split(E, w, r):
    d, l = E.bvars([A, A], "d")
    E.ensure("the number of localities in more than one district", r == E.sum([l], And(w.L(l), E.sum([d], w.h(d, l), z3.IntVal(1)) > 1), z3.IntVal(1)))


def naked(E, w, r):
    e = E.bvars([PAIR], "e")[0]
    E.ensure("the number of cut edges inside one locality", r == E.sum([e], And(zbool(w.cut.mem(e)), w.loc(p0(e)) == w.loc(p1(e))), z3.IntVal(1)))


def naked_spec(E):
    w = W(E)
    w.cut = fset(E, "cut", PAIR)
    e = E.bvars([PAIR], "e")[0]
    E.assume(ForAll([e], Implies(w.cut.mem(e), And(w.g.N(p0(e)), w.g.N(p1(e))))))
    w.p.put("cut_edges", E.alloc(w.cut))
    naked(E, w, num(E.call(E.getattr(w.obj, "naked_boundary"), [w.p.ref], {})))


def entropy(kind):
    def want(E, w, r):
        from pyvc.methods import LOG
        d, l, d2, l2, d3 = E.bvars([A] * 5, "d")
        tot = z3.ToReal(E.sum([d2], w.D(d2), E.sum([l2], w.h(d2, l2), w.c(d2, l2))))
        tl = lambda l: z3.ToReal(E.sum([d3], And(w.D(d3), w.h(d3, l)), w.c(d3, l)))
        p = lambda d, l: z3.ToReal(w.c(d, l)) / tl(l)
        q = lambda l: tl(l) / tot
        t = E.arith("*", p(d, l), LOG(1 / p(d, l))) if kind == "shannon" else E.arith("**", p(d, l), 1 - z3.Real("alpha"))
        inner = E.sum([d], And(w.D(d), w.h(d, l)), t)
        body = q(l) * inner if kind == "shannon" else 1 / q(l) * (inner - 1)
        E.ensure("the documented %s entropy" % kind, real(r) == E.sum([l], w.L(l), body))
    return want


def calling(E):
    """__call__ on a fresh updater: builds the tables the score methods rely on and returns a new dict of their values"""
    w = W(E, False)
    vals = {}

    def stub(name):
        def f(E, slf, partition):
            E.ensure("scores are computed for the given plan", E.force(partition) is w.p.ref or E.equal(partition, w.p.ref))
            vals[name] = z3.Real("score_" + name)
            return vals[name]
        return f
    for m in METHODS:
        E.contracts[LS + "." + m] = stub(m)
    E.trusted.add("precondition: populations are not negative, total population and number of districts positive")
    x = E.bvars([A], "x")[0]
    E.assume(E.sum([x], w.g.N(x), w.pop(x)) > 0)
    r = E.call(w.obj, [w.p.ref], {})
    c = E.content(r)
    E.ensure("the result is a new dictionary", not (isinstance(r, Ref) and r.loc == E.getattr(w.obj, "scores").loc))
    for m in METHODS:
        E.ensure("the score %s is that of its method" % m, m in vals and E.equal(E.getitem(r, m), vals[m]))
    d, l, n = z3.Consts("d l n", A)
    m = E.as_map(E.content(E.getattr(w.obj, "localitydict")))
    E.ensure("localitydict gives each node's locality", And(zbool(E.map_dom(m, n)) == w.g.N(n), Implies(w.g.N(n), E.equal(E.map_getd(m, n), w.loc(n)))))
    s = E.to_set(E.getattr(w.obj, "localities"))
    E.ensure("localities are the values of the column", zbool(s.mem(l)) == w.isloc(l))

    def nested(name, a, b, outer, what):
        m = E.as_map(E.content(E.getattr(w.obj, name)))
        E.ensure("%s has exactly %s" % (name, what), zbool(E.map_dom(m, a)) == outer)
        i = m.get0(a)
        i = E.as_map(i if isinstance(i, MapC) else E.content(i))
        E.ensure("%s lists exactly the intersections" % name, Implies(outer, zbool(E.map_dom(i, b)) == w.has(d, l)))
        E.ensure("%s counts the nodes of each intersection" % name, Implies(And(outer, w.has(d, l)), num(E.map_getd(i, b)) == w.cnt(d, l)))
    nested("locality_splits", d, l, w.D(d), "the districts")
    nested("locality_splits_inv", l, d, w.isloc(l), "the localities")


def pops(E, w):
    d, l, x, d2, l2 = E.bvars([A] * 5, "d")
    return d, l, d2, l2, lambda d, l: E.sum([x], And(w.g.N(x), w.asg(x) == d, w.loc(x) == l), w.pop(x))


def positive_pops(E, w):
    d, l, d2, l2, at = pops(E, w)
    E.trusted.add("precondition: no population is negative, and every district and locality has people")
    E.assume(ForAll([d, l], at(d, l) >= 0))
    E.assume(ForAll([d], Implies(w.D(d), E.sum([l2], w.L(l2), at(d, l2)) > 0)))
    E.assume(ForAll([l], Implies(w.L(l), E.sum([d2], And(w.D(d2), w.L(l)), at(d2, l)) > 0)))
    for tot, on, vs in ((lambda: E.sum([l2], w.L(l2), at(d, l2)), w.D(d), [d]), (lambda: E.sum([d2], And(w.D(d2), w.L(l)), at(d2, l)), w.L(l), [l])):
        E.assume(ForAll([d, l], Implies(on, real(at(d, l)) / real(tot()) >= 0)))


def symmetric(E, w, r):
    d, l, d2, l2, at = pops(E, w)
    sq = lambda a, b: SQRT(real(a) / real(b))
    rows = E.sum([d], w.D(d), num(E.arith("*", E.sum([l2], w.L(l2), at(d, l2)), E.sum([l], w.L(l), sq(at(d, l), E.sum([l2], w.L(l2), at(d, l2)))))))
    cols = E.sum([l], w.L(l), num(E.arith("*", E.sum([d2], And(w.D(d2), w.L(l)), at(d2, l)), E.sum([d], And(w.D(d), w.L(l)), sq(at(d, l), E.sum([d2], And(w.D(d2), w.L(l)), at(d2, l)))))))
    E.ensure("the documented symmetric entropy", real(r) == real(E.arith("+", rows, cols)))


NC = z3.Function("components", z3.ArraySort(A, B), I)


def components(E, g):
    """assumed contract: the number of connected components depends on the node set of the induced subgraph"""
    E.trusted.add("networkx number_connected_components: a function of the subgraph's node set (within one graph)")
    g = E.force(g)
    h = graph_of(E.getattr(g, 'graph') if isinstance(g, Ref) else g)
    x = z3.Const("nc_x", A)
    return NC(z3.Lambda([x], z3.simplify(zbool(h.N(x)))))


MODELS["networkx.number_connected_components"] = components


class Meets:
    """after the nodes in `done`: the districts met by each locality so far"""

    def __init__(self, w):
        self.w = w

    def seen(self, l, done):
        x = self.w.E.bvars([A], "v")[0]
        return Exists([x], And(self.w.g.N(x), self.w.loc(x) == l, done(x)))

    def met(self, l, d, done):
        x = self.w.E.bvars([A], "v")[0]
        return Exists([x], And(self.w.g.N(x), self.w.loc(x) == l, self.w.asg(x) == d, done(x)))

    def havoc(self, E, fr, done):
        E.heap[E.getvar("locality_intersections", fr).loc] = MapC(A, lambda l: self.seen(l, done), lambda l: SetC(A, lambda d: self.met(l, d, done)))

    def inv(self, E, fr, done):
        m = E.as_map(E.content(E.getvar("locality_intersections", fr)))
        l, d = E.bvars([A, A], "k")
        if m.ksort is None:
            return [("no locality seen yet", ForAll([l], Not(self.seen(l, done))))]
        s = E.to_set(m.get0(l))
        return [("the localities seen", ForAll([l], zbool(E.map_dom(m, l)) == self.seen(l, done))),
                ("the districts met by each locality", ForAll([l, d], Implies(self.seen(l, done), zbool(s.mem(d)) == self.met(l, d, done))))]


def pieces(E):
    w = W(E)
    E.invariants[(LS + ".num_pieces", 0)] = Meets(w)
    r = num(E.call(E.getattr(w.obj, "num_pieces"), [w.p.ref], {}))
    l, d = E.bvars([A, A], "d")
    x = z3.Const("nc_x", A)
    E.ensure("the number of connected pieces of the (district, locality) intersections", r == E.sum([l], w.isloc(l), E.sum([d], w.has(d, l), NC(z3.Lambda([x], And(w.g.N(x), w.asg(x) == d, w.loc(x) == l))))))


SPECS = [("num_parts", method("num_parts", parts)), ("num_split_localities", method("num_split_localities", split)), ("naked_boundary", naked_spec),
         ("shannon_entropy", method("shannon_entropy", entropy("shannon"))), ("power_entropy", method("power_entropy", entropy("power")))]
SPECS += [("__call__", calling), ("symmetric_entropy", method("symmetric_entropy", symmetric)), ("num_pieces", pieces)]
META = {}
