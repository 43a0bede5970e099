from .lib import *
from .c04 import cut_spec

MG = "gerrychain.metagraph:"


class Meta:
    def __init__(self, E):
        self.E = E
        self.g = G(E)
        self.p = P(E, self.g)
        self.p.put("cut_edges", SetC(PAIR, cut_spec(self.g, self.p.asg)))
        self.valid = z3.Function("satisfies", A, A, B)

    def flips_to(self, x, y, valid=False):
        """number of (cut edge, end) pairs whose end is x and whose other end lies in y"""
        E = self.E
        e = E.bvars([PAIR], "e")[0]
        c = cut_spec(self.g, self.p.asg)
        v = self.valid(x, y) if valid else True
        a = E.sum([e], And(c(e), p0(e) == x, self.p.asg(p1(e)) == y, v), z3.IntVal(1))
        b = E.sum([e], And(c(e), p1(e) == x, self.p.asg(p0(e)) == y, v), z3.IntVal(1))
        return a + b

    def contracts(self):
        E = self.E

        def flip(E, self_, flips):
            E.ensure("the plan itself is flipped", isinstance(self_, Ref) and self_.loc == self.p.ref.loc)
            return E.alloc(ObjC(imp(E, PART), {"flips": flips, "parent": self_}))
        E.contracts[PART + ".flip"] = flip

    def is_valid(self, pred):
        def f(E, st):
            m = E.as_map(E.content(E.getattr(st, "flips")))
            k = E.stable("flipped", A)
            E.assume(E.map_dom(m, k))
            return pred(k, enc(E.map_getd(m, k), A))
        return PyFn(f, "is_valid")


def multiplicity(E, segs, x, y):
    """how often the flip {x: y} occurs"""
    tot = z3.IntVal(0)
    one = []
    k, k2 = E.bvars([A, A], "k")
    for s in segs:
        if isinstance(s, Iter):
            bs = E.bvars(s.sorts, "b")
            g, v = s.mk(bs)
        else:
            bs, g, v = [], z3.BoolVal(True), s
        m = E.as_map(E.content(v))
        one.append(ForAll(bs + [k, k2], Implies(And(g, E.map_dom(m, k), E.map_dom(m, k2)), k == k2)))
        one.append(ForAll(bs, Implies(g, Exists([k], E.map_dom(m, k)))))
        tot = tot + E.sum(bs, And(g, E.map_dom(m, x), enc(E.map_getd(m, x), A) == y), z3.IntVal(1))
    return tot, And(*one)


def flips(E):
    m = Meta(E)
    r = call(E, MG + "all_cut_edge_flips", m.p.ref)
    x, y = z3.Consts("x y", A)
    n, one = multiplicity(E, E.segments(r), x, y)
    E.ensure("each flip moves one node", one)
    E.ensure("exactly one flip per end of a cut edge, to the district of the other end", n == m.flips_to(x, y))


def valid_flips(E):
    m = Meta(E)
    m.contracts()
    r = call(E, MG + "all_valid_flips", m.p.ref, m.is_valid(m.valid))
    x, y = z3.Consts("x y", A)
    n, one = multiplicity(E, E.segments(r), x, y)
    E.ensure("each flip moves one node", one)
    E.ensure("exactly the flips whose plan satisfies the constraints, once per cut-edge end", n == m.flips_to(x, y, True))


def valid_list(E):
    """a list of constraints: all of them must hold"""
    m = Meta(E)
    m.contracts()
    q = z3.Function("satisfies2", A, A, B)
    cs = E.alloc(ListC([m.is_valid(m.valid), m.is_valid(q)]))
    r = call(E, MG + "all_valid_flips", m.p.ref, cs)
    x, y = z3.Consts("x y", A)
    n, one = multiplicity(E, E.segments(r), x, y)
    old = m.valid
    m.valid = lambda a, b: And(old(a, b), q(a, b))
    E.ensure("exactly the flips satisfying every constraint, once per cut-edge end", n == m.flips_to(x, y, True))


def degree(E):
    m = Meta(E)
    m.contracts()
    r = call(E, MG + "metagraph_degree", m.p.ref, m.is_valid(m.valid))
    e = E.bvars([PAIR], "e")[0]
    c = cut_spec(m.g, m.p.asg)
    a = E.sum([e], And(c(e), m.valid(p0(e), m.p.asg(p1(e)))), z3.IntVal(1))
    b = E.sum([e], And(c(e), m.valid(p1(e), m.p.asg(p0(e)))), z3.IntVal(1))
    E.ensure("the degree is the number of valid flips", num(r) == a + b)


class History:
    """an arbitrary run: plan i has cut-edge set with identity pc(i) and districts dd(i, k) with node sets of identity dc(i, k)"""

    def __init__(self, E):
        self.E = E
        self.n = z3.Int("length")
        E.assume(self.n >= 0)
        self.pc = z3.Function("plan_code", I, A)
        self.dd = z3.Function("has_district", I, A, B)
        self.dc = z3.Function("district_code", I, A, A)
        self.mem = z3.Function("district_mem", I, A, A, B)
        self.ce = z3.Function("cut_mem", I, PAIR, B)
        self.id = z3.Function("plan_id", I, A)
        self.chain = E.alloc(SeqC(self.n, self.at))

    def at(self, i):
        def dset(k):
            s = SetC(A, lambda x: self.mem(i, k, x), True)
            s.code = self.dc(i, k)
            return s
        parts = MapC(A, lambda k: self.dd(i, k), dset)
        cut = SetC(PAIR, lambda e: self.ce(i, e))
        cut.code = self.pc(i)
        return Opaque("plan", tags=("closed", "Partition"), eqkey=self.id(i), attrs={"assignment": Opaque("assignment", attrs={"parts": parts}), "parts": parts, "cut_edges": cut, "getitem": lambda E, k: {"cut_edges": cut}[k]})

    def plans(self, c, upto):
        j = self.E.bvars([I], "j")[0]
        return Exists([j], And(upto(j), self.pc(j) == c))

    def districts(self, c, upto):
        j, k = self.E.bvars([I, A], "j")
        return Exists([j, k], And(upto(j), self.dd(j, k), self.dc(j, k) == c))

    def count(self, f):
        c = self.E.bvars([A], "c")[0]
        return self.E.sum([c], f(c), z3.IntVal(1))


class Outer:
    def __init__(self, h):
        self.h = h

    def havoc(self, E, fr, done):
        h = self.h
        E.heap[E.getvar("seen_plans", fr).loc] = MapC(A, lambda c: h.plans(c, done), lambda c: z3.IntVal(1))
        E.heap[E.getvar("seen_districts", fr).loc] = MapC(A, lambda c: h.districts(c, done), lambda c: z3.IntVal(1))
        j = E.bvars([I], "j")[0]
        E.setvar("unique_plans", h.count(lambda c: h.plans(c, done)), fr)
        E.setvar("unique_districts", h.count(lambda c: h.districts(c, done)), fr)
        E.setvar("steps_taken", E.sum([j], done(j), z3.IntVal(1)), fr)
        self.out = []
        fr.on_yield = self.out.append

    def inv(self, E, fr, done):
        h = self.h
        c = E.bvars([A], "c")[0]
        j = E.bvars([I], "j")[0]
        sp, sd = [E.as_map(E.content(E.getvar(n, fr))) for n in ("seen_plans", "seen_districts")]
        dom = lambda m, c: zbool(E.map_dom(m, c)) if m.ksort is not None else z3.BoolVal(False)
        return [("seen_plans holds exactly the plans so far", ForAll([c], dom(sp, c) == h.plans(c, done))),
                ("seen_districts holds exactly the districts so far", ForAll([c], dom(sd, c) == h.districts(c, done))),
                ("unique_plans is their number", num(E.getvar("unique_plans", fr)) == h.count(lambda c: h.plans(c, done))),
                ("unique_districts is their number", num(E.getvar("unique_districts", fr)) == h.count(lambda c: h.districts(c, done))),
                ("steps_taken is the number of plans so far", num(E.getvar("steps_taken", fr)) == E.sum([j], done(j), z3.IntVal(1)))]

    def after(self, E, fr):
        h = self.h
        cur = E.getvar("partition", fr)
        E.ensure("each plan is passed on exactly once", len(self.out) == 1)
        if len(self.out) == 1:
            p, st = E.unpack(self.out[0], 2)
            E.ensure("the plan is passed on unchanged", p is cur)
            for f in ("unique_plans", "unique_districts", "steps_taken"):
                E.ensure("reported %s is the current count" % f, num(E.getattr(st, f)) == num(E.getvar(f, fr)))


class Inner:
    """districts of the current plan done so far are in seen_districts"""

    def __init__(self, h):
        self.h = h

    def here(self, E, fr):
        return E.getvar("partition", fr).eqkey.arg(0)

    def start(self, E, fr):
        self.d0 = self.u0 = None

    def havoc(self, E, fr, done):
        h, i = self.h, self.here(E, fr)
        upto = lambda j: And(0 <= j, j < i)
        k = E.bvars([A], "k")[0]
        now = lambda c: Or(h.districts(c, upto), Exists([k], And(done(k), h.dc(i, k) == c)))
        E.heap[E.getvar("seen_districts", fr).loc] = MapC(A, now, lambda c: z3.IntVal(1))
        E.setvar("unique_districts", h.count(now), fr)

    def inv(self, E, fr, done):
        h, i = self.h, self.here(E, fr)
        upto = lambda j: And(0 <= j, j < i)
        c, k = E.bvars([A, A], "c")
        now = lambda c: Or(h.districts(c, upto), Exists([k], And(done(k), h.dc(i, k) == c)))
        m = E.as_map(E.content(E.getvar("seen_districts", fr)))
        return [("seen_districts holds the earlier and current districts", ForAll([c], zbool(E.map_dom(m, c)) == now(c))),
                ("unique_districts is their number", num(E.getvar("unique_districts", fr)) == h.count(now))]


def diversity(E):
    h = History(E)
    q = "gerrychain.meta.diversity:collect_diversity_stats"
    E.invariants[(q, 0)] = Outer(h)
    E.invariants[(q, 1)] = Inner(h)
    call(E, q, h.chain)


SPECS = [("all_cut_edge_flips", flips), ("all_valid_flips", valid_flips), ("all_valid_flips (list of constraints)", valid_list), ("metagraph_degree", degree), ("collect_diversity_stats", diversity)]
META = {}
