from .lib import *
from .c04 import cut_spec

PR = "gerrychain.proposals.proposals:"


class Env:
    def __init__(self, E):
        self.E = E
        self.g = G(E)
        self.p = P(E, self.g)
        self.cut = cut_spec(self.g, self.p.asg)
        self.p.put("cut_edges", SetC(PAIR, self.cut))
        e = E.bvars([PAIR], "e")[0]
        at = lambda e, d: Or(self.p.asg(p0(e)) == d, self.p.asg(p1(e)) == d)
        self.at = at
        self.p.put("cut_edges_by_part", MapC(A, lambda d: Exists([e], And(self.cut(e), at(e, d))), lambda d: SetC(PAIR, lambda e: And(self.cut(e), at(e, d)))))
        self.got = []

        def flip(E, self_, flips):
            E.ensure("the plan itself is flipped", isinstance(self_, Ref) and self_.loc == self.p.ref.loc)
            self.got.append(flips)
            return Opaque("the flipped plan")
        E.contracts[PART + ".flip"] = flip
        self.snap = Snapshot(E, self.p.ref)

    def run(self, name):
        r = call(self.E, PR + name, self.p.ref)
        self.snap.check("the current plan is not changed", grow=(self.p.cache.loc,))
        return r

    def some_cut(self):
        e = self.E.bvars([PAIR], "e")[0]
        self.E.assume(Exists([e], self.cut(e)))

    def flips(self, r):
        E = self.E
        ok = isinstance(r, Opaque) and r.name == "the flipped plan" and len(self.got) == 1
        E.ensure("the result is one flip of the current plan", ok)
        m = E.as_map(E.content(self.got[0]))
        return (lambda x: zbool(E.map_dom(m, x))), (lambda x: enc(E.map_getd(m, x), A))

    def boundary(self, dom, to):
        """every flipped node moves to the district of a neighbor in another district"""
        E = self.E
        x, y = E.bvars([A, A], "x")
        E.ensure("each flipped node goes to a neighbor's district, different from its own",
                 ForAll([x], Implies(dom(x), Exists([y], And(self.g.adj(x, y), self.p.asg(y) != self.p.asg(x), to(x) == self.p.asg(y))))))

    def single(self, dom):
        x, y = self.E.bvars([A, A], "x")
        self.E.ensure("exactly one node is flipped", And(Exists([x], dom(x)), ForAll([x, y], Implies(And(dom(x), dom(y)), x == y))))


def single(name):
    def spec(E):
        v = Env(E)
        v.some_cut()
        dom, to = v.flips(v.run(name))
        v.single(dom)
        v.boundary(dom, to)
    return spec


def no_cut(E):
    v = Env(E)
    e = E.bvars([PAIR], "e")[0]
    E.assume(Not(Exists([e], v.cut(e))))
    r = v.run("propose_random_flip")
    E.ensure("a plan without cut edges is returned unchanged", isinstance(r, Ref) and r.loc == v.p.ref.loc and not v.got)


def chunk(E):
    v = Env(E)
    v.some_cut()
    dom, to = v.flips(v.run("propose_chunk_flip"))
    z, w, x = E.bvars([A, A, A], "z")
    asg = v.p.asg
    E.ensure("exactly the neighbors in other districts of one boundary node move into its district",
             Exists([z], And(Exists([w], And(v.g.adj(z, w), asg(z) != asg(w))), ForAll([x], And(dom(x) == And(v.g.adj(z, x), asg(x) != asg(z)), Implies(dom(x), to(x) == asg(z)))))))


def every(E):
    v = Env(E)
    v.some_cut()
    dom, to = v.flips(v.run("propose_flip_every_district"))
    v.boundary(dom, to)
    d, e = z3.Const("a_district", A), E.bvars([PAIR], "e")[0]
    E.assume(Exists([e], And(v.cut(e), v.at(e, d))))
    E.ensure("every district with cut edges has an end of one of its cut edges flipped", Exists([e], And(v.cut(e), v.at(e, d), Or(dom(p0(e)), dom(p1(e))))))


def any_node(E):
    v = Env(E)
    x = E.bvars([A], "x")[0]
    dom, to = v.flips(v.run("propose_any_node_flip"))
    v.single(dom)
    E.ensure("a node of the graph moves to a district of the plan", ForAll([x], Implies(dom(x), And(v.g.N(x), v.p.D(to(x))))))


def reachable(name):
    """every boundary flip can be proposed: for each one there are draws that lead to it, all of them offered"""
    def spec(E):
        v = Env(E)
        a, b = z3.Consts("a b", A)
        v.some_cut()
        E.assume(And(v.g.adj(a, b), v.p.asg(a) != v.p.asg(b)))
        y = v.p.asg(b)
        e = spair(a, b)

        def member(segs, x, srt):
            fs = []
            for s in segs:
                if isinstance(s, Iter):
                    bs = E.bvars(s.sorts, "b")
                    g, w = s.mk(bs)
                    fs.append(Exists(bs, And(g, enc(w, srt) == x)))
                else:
                    fs.append(enc(s, srt) == x)
            return Or(*fs)

        def choose(E, segs):
            s = segs[0]
            w = s.mk(E.bvars(s.sorts, "b"))[1] if isinstance(s, Iter) else s
            if isinstance(w, int):
                return z3.If(p0(e) == a, z3.IntVal(0), z3.IntVal(1)) if list(segs) == [0, 1] else None
            if isinstance(w, Tup) or is_z(w) and w.sort() == PAIR:
                for x in (e, tup2(a, y)):
                    m = member(segs, x, PAIR)
                    if E.entails(m, 1500):
                        E.ensure("the draw is offered", m)
                        return Tup([p0(x), p1(x)])
            elif is_z(w) and w.sort() == A:
                for x in (a, y):
                    m = member(segs, x, A)
                    if E.entails(m, 1500):
                        E.ensure("the draw is offered", m)
                        return x
            E.ensure("the draw is offered", False)
            raise Infeasible()
        E.chooser = choose
        try:
            dom, to = v.flips(v.run(name))
        finally:
            E.chooser = None
        x = E.bvars([A], "x")[0]
        E.ensure("the flip of a to b's district results", ForAll([x], And(dom(x) == (x == a), Implies(dom(x), to(x) == y))))
    return spec


SINGLE = ["propose_random_flip", "slow_reversible_propose_bi", "slow_reversible_propose"]
SPECS = [(n, single(n)) for n in SINGLE] + [("propose_random_flip without cut edges", no_cut), ("propose_chunk_flip", chunk), ("propose_flip_every_district", every), ("propose_any_node_flip", any_node)] + \
    [(n + ": every boundary flip is reachable", reachable(n)) for n in SINGLE]
META = {}
