from .lib import *
from pyvc.methods import MODELS

CT = "gerrychain.constraints.contiguity:"
REACH = "definition: the nodes reachable from s are the least set that contains s and is closed under taking neighbors"


class Dists:
    """the districts of a plan as induced subgraphs; C(d): district d is connected"""

    def __init__(self, E, g, D, asg, name="C"):
        self.E, self.g, self.D, self.asg = E, g, D, asg
        self.C = z3.Function(name, A, B)
        self.rep = z3.Function("component_of", A, A, A)
        E.trusted.add("networkx is_connected: whether the (non-empty) graph is connected; to_dict_of_lists; connected_components")

    def mem(self, d, x):
        return And(self.g.N(x), self.asg(x) == d)

    def view(self):
        """partition.subgraphs (contract of SubgraphView: the induced subgraph of every district)"""
        E = self.E
        o = Opaque("subgraphs")

        def get(E, k):
            k = enc(k, A)
            if not E.branch(self.D(k)):
                raise PyRaise(ExcV(KeyError))
            return sub(E, self.g, lambda x: self.mem(k, x), self, k)
        o.attrs["getitem"] = get
        o.attrs["items"] = PyFn(lambda E: BagC([Iter([A], lambda bs: (self.D(bs[0]), Tup([bs[0], sub(E, self.g, lambda x: self.mem(bs[0], x), self, bs[0])])), distinct=True)]))
        return o

    def nonempty(self):
        E = self.E
        d, x = E.bvars([A, A], "ne")
        w = z3.Function("member", A, A)
        E.assume(z3.ForAll([d], Implies(self.D(d), And(self.g.N(w(d)), self.asg(w(d)) == d)), patterns=[self.D(d)]))


def sub(E, g, mem, fam, key=None):
    o = Opaque("subgraph", tags=("Graph", "not str"))
    o.mem, o.fam, o.g, o.key = mem, fam, g, key
    o.items = SetC(A, mem)
    o.resubst = lambda E, sb: sub(E, g, lambda x: z3.substitute(zbool(mem(x)), *sb), fam, z3.substitute(key, *sb) if key is not None else None)
    o.attrs["nodes"] = lambda E: Opaque("nodes", items=SetC(A, mem))
    o.attrs["subgraph"] = PyFn(lambda E, s: sub(E, g, (lambda m: lambda x: And(mem(x), m.mem(x)))(E.to_set(s)), fam))
    return o


def is_sub(v):
    if not hasattr(v, "fam"):
        raise Unsupported("not a district's subgraph")
    return v


def is_connected(E, h):
    h = is_sub(h)
    x, d = E.bvars([A, A], "x")
    if not E.branch(Exists([x], h.mem(x))):
        raise PyRaise(ExcV(Exception))  # NetworkXPointlessConcept
    r = E.stable("connected", B)
    f = h.fam
    E.assume(ForAll([d], Implies(And(f.D(d), ForAll([x], zbool(h.mem(x)) == f.mem(d, x))), r == f.C(d))))
    return r


def dict_of_lists(E, h):
    h = is_sub(h)
    m = MapC(A, lambda x: zbool(h.mem(x)), lambda x: SetC(A, lambda y: And(h.g.adj(x, y), h.mem(y))))
    r = E.alloc(m)
    E.__dict__.setdefault("dol", {})[r.loc] = h
    return r


def components(E, h):
    """the node sets of the components; each component has one representative node"""
    h = is_sub(h)
    if h.key is None:
        raise Unsupported("components of another graph")
    k, rep = h.key, h.fam.rep
    return BagC([Iter([A], lambda bs: (And(h.mem(bs[0]), rep(k, bs[0]) == bs[0]), SetC(A, lambda y: And(h.mem(y), rep(k, y) == bs[0]))), distinct=True)])


MODELS["networkx.is_connected"] = is_connected
MODELS["networkx.to_dict_of_lists"] = dict_of_lists
MODELS["networkx.connected_components"] = components


class Reach:
    """R: reachable from s along edge(x, y)"""

    def __init__(self, E, s, edge, nm="R"):
        self.E, self.s, self.edge = E, s, edge
        self.R = z3.Function(nm, A, B)
        x, y = E.bvars([A, A], "r")
        E.trusted.add(REACH)
        E.assume(self.R(s))
        E.assume(ForAll([x, y], Implies(And(self.R(x), edge(x, y)), self.R(y))))

    def least(self, T):
        """T contains s and is closed: everything reachable is in T"""
        x, y = self.E.bvars([A, A], "r")
        return Implies(And(T(self.s), ForAll([x, y], Implies(And(T(x), self.edge(x, y)), T(y)))), ForAll([x], Implies(self.R(x), T(x))))


class Bfs:
    keeps = ("q",)

    def __init__(self, st):
        self.st, self.Pr = st, None

    def views(self, E, fr):
        W, V = E.to_set(E.getvar("q", fr)), E.to_set(E.getvar("visited", fr))
        return [(lambda x, m=z: zbool(m.mem(x)) if m.sort is not None else z3.BoolVal(False)) for z in (W, V)]

    def inv(self, E, fr):
        W, V = self.views(E, fr)
        st = self.st
        x, y = E.bvars([A, A], "x")
        if self.Pr is None:
            s = enc(E.content(E.getvar("q", fr)).items[0], A)
            st["r"] = Reach(E, s, lambda a, b: And(st["adj"](a, b)))
            self.Pr = lambda x: z3.BoolVal(False)
        Pr, r, S = self.Pr, st["r"], st["S"]
        return [("found and waiting nodes are reachable", And(ForAll([x], Implies(V(x), And(S(x), r.R(x)))), ForAll([x], Implies(W(x), And(S(x), r.R(x)))))),
                ("the start is done or waiting", Or(Pr(r.s), W(r.s))),
                ("found nodes are done or waiting", ForAll([x], Implies(V(x), Or(Pr(x), W(x))))),
                ("the neighbors of nodes done are found", ForAll([x, y], Implies(And(Pr(x), st["adj"](x, y)), V(y))))]

    def havoc(self, E, fr):
        v, w, p = [E.fresh_fun(n, A, B) for n in ("found", "waiting", "done")]
        E.heap[E.getvar("q", fr).loc] = WorkC(A, lambda x: w(x))
        E.heap[E.getvar("visited", fr).loc] = SetC(A, lambda x: v(x))
        self.Pr = p

    def after(self, E, fr):
        p, c = self.Pr, enc(E.getvar("current", fr), A)
        self.Pr = lambda x: Or(p(x), x == c)

    def at_exit(self, E, fr):
        W, V = self.views(E, fr)
        r = self.st["r"]
        E.assume(r.least(lambda x: Or(V(x), x == r.s)))
        E.assume(r.least(lambda x: x == r.s))
        self.st["V"] = V


def bfs(E):
    S, adj = z3.Function("S", A, B), z3.Function("adjS", A, A, B)
    a, b = E.bvars([A, A], "a")
    E.assume(z3.ForAll([a, b], Implies(adj(a, b), And(adj(b, a), S(a), S(b), a != b)), patterns=[adj(a, b)]))
    E.assume(Exists([a], S(a)))
    E.trusted.add("precondition of _bfs: a non-empty symmetric adjacency without self-loops (that of a district's subgraph)")
    st = {"S": lambda x: S(x), "adj": lambda x, y: adj(x, y)}
    E.invariants[(CT + "_bfs", 0)] = Bfs(st)
    g = E.alloc(MapC(A, lambda x: S(x), lambda x: SetC(A, lambda y: adj(x, y))))
    snap = Snapshot(E, g)
    res = truth(E, call(E, CT + "_bfs", g))
    snap.check("the adjacency is not changed")
    x, y = E.bvars([A, A], "x")
    if "r" not in st:  # at most one node
        E.ensure("a single node is connected", And(res, ForAll([x, y], Implies(And(S(x), S(y)), x == y))))
        return
    r, V = st["r"], st["V"]
    rest = E.sum([x], And(S(x), Not(V(x))), z3.IntVal(1))
    n, m = E.sum([x], S(x), z3.IntVal(1)), E.sum([x], V(x), z3.IntVal(1))
    E.ensure("lemma: found and not found make up all", n == m + rest)
    E.assume(n == m + rest)
    E.ensure("True exactly when every node is reachable", res == ForAll([x], Implies(S(x), r.R(x))))



# ---------------------------------------------------------------- the checks over districts
def no_empty(E, p):
    x = E.bvars([A], "x")[0]
    w = z3.Function("member", A, A)
    d = E.bvars([A], "d")[0]
    E.assume(z3.ForAll([d], Implies(p.D(d), And(p.g.N(w(d)), p.asg(w(d)) == d)), patterns=[p.D(d)]))
    E.trusted.add("precondition: no empty district")


def a_plan(E, parent=None, **kw):
    g = G(E)
    p = P(E, g)
    f = Dists(E, g, p.D, p.asg)
    no_empty(E, p)
    c = E.heap[p.ref.loc]
    E.heap[p.ref.loc] = ObjC(c.cls, {**c.fields, "subgraphs": f.view()})
    return g, p, f


def flipped(E, single=False):
    """a plan, an arbitrary flip of it and the plan that results (contract of flip, C01)"""
    g = G(E)
    old = P(E, g, "old")
    fl = Flip(E, old)
    p = P(E, g, "new", parent=old.ref, flips=fl.map)
    d, x = E.bvars([A, A], "x")
    E.assume(z3.ForAll([x], Implies(g.N(x), p.asg(x) == fl.new(x)), patterns=[p.asg(x)]))
    E.assume(z3.ForAll([d], p.D(d) == old.D(d), patterns=[p.D(d)]))
    f = Dists(E, g, p.D, p.asg)
    no_empty(E, p)
    c = E.heap[p.ref.loc]
    E.heap[p.ref.loc] = ObjC(c.cls, {**c.fields, "subgraphs": f.view()})
    return g, old, fl, p, f


def touched(E, old, fl, d):
    x = E.bvars([A], "t")[0]
    return Exists([x], And(fl.F(x), Or(fl.to(x) == d, old.asg(x) == d)))


def use_bfs(E):
    def f(E, adj):
        h = E.__dict__.get("dol", {}).get(getattr(adj, "loc", None))
        if h is None:
            raise Unsupported("_bfs of something else")
        x = E.bvars([A], "x")[0]
        E.ensure("precondition of _bfs: the subgraph has a node", Exists([x], h.mem(x)))
        E.assume(Exists([x], h.mem(x)))
        return is_connected(E, h)
    E.contracts[CT + "_bfs"] = f


def full(fn, flip):
    def spec(E):
        use_bfs(E)
        d = E.bvars([A], "d")[0]
        if flip:
            g, old, fl, p, f = flipped(E)
            T = lambda d: And(p.D(d), touched(E, old, fl, d))
        else:
            g, p, f = a_plan(E)
            T = p.D
        snap = Snapshot(E, p.ref)
        res = truth(E, call(E, CT + fn, p.ref))
        E.ensure("accepts exactly when every district %s is connected" % ("touched by the flip" if flip else "of the plan"), res == ForAll([d], Implies(T(d), f.C(d))))
        snap.check("the plan is not changed")
    return spec


def number(E):
    g, p, f = a_plan(E)
    d = E.bvars([A], "d")[0]
    res = call(E, CT + "number_of_contiguous_parts", p.ref)
    E.ensure("the number of connected districts", num(res) == E.sum([d], And(p.D(d), f.C(d)), z3.IntVal(1)))


def comps(E):
    g, p, f = a_plan(E)
    res = E.as_map(E.content(call(E, CT + "contiguous_components", p.ref)))
    d, x, r = z3.Consts("dq xq rq", A)
    E.ensure("one entry per district", ForAll([d], zbool(E.map_dom(res, d)) == p.D(d)))
    E.assume(p.D(d))
    rep = f.rep
    segs = E.segments(E.map_getd(res, d))
    if len(segs) != 1 or not isinstance(segs[0], Iter) or len(segs[0].sorts) != 1:
        raise Unsupported("components of another shape")
    gd, h = segs[0].mk([r])
    E.ensure("one graph per component of the district", zbool(gd) == And(f.mem(d, r), rep(d, r) == r))
    E.ensure("each holds exactly the nodes of its component", Implies(gd, zbool(is_sub(h).mem(x)) == And(f.mem(d, x), rep(d, x) == r)))


def view(E):
    """SubgraphView: every entry is the induced subgraph of its part, whatever was asked before"""
    g = G(E)
    parts = z3.Function("part", A, A, B)
    D, Q = z3.Function("D", A, B), z3.Function("asked", A, B)
    k, x = E.bvars([A, A], "k")
    made = lambda s: Opaque("induced", items=s)
    g.ref.attrs["subgraph"] = PyFn(lambda E, s: made(E.to_set(s)))
    E.assume(ForAll([k], Implies(Q(k), D(k))))
    E.assume(ForAll([k, x], Implies(parts(k, x), g.N(x))))
    pm = E.alloc(MapC(A, lambda k: D(k), lambda k: SetC(A, lambda x: parts(k, x), True)))
    cache = E.alloc(MapC(A, lambda k: Q(k), lambda k: made(SetC(A, lambda x: parts(k, x)))))
    v = E.alloc(ObjC(imp(E, "gerrychain.partition.subgraphs:SubgraphView"), {"graph": g.ref, "parts": pm, "subgraphs_cache": cache}))
    q, y = z3.Consts("q y", A)
    snap = Snapshot(E, pm)
    ex, s = raises(E, lambda: E.getitem(v, q))
    snap.check("the parts are not changed")
    if ex is not None:
        E.ensure("only an unknown part is refused", And(exc_name(ex) == "KeyError", Not(D(q))))
        return
    E.ensure("the subgraph induced by exactly the part's nodes", And(D(q), zbool(E.to_set(s.items).mem(y)) == parts(q, y)))
    c = E.as_map(E.content(E.getattr(v, "subgraphs_cache")))
    z = z3.Const("z", A)
    ok = E.map_getd(c, z)
    E.ensure("what is kept is right for every part", Implies(E.map_dom(c, z), And(D(z), member_eq(E, ok, y, parts(z, y)))))


def member_eq(E, v, y, want):
    if isinstance(v, ChoiceV):
        return z3.If(v.c, member_eq(E, v.a, y, want), member_eq(E, v.b, y, want))
    return zbool(E.to_set(v.items).mem(y)) == want


# ---------------------------------------------------------------- are_reachable
def _count(E, *a):
    return Opaque("counter", attrs={"next": True})


def node_of(E, item):
    t = E.force(item)
    if not isinstance(t, Tup) or len(t.items) != 3:
        raise Unsupported("heap entry")
    return t.items[2]


def _push(E, h, item):
    c = E.content(E.force(h))
    b = c
    while isinstance(b, AccC):
        b = b.base
    if isinstance(b, WorkC):
        return E.list_append(h, node_of(E, item))
    E.list_append(h, item)


def _pop(E, h):
    c = E.content(E.force(h))
    if not isinstance(c, WorkC):
        raise Unsupported("heappop")
    E.trusted.add("heapq: push adds an entry, pop removes one; here only which nodes are on the heap is tracked")
    n = E.call(E.getattr(h, "pop"), [], {})
    return Tup([E.stable("d", I), E.stable("c", I), n])


MODELS["heapq.heappush"], MODELS["heapq.heappop"] = _push, _pop
MODELS["itertools.count"] = lambda E, *a: BagC([Iter([I], lambda bs: (bs[0] >= 0, bs[0]))])


class Search:
    keeps = ("seen", "dist", "fringe")

    def __init__(self, st):
        self.st = st

    def views(self, E, fr):
        out = []
        for n in ("seen", "dist"):
            c = E.content(E.getvar(n, fr))
            m = E.as_map(c)
            out.append(lambda x, m=m: zbool(E.map_dom(m, x)) if m.ksort is not None else z3.BoolVal(False))
        c = E.content(E.getvar("fringe", fr))
        if isinstance(c, ListC):
            ns = [enc(node_of(E, t), A) for t in c.items]
            out.append(lambda x: Or(*[x == n for n in ns]))
        else:
            out.append(lambda x: zbool(c.mem(x)))
        return out

    def inv(self, E, fr):
        S, D, W = self.views(E, fr)
        r = self.st
        x, y = E.bvars([A, A], "x")
        return [("what was seen is reachable", ForAll([x], Implies(S(x), r.R(x)))),
                ("the start was seen", S(r.s)),
                ("what was seen is finished or on the heap", ForAll([x], Implies(S(x), Or(D(x), W(x))))),
                ("what is on the heap or finished was seen", ForAll([x], Implies(Or(D(x), W(x)), S(x)))),
                ("what is next to a finished node was seen", ForAll([x, y], Implies(And(D(x), r.edge(x, y)), S(y))))]

    def havoc(self, E, fr):
        s, d, w = [E.fresh_fun(n, A, B) for n in ("seen", "finished", "fringe")]
        sv, dv = E.fresh_fun("seenv", A, I), E.fresh_fun("distv", A, I)
        E.heap[E.getvar("seen", fr).loc] = MapC(A, lambda x: s(x), lambda x: sv(x))
        E.heap[E.getvar("dist", fr).loc] = MapC(A, lambda x: d(x), lambda x: dv(x))
        E.heap[E.getvar("fringe", fr).loc] = WorkC(A, lambda x: w(x))

    def at_exit(self, E, fr):
        S, D, W = self.views(E, fr)
        E.assume(self.st.least(S))


def reach(E):
    g = G(E)
    av = z3.Function("avoid", A, A, B)
    s = z3.Const("source", A)
    t = z3.Function("target", A, B)
    E.assume(g.N(s))
    x = E.bvars([A], "x")[0]
    r = Reach(E, s, lambda a, b: And(g.adj(a, b), Not(av(a, b))))
    g.ref.attrs["is_directed"] = PyFn(lambda E: False)
    g.ref.attrs["_adj"] = lambda E: MapC(A, lambda x: g.N(x), lambda x: MapC(A, lambda y: g.adj(x, y), lambda y: g.edge_attrs(x, y)))
    E.invariants[(CT + "are_reachable", 0)] = Search(r)
    targets = E.alloc(BagC([Iter([A], lambda bs: (t(bs[0]), bs[0]))]))
    lem14(E, "all that is reachable is a node", r, g.N)
    res = truth(E, call(E, CT + "are_reachable", g.ref, s, PyFn(lambda E, a, b, e: av(enc(a, A), enc(b, A))), targets))
    E.ensure("True exactly when every target is reachable along edges not avoided", res == ForAll([x], Implies(t(x), r.R(x))))


def lem14(E, name, r, T):
    x, y = E.bvars([A, A], "x")
    E.assume(r.least(T))
    f = ForAll([x], Implies(r.R(x), T(x)))
    E.ensure("lemma: " + name, f)
    E.assume(f)


# ---------------------------------------------------------------- single flip
def single(E):
    g, old, fl, p, f = flipped(E)
    v = z3.Const("v", A)
    x, y, z = E.bvars([A, A, A], "x")
    E.assume(ForAll([x], fl.F(x) == (x == v)))
    a = old.asg(v)
    E.assume(fl.to(v) != a)
    S = lambda x: And(g.N(x), old.asg(x) == a)
    E.assume(Exists([x], And(S(x), x != v)))
    e = lambda a, b: And(g.adj(a, b), p.asg(a) == p.asg(b))
    RR = z3.Function("RR", A, A, B)
    E.trusted.add(REACH)
    E.assume(z3.ForAll([x], RR(x, x), patterns=[RR(x, x)]))
    E.assume(z3.ForAll([x, y, z], Implies(And(RR(x, y), e(y, z)), RR(x, z)), patterns=[z3.MultiPattern(RR(x, y), g.adj(y, z))]))
    closed = lambda T, ed: ForAll([y, z], Implies(And(T(y), ed(y, z)), T(z)))
    b, c = z3.Consts("b c", A)
    # transitivity and symmetry from leastness
    E.assume(Implies(And(RR(b, c), closed(lambda q: RR(b, q), e)), ForAll([x], Implies(RR(c, x), RR(b, x)))))
    E.ensure("lemma: reachability is transitive", Implies(RR(b, c), ForAll([x], Implies(RR(c, x), RR(b, x)))))
    E.assume(ForAll([x, y, z], Implies(And(RR(x, y), RR(y, z)), RR(x, z))))
    E.assume(Implies(And(RR(b, b), closed(lambda q: RR(q, b), e)), ForAll([x], Implies(RR(b, x), RR(x, b)))))
    E.ensure("lemma: reachability is symmetric", ForAll([x], Implies(RR(b, x), RR(x, b))))
    E.assume(z3.ForAll([x, y], RR(x, y) == RR(y, x), patterns=[RR(x, y)]))
    E.assume(Implies(closed(lambda q: Implies(g.N(b), And(g.N(q), p.asg(q) == p.asg(b))), e), ForAll([x], Implies(RR(b, x), Implies(g.N(b), And(g.N(x), p.asg(x) == p.asg(b)))))))
    E.ensure("lemma: what is reached lies in the same district", ForAll([x], Implies(And(g.N(b), RR(b, x)), And(g.N(x), p.asg(x) == p.asg(b)))))
    E.assume(z3.ForAll([x, y], Implies(And(g.N(x), RR(x, y)), And(g.N(y), p.asg(x) == p.asg(y))), patterns=[RR(x, y)]))
    # the old district is connected: every closed set that holds v holds all of it
    E.trusted.add("definition: a district is connected when every set that holds one of its nodes and is closed under its edges holds all of it")
    eo = lambda a_, b_: And(g.adj(a_, b_), S(a_), S(b_))
    inst = lambda T: Implies(And(T(v), closed(T, eo)), ForAll([x], Implies(S(x), T(x))))
    E.assume(inst(lambda q: q == v))
    s = z3.Const("s", A)
    E.assume(inst(lambda q: Or(q == v, RR(s, q))))
    E.ensure("lemma: reaching all neighbors of the node means reaching its old district", Implies(And(S(s), s != v, ForAll([y], Implies(And(g.adj(v, y), S(y)), RR(s, y)))), ForAll([x], Implies(And(S(x), x != v), RR(s, x)))))
    E.assume(ForAll([s], Implies(And(S(s), s != v, ForAll([y], Implies(And(g.adj(v, y), S(y)), RR(s, y)))), ForAll([x], Implies(And(S(x), x != v), RR(s, x))))))
    E.ensure("lemma: the node has a neighbor in its old district", Exists([y], And(g.adj(v, y), S(y))))
    E.assume(Exists([y], And(g.adj(v, y), S(y))))

    def callee(E, G_, source, avoid, targets):
        if not (isinstance(G_, Ref) and G_.loc == g.frozen().loc):
            raise Unsupported("are_reachable on another graph")
        bs = E.bvars([A, A], "av")
        r = E.merged(bs, g.adj(*bs), lambda: zbool(E.truth(E.call(avoid, [bs[0], bs[1], g.edge_attrs(*bs)], {}))))
        E.ensure("precondition of are_reachable: the start is a node", g.N(enc(source, A)))
        x, y = E.bvars([A, A], "x")
        E.ensure("exactly the edges between districts are avoided", ForAll(bs, Implies(g.adj(*bs), zbool(r) == (p.asg(bs[0]) != p.asg(bs[1])))))
        T = E.to_set(targets)
        return ForAll([x], Implies(T.mem(x), RR(enc(source, A), x)))
    E.contracts[CT + "are_reachable"] = callee
    snap = Snapshot(E, p.ref)
    res = truth(E, call(E, CT + "single_flip_contiguous", p.ref))
    rest = lambda x: And(S(x), x != v)
    E.ensure("accepts exactly when the district the node left is still connected", res == ForAll([x, y], Implies(And(rest(x), rest(y)), RR(x, y))))
    snap.check("the plan is not changed")


def single_none(E):
    """without a parent the single-flip check is the full check"""
    g, p, f = a_plan(E)
    d = E.bvars([A], "d")[0]
    E.contracts[CT + "contiguous"] = lambda E, q: ForAll([d], Implies(p.D(d), f.C(d)))
    res = truth(E, call(E, CT + "single_flip_contiguous", p.ref))
    E.ensure("accepts exactly when every district is connected", res == ForAll([d], Implies(p.D(d), f.C(d))))


SPECS = [("_bfs", bfs), ("contiguous: no parent", full("contiguous", False)), ("contiguous: flipped", full("contiguous", True)),
         ("contiguous_bfs: no parent", full("contiguous_bfs", False)), ("contiguous_bfs: flipped", full("contiguous_bfs", True)),
         ("number_of_contiguous_parts", number), ("contiguous_components", comps), ("SubgraphView.__getitem__", view),
         ("are_reachable", reach), ("single_flip_contiguous: one node", single), ("single_flip_contiguous: no parent", single_none)]
META = {}
