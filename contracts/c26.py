from .lib import *
from .graphs import *

TR = "gerrychain.tree:"


def frame(E, g):
    n, j = E.content(g.nodes), E.content(g.adj)

    def check():
        x, e = z3.Const("x", A), z3.Const("e", PAIR)
        E.ensure("the graph's nodes and edges are not changed", And(zbool(E.content(g.nodes).mem(x)) == zbool(n.mem(x)), zbool(E.content(g.adj).mem(e)) == zbool(j.mem(e))))
    return check


def connected(E, g):
    """every node has a neighbor, if there are two (all that the sampler itself relies on; otherwise it walks until it meets the tree)"""
    a, b = E.bvars([A, A], "c")
    E.assume(ForAll([a], Implies(g.N(a), Exists([b], g.J(a, b)))))


def minimum(surcharge):
    """random_spanning_tree asks networkx for the minimum spanning tree of the graph under draw + surcharges and returns it"""
    def spec(E):
        g = a_graph(E)
        f = z3.Function("region", A, A, A)
        g.anyattr = lambda n, k: f(n, k)
        got = []
        res = Opaque("the minimum spanning tree")

        E.mst = lambda gr, weight, algorithm: got.append((gr, weight, algorithm)) or res
        E.trusted.add("networkx minimum_spanning_tree: a spanning tree (of a connected graph) of minimal total weight, the graph unchanged")
        kw, val, dom = {}, None, None
        if surcharge is not None:
            m, dom, val = real_map("surcharge")
            ref = E.alloc(m)
            kw["region_surcharge"] = ref
            if surcharge == "none":
                kw["region_surcharge"] = None
        snap = Snapshot(E, *[v for v in kw.values() if v is not None])
        chk = frame(E, g)
        r = call(E, TR + "random_spanning_tree", g.ref, **kw)
        chk()
        snap.check("the surcharges are not changed")
        E.ensure("the result is the minimum spanning tree of this graph", r is res and len(got) == 1 and got[0][0] is g.ref)
        a, b = z3.Consts("a b", A)
        E.assume(g.J(a, b))
        d, w = g.value(g.ea, got[0][1], g.norm(a, b))
        k = E.bvars([A], "k")[0]
        cross = lambda k: Or(f(a, k) != f(b, k), f(a, k) == NONE_ATOM, f(b, k) == NONE_ATOM)
        extra = E.sum([k], And(dom(k), cross(k)), val(k)) if kw.get("region_surcharge") is not None else z3.RealVal(0)
        E.ensure("every edge is weighted", d)
        E.ensure("an edge weighs a draw from [0,1) plus the surcharges of the regions it crosses", And(real(w) - extra >= 0, real(w) - extra < 1))
    return spec


def mst(E, gr, weight="weight", algorithm="kruskal", ignore_nan=False):
    return E.mst(gr, weight, algorithm)


for n in ("networkx.algorithms.tree.minimum_spanning_tree", "networkx.minimum_spanning_tree", "networkx.algorithms.tree.mst.minimum_spanning_tree"):
    MODELS[n] = mst


class Walk:
    """first inner loop: next is the last exit of every node visited outside the tree"""

    def __init__(self, o):
        self.o = o

    def state(self, E, fr):
        nx = E.as_map(E.content(E.getvar("next_node", fr)))
        tn = E.content(E.getvar("tree_nodes", fr))
        return (lambda x: enc(E.map_getd(nx, x), A)), (lambda x: zbool(E.map_dom(nx, x))), (lambda x: zbool(tn.mem(x)))

    def inv(self, E, fr):
        o = self.o
        nxt, has, T = self.state(E, fr)
        u = enc(E.getvar("u", fr), A)
        if o.phase != "walk":  # on entry: nothing visited
            o.t, o.V, o.T1 = (lambda x: z3.IntVal(0)), (lambda x: z3.BoolVal(False)), z3.IntVal(0)
            o.nxt0, o.Tree0, o.node = nxt, T, u
        x = E.bvars([A], "x")[0]
        V, t, g = o.V, o.t, o.g
        return [("the tree is unchanged", And(ForAll([x], T(x) == o.Tree0(x)), ForAll([x], Implies(T(x), And(has(x), nxt(x) == o.nxt0(x)))))),
                ("the walk is at a node", And(g.N(u), g.N(o.node))),
                ("visited nodes are outside the tree, start included", And(ForAll([x], Implies(V(x), And(g.N(x), Not(T(x)), t(x) < o.T1, t(x) >= 0))), Or(u == o.node, V(o.node)))),
                ("from a visited node the last exit leads to the walk's end or to a node left later", ForAll([x], Implies(V(x), And(has(x), g.J(x, nxt(x)), Or(nxt(x) == u, And(V(nxt(x)), t(nxt(x)) > t(x)))))))]

    def havoc(self, E, fr):
        o = self.o
        o.phase = "walk"
        hv = E.fresh_fun("nx", A, A)
        hd = E.fresh_fun("nxd", A, B)
        E.heap[E.getvar("next_node", fr).loc] = MapC(A, lambda x: hd(x), lambda x: hv(x))
        o.t, o.V, o.T1 = E.fresh_fun("t", A, I), E.fresh_fun("visited", A, B), E.fresh("T", I)
        E.assume(o.T1 >= 0)
        E.setvar("u", E.fresh("u", A), fr)
        o.u0 = E.getvar("u", fr)

    def after(self, E, fr):
        o = self.o
        t, V, T1, u0 = o.t, o.V, o.T1, o.u0
        o.t, o.V, o.T1 = (lambda x: z3.If(x == u0, T1, t(x))), (lambda x: Or(x == u0, V(x))), T1 + 1


class Add:
    """second inner loop: the path from the start along last exits joins the tree"""

    def __init__(self, o):
        self.o = o

    def inv(self, E, fr):
        o = self.o
        nxt, has, T = Walk.state(self, E, fr)
        u = enc(E.getvar("u", fr), A)
        if o.phase != "add":
            o.end = None
            o.nxt1, o.has1 = nxt, has
            o.new = lambda x: z3.BoolVal(False)
        x = E.bvars([A], "x")[0]
        V, t, g, new = o.V, o.t, o.g, o.new
        return [("next is unchanged", ForAll([x], And(nxt(x) == o.nxt1(x), has(x) == o.has1(x)))),
                ("the tree grew by visited nodes left before the current one", And(ForAll([x], T(x) == Or(o.Tree0(x), new(x))), ForAll([x], Implies(new(x), And(V(x), Or(Not(V(u)), t(x) < t(u))))))),
                ("the current node is visited or in the old tree", Or(V(u), o.Tree0(u))),
                ("from a new node one gets to a new node or the current one", ForAll([x], Implies(new(x), Or(nxt(x) == u, new(nxt(x)))))),
                ("the start is done", Or(u == o.node, new(o.node)))]

    def havoc(self, E, fr):
        o = self.o
        o.phase = "add"
        new = E.fresh_fun("new", A, B)
        o.new = new
        E.heap[E.getvar("tree_nodes", fr).loc] = SetC(A, lambda x: Or(o.Tree0(x), new(x)))
        E.setvar("u", E.fresh("u", A), fr)
        o.u0 = E.getvar("u", fr)

    def after(self, E, fr):
        o = self.o
        new, u0 = o.new, o.u0
        o.new = lambda x: Or(x == u0, new(x))


class Outer:
    """next_node restricted to tree_nodes is a tree rooted at root: ranks fall along next"""

    def __init__(self, g):
        self.g = g
        self.phase = None
        self.rank = None

    def inv(self, E, fr, done):
        nxt, has, T = Walk.state(self, E, fr)
        root = enc(E.getvar("root", fr), A)
        g, x = self.g, E.bvars([A], "x")[0]
        if self.rank is None:
            self.rank, self.bound = (lambda x: z3.IntVal(0)), z3.IntVal(1)
        rk = self.rank
        self.last = (nxt, root)
        return [("tree nodes are nodes, the root and all nodes done among them", And(T(root), g.N(root), ForAll([x], Implies(T(x), g.N(x))), ForAll([x], Implies(done(x), T(x))))),
                ("the root has no next node", And(has(root), nxt(root) == NONE_ATOM)),
                ("every other tree node has a neighboring tree node of smaller rank as next", ForAll([x], Implies(And(T(x), x != root), And(has(x), g.J(x, nxt(x)), T(nxt(x)), rk(nxt(x)) < rk(x))))),
                ("ranks are bounded", ForAll([x], Implies(T(x), rk(x) < self.bound)))]

    def havoc(self, E, fr, done):
        self.phase = None
        tn, hv, hd = E.fresh_fun("tree", A, B), E.fresh_fun("nx", A, A), E.fresh_fun("nxd", A, B)
        E.heap[E.getvar("tree_nodes", fr).loc] = SetC(A, lambda x: tn(x))
        E.heap[E.getvar("next_node", fr).loc] = MapC(A, lambda x: hd(x), lambda x: hv(x))
        self.rank, self.bound = E.fresh_fun("rank", A, I), E.fresh("bound", I)

    def after(self, E, fr):
        r, b, t, new, T1 = self.rank, self.bound, self.t, self.new, self.T1
        self.rank, self.bound = (lambda x: z3.If(new(x), b + T1 - t(x), r(x))), b + T1 + 1


def uniform(E):
    g = a_graph(E)
    connected(E, g)
    o = Outer(g)
    q = TR + "uniform_spanning_tree"
    E.invariants[(q, 0)] = o
    E.invariants[(q, 1)] = Walk(o)
    E.invariants[(q, 2)] = Add(o)
    chk = frame(E, g)
    r = call(E, q, g.ref)
    chk()
    t = of(E, r)
    x, y, root = z3.Consts("x y root", A)
    E.ensure("the tree is a new graph", t is not g)
    f, rt = o.last
    least(E, lambda z: And(g.N(z), z != rt), o.rank)
    E.ensure("the tree has exactly the graph's nodes", t.N(x) == g.N(x))
    E.ensure("the tree has only edges of the graph", Implies(t.J(x, y), g.J(x, y)))
    # a tree: one node has no parent, every other node one, parents have smaller rank, and the edges are exactly node - parent
    E.ensure("every node but one has one parent: a neighbor of smaller rank", And(g.N(rt), Implies(And(g.N(x), x != rt), And(t.J(x, f(x)), o.rank(f(x)) < o.rank(x)))))
    E.ensure("the edges are exactly those between node and parent", t.J(x, y) == Or(And(g.N(x), x != rt, y == f(x)), And(g.N(y), y != rt, x == f(y))))


SPECS = [("random_spanning_tree", minimum(None)), ("random_spanning_tree (surcharges None)", minimum("none")), ("random_spanning_tree (any surcharges)", minimum("map")), ("uniform_spanning_tree", uniform)]
META = {}
