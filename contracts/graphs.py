"""a mutable networkx.Graph: heap-allocated node set, symmetric adjacency and one map per attribute (assumed contract of networkx.Graph)"""
from .lib import *
from pyvc.methods import model, MODELS

I2 = tupsort([I, I])
NAMES = ["boundary_node", "boundary_perim", "population", "area", "shared_perim", "random_weight", "weight"]
TRUST = "networkx.Graph: nodes, edges, attribute dicts, add_edge(s_from), set_node_attributes, set_edge_attributes; simple graphs without self-loops"


def lex(a, b):
    """a total order on node labels"""
    s = a.sort()
    if s == A:
        return lt(a, b)
    if s in (I, R):
        return a < b
    k = core.tupinfo(s)
    r = z3.BoolVal(False)
    for n in reversed(range(len(k))):
        x, y = core.simp_acc(a, n), core.simp_acc(b, n)
        r = Or(lex(x, y), And(x == y, r))
    return r


def overlay(E, c, new, old):
    return new if isinstance(old, Poison) else E.ite(c, new, old)


class MG:
    def __init__(self, E, sort, nodes, adj, name="graph"):
        self.E, self.sort, self.name = E, sort, name
        self.psort = tupsort([sort, sort])
        self.nodes = E.alloc(SetC(sort, nodes))
        self.adj = E.alloc(SetC(self.psort, lambda e: adj(core.simp_acc(e, 0), core.simp_acc(e, 1))))
        self.na = {n: E.alloc(self.empty(sort)) for n in NAMES}
        self.ea = {n: E.alloc(self.empty(self.psort)) for n in NAMES}
        self.anyattr = None
        E.trusted.add(TRUST)
        self.ref = Opaque(name, tags=("Graph", "not str"), attrs={}, items=None)
        self.ref.mg = self
        at = self.ref.attrs
        at["nodes"] = lambda E: self.nodes_view()
        at["edges"] = lambda E: self.edges_view()
        at["add_edges_from"] = PyFn(lambda E, es, **kw: self.add_edges(es, kw))
        at["add_edge"] = PyFn(lambda E, a, b, **kw: self.add_edge(a, b, kw))
        at["node_indices"] = lambda E: E.alloc(SetC(sort, E.content(self.nodes).mem))
        at["neighbors"] = PyFn(lambda E, n: self.neighbors(n))
        at["degree"] = PyFn(lambda E, n: self.degree(n))
        at["getitem"] = lambda E, n: self.row(n)
        at["len"] = lambda E: E.length(self.nodes)
        at["contains"] = lambda E, n: zbool(E.content(self.nodes).mem(enc(n, sort)))
        self.ref.items = self.nodes

    def need(self, n):
        n = enc(n, self.sort)
        if not self.E.branch(self.N(n)):
            raise PyRaise(ExcV(KeyError))
        return n

    def neighbors(self, n):
        n = self.need(n)
        return BagC([Iter([self.sort], lambda bs: (self.J(n, bs[0]), dec(bs[0])), distinct=True)])

    def row(self, n):
        """graph[n]: the attributes of the edges to each neighbour"""
        n = self.need(n)
        return MapC(self.sort, lambda x: self.J(n, x), lambda x: self.attr_view(self.ea, self.norm(n, x), self.psort))

    def degree(self, n):
        n = self.need(n)
        x = self.E.bvars([self.sort], "d")[0]
        return self.E.sum([x], self.J(n, x), z3.IntVal(1))

    def add_edge(self, a, b, kw):
        E = self.E
        a, b = enc(E.force(a), self.sort), enc(E.force(b), self.sort)
        for x in (a, b):
            E.set_add(self.nodes, dec(x))
        E.set_add(self.adj, Tup([dec(a), dec(b)]))
        E.set_add(self.adj, Tup([dec(b), dec(a)]))
        for k, v in kw.items():
            E.setitem(self.attr(self.ea, k, self.psort), dec(self.norm(a, b)), v)

    def empty(self, s):
        return MapC(s, lambda k: z3.BoolVal(False), lambda k: Poison("attribute not set"))

    def N(self, x):
        return zbool(self.E.content(self.nodes).mem(x))

    def J(self, a, b):
        return zbool(self.E.content(self.adj).mem(self.pair(a, b)))

    def pair(self, a, b):
        return self.psort.constructor(0)(a, b)

    def norm(self, a, b):
        """attribute dicts are shared by both directions of an edge"""
        c = z3.simplify(lex(b, a))
        if z3.is_true(c):
            return self.pair(b, a)
        if z3.is_false(c):
            return self.pair(a, b)
        return z3.If(c, self.pair(b, a), self.pair(a, b))

    def attr(self, tab, k, s):
        if not isinstance(k, str):
            raise Unsupported("attribute name %r" % (k,))
        if k not in tab:
            tab[k] = self.E.alloc(self.empty(s))
        return tab[k]

    def attr_view(self, tab, key, s):
        def symbolic(k):
            return self.anyattr is not None and not isinstance(k, CONCRETE) and tab is self.na

        def get(E, k):
            if symbolic(k):
                return self.anyattr(key, enc(k, A))
            return E.getitem(self.attr(tab, k, s), dec(key))

        def put(E, k, v):
            E.setitem(self.attr(tab, k, s), dec(key), v)

        def contains(E, k):
            return E.contains(self.attr(tab, k, s), dec(key))

        def update(E, m=None, **kw):
            c = E.content(m) if m is not None else RecC({})
            if not isinstance(c, RecC):
                raise Unsupported("attribute update")
            for k, v in {**c.d, **kw}.items():
                put(E, k, v)
        return Opaque("attributes", attrs={"getitem": get, "setitem": put, "contains": contains, "get": PyFn(lambda E, k, d=None: get(E, k) if symbolic(k) or E.truthy(contains(E, k)) else d), "update": PyFn(update)})

    def nodes_view(self):
        E = self.E
        v = Opaque("nodes", items=self.nodes)

        def get(E, n):
            n = enc(n, self.sort)
            if not E.branch(self.N(n)):
                raise PyRaise(ExcV(KeyError))
            return self.attr_view(self.na, n, self.sort)
        v.attrs["getitem"] = get
        v.attrs["contains"] = lambda E, n: self.N(enc(n, self.sort))
        v.attrs["len"] = lambda E: E.length(self.nodes)
        v.call = lambda E, data=False: v if data is False else E.no_order("nodes(data)")
        return v

    def ori(self, a, b):
        f = z3.Function(self.name + "_orientation", self.sort, self.sort, B)
        return f(a, b)

    def edges_view(self):
        E = self.E
        x, y = E.bvars([self.sort, self.sort], "o")
        E.assume(z3.ForAll([x, y], Implies(self.J(x, y), z3.Xor(self.ori(x, y), self.ori(y, x))), patterns=[self.ori(x, y)]))
        items = SetC(self.psort, lambda e: And(E.content(self.adj).mem(e), self.ori(core.simp_acc(e, 0), core.simp_acc(e, 1))))
        v = Opaque("edges", items=items)

        def get(E, e):
            a, b = [enc(z, self.sort) for z in E.unpack(e, 2)]
            if not E.branch(self.J(a, b)):
                raise PyRaise(ExcV(KeyError))
            return self.attr_view(self.ea, self.norm(a, b), self.psort)
        v.attrs["getitem"] = get

        def contains(E, e):
            a, b = [enc(z, self.sort) for z in E.unpack(e, 2)]
            return self.J(a, b)
        v.attrs["contains"] = contains
        v.attrs["len"] = lambda E: E.length(items)
        v.call = lambda E, data=False: v if data is False else E.no_order("edges(data)")
        return v

    def add_edges(self, es, kw):
        E = self.E
        new, ends = [], []
        for s in E.segments(es):
            if isinstance(s, Iter):
                bs = E.bvars(s.sorts, "ed")
                g, e = s.mk(bs)
            else:
                bs, g, e = [], z3.BoolVal(True), s
            its = E.unpack(e, 2)
            a, b = [enc(z, self.sort) for z in its]
            new.append((bs, g, a, b))
        c, n = E.content(self.adj), E.content(self.nodes)
        E.heap[self.adj.loc] = SetC(self.psort, lambda p: Or(c.mem(p), *[Exists(bs, And(g, Or(p == self.pair(a, b), p == self.pair(b, a)))) for bs, g, a, b in new]))
        E.heap[self.nodes.loc] = SetC(self.sort, lambda x: Or(n.mem(x), *[Exists(bs, And(g, Or(x == a, x == b))) for bs, g, a, b in new]))
        for k, v in kw.items():
            m = self.attr(self.ea, k, self.psort)
            old = E.content(m)
            if not isinstance(v, CONCRETE):
                raise Unsupported("edge attribute value")
            hit = lambda p: Or(*[Exists(bs, And(g, p == self.norm(a, b))) for bs, g, a, b in new])
            E.heap[m.loc] = MapC(self.psort, lambda p: Or(E.map_dom(old, p), hit(p)), lambda p: overlay(E, hit(p), v, E.map_getd(old, p)))

    def value(self, tab, k, key):
        """(set?, value) of an attribute"""
        m = self.E.content(self.attr(tab, k, self.sort if tab is self.na else self.psort))
        return zbool(self.E.map_dom(m, key)), self.E.map_getd(m, key)


def of(E, v):
    g = getattr(v, "mg", None)
    if g is None:
        raise Unsupported("graph %r" % (v,))
    return g


@model("networkx.generators.lattice.grid_2d_graph")
def _grid(E, m, n, periodic=False, create_using=None):
    if periodic is not False or create_using is not None:
        raise Unsupported("grid_2d_graph options")
    m, n = num(m), num(n)
    x0, x1 = (lambda p: core.simp_acc(p, 0)), (lambda p: core.simp_acc(p, 1))
    N = lambda p: And(0 <= x0(p), x0(p) < m, 0 <= x1(p), x1(p) < n)

    def adj(p, q):
        return And(N(p), N(q), Or(And(x0(p) == x0(q), Or(x1(p) == x1(q) + 1, x1(q) == x1(p) + 1)), And(x1(p) == x1(q), Or(x0(p) == x0(q) + 1, x0(q) == x0(p) + 1))))
    return MG(E, I2, N, adj).ref


@model("networkx.Graph")
def _graph(E, data=None, **kw):
    if data is not None or kw:
        raise Unsupported("networkx.Graph(...)")
    return MG(E, A, lambda x: z3.BoolVal(False), lambda a, b: z3.BoolVal(False), "new_graph").ref


for n in ("networkx.grid_2d_graph", "networkx.generators.grid_2d_graph"):
    MODELS[n] = _grid


def _set_attrs(which):
    def f(E, g, values, name=None):
        g = of(E, g)
        tab, s = (g.na, g.sort) if which == "node" else (g.ea, g.psort)
        c = E.content(values) if isinstance(values, Ref) else values
        if which == "node" and isinstance(c, MapC) and isinstance(name, str):
            m = g.attr(tab, name, s)
            old, nodes = E.content(m), E.content(g.nodes)
            hit = lambda k: And(zbool(nodes.mem(k)), zbool(E.map_dom(c, k)))
            E.heap[m.loc] = MapC(s, lambda k: Or(hit(k), E.map_dom(old, k)), lambda k: overlay(E, hit(k), c.get0(k), E.map_getd(old, k)))
            return
        if not isinstance(values, CONCRETE) and not is_z(values) or name is None:
            raise Unsupported("set_%s_attributes" % which)
        m = g.attr(tab, name, s)
        old = E.content(m)
        if which == "node":
            c = E.content(g.nodes)
            hit = lambda k: zbool(c.mem(k))
        else:
            c = E.content(g.adj)
            hit = lambda k: And(c.mem(k), Not(lex(core.simp_acc(k, 1), core.simp_acc(k, 0))))
        E.heap[m.loc] = MapC(s, lambda k: Or(hit(k), E.map_dom(old, k)), lambda k: overlay(E, hit(k), values, E.map_getd(old, k)))
    return f


for w in ("node", "edge"):
    for n in ("networkx.set_%s_attributes", "networkx.classes.function.set_%s_attributes"):
        MODELS[n % w] = _set_attrs(w)


def a_graph(E, name="g"):
    """an arbitrary finite simple graph, not empty, no node labelled None"""
    N = z3.Function(name + "_node", A, B)
    J = z3.Function(name + "_adj", A, A, B)
    a, b = E.bvars([A, A], "g")
    E.assume(z3.ForAll([a, b], Implies(J(a, b), And(J(b, a), N(a), N(b), a != b)), patterns=[J(a, b)]))
    E.assume(Exists([a], N(a)))
    E.assume(Not(N(NONE_ATOM)))
    return MG(E, A, lambda x: N(x), lambda x, y: J(x, y), name)
