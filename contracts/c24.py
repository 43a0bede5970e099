from .lib import *

GR = "gerrychain.graph.graph:"


# ---------------------------------------------------------------- frozen graphs
def answers(E, q, h, what):
    """q (the frozen graph) answers every query like the graph h"""
    x, y = z3.Consts("x y", A)
    e = z3.Const("e", PAIR)
    n = z3.Const("n", A)
    f = z3.Const("field", A)
    g = lambda name: E.getattr(q, name)
    E.ensure(what + ": its length is the number of nodes", num(E.length(q)) == h.size())
    s = E.to_set(E.iterate(q) if hasattr(E, "iterate") else q)
    E.ensure(what + ": iterating gives exactly the nodes", zbool(s.mem(x)) == h.N(x))
    s = E.to_set(g("node_indices"))
    E.ensure(what + ": node_indices are the nodes", zbool(s.mem(x)) == h.N(x))
    s = E.to_set(g("nodes"))
    E.ensure(what + ": nodes are the nodes", zbool(s.mem(x)) == h.N(x))
    s = E.to_set(g("edge_indices"))
    E.ensure(what + ": edge_indices are the edges", zbool(s.mem(e)) == h.edge(e))
    s = E.to_set(g("edges"))
    E.ensure(what + ": edges are the edges", zbool(s.mem(e)) == h.edge(e))
    exc, r = raises(E, lambda: E.call(g("neighbors"), [n], {}))
    E.ensure(what + ": neighbors of a node do not fail", Implies(h.N(n), exc is None))
    if exc is None:
        s = E.to_set(r)
        E.ensure(what + ": neighbors are the adjacent nodes", Implies(h.N(n), zbool(s.mem(x)) == h.adj(n, x)))
    exc, r = raises(E, lambda: E.call(g("degree"), [n], {}))
    E.ensure(what + ": the degree of a node does not fail", Implies(h.N(n), exc is None))
    if exc is None:
        d = E.bvars([A], "d")[0]
        E.ensure(what + ": the degree is the number of neighbors", Implies(h.N(n), num(r) == E.sum([d], h.adj(n, d), z3.IntVal(1))))
    for k in ("POP", None):
        exc, r = raises(E, lambda: E.call(g("lookup"), [n, k or f], {}))
        E.ensure(what + ": attribute lookup does not fail", Implies(h.N(n), exc is None))
        if exc is None:
            v = h.attrs["POP"](n) if k else h.anyattr(n, f)
            E.ensure(what + ": lookup gives the node's attribute", Implies(h.N(n), E.equal(r, v)))
    exc, r = raises(E, lambda: E.getitem(q, n))
    if exc is None:
        s = E.to_set(r)
        E.ensure(what + ": item access gives the adjacency of the node", Implies(h.N(n), zbool(s.mem(x)) == h.adj(n, x)))


def setup(E, methods=()):
    g = G(E)
    for m in methods:
        # the graph's own method, which would change it
        g.put_own(E, m, PyFn(lambda E, *a, **k: None))
    g.attr("POP")
    va = z3.Function("value_of", A, A, A)
    g.anyattr = lambda n, k: va(n, k)
    f = call(E, GR + "FrozenGraph", g.ref)
    return g, f


def frozen(E):
    g, f = setup(E)
    answers(E, f, g, "frozen graph")


def frozen_sub(E):
    g, f = setup(E)
    s = z3.Function("chosen", A, B)
    c = E.alloc(SetC(A, lambda x: s(x)))
    r = E.call(E.getattr(f, "subgraph"), [c], {})
    h = SubG(g, lambda x: s(x))
    answers(E, r, h, "subgraph")


def refuses(E):
    g, f = setup(E, ("join", "add_data"))
    E.ensure("the wrapped graph is frozen", E.heap[g.own.loc].d.get("frozen") is True)
    for name in ("join", "add_data"):
        exc, _ = raises(E, lambda: E.call(E.getattr(f, name), [Opaque("dataframe")], {}))
        E.ensure("%s is refused" % name, exc is not None)


def frozen_method(E, *a, **kw):
    raise PyRaise(ExcV(Exception))


MODELS["networkx.classes.function.frozen"] = frozen_method
MODELS["networkx.frozen"] = frozen_method


# ---------------------------------------------------------------- data frames
class DF:
    """an arbitrary data frame with a unique index (assumed contract of pandas): columns C, index rows X, cells"""

    def __init__(self, E, C, X, cell, cols=None, name="df"):
        self.E, self.C, self.X, self.cell, self.cols = E, C, X, cell, cols
        E.trusted.add("pandas.DataFrame: columns, column selection, set_index (unique keys), to_dict by column or by index, isna")
        self.ref = Opaque(name, tags=("closed", "DataFrame"), attrs={
            "columns": lambda E: E.alloc(SetC(A, lambda c: And(C(c)))),
            "getitem": self.getitem,
            "set_index": PyFn(self.set_index),
            "to_dict": PyFn(self.to_dict)})
        self.ref.DF = self

    def getitem(self, E, k):
        k = E.force(k)
        if is_z(k) or isinstance(k, CONCRETE):
            return Opaque("column", attrs={"isna": PyFn(lambda E: Opaque("isna", items=SetC(None, lambda y: z3.BoolVal(False))))})
        s = E.to_set(k)
        c = E.bvars([A], "c")[0]
        if not E.branch(ForAll([c], Implies(zbool(s.mem(c)), self.C(c)))):
            raise PyRaise(ExcV(KeyError))
        return DF(E, lambda c: zbool(s.mem(c)), self.X, self.cell).ref

    def set_index(self, E, col):
        k = enc(col, A)
        if not E.branch(self.C(k)):
            raise PyRaise(ExcV(KeyError))
        row = z3.Function("row_with_key", A, A, A)
        x = E.bvars([A], "x")[0]
        E.assume(ForAll([x], Implies(self.X(x), row(k, self.cell(k, x)) == x)))
        return DF(E, lambda c: And(self.C(c), c != k), lambda v: And(self.X(row(k, v)), self.cell(k, row(k, v)) == v), lambda c, v: self.cell(c, row(k, v))).ref

    def to_dict(self, E, orient="dict"):
        if orient == "dict":
            return E.alloc(MapC(A, lambda c: self.C(c), lambda c: MapC(A, lambda i: self.X(i), lambda i: self.cell(c, i))))
        if orient == "index":
            return E.alloc(MapC(A, lambda i: self.X(i), lambda i: MapC(A, lambda c: self.C(c), lambda c: self.cell(c, i))))
        raise Unsupported("to_dict(%r)" % (orient,))


class Target:
    """the graph object on which data is set; records what set_node_attributes is given"""

    def __init__(self, E, has_data=None):
        self.E = E
        self.N = z3.Function("is_node", A, B)
        self.has = z3.Function("has_attribute", A, A, B)
        self.val = z3.Function("attribute", A, A, A)
        self.calls = []
        self.ref = Opaque("graph", tags=("closed", "Graph"), attrs={
            "nodes": lambda E: self.nodes(),
            "setattr": lambda E, k, v: None})
        self.ref.items = SetC(A, lambda x: self.N(x))
        self.ref.order = self
        def absent(E):
            raise PyRaise(ExcV(AttributeError))
        self.ref.attrs["data"] = absent
        if has_data:
            self.ref.attrs["data"] = Opaque("data", attrs={"setitem": lambda E, k, v: None})
        E.models["networkx.set_node_attributes"] = self.set_attrs
        E.models["networkx.get_node_attributes"] = self.get_attrs
        E.trusted.add("networkx.set_node_attributes(G, {n: {k: v}}) sets exactly G.nodes[n][k] = v for the listed nodes that are in G; get_node_attributes lists the nodes having the attribute")

    def nodes(self):
        v = Opaque("nodes", items=SetC(A, lambda x: self.N(x)))
        v.order = self
        return v

    def set_attrs(self, E, graph, values, name=None):
        if E.force(graph) is not self.ref or name is not None:
            raise Unsupported("set_node_attributes")
        self.calls.append(values)

    def get_attrs(self, E, graph, name):
        if E.force(graph) is not self.ref:
            raise Unsupported("get_node_attributes")
        k = enc(name, A)
        return E.alloc(MapC(A, lambda n: And(self.N(n), self.has(n, k)), lambda n: self.val(n, k)))

    def result(self):
        """(node, key) -> is it set, to what"""
        E = self.E
        E.ensure("attributes are set once", len(self.calls) == 1)
        if len(self.calls) != 1:
            raise Unsupported("attributes set in several steps")
        m = E.as_map(E.content(self.calls[0]))

        def at(n, k):
            inner = E.map_getd(m, n)
            i = E.as_map(E.content(inner))
            return And(self.N(n), zbool(E.map_dom(m, n)), zbool(E.map_dom(i, k))), E.map_getd(i, k)
        return at


def frame(E):
    C, X = z3.Function("column", A, B), z3.Function("row", A, B)
    cell = z3.Function("cell", A, A, A)
    return DF(E, C, X, cell), C, X, cell


def add_data(cols, has):
    def spec(E):
        t = Target(E, has)
        d, C, X, cell = frame(E)
        w = z3.Function("wanted", A, B)
        kw = {"columns": E.alloc(SetC(A, lambda c: w(c)))} if cols else {}
        c = E.bvars([A], "c")[0]
        if cols:
            E.assume(ForAll([c], Implies(w(c), C(c))))
        f = imp(E, GR + "Graph.add_data") if False else E.class_attr(imp(E, GR + "Graph"), "add_data")
        exc, _ = raises(E, lambda: E.apply(f, [t.ref, d.ref], kw))
        E.ensure("adding columns of the frame does not fail", exc is None)
        if exc is not None:
            return
        at = t.result()
        n, k = z3.Consts("n k", A)
        g, v = at(n, k)
        want = And(t.N(n), X(n), w(k) if cols else C(k))
        E.ensure("exactly the requested columns are set on exactly the nodes that have a row", g == want)
        E.ensure("to the cells of the node's row", Implies(want, E.equal(v, cell(k, n))))
    return spec


def join(cols, left, right):
    def spec(E):
        t = Target(E)
        d, C, X, cell = frame(E)
        w = z3.Function("wanted", A, B)
        lk, rk = z3.Consts("left_key right_key", A)
        kw = {}
        E.assume(And(lk != enc(None, A), rk != enc(None, A)))
        c = E.bvars([A], "c")[0]
        if cols:
            kw["columns"] = E.alloc(SetC(A, lambda c: w(c)))
            E.assume(ForAll([c], Implies(w(c), And(C(c), c != rk) if right else C(c))))
        if left:
            kw["left_index"] = lk
        if right:
            kw["right_index"] = rk
            E.assume(C(rk))
            a, b = E.bvars([A, A], "a")
            E.assume(ForAll([a, b], Implies(And(X(a), X(b), cell(rk, a) == cell(rk, b)), a == b)))
            E.trusted.add("precondition of join: the key column of the frame has no duplicates")
        f = E.class_attr(imp(E, GR + "Graph"), "join")
        exc, _ = raises(E, lambda: E.apply(f, [t.ref, d.ref], kw))
        if exc is not None:
            return
        at = t.result()
        n, k, r = z3.Consts("n k r", A)
        g, v = at(n, k)
        key = t.val(n, lk) if left else n
        want = And(t.N(n), t.has(n, lk) if left else True, w(k) if cols else And(C(k), k != rk) if right else C(k))
        E.ensure("exactly the requested columns are set on exactly the matching nodes", g == want)
        match = cell(rk, r) == key if right else r == key
        E.ensure("to the cells of the matching row", Implies(And(want, X(r), match), E.equal(v, cell(k, r))))
        E.ensure("there is a matching row", Implies(want, Exists([c], And(X(c), cell(rk, c) == key if right else c == key))))
    return spec


SPECS = [("FrozenGraph answers like the graph", frozen), ("FrozenGraph.subgraph", frozen_sub), ("FrozenGraph refuses changes", refuses),
         ("add_data (all columns)", add_data(False, False)), ("add_data (given columns)", add_data(True, False)), ("add_data (given columns, earlier data)", add_data(True, True))]
SPECS += [("join (%s)" % ", ".join([n for n, b in (("columns", c), ("left_index", l), ("right_index", r)) if b] or ["defaults"]), join(c, l, r)) for c in (False, True) for l in (False, True) for r in (False, True)]
META = {"bounded": ["Graph.to_json/from_json round trip (json and networkx adjacency_data are external)", "remove_geometries"]}
