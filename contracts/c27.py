from .lib import *
from .graphs import MG

AD = "gerrychain.graph.adjacency:"
GR = "gerrychain.graph.graph:"


class Layer:
    """an arbitrary layer of polygons, indexed by the nodes; shapely and geopandas by assumed contracts"""

    def __init__(self, E):
        self.E = E
        self.N = z3.Function("row", A, B)
        self.size = z3.Int("rows")
        self.idx = z3.Function("index", I, A)
        self.pos = z3.Function("position", A, I)
        self.touch = z3.Function("touch", A, A, B)
        self.len = z3.Function("shared_length", A, A, R)
        self.over = z3.Function("shared_area", A, A, R)
        self.emp = z3.Function("empty", A, B)
        self.cand = z3.Function("candidate", A, I, B)
        E.inverses["index"] = self.pos
        i, j, p = z3.Consts("ly_i ly_j", A) + [z3.Int("ly_p")]
        row = lambda p: And(p >= 0, p < self.size)
        E.assume(ForAll([i], Implies(self.N(i), And(row(self.pos(i)), self.idx(self.pos(i)) == i))))
        E.assume(ForAll([p], Implies(row(p), And(self.N(self.idx(p)), self.pos(self.idx(p)) == p))))
        E.assume(ForAll([i, j], And(self.touch(i, j) == self.touch(j, i), self.len(i, j) == self.len(j, i), self.len(i, j) >= 0, self.over(i, j) >= 0,
                                    Implies(self.touch(i, j), And(Not(self.emp(i)), Not(self.emp(j)))), Implies(Or(self.len(i, j) > 0, self.over(i, j) > 0), self.touch(i, j)))))
        E.assume(ForAll([i, p], Implies(self.cand(i, p), row(p))))
        E.assume(ForAll([i, j], Implies(And(self.N(i), self.N(j), self.touch(i, j)), self.cand(i, self.pos(j)))))
        E.trusted.add("shapely: intersections are symmetric, empty polygons meet nothing, lengths and areas are not negative and positive only for polygons that meet; STRtree.query returns at least the positions of the polygons that meet the argument")
        E.trusted.add("geopandas: a series maps each row label to its polygon; index[p] and iloc[p] are the label and polygon of row p; labels are distinct")
        self.series = s = Opaque("GeoSeries", attrs={})
        rows = E.alloc(MapC(A, lambda x: self.N(x), lambda x: self.geo(x)))
        s.attrs["items"] = PyFn(lambda E: E.call(E.getattr(rows, "items"), [], {}))
        s.attrs["getitem"] = lambda E, i: E.getitem(rows, i)
        s.attrs["index"] = Opaque("index", attrs={"getitem": lambda E, p: self.idx(num(p))})
        s.attrs["iloc"] = Opaque("iloc", attrs={"getitem": lambda E, p: self.geo(self.idx(num(p)))})
        self.perim = z3.Function("perimeter", A, R)
        self.area = z3.Function("area", A, R)
        self.outer = z3.Function("meets_outer_boundary", A, B)
        outline, meets = Opaque("outline"), Opaque("meets the outline")
        at = lambda f: E.alloc(MapC(A, lambda x: self.N(x), lambda x: f(x)))

        def apply(E, f):
            if E.force(f) is not meets:
                raise Unsupported("apply on the boundaries")
            return at(self.outer)
        s.attrs["boundary"] = Opaque("boundaries", attrs={"apply": PyFn(apply)})
        s.attrs["area"] = Opaque("areas", attrs={"to_dict": PyFn(lambda E: at(self.area))})
        E.models["shapely.ops.unary_union"] = lambda E, g: self.same(g, s, Opaque("union", attrs={"boundary": outline}))
        E.models["shapely.prepared.prep"] = lambda E, g: self.same(g, outline, Opaque("prepared", attrs={"intersects": meets}))
        E.models["shapely.strtree.STRtree"] = lambda E, g: self.tree(g)
        E.models["warnings.warn"] = lambda E, *a, **k: None

    def same(self, g, want, r):
        if self.E.force(g) is not want:
            raise Unsupported("other geometries")
        return r

    def graph(self, adj):
        """the graph networkx makes of the (symmetric) adjacency of this layer"""
        E = self.E
        E.trusted.add("networkx.Graph(dict of dicts): the keys are the nodes, the entries the edges with their attributes")
        g = MG(E, A, lambda x: self.N(x), lambda x, y: And(self.N(x), self.N(y), x != y, adj(x, y)), "graph")
        m = g.ea["shared_perim"]
        E.heap[m.loc] = MapC(g.psort, lambda p: E.content(g.adj).mem(p), lambda p: self.len(core.simp_acc(p, 0), core.simp_acc(p, 1)))
        return g

    def tree(self, g):
        if g is not self.series:
            raise Unsupported("tree of other geometries")

        def query(E, g):
            i = E.force(g).node
            return E.alloc(SetC(I, lambda p: self.cand(i, p)))
        return Opaque("STRtree", attrs={"query": PyFn(query)})

    def geo(self, i):
        i = enc(i, A)
        o = Opaque("polygon", eqkey=i, attrs={})
        o.node = i
        o.attrs["is_empty"] = self.emp(i)
        o.attrs["boundary"] = Opaque("boundary", attrs={"length": self.perim(i)})
        o.attrs["intersection"] = PyFn(lambda E, g: self.meet(i, E.force(g).node))
        o.resubst = lambda E, sub: self.geo(z3.substitute(i, *sub))
        return o

    def meet(self, i, j):
        o = Opaque("intersection", attrs={"is_empty": Not(self.touch(i, j)), "length": self.len(i, j), "area": self.over(i, j)})
        o.resubst = lambda E, sub: self.meet(z3.substitute(i, *sub), z3.substitute(j, *sub))
        return o


def adjacency(kind):
    def spec(E):
        w = Layer(E)
        df = Opaque("GeoDataFrame", attrs={"geometry": w.series})
        r = call(E, AD + "neighbors", df, kind)
        m = E.as_map(E.content(E.force(r)))
        i, j = E.bvars([A, A], "r")
        E.ensure("one entry per polygon", ForAll([i], zbool(E.map_dom(m, i)) == w.N(i)))
        inner = m.get0(i)
        s = E.as_map(inner if isinstance(inner, Content) else E.content(E.force(inner)))
        adj = And(w.N(j), i != j, w.touch(i, j) if kind == "queen" else w.len(i, j) > 0)
        what = "that meet" if kind == "queen" else "sharing a border of positive length"
        E.ensure("neighbours are exactly the other polygons " + what, ForAll([i, j], Implies(w.N(i), zbool(E.map_dom(s, j)) == adj)))
        d = s.get0(j)
        E.ensure("with the shared length", ForAll([i, j], Implies(And(w.N(i), adj), num(E.getitem(d, "shared_perim")) == w.len(i, j))))
    return spec


def other(E):
    w = Layer(E)
    df = Opaque("GeoDataFrame", attrs={"geometry": w.series})
    exc, _ = raises(E, lambda: call(E, AD + "neighbors", df, "bishop"))
    E.ensure("an unknown adjacency is refused with ValueError", exc is ValueError)


def boundary(E, w, g, adj):
    n, x = E.bvars([A, A], "n")
    d, v = g.value(g.na, "boundary_node", n)
    E.ensure("boundary nodes are the polygons on the outline", Implies(w.N(n), And(d, truth(E, v) == w.outer(n))))
    d, v = g.value(g.na, "boundary_perim", n)
    shared = E.sum([x], And(w.N(n), w.N(x), n != x, adj(n, x)), w.len(n, x))
    E.ensure("their boundary length is the perimeter minus the shared lengths", Implies(And(w.N(n), w.outer(n)), And(d, num(v) == w.perim(n) - shared)))


def truth(E, v):
    return zbool(v)


def perimeters(E):
    w = Layer(E)
    adj = z3.Function("adjacent", A, A, B)
    a, b = E.bvars([A, A], "s")
    E.assume(ForAll([a, b], adj(a, b) == adj(b, a)))
    g = w.graph(adj)
    call(E, GR + "add_boundary_perimeters", g.ref, w.series)
    boundary(E, w, g, adj)


def building(kind, ignore):
    """Graph.from_geodataframe against the contract of neighbors (proved below) and of add_data (C24)"""
    def spec(E):
        w = Layer(E)
        adj = (lambda a, b: w.touch(a, b)) if kind == "queen" else (lambda a, b: w.len(a, b) > 0)
        table, log, out = Opaque("adjacency"), [], []
        crs = z3.Bool("has_crs")
        df = Opaque("GeoDataFrame", attrs={"geometry": w.series, "crs": lambda E: Opaque("crs", tags=("closed",), attrs={"to_json": PyFn(lambda E: "crs")}) if E.branch(crs) else None,
                                           "set_crs": PyFn(lambda E, c, inplace=False: None)})

        def neighbors(E, d, a):
            E.ensure("adjacency of the given layer, of the given kind", E.force(d) is df and E.force(a) == kind)
            return table
        E.contracts[AD + "neighbors"] = neighbors
        bad = z3.Bool("some_polygon_is_invalid")
        E.contracts["gerrychain.graph.geo:invalid_geometries"] = lambda E, d: E.alloc(ListC([z3.Const("bad_row", A)] if E.branch(bad) else []))

        def cls(E, t=None):
            if E.force(t) is not table:
                raise Unsupported("graph of something else")
            g = w.graph(adj)
            at = g.ref.attrs
            at["setattr"] = lambda E, k, v: log.append((k, v))
            at["issue_warnings"] = PyFn(lambda E: None)
            at["add_data"] = PyFn(lambda E, d, columns=None: log.append(("add_data", E.force(d), columns)))
            at["graph"] = E.alloc(RecC({}))
            out.append(g)
            return g.ref
        f = E.class_attr(imp(E, GR + "Graph"), "from_geodataframe")
        cols = E.alloc(ListC(["A", "B"]))
        exc, r = raises(E, lambda: E.apply(getattr(f, "fn", f), [PyFn(cls), df, kind], {"cols_to_add": cols, "ignore_errors": ignore}))
        if exc is not None:
            E.ensure("refused only for invalid polygons", And(bad, not ignore))
            E.ensure("refused with GeometryError", getattr(exc, "name", getattr(exc, "__name__", "")) == "GeometryError")
            return
        if not ignore:
            E.ensure("invalid polygons are refused", Not(bad))
        E.ensure("one graph is built and returned", len(out) == 1 and E.force(r) is out[0].ref)
        g = out[0]
        n, x = E.bvars([A, A], "n")
        E.ensure("the nodes are the polygons", g.N(n) == w.N(n))
        d, v = g.value(g.na, "area", n)
        E.ensure("each node's area is its polygon's", Implies(w.N(n), And(d, num(v) == w.area(n))))
        boundary(E, w, g, adj)
        d, v = g.value(g.ea, "shared_perim", g.norm(n, x))
        E.ensure("edges keep their shared length", Implies(And(w.N(n), w.N(x), n != x, adj(n, x)), And(g.J(n, x), d, num(v) == w.len(n, x))))
        E.ensure("the layer's columns are added", [x for x in log if x[0] == "add_data"] == [("add_data", df, cols)])
        E.ensure("the geometries are kept", any(x[0] == "geometry" and E.force(x[1]) is w.series for x in log))
    return spec


SPECS = [("Graph.from_geodataframe (%s%s)" % (k, ", errors ignored" if i else ""), building(k, i)) for k in ("queen", "rook") for i in (False, True)]
SPECS += [("add_boundary_perimeters", perimeters), ("queen adjacency", adjacency("queen")), ("rook adjacency", adjacency("rook")), ("other adjacencies", other)]
META = {"bounded": ["shapely geometry itself: the numbers of real polygon layers"]}
