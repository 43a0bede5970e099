from .lib import *
from .graphs import *

GR = "gerrychain.grid:"
x0, x1 = (lambda p: core.simp_acc(p, 0)), (lambda p: core.simp_acc(p, 1))


def dims(E):
    m, n = z3.Ints("m n")
    E.assume(And(m >= 1, n >= 1))
    return m, n


def geometry(E, g, m, n, diag):
    """obligations: the graph is the m-by-n grid"""
    p, q = z3.Consts("p q", I2)
    cell = lambda p: And(0 <= x0(p), x0(p) < m, 0 <= x1(p), x1(p) < n)
    near = lambda a, b: And(a - b <= 1, b - a <= 1)
    side = lambda p, q: And(cell(p), cell(q), p != q, Or(And(x0(p) == x0(q), near(x1(p), x1(q))), And(x1(p) == x1(q), near(x0(p), x0(q)))))
    corner = lambda p, q: And(cell(p), cell(q), x0(p) != x0(q), x1(p) != x1(q), near(x0(p), x0(q)), near(x1(p), x1(q)))
    E.ensure("the nodes are exactly the cells", g.N(p) == cell(p))
    E.ensure("the edges are exactly the shared sides, and corners if requested", g.J(p, q) == Or(side(p, q), And(diag, corner(p, q))))
    k = g.norm(p, q)
    d, v = g.value(g.ea, "shared_perim", k)
    E.ensure("a shared side has length 1", Implies(side(p, q), And(d, num(v) == 1)))
    E.ensure("a shared corner has length 0", Implies(And(diag, corner(p, q)), And(d, num(v) == 0)))
    for a in ("population", "area"):
        d, v = g.value(g.na, a, p)
        E.ensure("unit %s" % a, Implies(cell(p), And(d, num(v) == 1)))
    one = lambda c: z3.If(c, 1, 0)
    outer = one(x0(p) == 0) + one(x0(p) == m - 1) + one(x1(p) == 0) + one(x1(p) == n - 1)
    d, v = g.value(g.na, "boundary_node", p)
    E.ensure("outer cells, and only they, are boundary nodes", Implies(cell(p), And(d, truth(E, v) == (outer > 0))))
    d, v = g.value(g.na, "boundary_perim", p)
    E.ensure("an outer cell's boundary length is the number of its outer sides", Implies(And(cell(p), outer > 0), And(d, num(v) == outer)))
    E.ensure("an inner cell has no boundary length", Implies(And(cell(p), outer == 0, d), num(v) == 0))


def create(E):
    m, n = dims(E)
    diag = z3.Bool("with_diagonals")
    g = call(E, GR + "create_grid_graph", Tup([m, n]), diag)
    geometry(E, of(E, g), m, n, diag)


class Capture:
    """contract of Partition.__init__ (C01, C03): here only which arguments it gets"""

    def __init__(self, E):
        self.got = []

        def init(E, self_, graph=None, assignment=None, updaters=None, parent=None, flips=None, use_default_updaters=True):
            self.got.append(dict(self=self_, graph=graph, assignment=assignment, updaters=updaters, parent=parent, flips=flips))
        E.contracts[PART + ".__init__"] = init
        E.contracts["gerrychain.graph.graph:Graph.from_networkx"] = lambda E, *a: a[-1]
        E.trusted.add("Graph.from_networkx: a graph with the same nodes, edges and attributes (networkx copy)")


def new_plan(given, upd):
    def spec(E):
        m, n = dims(E)
        diag = z3.Bool("with_diagonals")
        cap = Capture(E)
        kw = {}
        f = z3.Function("given", I2, A)
        dom = z3.Function("given_dom", I2, B)
        if given == "map":
            p = E.bvars([I2], "p")[0]
            E.assume(Exists([p], dom(p)))
            kw["assignment"] = E.alloc(MapC(I2, lambda k: dom(k), lambda k: f(k)))
        elif given == "empty":
            kw["assignment"] = E.alloc(RecC({}))
        mine = PyFn(lambda E, p: Opaque("mine"), "mine")
        if upd:
            kw["updaters"] = E.alloc(RecC({"mine": mine}))
        snap = Snapshot(E, *kw.values())
        cls = imp(E, GR + "Grid")
        defaults = E.content(E.getattr(cls, "default_updaters"))
        r = E.call(cls, [Tup([m, n]), diag], kw)
        E.ensure("one plan is built, from scratch", len(cap.got) == 1 and cap.got[0]["self"].loc == r.loc and cap.got[0]["parent"] is None and cap.got[0]["flips"] is None)
        got = cap.got[0]
        a, b = E.unpack(E.getattr(r, "dimensions"), 2)
        E.ensure("the dimensions are kept", And(num(a) == m, num(b) == n))
        g = of(E, got["graph"])
        geometry(E, g, m, n, diag)
        p = z3.Const("p", I2)
        mp = E.as_map(E.content(got["assignment"]))
        if given == "map":
            E.ensure("the caller's assignment is used", And(zbool(E.map_dom(mp, p)) == dom(p), Implies(dom(p), E.map_getd(mp, p) == f(p))))
        else:
            E.ensure("every cell gets a colour", zbool(E.map_dom(mp, p)) == g.N(p))
            hm, hn = z3.Ints("half_m half_n")
            E.assume(And(2 * hm <= m, m <= 2 * hm + 1, 2 * hn <= n, n <= 2 * hn + 1))
            want = z3.If(x0(p) < hm, 0, 1) + z3.If(x1(p) < hn, 0, 2)
            E.ensure("coloured by quadrants", Implies(g.N(p), num(E.map_getd(mp, p)) == want))
        u = E.content(got["updaters"])
        want = dict(defaults.d, **({"mine": mine} if upd else {}))
        E.ensure("the grid's own updaters and the caller's are used", isinstance(u, RecC) and all(u.d.get(k) is v for k, v in want.items()) and set(u.d) == set(want))
        snap.check("the caller's arguments are not modified")
    return spec


def bad_dims(E):
    exc, r = raises(E, lambda: call(E, GR + "create_grid_graph", Tup([1, 2, 3]), False))
    E.ensure("other than two dimensions are refused with ValueError", exc is not None and exc_name(exc) == "ValueError")


def flipped(E):
    """flip of a Grid: executes Partition.flip and Grid.__init__"""
    m, n = dims(E)
    cap = Capture(E)
    cls = imp(E, GR + "Grid")
    d = Tup([m, n])
    D = z3.Function("district", A, B)
    E.assume(Exists([z3.Const("k", A)], D(z3.Const("k", A))))
    parts = E.alloc(MapC(A, lambda k: D(k), lambda k: SetC(I2, lambda x: z3.BoolVal(True), True)))
    old = E.alloc(ObjC(cls, {"dimensions": d, "assignment": E.alloc(ObjC(imp(E, ASG), {"parts": parts, "mapping": Opaque("mapping")}))}))
    flips = E.alloc(MapC(I2, z3.Function("flip_dom", I2, B), z3.Function("flip_to", I2, A)))
    snap = Snapshot(E, old, flips)
    r = E.call(E.getattr(old, "flip"), [flips], {})
    E.ensure("a new grid plan", isinstance(r, Ref) and r.loc != old.loc and E.content(r).cls.qual == cls.qual)
    a, b = E.unpack(E.getattr(r, "dimensions"), 2)
    E.ensure("a flip keeps the dimensions", And(num(a) == m, num(b) == n))
    g = cap.got
    E.ensure("the plan is built from its parent and the flips", len(g) == 1 and g[0]["self"].loc == r.loc and isinstance(g[0]["parent"], Ref) and g[0]["parent"].loc == old.loc and isinstance(g[0]["flips"], Ref) and g[0]["flips"].loc == flips.loc)
    snap.check("the old plan is not changed")


SPECS = [("create_grid_graph", create), ("create_grid_graph (wrong dimensions)", bad_dims), ("Grid()", new_plan(None, False)), ("Grid(assignment={})", new_plan("empty", False)),
         ("Grid(assignment, updaters)", new_plan("map", True)), ("Grid.flip", flipped)]
META = {}
