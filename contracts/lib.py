"""shared vocabulary of the contracts"""
import z3
from pyvc.core import *
from pyvc.core import AccPath
from pyvc import core
from pyvc.interp import ClassV, Closure, ExtV, ExcV, Bound, EnumMember, NTClass, PartialV
from pyvc.methods import Verifier, MODELS


def imp(E, path):
    mod, _, nm = path.partition(":")
    m = E.module(mod)
    if m is None:
        raise Unsupported("module %s is gone" % mod)
    parts = nm.split(".")
    v = E.lookup_global(m, parts[0])
    if v is None:
        raise Unsupported("%s is gone" % path)
    for p in parts[1:]:
        v = E.getattr(v, p)
    return v


def call(E, path, *args, **kw):
    return E.call(imp(E, path), list(args), kw)


def raises(E, thunk):
    """(exception class or None, value) of the call on this path"""
    try:
        return None, thunk()
    except PyRaise as p:
        return p.exc.cls, None


def exc_name(c):
    return c.name if isinstance(c, ClassV) else getattr(c, "__name__", str(c))


def truth(E, v):
    return zbool(E.truth(v))


def label(E, name):
    return z3.Const(name, A)


def fset(E, name, sort=A):
    """arbitrary finite set as membership predicate"""
    f = z3.Function(name, sort, B)
    return SetC(sort, lambda x: f(x))


def plan(name, **items):
    """an arbitrary plan, known only through the named updater values"""
    return Opaque(name, tags=("Partition",), attrs={"getitem": lambda E, k: items[k], **{k: v for k, v in items.items()}})


def real_map(name, dom=None, sort=A, rs=R):
    d = dom if dom is not None else z3.Function(name + "_dom", sort, B)
    v = z3.Function(name, sort, rs)
    return MapC(sort, lambda k: d(k), lambda k: v(k)), d, v


def const_fn(f, name="func"):
    return PyFn(f, name)


# ---------------------------------------------------------------- graphs and plans
class G:
    """an arbitrary finite simple undirected graph (assumed contract of networkx.Graph queries)"""

    def __init__(self, E, name="g", loops=False):
        self.E, self.name = E, name
        self.N = z3.Function(name + "_node", A, B)
        self.adj = z3.Function(name + "_adj", A, A, B)
        self.ori = z3.Function(name + "_ori", A, A, B)
        self.attrs = {}
        a, b = E.bvars([A, A], "g")
        E.assume(z3.ForAll([a, b], z3.Implies(self.adj(a, b), z3.And(self.adj(b, a), self.N(a), self.N(b), a != b)), patterns=[self.adj(a, b)]))
        E.assume(z3.ForAll([a, b], z3.Implies(self.adj(a, b), z3.Xor(self.ori(a, b), self.ori(b, a))), patterns=[self.ori(a, b)]))
        E.assume(z3.Exists([a], self.N(a)))
        E.trusted.add("networkx.Graph: nodes, edges (each once, either orientation), neighbors, attribute access; simple graphs without self-loops")
        self.anyattr = None
        self.build()

    def build(self):
        E = self.E
        self.fz = None
        self.own = E.alloc(RecC({}))
        self.ref = Opaque(self.name, tags=("Graph", "not str"), attrs={}, items=None)
        self.ref.G = self
        self.ref.items = SetC(A, lambda x: self.N(x))
        at = self.ref.attrs
        at["nodes"] = lambda E: self.nodes_view()
        at["node_indices"] = lambda E: E.alloc(SetC(A, lambda x: self.N(x)))
        at["edges"] = lambda E: self.edges_view()
        at["edge_indices"] = lambda E: E.alloc(SetC(PAIR, lambda e: self.edge(e)))
        at["neighbors"] = PyFn(lambda E, n: self.neighbors(n))
        at["getitem"] = lambda E, n: MapC(A, lambda x: And(self.adj(enc(n, A), x)), lambda x: self.edge_attrs(enc(n, A), x))
        at["contains"] = lambda E, n: And(self.N(enc(n, A)))
        at["len"] = lambda E: E.sum([E.bvars([A], "l")[0]][:1], True, z3.IntVal(1)) if False else self.size()
        at["number_of_nodes"] = PyFn(lambda E: self.size())
        at["degree"] = PyFn(lambda E, n: self.degree(n))
        at["lookup"] = PyFn(lambda E, n, k: E.getitem(self.node_attrs(self.need(n)), k))
        at["subgraph"] = PyFn(lambda E, s: self.subgraph(s))
        at["setattr"] = self.put_own
        for k in ("join", "add_data", "frozen"):
            at[k] = (lambda k: lambda E: self.get_own(k))(k)

    def put_own(self, E, name, v):
        """attributes set on the graph object itself (FrozenGraph replaces join and add_data)"""
        if name not in ("join", "add_data", "frozen"):
            raise Unsupported("attribute assignment on a graph")
        E.heap[self.own.loc] = RecC({**E.heap[self.own.loc].d, name: v})

    def get_own(self, k):
        d = self.E.heap[self.own.loc].d
        if k not in d:
            raise Unsupported("graph.%s" % k)
        return d[k]

    def frozen(self):
        """the graph as a FrozenGraph (contract of FrozenGraph: answers like the graph it wraps, C24)"""
        E = self.E
        if self.fz is None or self.fz.loc not in E.heap:
            self.fz = E.alloc(ObjC(imp(E, "gerrychain.graph.graph:FrozenGraph"), {"graph": self.ref, "size": self.size()}))
        return self.fz

    def size(self):
        x = self.E.bvars([A], "l")[0]
        return self.E.sum([x], self.N(x), z3.IntVal(1))

    def edge(self, e):
        return And(self.adj(p0(e), p1(e)), self.ori(p0(e), p1(e)))

    def need(self, n):
        E = self.E
        n = enc(n, A)
        if not E.branch(self.N(n)):
            raise PyRaise(ExcV(KeyError))
        return n

    def attr(self, key, rs=R, nan=False, total=True):
        f = z3.Function("%s_attr_%s" % (self.name, key), A, rs)
        if nan:
            g = z3.Function("%s_nan_%s" % (self.name, key), A, B)
            self.attrs[key] = lambda n: NanNum(g(n), f(n))
            return f, g
        self.attrs[key] = lambda n: f(n)
        return f

    def node_attrs(self, n):
        def get(E, k):
            if not isinstance(k, CONCRETE):
                if self.anyattr is None:
                    raise Unsupported("attribute %r" % (k,))
                return self.anyattr(n, enc(k, A))
            if k not in self.attrs:
                raise Unsupported("attribute %r" % (k,))
            return self.attrs[k](n)

        def contains(E, k):
            if k not in self.attrs:
                raise Unsupported("attribute %r" % (k,))
            return True
        o = Opaque("attributes", attrs={"getitem": get, "contains": contains, "get": PyFn(lambda E, k, d=None: get(E, k)),
                                        "keys": PyFn(lambda E: Opaque("attribute names", attrs={"contains": contains}))})
        o.resubst = lambda E, sub: self.node_attrs(z3.substitute(n, *sub))
        return o

    def node_data(self, data):
        """nodes(data=...): pairs of a node and its attributes, or one attribute"""
        if data is False:
            return self.nodes_view()
        if data is not True and data not in self.attrs:
            return self.E.no_order("nodes(data)")
        val = (lambda x: self.node_attrs(x)) if data is True else (lambda x: self.attrs[data](x))
        return BagC([Iter([A], lambda bs: (self.N(bs[0]), Tup([bs[0], val(bs[0])])), distinct=True)])

    def edge_attrs(self, a, b):
        def get(E, k):
            if ("edge", k) not in self.attrs:
                raise Unsupported("edge attribute %r" % (k,))
            return self.attrs[("edge", k)](a, b)
        return Opaque("edge attributes", attrs={"getitem": get, "get": PyFn(lambda E, k, d=None: get(E, k))})

    def edge_attr(self, key, rs=R):
        f = z3.Function("%s_eattr_%s" % (self.name, key), A, A, rs)
        a, b = self.E.bvars([A, A], "ea")
        self.E.assume(z3.ForAll([a, b], f(a, b) == f(b, a), patterns=[f(a, b)]))
        self.attrs[("edge", key)] = lambda a, b: f(a, b)
        return f

    def nodes_view(self):
        E = self.E
        v = Opaque("nodes", items=SetC(A, lambda x: self.N(x)))
        v.order = self
        v.attrs["getitem"] = lambda E, n: self.node_attrs(self.need(n))
        v.attrs["contains"] = lambda E, n: self.N(enc(n, A))
        v.attrs["len"] = lambda E: self.size()
        v.call = lambda E, data=False: v if data is False else self.node_data(data)
        return v

    def edges_view(self):
        E = self.E
        v = Opaque("edges", items=SetC(PAIR, lambda e: self.edge(e)))

        def get(E, e):
            a, b = E.unpack(e, 2)
            a, b = enc(a, A), enc(b, A)
            if not E.branch(self.adj(a, b)):
                raise PyRaise(ExcV(KeyError))
            return self.edge_attrs(a, b)
        v.attrs["getitem"] = get

        def contains(E, e):
            a, b = E.unpack(e, 2)
            return self.adj(enc(a, A), enc(b, A))
        v.attrs["contains"] = contains
        v.attrs["len"] = lambda E: E.length(SetC(PAIR, lambda e: self.edge(e)))
        return v

    def neighbors(self, n):
        n = self.need(n)
        return BagC([Iter([A], lambda bs: (self.adj(n, bs[0]), bs[0]), distinct=True)])

    def degree(self, n):
        n = self.need(n)
        x = self.E.bvars([A], "d")[0]
        return self.E.sum([x], self.adj(n, x), z3.IntVal(1))

    def subgraph(self, s):
        m = self.E.to_set(s)
        return SubG(self, lambda x: zbool(m.mem(x)) if m.sort is not None else z3.BoolVal(False)).ref


class SubG(G):
    """the subgraph induced by a set of nodes (networkx: nodes not in the graph are ignored)"""

    def __init__(self, g, mem):
        self.E, self.name, self.base = g.E, g.name, g
        self.N = lambda x: And(g.N(x), mem(x))
        self.adj = lambda a, b: And(g.adj(a, b), mem(a), mem(b))
        self.ori = g.ori
        self.attrs, self.anyattr = g.attrs, g.anyattr
        self.E.trusted.add("networkx subgraph: the graph induced by the given nodes, sharing attributes")
        self.build()


def graph_of(v):
    if not hasattr(v, "G"):
        raise Unsupported("not a graph")
    return v.G


def freeze(E, g):
    G_ = graph_of(g)
    G_.put_own(E, "frozen", True)
    E.trusted.add("networkx freeze: returns the graph itself, with the methods that modify it replaced by ones that raise")
    return g


MODELS["networkx.classes.function.freeze"] = freeze
MODELS["networkx.freeze"] = freeze


PART = "gerrychain.partition.partition:Partition"
ASG = "gerrychain.partition.assignment:Assignment"
EMPTY_SET = SetC(None, lambda y: z3.BoolVal(False))


def tup2(a, b):
    return core.mkpair(a, b)


def spair(a, b):
    """the pair (a, b) as the code stores it: smaller label first"""
    return z3.If(lt(b, a), tup2(b, a), tup2(a, b))


class P:
    """an arbitrary plan satisfying the class invariant of Partition"""

    def __init__(self, E, g, name="p", cls=PART, parent=None, **fields):
        self.E, self.g, self.name = E, g, name
        self.D = z3.Function(name + "_district", A, B)
        self.asg = z3.Function(name + "_asg", A, A)
        n, k = E.bvars([A, A], "i")
        E.assume(z3.ForAll([n], z3.Implies(g.N(n), self.D(self.asg(n))), patterns=[self.asg(n)]))
        self.parts = E.alloc(MapC(A, lambda k: self.D(k), lambda k: SetC(A, lambda x: And(g.N(x), self.asg(x) == k), True)))
        self.mapping = E.alloc(MapC(A, lambda x: g.N(x), lambda x: self.asg(x)))
        self.assignment = E.alloc(ObjC(imp(E, ASG), {"parts": self.parts, "mapping": self.mapping}))
        self.cache = E.alloc(RecC({}))
        self.updaters = E.alloc(RecC({}))
        f = {"graph": g.frozen(), "assignment": self.assignment, "updaters": self.updaters, "parent": parent, "flips": None, "flows": None, "edge_flows": None,
             "_cache": self.cache, "subgraphs": Opaque("subgraphs")}
        f.update(fields)
        self.ref = E.alloc(ObjC(imp(E, cls), f))

    def register(self, key, fn=None):
        """an updater registered on the plan (the repo's own default updater unless given)"""
        E = self.E
        if fn is None:
            fn = E.getitem(E.getattr(imp(E, PART), "default_updaters"), key)
        c = E.heap[self.updaters.loc]
        E.heap[self.updaters.loc] = RecC({**c.d, key: fn})
        return fn

    def put(self, key, v):
        """what the plan answers for an updater"""
        E = self.E
        r = E.alloc(v) if isinstance(v, Content) else v
        c = E.heap[self.cache.loc]
        E.heap[self.cache.loc] = RecC({**c.d, key: r})
        return r


def class_inv(E, g, part):
    """the class invariant of a Partition object, as obligations; returns its assignment as a function"""
    asg = E.getattr(part, "assignment")
    parts = E.as_map(E.content(E.getattr(asg, "parts")))
    mp = E.as_map(E.content(E.getattr(asg, "mapping")))
    n, k = E.bvars([A, A], "ci")
    E.ensure("the mapping covers exactly the graph's nodes", ForAll([n], zbool(E.map_dom(mp, n)) == g.N(n)))
    mv = lambda x: enc(E.map_getd(mp, x), A)
    E.ensure("every node's district is a key of parts", ForAll([n], Implies(g.N(n), E.map_dom(parts, mv(n)))))
    s = E.map_getd(parts, k)
    s = s if isinstance(s, SetC) else E.content(E.force(s))
    E.ensure("parts[d] is exactly the set of nodes mapped to d", ForAll([k, n], Implies(E.map_dom(parts, k), zbool(s.mem(n)) == And(g.N(n), mv(n) == k))))
    return mv, parts


class Flip:
    """an arbitrary flip dictionary: nodes of the graph to districts of the plan"""

    def __init__(self, E, p, name="flip", existing=True):
        self.F = z3.Function(name + "_dom", A, B)
        self.to = z3.Function(name + "_to", A, A)
        n = E.bvars([A], "f")[0]
        E.assume(z3.ForAll([n], z3.Implies(self.F(n), p.g.N(n)), patterns=[self.F(n)]))
        E.assume(z3.ForAll([n], z3.Implies(self.F(n), p.D(self.to(n))), patterns=[self.to(n)]))
        self.map = E.alloc(MapC(A, lambda x: self.F(x), lambda x: self.to(x)))
        self.new = lambda x: z3.If(self.F(x), self.to(x), p.asg(x))


class Snapshot:
    """frame condition: everything reachable from the roots keeps its value"""

    def __init__(self, E, *roots):
        self.E, self.locs = E, {}
        for r in roots:
            self.walk(r)

    def walk(self, v):
        E = self.E
        if isinstance(v, Ref):
            if v.loc in self.locs:
                return
            c = E.heap[v.loc]
            self.locs[v.loc] = c
            self.walk(c)
        elif isinstance(v, ObjC):
            for x in v.fields.values():
                self.walk(x)
        elif isinstance(v, RecC):
            for x in v.d.values():
                self.walk(x)
        elif isinstance(v, (ListC, Tup)):
            for x in v.items:
                self.walk(x)
        elif isinstance(v, PathRef):
            self.walk(Ref(v.loc))

    def same(self, a, b):
        """semantic equality of two contents or values"""
        E = self.E
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return z3.BoolVal(a.loc == b.loc)
        if isinstance(a, CONCRETE) and isinstance(b, CONCRETE):
            return z3.BoolVal(type(a) == type(b) and a == b)
        if is_z(a) or is_z(b):
            return zbool(E.equal(a, b))
        if isinstance(a, SetC) and isinstance(b, SetC):
            s = so(a.sort, b.sort)
            if s is None:
                return z3.BoolVal(True)
            x = E.bvars([s], "s")[0]
            return ForAll([x], zbool(a.mem(x)) == zbool(b.mem(x)))
        if isinstance(a, (MapC, RecC)) and isinstance(b, (MapC, RecC)):
            if isinstance(a, RecC) and isinstance(b, RecC):
                if list(a.d) != list(b.d) and not (a.default is not None and all(k in b.d for k in a.d)):
                    return z3.BoolVal(False)
                return And(*[self.same(a.d[k], b.d[k]) for k in a.d])
            ma, mb = E.as_map(a), E.as_map(b)
            s = so(ma.ksort, mb.ksort)
            if s is None:
                return z3.BoolVal(True)
            k = E.bvars([s], "k")[0]
            da, db = zbool(E.map_dom(ma, k)), zbool(E.map_dom(mb, k))
            dom = da == db if a.default is None else Implies(da, db)
            return ForAll([k], And(dom, Implies(da, self.same(E.map_getd(ma, k), E.map_getd(mb, k)))))
        if isinstance(a, ObjC) and isinstance(b, ObjC):
            if a.cls is not b.cls or not set(a.fields) <= set(b.fields):
                return z3.BoolVal(False)
            return And(*[self.same(a.fields[k], b.fields[k]) for k in a.fields])
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return And(*[self.same(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, NanNum) and isinstance(b, NanNum):
            return And(a.nan == b.nan, Or(a.nan, a.val == b.val))
        if isinstance(a, ChoiceV) and isinstance(b, ChoiceV) and a.c.eq(b.c):
            return And(self.same(a.a, b.a), self.same(a.b, b.b))
        raise Unsupported("frame comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def check(self, what, grow=()):
        """one obligation: no location reachable before has changed (caches named in grow may gain entries)"""
        E = self.E
        cs = []
        for loc, c in self.locs.items():
            n = E.heap[loc]
            if n is c:
                continue
            if loc in grow and isinstance(c, RecC) and isinstance(n, RecC):
                cs.append(And(*[self.same(c.d[k], n.d[k]) if k in n.d else z3.BoolVal(False) for k in c.d]))
            else:
                cs.append(self.same(c, n))
        E.ensure(what, And(*cs))


def flip_child(E, g, p, f, cut=True):
    """executes the real flip, proves what it yields (the contract of Partition.flip) and continues from that contract"""
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    if cut:
        cut_child(E, g, p, f, child)
    return child


def cut_child(E, g, p, f, child):
    asg = E.getattr(child, "assignment")
    pr, mr = E.getattr(asg, "parts"), E.getattr(asg, "mapping")
    parts, mp = E.as_map(E.content(pr)), E.as_map(E.content(mr))
    n, k = E.bvars([A, A], "fc")
    mv = lambda x: enc(E.map_getd(mp, x), A)
    E.ensure("flip: the mapping is the old one with the flips applied", And(ForAll([n], zbool(E.map_dom(mp, n)) == g.N(n)), ForAll([n], Implies(g.N(n), mv(n) == f.new(n)))))
    s = E.map_getd(parts, k)
    s = s if isinstance(s, SetC) else E.content(E.force(s))
    E.ensure("flip: the districts are exact", And(ForAll([k], zbool(E.map_dom(parts, k)) == p.D(k)), ForAll([k, n], Implies(p.D(k), zbool(s.mem(n)) == And(g.N(n), f.new(n) == k)))))
    if not (isinstance(pr, Ref) and isinstance(mr, Ref)) or p.parts.loc == pr.loc or p.mapping.loc == mr.loc:
        E.ensure("flip: parts and mapping are the new plan's own", False)
    new = z3.Function(p.name + "_new", A, A)
    E.assume(z3.ForAll([n], Implies(g.N(n), And(new(n) == f.new(n), p.D(new(n)))), patterns=[new(n)]))
    f.fn = new
    E.heap[mr.loc] = MapC(A, lambda x: g.N(x), lambda x: new(x))
    E.heap[pr.loc] = MapC(A, lambda k: p.D(k), lambda k: SetC(A, lambda x: And(g.N(x), new(x) == k), True))
    return new


def least(E, mem, key, sort=A):
    """a finite non-empty set has an element with least key"""
    E.trusted.add("lemma: a non-empty finite set has an element of least key")
    m, x = E.fresh("least", sort), E.bvars([sort], "x")[0]
    E.assume(Implies(Exists([x], mem(x)), And(mem(m), ForAll([x], Implies(mem(x), key(m) <= key(x))))))
    return m


# ---------------------------------------------------------------- signatures
def params(E, f):
    if isinstance(f, PartialV):
        return [p for p in params(E, f.fn)[len(f.args):]]
    if isinstance(f, Bound):
        return params(E, f.fn)[1:]
    if isinstance(f, Closure):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if isinstance(f, PyFn) and "params" in f.attrs:
        return f.attrs["params"]
    raise Unsupported("signature of %r" % (f,))


MODELS["inspect.signature"] = lambda E, f: Opaque("signature", attrs={"parameters": E.alloc(RecC({p: p for p in params(E, E.force(f))}))})
