from .c15 import *

CONN = "definition: a node set is connected when it has a node a such that every other node of it has an adjacent parent in the set of smaller depth (a spanning tree rooted at a)"
SPAN = "networkx minimum_spanning_tree of a connected graph: a tree on all its nodes whose edges are edges of the graph, edge attributes kept"


class World:
    """a connected graph with populations, and what the callees of the bipartition routines promise (C15, the spanning trees below)"""

    def __init__(self, E, uniform=False):
        self.E = E
        self.g = g = a_graph(E, "graph")
        self.pop = z3.Function("pop", A, R)
        g.attr(g.na, "POP", A)
        E.heap[g.na["POP"].loc] = MapC(A, lambda x: g.N(x), lambda x: self.pop(x))
        self.target, self.eps = z3.Reals("target epsilon")
        self.one = z3.Bool("one_sided")
        self.trees = {}
        self.used = None
        self.surcharge = None
        x, y, z = E.bvars([A, A, A], "x")
        E.trusted.add("precondition: a connected graph of at least three nodes (so some node of every spanning tree has two neighbors)")

    def within(self, p):
        return z3.And(p - self.target <= self.target * self.eps, self.target - p <= self.target * self.eps)

    def tree(self, nm="tree"):
        """an arbitrary spanning tree of the graph"""
        E, g = self.E, self.g
        j = z3.Function("%s!%d" % (nm, E.uid()), A, A, B)
        x, y = E.bvars([A, A], "t")
        E.assume(z3.ForAll([x, y], Implies(j(x, y), And(j(y, x), g.N(x), g.N(y), x != y, g.J(x, y))), patterns=[j(x, y)]))
        t = MG(E, A, lambda x: g.N(x), lambda a, b: j(a, b), nm)
        t.JJ = j
        self.trees[id(t)] = t
        return t

    def span(self, region):
        def f(E, graph, region_surcharge=None, **kw):
            E.ensure("the spanning tree is drawn from the graph itself", graph is self.g.ref)
            if region:
                E.ensure("the spanning tree is drawn with the given surcharges", region_surcharge is self.surcharge)
            return self.tree().ref
        return f

    def cuts(self, sided):
        """contract of the balanced-cut searches (C15)"""
        def f(E, h, one_sided_cut=False, choice=None):
            c = E.content(h)
            gr = E.getattr(h, "graph")
            t = self.trees.get(id(getattr(gr, "mg", None)))
            E.ensure("the search gets a spanning tree of the graph", t is not None)
            if t is None:
                raise Infeasible()
            x = z3.Const("px!%d" % E.uid(), A)
            pm = E.as_map(E.content(E.getattr(h, "population")))
            tot = E.sum([x], self.g.N(x), self.pop(x))
            E.ensure("the search gets the graph's populations", And(zbool(E.map_dom(pm, x)) == self.g.N(x), Implies(self.g.N(x), rval(E, pm, x) == self.pop(x))))
            E.ensure("the search gets the total population", real(num(E.getattr(h, "tot_pop"))) == tot)
            E.ensure("the search gets the target and tolerance", And(real(num(E.getattr(h, "ideal_pop"))) == self.target, real(num(E.getattr(h, "epsilon"))) == self.eps))
            sm, dm = [E.as_map(E.content(E.getattr(h, n))) for n in ("subsets", "_degrees")]
            one = zbool(E.truth(one_sided_cut))
            n = E.stable("cuts", I)
            E.assume(n >= 0)
            a, b, w = [E.fresh_fun(q, I, s) for q, s in (("ea", A), ("eb", A), ("weight", R))]
            S = E.fresh_fun("subset", I, A, B)
            i = E.bvars([I], "i")[0]
            y = E.bvars([A], "y")[0]
            rg = lambda i: And(0 <= i, i < n)
            E.assume(ForAll([i], Implies(rg(i), And(t.J(a(i), b(i)), side(E, t, lambda x: S(i, x), a(i), b(i))))))
            ps = E.sum([y], And(self.g.N(y), S(i, y)), self.pop(y))
            po = E.sum([y], And(self.g.N(y), Not(S(i, y))), self.pop(y))
            E.assume(ForAll([i], Implies(rg(i), And(self.within(ps), Implies(Not(one), self.within(po))))))
            Cut = imp(E, TR + "Cut")
            mk = lambda i: E.call(Cut, [], {"edge": Tup([a(i), b(i)]), "weight": w(i), "subset": SetC(A, lambda x: S(i, x), True)})
            self.used = {"t": t, "a": a, "b": b, "S": S, "n": n, "one": one}
            return E.alloc(SeqC(n, mk))
        return f

    def pick(self, region):
        """contract of the cut-choice rules: one of the offered cuts"""
        def f(E, *args):
            lst = args[-1]
            if region:
                E.ensure("the cut choice gets the given surcharges", args[1] is self.surcharge)
            c = E.content(lst)
            if not isinstance(c, SeqC):
                raise Unsupported("cut list")
            E.ensure("precondition of the cut choice: some cut is offered", num(c.n) > 0)
            i = E.stable("chosen", I)
            E.assume(And(0 <= i, i < num(c.n)))
            self.chosen = i
            return c.at(i)
        return f


def connected(E, what, g, S, t, a):
    """S is connected in g: the tree t seen from a has all parents inside"""
    E.trusted.add(CONN)
    v = Rooted(E, t, a)
    x = z3.Const("cx!%d" % E.uid(), A)
    E.ensure(what, And(S(a), Implies(And(S(x), x != a), And(S(v.pred(x)), g.J(x, v.pred(x)), v.depth(v.pred(x)) < v.depth(x)))))


def result_ok(E, W, res):
    g, u = W.g, W.used
    R_ = E.to_set(res)
    S = lambda x: zbool(R_.mem(x))
    i = W.chosen
    a, b = u["a"](i), u["b"](i)
    x = z3.Const("rx", A)
    q = E.bvars([A], "q")[0]
    E.ensure("the result is a set of nodes of the graph", Implies(S(x), g.N(x)))
    E.ensure("the result is the subset of one of the cuts found", S(x) == u["S"](i, x))
    So = lambda x: And(g.N(x), Not(u["S"](i, x)))
    Si = lambda x: u["S"](i, x)
    E.ensure("result and complement are not empty", And(Exists([q], Si(q)), Exists([q], So(q))))
    r, o = z3.Consts("end_in end_out", A)
    E.assume(And(r == z3.If(Si(a), a, b), o == z3.If(Si(a), b, a)))
    lem(E, "the cut edge has one end inside", And(Si(r), So(o), u["t"].J(r, o), same_edge(a, b, r, o)))
    connected(E, "the result is connected", g, Si, u["t"], r)
    connected(E, "the complement is connected", g, So, u["t"], o)
    y = E.bvars([A], "y")[0]
    ps = E.sum([y], And(g.N(y), S(y)), W.pop(y))
    po = E.sum([y], And(g.N(y), Not(S(y))), W.pop(y))
    E.ensure("the result's population is within tolerance of the target", W.within(ps))
    E.ensure("two-sided: the complement's population is within tolerance", Implies(Not(W.one), W.within(po)))


class Loop:
    """the attempts: the current tree is a spanning tree of the graph"""
    keeps = ("spanning_tree", "restarts", "attempts")

    def __init__(self, W):
        self.W = W

    def inv(self, E, fr):
        t = E.getvar("spanning_tree", fr)
        out = [("the current tree is a spanning tree of the graph", z3.BoolVal(id(getattr(t, "mg", None)) in self.W.trees))]
        at = num(E.getvar("attempts", fr))
        self.attempts = at
        out.append(("attempts are counted", at >= 0))
        return out

    def havoc(self, E, fr):
        for n in ("restarts", "attempts"):
            E.setvar(n, E.stable(n, I), fr)
        E.setvar("spanning_tree", self.W.tree("current").ref, fr)


def setup(E, uniform, arbitrary):
    W = World(E)
    kw = {}
    if arbitrary:
        kw["spanning_tree_fn"] = PyFn(W.span(False), "spanning_tree_fn", attrs={"params": ["graph"]})
        kw["balance_edge_fn"] = PyFn(W.cuts(False), "balance_edge_fn", attrs={"params": ["h", "one_sided_cut", "choice"]})
    elif uniform:
        kw["spanning_tree_fn"] = imp(E, TR + "uniform_spanning_tree")
        kw["balance_edge_fn"] = imp(E, TR + "find_balanced_edge_cuts_contraction")
    E.contracts[TR + "random_spanning_tree"] = W.span(True)
    E.contracts[TR + "uniform_spanning_tree"] = W.span(False)
    E.contracts[TR + "find_balanced_edge_cuts_memoization"] = W.cuts(True)
    E.contracts[TR + "find_balanced_edge_cuts_contraction"] = W.cuts(True)
    E.contracts[TR + "_region_preferred_max_weight_choice"] = W.pick(True)
    E.contracts[TR + "_max_weight_choice"] = W.pick(False)
    return W, kw


def bip(kind, given, limit, region):
    def spec(E):
        W, kw = setup(E, kind == "uniform", kind == "arbitrary")
        if kind == "uniform":
            kw["cut_choice"] = imp(E, TR + "_max_weight_choice")
        if kind == "arbitrary":
            kw["cut_choice"] = PyFn(W.pick(False), "cut_choice", attrs={"params": ["cuts"]})
        if region:
            W.surcharge = kw["region_surcharge"] = E.alloc(MapC(A, z3.Function("rk", A, B), z3.Function("rv", A, R)))
        if given:
            kw["spanning_tree"] = W.tree("given").ref
        if limit:
            kw["max_attempts"] = z3.Int("max_attempts")
        else:
            kw["max_attempts"] = None
        al = kw["allow_pair_reselection"] = z3.Bool("allow_reselection")
        kw["node_repeats"] = z3.Int("node_repeats")
        kw["one_sided_cut"] = W.one
        inv = E.invariants[(TR + "bipartition_tree", 0)] = Loop(W)
        snap = Snapshot(E, W.g.nodes, W.g.adj, *W.g.na.values())
        exc, res = raises(E, lambda: call(E, TR + "bipartition_tree", W.g.ref, "POP", W.target, W.eps, **kw))
        snap.check("graph and populations are not changed")
        if exc is not None:
            nm = exc_name(exc)
            E.ensure("only the documented errors, and only when the attempts are used up", And(nm in ("RuntimeError", "ReselectException"), z3.BoolVal(nm == "ReselectException") == al, limit and inv.attempts >= z3.Int("max_attempts")))
            return
        result_ok(E, W, res)
    return spec


def rnd_all(given, limit):
    def spec(E):
        W, kw = setup(E, False, True)
        if given:
            kw["spanning_tree"] = W.tree("given").ref
        kw["max_attempts"] = z3.Int("max_attempts") if limit else None
        kw["node_repeats"] = z3.Int("node_repeats")
        ru = kw["repeat_until_valid"] = z3.Bool("repeat_until_valid")
        inv = E.invariants[(TR + "_bipartition_tree_random_all", 0)] = Loop(W)
        snap = Snapshot(E, W.g.nodes, W.g.adj, *W.g.na.values())
        exc, res = raises(E, lambda: call(E, TR + "_bipartition_tree_random_all", W.g.ref, "POP", W.target, W.eps, **kw))
        snap.check("graph and populations are not changed")
        if exc is not None:
            E.ensure("only the documented error, and only when the attempts are used up", And(exc_name(exc) == "RuntimeError", limit and inv.attempts >= z3.Int("max_attempts")))
            return
        c = E.content(res)
        u = W.used
        i = z3.Const("i", I)
        E.ensure("all cuts found on one spanning tree are returned", isinstance(c, SeqC) and num(c.n) == u["n"])
        v = c.at(i)
        x = z3.Const("x", A)
        e = E.unpack(E.getattr(v, "edge"), 2)
        E.ensure("unchanged", Implies(And(0 <= i, i < u["n"]), And(enc(e[0], A) == u["a"](i), enc(e[1], A) == u["b"](i), zbool(E.to_set(E.getattr(v, "subset")).mem(x)) == u["S"](i, x))))
        E.ensure("none only if a single try is asked for", Implies(num(c.n) == 0, Not(ru)))
    return spec


def rnd(E):
    W, kw = setup(E, False, False)
    ru = kw["repeat_until_valid"] = z3.Bool("repeat_until_valid")
    kw["one_sided_cut"] = W.one
    kw["max_attempts"] = m = z3.Int("max_attempts")
    kw["node_repeats"] = r = z3.Int("node_repeats")
    given = W.tree("given").ref
    kw["spanning_tree"] = given

    def callee(E, graph, pop_col, pop_target, epsilon, node_repeats=1, repeat_until_valid=True, spanning_tree=None, spanning_tree_fn=None, balance_edge_fn=None, choice=None, max_attempts=None):
        E.ensure("all settings are passed on", And(graph is W.g.ref, pop_col == "POP", spanning_tree is given, E.equal(pop_target, W.target), E.equal(epsilon, W.eps), E.equal(max_attempts, m), E.equal(node_repeats, r), zbool(E.truth(repeat_until_valid)) == ru))
        h = E.call(imp(E, TR + "PopulatedGraph"), [given, E.alloc(MapC(A, lambda x: W.g.N(x), lambda x: W.pop(x))), W.target, W.eps], {})
        res = E.call(balance_edge_fn, [h], {"choice": choice})
        E.ensure("one- or two-sided as asked", W.used["one"] == W.one)
        E.assume(Or(Not(ru), W.used["n"] > 0))
        return res
    E.contracts[TR + "_bipartition_tree_random_all"] = callee

    def choose(E, lst):
        return W.pick(False)(E, lst)
    kw["choice"] = PyFn(choose)
    res = call(E, TR + "bipartition_tree_random", W.g.ref, "POP", W.target, W.eps, **kw)
    if res is None:
        E.ensure("nothing only if no cut was found on a single try", And(Not(ru), W.used["n"] == 0))
        return
    result_ok(E, W, res)



# ---------------------------------------------------------------- choosing among cuts
class Cuts:
    """an arbitrary non-empty list of different cuts of a tree"""

    def __init__(self, E, weighted=True):
        self.E = E
        self.g = g = a_graph(E, "tree")
        self.n = z3.Int("n")
        E.assume(self.n >= 1)
        f = lambda nm, s: (lambda i, q=z3.Function(nm, I, s): q(i))
        self.a, self.b, self.w, self.key = f("cut_a", A), f("cut_b", A), f("cut_w", R), f("cut_id", A)
        self.S = z3.Function("cut_S", I, A, B)
        i, j = E.bvars([I, I], "i")
        E.assume(ForAll([i], Implies(self.rg(i), g.J(self.a(i), self.b(i)))))
        pos = z3.Function("cut_pos", A, I)
        E.assume(ForAll([i], pos(self.key(i)) == i))  # different cuts have different identities
        E.inverses["cut_id"] = pos
        self.Cut = imp(E, TR + "Cut")
        self.weighted = weighted
        self.lst = E.alloc(SeqC(self.n, self.cut))

    def rg(self, i):
        return And(0 <= i, i < self.n)

    def cut(self, i):
        t = self.E.call(self.Cut, [], {"edge": Tup([self.a(i), self.b(i)]), "weight": self.w(i) if self.weighted else None, "subset": SetC(A, lambda x: self.S(i, x), True)})
        t.eqkey = self.key(i)
        return t

    def which(self, v):
        """the offered cut equal to the value"""
        E = self.E
        v = E.force(v)
        if not isinstance(v, Tup) or v.eqkey is None:
            raise Unsupported("a cut of another shape")
        i = E.bvars([I], "w")[0]
        k = z3.Const("picked", I)
        E.ensure("one of the offered cuts is picked", Exists([i], And(self.rg(i), v.eqkey == self.key(i))))
        E.assume(And(self.rg(k), v.eqkey == self.key(k)))
        return k


def max_weight(weighted):
    def spec(E):
        C = Cuts(E, weighted)
        i = E.bvars([I], "i")[0]
        res = call(E, TR + "_max_weight_choice", C.lst)
        k = C.which(res)
        if weighted:
            E.ensure("of maximal weight", ForAll([i], Implies(C.rg(i), C.w(i) <= C.w(k))))
    return spec


def power_set(n):
    """all non-empty subsets of the keys, larger ones first, among equally large ones those of larger surcharge"""
    def spec(E):
        import itertools
        names = ["k%d" % i for i in range(n)]
        vals = {k: z3.Real(k) for k in names}
        d = E.alloc(RecC(dict(vals)))
        res = E.content(call(E, TR + "_power_set_sorted_by_size_then_sum", d))
        subs = [c for r in range(1, n + 1) for c in itertools.combinations(names, r)]
        at = [E.force(x) for x in res.items] if isinstance(res, ListC) else None
        if at is None:
            E.ensure("as many as there are subsets", num(res.n) == len(subs))
            at = [res.at(z3.IntVal(i)) for i in range(len(subs))]

        def opts(v):
            return opts_of(v, z3.BoolVal(True))
        size, tot = [], []
        for v in at:
            o = opts(v)
            size.append(pick_num(o, lambda t: z3.IntVal(len(t.items))))
            tot.append(pick_num(o, lambda t: real(num(sum_vals([vals[k] for k in t.items])))))
        for c in subs:
            E.ensure("every subset is listed", Or(*[Or(*[g for g, t in opts(v) if set(t.items) == set(c) and len(t.items) == len(c)]) for v in at]))
        for v in at:
            E.ensure("only subsets are listed", And(*[Implies(g, z3.BoolVal(set(t.items) <= set(names) and len(set(t.items)) == len(t.items) > 0)) for g, t in opts(v)]))
        for i in range(len(at) - 1):
            E.ensure("larger subsets first, then those of larger surcharge", Or(size[i] > size[i + 1], And(size[i] == size[i + 1], tot[i] >= tot[i + 1])))
    return spec


def sum_vals(vs):
    r = z3.RealVal(0)
    for v in vs:
        r = r + v
    return r


def opts_of(v, g):
    if isinstance(v, ChoiceV):
        return opts_of(v.a, And(g, v.c)) + opts_of(v.b, And(g, Not(v.c)))
    if not isinstance(v, Tup):
        raise Unsupported("a combination of another shape")
    return [(g, v)]


def pick_num(opts, f):
    r = f(opts[-1][1])
    for g, t in reversed(opts[:-1]):
        r = z3.If(g, f(t), r)
    return r


def region(kind):
    def spec(E):
        C = Cuts(E)
        g = C.g
        att = z3.Function("attribute", A, A, A)
        g.anyattr = lambda n, k: att(n, k)
        K, V = z3.Function("region_key", A, B), z3.Function("surcharge", A, R)
        sur = None if kind == "none" else E.alloc(MapC(A, lambda x: K(x), lambda x: V(x)))
        x, i, j = E.bvars([A, I, I], "x")
        m = z3.Int("combinations")
        c = z3.Function("combination", I, A, B)
        rm = lambda i: And(0 <= i, i < m)
        size = lambda i: E.sum([x], And(K(x), c(i, x)), z3.IntVal(1))

        def combos(E, d):
            if not (isinstance(d, Ref) and d.loc == sur.loc):
                raise Unsupported("combinations of something else")
            E.assume(m >= 0)
            E.assume(ForAll([i, x], Implies(And(rm(i), c(i, x)), K(x))))
            return E.alloc(SeqC(m, lambda i: SetC(A, lambda x: c(i, x))))
        E.contracts[TR + "_power_set_sorted_by_size_then_sum"] = combos
        seen = []

        def mw(E, lst):
            segs = E.segments(lst)
            E.ensure("precondition of _max_weight_choice: some cut is offered", E.nonempty(BagC(segs)))
            seen.append(lst)
            return E.extremum(lst, True, PyFn(lambda E, v: E.getattr(v, "weight")))
        E.contracts[TR + "_max_weight_choice"] = mw
        h = E.alloc(ObjC(imp(E, TR + "PopulatedGraph"), {"graph": g.ref}))
        res = call(E, TR + "_region_preferred_max_weight_choice", h, sur, C.lst)
        k = C.which(res)
        if kind == "none":
            return
        nk = E.sum([x], K(x), z3.IntVal(1))
        cross = lambda i, j: ForAll([x], Implies(c(j, x), att(C.a(i), x) != att(C.b(i), x)))
        i2 = E.bvars([I], "i2")[0]
        suit = lambda j: Exists([i2], And(C.rg(i2), cross(i2, j)))
        best = lambda P_: ForAll([i], Implies(And(C.rg(i), P_(i)), C.w(i) <= C.w(k)))
        few = And(nk >= 1, nk <= 3)
        E.ensure("no or too many regions: of maximal weight", Implies(Not(few), best(lambda i: True)))
        some = Exists([j], And(rm(j), suit(j)))
        E.ensure("no cut crosses any combination: of maximal weight", Implies(And(few, Not(some)), best(lambda i: True)))
        j0 = least(E, lambda j: And(rm(j), suit(j)), lambda j: j, I)
        E.assume(And(few, some))
        E.ensure("it crosses the first combination any cut crosses", cross(k, j0))
        E.ensure("of maximal weight among those that cross it", best(lambda i: cross(i, j0)))
    return spec


# ---------------------------------------------------------------- spanning trees
def mst(E, g, weight="weight", algorithm="kruskal", ignore_nan=False):
    W = getattr(g, "world", None)
    if W is None:
        raise Unsupported("minimum_spanning_tree of another graph")
    E.trusted.add(SPAN)
    E.ensure("the minimum spanning tree is taken along the weights drawn", weight == "random_weight")
    W.mst = True
    return W.tree("mst").ref


for n in ("networkx.", "networkx.algorithms.tree.", "networkx.algorithms.tree.mst."):
    MODELS[n + "minimum_spanning_tree"] = mst


def random_tree(kind):
    def spec(E):
        W = World(E)
        g = W.g
        g.ref.world = W
        att = z3.Function("attribute", A, A, A)
        g.anyattr = lambda n, k: att(n, k)
        K, V = z3.Function("region_key", A, B), z3.Function("surcharge", A, R)
        sur = None if kind == "none" else E.alloc(MapC(A, lambda x: K(x), lambda x: V(x)))
        snap = Snapshot(E, g.nodes, g.adj, *g.na.values())
        res = call(E, TR + "random_spanning_tree", g.ref, **({} if sur is None else {"region_surcharge": sur}))
        snap.check("nodes, edges and node attributes are not changed")
        E.ensure("a spanning tree of the graph is returned", id(getattr(res, "mg", None)) in W.trees)
        a, b = z3.Consts("a b", A)
        x = E.bvars([A], "x")[0]
        e = g.norm(a, b)
        has, v = g.value(g.ea, "random_weight", e)
        E.assume(g.J(a, b))
        E.ensure("every edge has a weight", has)
        ex = z3.RealVal(0)
        if sur is not None:
            ex = E.sum([x], And(K(x), Or(att(a, x) != att(b, x), att(a, x) == NONE_ATOM, att(b, x) == NONE_ATOM)), V(x))
        w = real(num(v))
        E.ensure("a draw plus the surcharges of the regions the edge crosses", And(w - ex >= 0, w - ex < 1))
    return spec


# Wilson's algorithm
ANY = z3.Const("any_atom", A)


def as_atom(v):
    if isinstance(v, ChoiceV):
        return z3.If(v.c, as_atom(v.a), as_atom(v.b))
    return ANY if isinstance(v, Poison) else enc(v, A)


class Wilson:
    """ghost state: t(x) = when the walk last left x, rnd(x) = the round in which x joined the tree"""

    def __init__(self, E, g):
        self.E, self.g = E, g
        self.t = self.rnd = lambda x: z3.IntVal(0)
        self.k, self.c = z3.IntVal(0), z3.IntVal(1)

    def state(self, fr):
        E = self.E
        T = E.to_set(E.getvar("tree_nodes", fr))
        m = E.as_map(E.content(E.getvar("next_node", fr)))
        self.root = enc(E.getvar("root", fr), A)
        return (lambda x: zbool(T.mem(x))), (lambda x: zbool(E.map_dom(m, x))), (lambda x: as_atom(E.map_getd(m, x)))

    def fresh(self, fr, tree=True, nxt=True):
        E = self.E
        f = lambda n, s: E.fresh_fun(n, A, s)
        if tree:
            T = f("in_tree", B)
            E.heap[E.getvar("tree_nodes", fr).loc] = SetC(A, lambda x: T(x))
            self.rnd = f("round", I)
        if nxt:
            d, v = f("left", B), f("next", A)
            E.heap[E.getvar("next_node", fr).loc] = MapC(A, lambda x: d(x), lambda x: v(x))
            self.t, self.c = f("time", I), E.stable("clock", I)

    def falls(self, x, y):
        """y comes before x: added in an earlier round, or left later in the same"""
        return Or(self.rnd(y) < self.rnd(x), And(self.rnd(y) == self.rnd(x), self.t(y) > self.t(x)))

    def base(self, T, D, nx, T0, u=None):
        g, r = self.g, self.root
        x = self.E.bvars([A], "x")[0]
        at_u = (lambda y: y == u) if u is not None else (lambda y: z3.BoolVal(False))
        q = lambda f: ForAll([x], f)
        return [("the root is in the tree and has no parent", And(T(r), D(r), nx(r) == NONE_ATOM, g.N(r))),
                ("tree nodes have been left, only nodes are", And(q(Implies(T(x), D(x))), q(Implies(D(x), g.N(x))))),
                ("steps go along edges, to nodes left or the current one", q(Implies(And(D(x), x != r), And(g.J(x, nx(x)), Or(D(nx(x)), at_u(nx(x))))))),
                ("steps lead to the tree or to a node left later", q(Implies(And(D(x), Not(T0(x))), Or(T0(nx(x)), at_u(nx(x)), self.t(nx(x)) > self.t(x))))),
                ("the clock is ahead", q(Implies(D(x), self.t(x) < self.c)))]

    def tree(self, T):
        x = self.E.bvars([A], "x")[0]
        nx = self.nx
        return [("tree nodes lead to tree nodes that come before", ForAll([x], Implies(And(T(x), x != self.root), And(T(nx(x)), self.falls(x, nx(x)))))),
                ("rounds are counted", ForAll([x], Implies(T(x), self.rnd(x) <= self.k)))]


class Outer:
    def __init__(self, w):
        self.w = w

    def inv(self, E, fr, done):
        T, D, self.w.nx = self.w.state(fr)
        x = E.bvars([A], "x")[0]
        return self.w.base(T, D, self.w.nx, T) + self.w.tree(T) + [("nodes done are in the tree", ForAll([x], Implies(done(x), T(x))))]

    def havoc(self, E, fr, done):
        self.w.fresh(fr)
        self.w.k = E.stable("rounds", I)


class Walk:
    keeps = ("u",)

    def __init__(self, w):
        self.w = w

    def inv(self, E, fr):
        w = self.w
        T, D, nx = w.state(fr)
        w.nx = nx
        u, n = enc(E.getvar("u", fr), A), enc(E.getvar("node", fr), A)
        return w.base(T, D, nx, T, u) + w.tree(T) + [("the walk is at a node", w.g.N(u)), ("the start was left or is the current node", Or(D(n), n == u))]

    def havoc(self, E, fr):
        self.w.fresh(fr, tree=False)
        self.u = E.stable("u", A)
        E.setvar("u", self.u, fr)

    def after(self, E, fr):
        w, t, c, u = self.w, self.w.t, self.w.c, self.u
        w.t = lambda x: z3.If(x == u, c, t(x))
        w.c = c + 1


class Join:
    keeps = ("u",)

    def __init__(self, w):
        self.w, self.T0 = w, None

    def inv(self, E, fr):
        w = self.w
        T, D, nx = w.state(fr)
        w.nx = nx
        if self.T0 is None:
            self.T0 = T
        T0, x = self.T0, E.bvars([A], "x")[0]
        u, n = enc(E.getvar("u", fr), A), enc(E.getvar("node", fr), A)
        q = lambda f: ForAll([x], f)
        return w.base(T, D, nx, T0) + [
            ("the old tree is kept", And(q(Implies(T0(x), T(x))), q(Implies(And(T0(x), x != w.root), And(T0(nx(x)), w.falls(x, nx(x))))), q(Implies(T0(x), w.rnd(x) <= w.k)), T0(w.root))),
            ("new nodes lead to the tree or the current node", q(Implies(And(T(x), Not(T0(x))), And(w.rnd(x) == w.k + 1, Or(T(nx(x)), nx(x) == u))))),
            ("the current node was left", D(u)),
            ("the start joined or is the current node", Or(T(n), n == u))]

    def havoc(self, E, fr):
        w = self.w
        T = E.fresh_fun("in_tree", A, B)
        E.heap[E.getvar("tree_nodes", fr).loc] = SetC(A, lambda x: T(x))
        w.rnd = E.fresh_fun("round", A, I)
        self.u = E.stable("u", A)
        E.setvar("u", self.u, fr)

    def after(self, E, fr):
        w, r, u = self.w, self.w.rnd, self.u
        k = w.k
        w.rnd = lambda x: z3.If(x == u, k + 1, r(x))

    def at_exit(self, E, fr):
        self.w.k = self.w.k + 1


def uniform(E):
    g = a_graph(E, "graph")
    w = Wilson(E, g)
    x, y, z = E.bvars([A, A, A], "x")
    E.assume(ForAll([x], Implies(g.N(x), Exists([y], g.J(x, y)))))
    E.trusted.add("precondition: a connected graph of at least three nodes (every node has a neighbor)")
    for i, inv in enumerate((Outer(w), Walk(w), Join(w))):
        E.invariants[(TR + "uniform_spanning_tree", i)] = inv
    snap = Snapshot(E, g.nodes, g.adj)
    res = of(E, call(E, TR + "uniform_spanning_tree", g.ref))
    snap.check("the graph is not changed")
    r, nx = w.root, w.nx
    a, b = z3.Consts("a b", A)
    par = lambda c: And(g.N(c), c != r)
    E.ensure("its edges are the steps from every node but the root", res.J(a, b) == Or(And(par(a), nx(a) == b), And(par(b), nx(b) == a)))
    E.ensure("its edges are edges of the graph", Implies(res.J(a, b), g.J(a, b)))
    E.ensure("every step leads to a node before it (no cycle, all lead to the root)", Implies(par(a), And(g.N(nx(a)), w.falls(a, nx(a)))))
    E.trusted.add("definition: a graph whose edges are the node-parent pairs of a parent function that falls along a well-founded order, with one root, is a tree")
    E.ensure("lemma: an edge at the root or elsewhere", Implies(g.N(a), Exists([y], g.J(a, y))))
    E.ensure("every node but the root is in it", Implies(par(a), res.N(a)))
    E.assume(Exists([y], And(g.J(r, y), y != r)))
    c = z3.Const("c", A)
    E.assume(And(par(c), ForAll([y], Implies(par(y), Or(w.rnd(c) < w.rnd(y), And(w.rnd(c) == w.rnd(y), w.t(c) >= w.t(y)))))))  # the first after the root
    E.trusted.add("lemma: a non-empty finite set has a first element in a lexicographic order")
    E.ensure("the root is in it", res.N(r))
    E.ensure("it has only nodes of the graph", Implies(res.N(a), g.N(a)))


SPECS = [("bipartition_tree", bip("default", False, True, False)), ("bipartition_tree (no attempt limit, surcharges)", bip("default", False, False, True)),
         ("bipartition_tree (given tree)", bip("default", True, True, True)), ("bipartition_tree (uniform trees, contraction, max weight)", bip("uniform", False, True, True)),
         ("bipartition_tree (any conforming functions)", bip("arbitrary", False, True, False)),
         ("_bipartition_tree_random_all", rnd_all(False, True)), ("_bipartition_tree_random_all (given tree, no limit)", rnd_all(True, False)),
         ("bipartition_tree_random", rnd),
         ("_max_weight_choice", max_weight(True)), ("_max_weight_choice (no weights)", max_weight(False)),
         ("_power_set_sorted_by_size_then_sum: 1 key", power_set(1)), ("_power_set_sorted_by_size_then_sum: 2 keys", power_set(2)), ("_power_set_sorted_by_size_then_sum: 3 keys", power_set(3)),
         ("_region_preferred_max_weight_choice", region("dict")), ("_region_preferred_max_weight_choice (no surcharges)", region("none")),
         ("uniform_spanning_tree", uniform), ("random_spanning_tree", random_tree("none")), ("random_spanning_tree (surcharges)", random_tree("dict"))]
META = {}
