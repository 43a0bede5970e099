from .c04 import *
from .trees import lem
from pyvc.core import num, real

TR = "gerrychain.tree:"
TP = "gerrychain.proposals.tree_proposals:"
SP = "gerrychain.proposals.spectral_proposals:"
CONNECTED = "contract of the bipartition methods (C16): a set of nodes of the given graph, neither it nor its complement empty, both connected"


def rec(E, fr, name):
    return E.getvar(name, fr)


# ---------------------------------------------------------------- epsilon_tree_bipartition
def total(E, dom, f):
    x = E.bvars([A], "tp")[0]
    return E.sum([x], dom(x), f(x))


def epsilon(kind):
    def spec(E):
        g = G(E)
        pop = g.attr("POP")
        target, eps = z3.Reals("target epsilon")
        reps = z3.Int("node_repeats")
        first, second = z3.Consts("first second", A)
        E.assume(first != second)
        parts = E.alloc(ListC([first, second])) if kind == "list" else Tup([first, second])
        S = z3.Function("piece", A, B)
        x = z3.Const("x", A)
        y = E.bvars([A], "y")[0]
        none = z3.Bool("no_cut")
        fails = z3.Bool("method_fails")

        def method(E, graph, **kw):
            h = graph_of(graph)
            E.ensure("the whole graph is split", And(h.N(x) == g.N(x), ForAll([y], h.adj(x, y) == g.adj(x, y))))
            E.ensure("the method gets the settings", And(set(kw) == {"pop_col", "pop_target", "epsilon", "node_repeats", "one_sided_cut"}, kw.get("pop_col") == "POP", E.equal(kw.get("pop_target"), target), E.equal(kw.get("epsilon"), eps), E.equal(kw.get("node_repeats"), reps)))
            E.ensure("both sides must fit", kw.get("one_sided_cut") is False)
            if E.branch(fails):
                raise PyRaise(ExcV(imp(E, TR + "ReselectException")))
            if E.branch(none):
                return None
            E.assume(ForAll([y], Implies(S(y), g.N(y))))
            return E.alloc(SetC(A, lambda y: S(y)))
        snap = Snapshot(E, parts)
        exc, res = raises(E, lambda: call(E, TR + "epsilon_tree_bipartition", g.ref, parts, target, "POP", eps, reps, PyFn(method)))
        snap.check("the labels are not changed")
        ps, po = total(E, lambda v: And(g.N(v), S(v)), pop), total(E, lambda v: And(g.N(v), Not(S(v))), pop)
        ok = lambda p: And(target * (1 - eps) <= p, p <= target * (1 + eps))
        if exc is not None:
            nm = exc_name(exc)
            E.ensure("an error only if the method fails or a side is out of tolerance", And(nm in ("ReselectException", "BalanceError", "PopulationBalanceError"),
                     Implies(nm == "ReselectException", fails), Implies(nm == "BalanceError", none), Implies(nm == "PopulationBalanceError", Or(Not(ok(ps)), Not(ok(po))))))
            return
        m = E.as_map(E.content(res))
        E.ensure("every node gets a label, nothing else does", zbool(E.map_dom(m, x)) == g.N(x))
        E.ensure("the piece found gets the second-to-last label, the rest the last", Implies(g.N(x), enc(E.map_getd(m, x), A) == z3.If(S(x), first, second)))
        E.ensure("both sides are within tolerance of the target", And(ok(ps), ok(po)))
    return spec


def wrong_parts(n):
    def spec(E):
        g = G(E)
        g.attr("POP")
        exc, _ = raises(E, lambda: call(E, TR + "epsilon_tree_bipartition", g.ref, E.alloc(ListC([z3.Const("l%d" % i, A) for i in range(n)])), z3.Real("target"), "POP", z3.Real("eps"), 1, PyFn(lambda E, *a, **k: None)))
        E.ensure("refused", exc is not None and exc_name(exc) == "ValueError")
    return spec


# ---------------------------------------------------------------- recom
class Plan:
    """a plan with its cut edges, and what flip promises (C01, C02)"""

    def __init__(self, E):
        self.E = E
        self.g = g = G(E)
        self.pop = g.attr("POP")
        self.p = P(E, g)
        self.p.put("cut_edges", SetC(PAIR, cut_spec(g, self.p.asg)))
        self.flips = None
        E.contracts[PART + ".flip"] = self.flip
        e = E.bvars([PAIR], "c")[0]
        self.u = self.v = None

    def flip(self, E, plan, flips):
        E.ensure("the current plan is flipped", isinstance(plan, Ref) and plan.loc == self.p.ref.loc)
        if self.flips is not None:
            raise Unsupported("a second flip")
        m = E.as_map(E.content(E.force(flips)))
        x = E.bvars([A], "x")[0]
        self.F = F = lambda x: zbool(E.map_dom(m, x))
        self.to = to = lambda x: enc(E.map_getd(m, x), A)
        E.ensure("precondition of flip: nodes of the graph to districts of the plan", ForAll([x], Implies(F(x), And(self.g.N(x), self.p.D(to(x))))))
        self.flips = m
        q = P(E, self.g, "new")
        E.assume(ForAll([x], Implies(self.g.N(x), q.asg(x) == z3.If(F(x), to(x), self.p.asg(x)))))
        E.assume(ForAll([x], q.D(x) == self.p.D(x)))
        self.new = q
        return q.ref

    def within(self, p):
        return And(self.target * (1 - self.eps) <= p, p <= self.target * (1 + self.eps))

    def resplit(self, a, b, S):
        """the proposal re-splits the union of districts a and b: S gets a, the rest b"""
        E, g, p, q = self.E, self.g, self.p, self.new
        x = z3.Const("rx", A)
        old, new = p.asg(x), q.asg(x)
        U = Or(old == a, old == b)
        E.ensure("nodes of other districts stay where they are", Implies(And(g.N(x), Not(U)), new == old))
        E.ensure("the union is split between the same two labels", Implies(And(g.N(x), U), new == z3.If(S(x), a, b)))
        E.ensure("other nodes do not join the two districts", Implies(And(g.N(x), Or(new == a, new == b)), U))

    def adjacent(self, a, b):
        E, g, p = self.E, self.g, self.p
        y, z = E.bvars([A, A], "y")
        E.ensure("the two districts are different and adjacent", And(a != b, p.D(a), p.D(b), Exists([y, z], And(g.adj(y, z), p.asg(y) == a, p.asg(z) == b))))


class Split:
    """contract of epsilon_tree_bipartition (above, and C16 for the connectedness of what a valid method returns)"""

    def __init__(self, E, W, method=None):
        self.E, self.W, self.method = E, W, method
        self.made = None
        E.contracts[TR + "epsilon_tree_bipartition"] = self.call

    def call(self, E, graph, parts, pop_target=None, pop_col=None, epsilon=None, node_repeats=1, method=None):
        W = self.W
        g, p = W.g, W.p
        lab = E.unpack(parts, 2)
        a, b = [enc(E.force(v), A) for v in lab]
        x = z3.Const("ex", A)
        y = E.bvars([A], "y")[0]
        h = graph_of(graph)
        E.ensure("the two labels differ", a != b)
        U = lambda v: Or(p.asg(v) == a, p.asg(v) == b)
        E.ensure("the graph induced by the two districts is split", And(h.N(x) == And(g.N(x), U(x)), ForAll([y], h.adj(x, y) == And(g.adj(x, y), U(x), U(y)))))
        E.ensure("the settings are passed on", And(pop_col == "POP", E.equal(pop_target, W.target), E.equal(epsilon, W.eps), E.equal(node_repeats, W.reps)))
        W.check_method(E, method)
        k = E.stable("outcome", I)
        if E.branch(k == 0):
            raise PyRaise(ExcV(imp(E, TR + "ReselectException")))
        if E.branch(k == 1):
            raise PyRaise(ExcV(imp(E, TR + "PopulationBalanceError")))
        S = E.fresh_fun("piece", A, B)
        lim = lambda v: And(g.N(v), U(v))
        E.trusted.add(CONNECTED)
        E.assume(ForAll([y], Implies(S(y), lim(y))))
        E.assume(And(Exists([y], S(y)), Exists([y], And(lim(y), Not(S(y))))))
        E.assume(And(W.within(total(E, lambda v: S(v), W.pop)), W.within(total(E, lambda v: And(lim(v), Not(S(v))), W.pop))))
        self.made = (a, b, S)
        return E.alloc(MapC(A, lambda v: lim(v), lambda v: z3.If(S(v), a, b)))


class Attempts:
    """the pairs tried: never more than there are pairs"""
    keeps = ()

    def __init__(self, W):
        self.W = W

    def inv(self, E, fr):
        return [("no more failed pairs than pairs", real(num(E.length(E.getvar("bad_district_pairs", fr)))) <= real(num(E.getvar("tot_pairs", fr))))]

    def havoc(self, E, fr):
        k = z3.ToReal(self.W.pairs)
        lem(E, "the number of pairs is n(n-1)/2", real(num(E.getvar("tot_pairs", fr))) == k)
        E.setvar("tot_pairs", k, fr)
        f = self.f = E.fresh_fun("failed", PAIR, B)
        E.heap[E.getvar("bad_district_pairs", fr).loc] = SetC(PAIR, lambda e: f(e))

    def after(self, E, fr):
        c, f = E.content(E.getvar("bad_district_pairs", fr)), self.f
        e, x = E.bvars([PAIR, PAIR], "e")
        lem(E, "at most one pair is added", Exists([x], ForAll([e], Implies(zbool(c.mem(e)), Or(f(e), e == x)))))
        E.trusted.add("lemma: adding an element to a finite set adds at most one to its size")
        E.assume(num(E.length(c)) <= num(E.length(SetC(PAIR, lambda e: f(e)))) + 1)


class Nothing:
    def inv(self, E, fr):
        return []

    def havoc(self, E, fr):
        pass


def parity(E, n):
    """n(n-1) is even"""
    h, m, k = z3.Ints("half count pairs")
    E.trusted.add("lemma: every integer is even or odd")
    E.ensure("lemma: the number of pairs is a whole number", And(Implies(m == 2 * h, m * (m - 1) == 2 * (h * (2 * h - 1))), Implies(m == 2 * h + 1, m * (m - 1) == 2 * (h * (2 * h + 1)))))
    E.assume(n * (n - 1) == 2 * k)
    return k


def recom(kind):
    def spec(E):
        W = Plan(E)
        p, g = W.p, W.g
        W.target, W.eps = z3.Reals("target epsilon")
        W.reps = 1 if kind == "class" else z3.Int("node_repeats")
        sur = E.alloc(MapC(A, z3.Function("rk", A, B), z3.Function("rv", A, R)))
        kw = {"region_surcharge": sur} if kind == "regions" else {}
        plain = PyFn(lambda E, *a, **k: None, "method", attrs={"params": ["graph", "pop_col", "pop_target", "epsilon", "node_repeats", "one_sided_cut"]})
        if kind == "default":
            want = imp(E, TR + "bipartition_tree")
        elif kind == "regions":
            want = imp(E, TR + "bipartition_tree")
        else:
            want = kw["method"] = plain

        def check(E, m):
            m = E.force(m)
            if kind in ("default", "regions"):
                E.ensure("the method gets the surcharges", isinstance(m, PartialV) and not m.args and set(m.kw) == {"region_surcharge"} and (m.kw["region_surcharge"] is (sur if kind == "regions" else None)))
                m = m.fn
            E.ensure("the given method is used", m is want or getattr(m, "qual", 1) == getattr(want, "qual", 2))
        W.check_method = check
        s = Split(E, W)
        W.pairs = parity(E, num(E.length(p.parts)))
        E.invariants[(TP + "recom", 0)] = Attempts(W)
        E.invariants[(TP + "recom", 1)] = Nothing()
        snap = Snapshot(E, p.ref)
        if kind == "class":
            R_ = E.call(imp(E, TP + "ReCom"), ["POP", W.target, W.eps], {"method": plain})
            exc, res = raises(E, lambda: E.call(R_, [p.ref], {}))
        else:
            kw["node_repeats"] = W.reps
            exc, res = raises(E, lambda: call(E, TP + "recom", p.ref, "POP", W.target, W.eps, **kw))
        snap.check("the current plan is not changed")
        if exc is not None:
            nm = exc_name(exc)
            e = E.bvars([PAIR], "ne")[0]
            E.ensure("only the documented errors, or that of the method", And(nm in ("MetagraphError", "PopulationBalanceError", "IndexError"), Implies(nm == "IndexError", Not(Exists([e], cut_spec(g, p.asg)(e))))))
            return
        E.ensure("a flip of the current plan is returned", isinstance(res, Ref) and W.flips is not None and res.loc == W.new.ref.loc)
        a, b, S = s.made
        W.adjacent(a, b)
        W.resplit(a, b, lambda v: S(v))
        y = E.bvars([A], "y")[0]
        E.ensure("both new districts are not empty", And(Exists([y], And(g.N(y), W.new.asg(y) == a)), Exists([y], And(g.N(y), W.new.asg(y) == b))))
        for d in (a, b):
            E.ensure("both new districts are within tolerance of the target", W.within(total(E, lambda v: And(g.N(v), W.new.asg(v) == d), W.pop)))
    return spec


# ---------------------------------------------------------------- reversible recom
def reversible(E):
    W = Plan(E)
    p, g = W.p, W.g
    W.target, W.eps = z3.Reals("target epsilon")
    M, rep = z3.Int("M"), z3.Bool("repeat_until_valid")
    E.assume(M >= 1)
    E.trusted.add("precondition of reversible_recom: a bound M of at least 1")
    st = {}
    nfound = z3.Int("balanced_cuts_found")
    E.assume(nfound >= 0)
    y = E.bvars([A], "y")[0]
    x = z3.Const("x", A)
    i = E.bvars([I], "i")[0]
    S = z3.Function("cut_subset", I, A, B)
    ea, eb = z3.Function("cut_from", I, A), z3.Function("cut_to", I, A)
    picked = z3.Int("picked")
    rg = lambda i: And(0 <= i, i < nfound)

    def found(E, h, **kw):
        E.ensure("the search runs on the tree", h is st.get("h") and kw == {"choice": "CHOICE"})
        Cut = imp(E, TR + "Cut")
        mk = lambda i: E.call(Cut, [], {"edge": Tup([ea(i), eb(i)]), "weight": None, "subset": SetC(A, lambda v: S(i, v), True)})
        return E.alloc(SeqC(nfound, mk))

    def allcuts(E, graph, pop_col=None, pop_target=None, epsilon=None, node_repeats=1, repeat_until_valid=True, spanning_tree=None, spanning_tree_fn=None, balance_edge_fn=None, choice=None, max_attempts=None):
        """contract of _bipartition_tree_random_all (C16)"""
        gr = E.content(graph)
        h = graph_of(gr.fields["graph"] if isinstance(gr, ObjC) else graph)
        if "h" in st:
            raise Unsupported("a second search")
        E.ensure("the settings are passed on", And(pop_col == "POP", E.equal(pop_target, W.target), E.equal(epsilon, W.eps), zbool(E.truth(repeat_until_valid)) == rep, spanning_tree is None))
        st["h"], st["graph"] = Opaque("populated tree"), h
        E.assume(ForAll([i, y], Implies(And(rg(i), S(i, y)), h.N(y))))
        E.trusted.add(CONNECTED)
        so = lambda i: And(h.N(y), Not(S(i, y)))
        E.assume(ForAll([i], Implies(rg(i), And(h.adj(ea(i), eb(i)), S(i, ea(i)) != S(i, eb(i)), h.N(ea(i)), h.N(eb(i))))))
        E.assume(ForAll([i], Implies(rg(i), And(W.within(total(E, lambda v: And(h.N(v), S(i, v)), W.pop)), W.within(total(E, lambda v: And(h.N(v), Not(S(i, v))), W.pop))))))
        return E.call(balance_edge_fn, [st["h"]], {"choice": "CHOICE"})
    E.contracts[TR + "_bipartition_tree_random_all"] = allcuts

    def choose(E, lst):
        c = E.content(lst)
        E.ensure("precondition of choice: some cut is offered, from those found", And(isinstance(c, SeqC), num(c.n) == nfound, nfound > 0))
        E.assume(rg(picked))
        return c.at(picked)
    snap = Snapshot(E, p.ref)
    exc, res = raises(E, lambda: call(E, TP + "reversible_recom", p.ref, "POP", W.target, W.eps, PyFn(found), M, rep, PyFn(choose)))
    snap.check("the current plan is not changed")
    if exc is not None:
        nm = exc_name(exc)
        E.ensure("only the documented error", And(nm == "ReversibilityError", "h" in st))
        if W.flips is None:
            E.ensure("more balanced cuts than the bound", nfound > M)
        else:
            a, b = st.get("ab", (None, None))
            E.ensure("never once the number of cuts is within the bound", False)
        return
    if "h" in st:
        E.ensure("never accepted with more balanced cuts than the bound", nfound <= M)
    if W.flips is None:
        E.ensure("the unchanged plan, unless a re-split is possible", And(res is p.ref, Implies("h" in st, nfound == 0)))
        return
    q, h = W.new, st["graph"]
    F, to = W.F, W.to
    r, o = ea(picked), eb(picked)
    a, b = z3.Consts("inner outer", A)
    E.assume(And(a == z3.If(S(picked, r), to(r), to(o)), b == z3.If(S(picked, r), to(o), to(r))))
    Sp = lambda v: S(picked, v)
    U = lambda v: Or(p.asg(v) == a, p.asg(v) == b)
    E.ensure("the graph induced by two districts is split", And(h.N(x) == And(g.N(x), U(x)), ForAll([y], h.adj(x, y) == And(g.adj(x, y), U(x), U(y)))))
    W.adjacent(a, b)
    W.resplit(a, b, Sp)
    for d, side in ((a, lambda v: Sp(v)), (b, lambda v: Not(Sp(v)))):
        lem(E, "the new district is one side of the cut", ForAll([y], And(h.N(y), side(y)) == And(g.N(y), q.asg(y) == d)))
        E.ensure("both new districts are not empty", Exists([y], And(g.N(y), q.asg(y) == d)))
        ts = total(E, lambda v: And(h.N(v), side(v)), W.pop)
        tn = total(E, lambda v: And(g.N(v), q.asg(v) == d), W.pop)
        lem(E, "each side of the cut is within tolerance", W.within(ts))
        lem(E, "the new district has the population of its side", tn == ts)
        E.ensure("both new districts are within tolerance of the target", W.within(tn))
    e = E.bvars([PAIR], "e")[0]
    seam = E.sum([e], And(g.edge(e), Or(And(q.asg(p0(e)) == a, q.asg(p1(e)) == b), And(q.asg(p0(e)) == b, q.asg(p1(e)) == a))), z3.IntVal(1))
    E.ensure("a draw decides", len(E.draws) == 1)
    E.ensure("accepted with probability cuts / (bound * seam length)", z3.BoolVal(res is q.ref) == (E.draws[-1] * (real(M) * real(seam)) < real(nfound)))
    E.ensure("otherwise the unchanged plan", Or(res is q.ref, res is p.ref))


# ---------------------------------------------------------------- spectral recom
def spectral(E):
    W = Plan(E)
    p, g = W.p, W.g
    wt, lap = Opaque("weight type"), Opaque("laplacian type")
    st = {}

    def cut(E, graph, labels, weight_type, lap_type):
        gr = E.content(graph)
        h = graph_of(gr.fields["graph"] if isinstance(gr, ObjC) else graph)
        a, b = [enc(E.force(v), A) for v in E.unpack(labels, 2)]
        x = z3.Const("sx", A)
        y = E.bvars([A], "y")[0]
        U = lambda v: Or(p.asg(v) == a, p.asg(v) == b)
        E.ensure("the graph induced by the two districts is split", And(h.N(x) == And(g.N(x), U(x)), ForAll([y], h.adj(x, y) == And(g.adj(x, y), U(x), U(y)))))
        E.ensure("the settings are passed on", weight_type is wt and lap_type is lap)
        S = E.fresh_fun("first_side", A, B)
        st["ab"] = (a, b, S)
        return E.alloc(MapC(A, lambda v: And(g.N(v), U(v)), lambda v: z3.If(S(v), a, b)))
    E.contracts[SP + "spectral_cut"] = cut
    snap = Snapshot(E, p.ref)
    exc, res = raises(E, lambda: call(E, SP + "spectral_recom", p.ref, wt, lap))
    snap.check("the current plan is not changed")
    e = E.bvars([PAIR], "ne")[0]
    if exc is not None:
        E.ensure("only if no edge is cut", And(exc_name(exc) == "IndexError", Not(Exists([e], cut_spec(g, p.asg)(e)))))
        return
    E.ensure("a flip of the current plan is returned", isinstance(res, Ref) and W.flips is not None and res.loc == W.new.ref.loc)
    a, b, S = st["ab"]
    W.adjacent(a, b)
    W.resplit(a, b, lambda v: S(v))


def spectral_split(weights, norm):
    """whatever the eigenvectors are: every node gets one of the two labels"""
    def spec(E):
        g = G(E)
        n = z3.Int("n")
        node, pos = z3.Function("nth_node", I, A), z3.Function("position", A, I)
        x = z3.Const("x", A)
        y, i = E.bvars([A, I], "y")
        E.assume(n >= 0)
        E.assume(ForAll([y], Implies(g.N(y), And(0 <= pos(y), pos(y) < n, node(pos(y)) == y))))
        E.assume(ForAll([i], Implies(And(0 <= i, i < n), And(g.N(node(i)), pos(node(i)) == i))))
        E.inverses["nth_node"] = pos
        g.ref.attrs["nodes"] = PyFn(lambda E: SeqC(n, lambda i: node(num(i))))
        ws = {}

        def edges(E):
            v = G.edges_view(g)
            v.attrs["getitem"] = lambda E, e: Opaque("edge attributes", attrs={"setitem": lambda E, k, w: ws.__setitem__("k", k)})
            return v
        g.ref.attrs["edges"] = edges
        val = z3.Function("component", I, I, R)

        def lap(nm):
            def f(E, h, **kw):
                m = Opaque(nm)
                m.attrs["todense"] = PyFn(lambda E: m)
                return m
            return f
        E.models["networkx.normalized_laplacian_matrix"] = lap("normalized")
        E.models["networkx.laplacian_matrix"] = lap("plain")

        def column(E, k):
            if not (isinstance(k, Tup) and len(k.items) == 2 and getattr(k.items[0], "name", "") == "slice:all" and isinstance(k.items[1], int)):
                raise Unsupported("index of the eigenvectors")
            c = k.items[1]
            return Opaque("column", attrs={"item": PyFn(lambda E, i: val(num(i), z3.IntVal(c)))})

        def eigh(E, m):
            return Tup([Opaque("eigenvalues"), Opaque("eigenvectors", attrs={"getitem": column})])
        E.models["numpy.linalg.eigh"] = eigh
        a, b = z3.Consts("first second", A)
        labels = Tup([a, b])
        res = call(E, SP + "spectral_cut", g.ref, labels, "random" if weights else None, "normalized" if norm else "plain")
        m = E.as_map(E.content(res))
        E.ensure("every node gets a label, nothing else does", zbool(E.map_dom(m, x)) == g.N(x))
        v = enc(E.map_getd(m, x), A)
        E.ensure("it is one of the two labels", Implies(g.N(x), Or(v == a, v == b)))
    return spec


SPECS = [("epsilon_tree_bipartition", epsilon("list")), ("epsilon_tree_bipartition (tuple of labels)", epsilon("tuple")), ("epsilon_tree_bipartition: 1 label", wrong_parts(1)), ("epsilon_tree_bipartition: 3 labels", wrong_parts(3)),
         ("recom", recom("default")), ("recom (surcharges)", recom("regions")), ("recom (any method)", recom("method")), ("ReCom", recom("class")),
         ("reversible_recom", reversible), ("spectral_recom", spectral)] + [("spectral_cut (%s, %s)" % ("random weights" if w else "no weights", "normalized" if l else "plain"), spectral_split(w, l)) for w in (0, 1) for l in (0, 1)]
META = {}
