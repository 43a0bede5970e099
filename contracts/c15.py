from .trees import *

TR = "gerrychain.tree:"


class T:
    """an arbitrary tree with populations, wrapped as the code wraps it"""

    def __init__(self, E):
        g = self.g = a_graph(E, "tree")
        self.pop = z3.Function("pop", A, R)
        self.ideal, self.eps = z3.Reals("ideal epsilon")
        self.pops = E.alloc(MapC(A, lambda x: g.N(x), lambda x: self.pop(x)))
        self.h = call(E, TR + "PopulatedGraph", g.ref, self.pops, self.ideal, self.eps)

    def total(self, E):
        x = E.bvars([A], "x")[0]
        return E.sum([x], self.g.N(x), self.pop(x))

    def within(self, p):
        return z3.And(p - self.ideal <= self.ideal * self.eps, self.ideal - p <= self.ideal * self.eps)


def lemmas(E):
    g = a_graph(E, "tree")
    r, c = z3.Consts("r c", A)
    E.assume(And(g.N(r), g.N(c)))
    t = Rooted(E, g, r)
    t.facts(prove=True)
    t.split(c, z3.Function("pop", A, R), prove=True)


def rval(E, m, x):
    v = E.map_getd(m, x)
    return z3.RealVal(0) if isinstance(v, Poison) else real(num(v))


class Pops:
    """_calc_pops: stored populations are those of subtrees; children before parents; the root's children are waiting or done"""

    def __init__(self, t, Pf):
        self.t, self.Pf = t, Pf

    def state(self, E, fr):
        m = E.as_map(E.content(E.getvar("subtree_pops", fr)))
        w = E.to_set(E.getvar("stack", fr))
        return (lambda x: zbool(E.map_dom(m, x))), (lambda x: rval(E, m, x)), (lambda x: zbool(w.mem(x)))

    def inv(self, E, fr):
        has, val, W = self.state(E, fr)
        x, y = E.bvars([A, A], "x")
        t = self.t
        return [("stored populations are those of subtrees", ForAll([x], Implies(has(x), And(t.inner(x), val(x) == self.Pf(x))))),
                ("children are stored before their parent", ForAll([x, y], Implies(And(has(x), t.child(y, x)), has(y)))),
                ("the root's children are waiting or stored", ForAll([x], Implies(t.child(x, t.r), Or(has(x), W(x))))),
                ("only inner nodes wait", ForAll([x], Implies(W(x), t.inner(x))))]

    def havoc(self, E, fr):
        d, v, w = E.fresh_fun("has", A, B), E.fresh_fun("val", A, R), E.fresh_fun("waiting", A, B)
        E.heap[E.getvar("subtree_pops", fr).loc] = MapC(A, lambda x: d(x), lambda x: v(x))
        E.heap[E.getvar("stack", fr).loc] = WorkC(A, lambda x: w(x))

    def after(self, E, fr):
        self.t.split(enc(E.getvar("next_node", fr), A), self.t.pop, self.Pf)


def calc_pops(E):
    T_ = T(E)
    r = z3.Const("root", A)
    E.assume(T_.g.N(r))
    t = rooted(E, T_.g, r)
    t.pop = T_.pop
    Pf = z3.Function("subtree_pop", A, R)
    succ = E.alloc(t.succ_map())
    x = z3.Const("x", A)
    k = E.bvars([A], "k")[0]
    E.assume(Exists([k], t.child(k, r)))
    E.invariants[(TR + "_calc_pops", 0)] = o = Pops(t, Pf)
    snap = Snapshot(E, T_.pops)
    res = call(E, TR + "_calc_pops", succ, r, T_.h)
    snap.check("the populations are not changed")
    m = E.as_map(E.content(res))
    t.induct("every inner node is stored", lambda z: Or(z == r, zbool(E.map_dom(m, z))))
    E.ensure("exactly the inner nodes are stored", zbool(E.map_dom(m, x)) == t.inner(x))
    E.ensure("with the population of their subtree", Implies(t.inner(x), real(num(E.map_getd(m, x))) == Pf(x)))


class Below:
    """_part_nodes: found nodes are descendants; the children of a found node are found or waiting"""

    def __init__(self, t, s):
        self.t, self.s = t, s

    def inv(self, E, fr):
        V, W = E.to_set(E.getvar("nodes", fr)), E.to_set(E.getvar("queue", fr))
        V, W = [(lambda x, m=z: zbool(m.mem(x)) if m.sort is not None else z3.BoolVal(False)) for z in (V, W)]
        x, y = E.bvars([A, A], "x")
        t, s = self.t, self.s
        return [("found and waiting nodes are descendants", And(ForAll([x], Implies(V(x), t.desc(s, x))), ForAll([x], Implies(W(x), t.desc(s, x))))),
                ("the start is found or waiting", Or(V(s), W(s))),
                ("children of found nodes are found or waiting", ForAll([x, y], Implies(And(V(x), t.child(y, x)), Or(V(y), W(y)))))]

    def havoc(self, E, fr):
        v, w = E.fresh_fun("found", A, B), E.fresh_fun("waiting", A, B)
        E.heap[E.getvar("nodes", fr).loc] = SetC(A, lambda x: v(x))
        E.heap[E.getvar("queue", fr).loc] = WorkC(A, lambda x: w(x))


def part_nodes(E):
    g = a_graph(E, "tree")
    r, s, x = z3.Consts("root start x", A)
    E.assume(And(g.N(r), g.N(s)))
    t = rooted(E, g, r)
    E.invariants[(TR + "_part_nodes", 0)] = Below(t, s)
    res = E.to_set(call(E, TR + "_part_nodes", s, E.alloc(t.succ_map())))
    t.induct("descendants are found", lambda z: Implies(t.desc(s, z), zbool(res.mem(z))))
    E.ensure("exactly the descendants are found", zbool(res.mem(x)) == t.desc(s, x))


def cut_list(E, res, cls):
    """the segments of the returned list as (binders, guard, (a, b), subset membership)"""
    out = []
    for sg in E.segments(res):
        if isinstance(sg, Iter):
            bs = E.bvars(sg.sorts, "cut")
            gd, v = sg.mk(bs)
        else:
            bs, gd, v = [], z3.BoolVal(True), sg
        v = E.force(v)
        e = E.getattr(v, "edge")
        a, b = [enc(z, A) for z in E.unpack(e, 2)]
        s = E.to_set(E.getattr(v, "subset"))
        out.append((bs, zbool(gd), a, b, s))
    return out


def fresh_inst(E, cut, nm):
    bs, gd, a, b, s = cut
    ns = [z3.Const("%s_%d" % (nm, i), x.sort()) for i, x in enumerate(bs)]
    sub = list(zip(bs, ns))
    f = lambda t: z3.substitute(t, *sub) if sub else t
    return ns, f(gd), f(a), f(b), (lambda x: f(zbool(s.mem(x))))


def same_edge(a, b, c, d):
    return Or(And(a == c, b == d), And(a == d, b == c))


def side(E, g, S, a, b):
    """S is one side of the tree edge ab: exactly one end inside, no other tree edge leaves it"""
    x, y = E.bvars([A, A], "sd")
    return And(z3.Xor(S(a), S(b)), ForAll([x], Implies(S(x), g.N(x))), ForAll([x, y], Implies(And(g.J(x, y), Not(same_edge(x, y, a, b))), S(x) == S(y))))


def popsum(E, T_, S):
    x = E.bvars([A], "x")[0]
    return E.sum([x], And(T_.g.N(x), S(x)), T_.pop(x))


def sound(E, T_, cuts, both, t):
    g = T_.g
    tot = T_.total(E)
    for n, c in enumerate(cuts):
        ns, gd, a, b, S = fresh_inst(E, c, "c%d" % n)
        with_ = lambda f: Implies(gd, f)
        E.ensure("a cut's edge is an edge of the tree", with_(g.J(a, b)))
        E.ensure("a cut's subset is one side of its edge", with_(side(E, g, S, a, b)))
        low = z3.Const("low%d" % n, A)
        E.assume(low == z3.If(And(a != t.r, t.pred(a) == b), a, b))
        sub, ps = t.psum(low, T_.pop), popsum(E, T_, S)
        lem(E, "population of a cut's upper side", Implies(And(gd, S(t.r)), ps == tot - sub))
        lem(E, "population of a cut's lower side", Implies(And(gd, Not(S(t.r))), ps == sub))
        E.ensure("the subset is within tolerance of the target", with_(T_.within(ps)))
        if both:
            po = popsum(E, T_, lambda x: Not(S(x)))
            lem(E, "the two sides make up the whole", po == tot - ps)
            E.ensure("the other side is within tolerance of the target", with_(T_.within(po)))
    for n, c in enumerate(cuts):
        for m, d in enumerate(cuts[n:], n):
            ns, gd, a, b, S = fresh_inst(E, c, "c%d" % n)
            ms, gd2, a2, b2, S2 = fresh_inst(E, d, "d%d" % m)
            E.ensure("no edge is cut twice", Implies(And(gd, gd2, same_edge(a, b, a2, b2)), And(*[x == y for x, y in zip(ns, ms)]) if n == m else z3.BoolVal(False)))


def complete(E, T_, cuts, t, Pf, cond):
    """for every tree edge and either side S of it meeting the condition there is a cut"""
    g = T_.g
    a, b = z3.Consts("a b", A)
    Sf = z3.Function("side", A, B)
    S = lambda x: Sf(x)
    y = z3.If(And(a != t.r, t.pred(a) == b), a, b)
    E.assume(And(g.J(a, b), side(E, g, S, a, b)))
    yc = z3.Const("lower_end", A)
    E.assume(yc == y)
    lem(E, "one end of an edge is the other's parent", And(t.inner(yc), same_edge(a, b, yc, t.pred(yc))))
    t.induct("a side is the subtree or its complement", lambda x: (S(x) == S(t.r)) == Not(t.desc(yc, x)))
    psub = t.psum(yc, T_.pop)
    E.assume(Pf(yc) == psub)  # what Pf stands for
    ps, tot = popsum(E, T_, S), T_.total(E)
    lem(E, "population of a side", Implies(S(t.r), ps == tot - psub))
    lem(E, "population of a side (below)", Implies(Not(S(t.r)), ps == psub))
    hit = Or(*[Exists(bs, And(gd, same_edge(a, b, c, d))) for bs, gd, c, d, _ in cuts])
    E.ensure("every such edge is found", Implies(cond(ps, tot - ps), hit))


def callee_contracts(E, T_, st):
    def calc(E, succ, root, h):
        E.ensure("_calc_pops is given the tree's children", rooted(E, T_.g, root).is_succ(succ))
        E.ensure("_calc_pops is given this tree", isinstance(h, Ref) and h.loc == T_.h.loc)
        E.ensure("_calc_pops is given a root with children", E.contains(succ, root))
        t = rooted(E, T_.g, root)
        st["t"] = t
        st["Pf"] = Pf = E.fresh_fun("subtree_pop", A, R)
        return E.alloc(MapC(A, lambda x: t.inner(x), lambda x: Pf(x)))

    def part(E, start, succ):
        t = st["t"]
        E.ensure("_part_nodes is given the tree's children", t.is_succ(succ))
        s = enc(start, A)
        E.ensure("_part_nodes is given a node", t.g.N(s))
        return E.alloc(SetC(A, lambda x: t.desc(s, x)))
    E.contracts[TR + "_calc_pops"] = calc
    E.contracts[TR + "_part_nodes"] = part


def memo(one_sided):
    def spec(E):
        T_ = T(E)
        k, j, z = E.bvars([A, A, A], "n")
        st = {}
        callee_contracts(E, T_, st)
        w = E.fresh_fun("w", core.tupsort([A, A]), R)
        wd = E.fresh_fun("wd", core.tupsort([A, A]), B)
        E.heap[T_.g.ea["random_weight"].loc] = MapC(T_.g.psort, lambda e: wd(e), lambda e: w(e))
        kw = {"one_sided_cut": True} if one_sided else {}
        snap = Snapshot(E, T_.pops, T_.h)
        exc, res = raises(E, lambda: call(E, TR + "find_balanced_edge_cuts_memoization", T_.h, **kw))
        if exc is not None:
            E.ensure("it only fails when no node has two neighbors", And(exc_name(exc) == "IndexError", ForAll([k, j, z], Not(And(T_.g.J(k, j), T_.g.J(k, z), j != z)))))
            return
        snap.check("the populated graph is not changed")
        cuts = cut_list(E, res, None)
        t, Pf = st["t"], st["Pf"]
        for c in cuts:  # Pf is the population of the subtree
            for b in fresh_inst(E, c, "c%d" % cuts.index(c))[0]:
                E.assume(Implies(t.g.N(b), Pf(b) == t.psum(b, T_.pop)))
        sound(E, T_, cuts, not one_sided, t)
        w = T_.within
        complete(E, T_, cuts, t, Pf, (lambda p, q: Or(w(p), w(q))) if one_sided else (lambda p, q: And(w(p), w(q))))
    return spec


class Contract:
    """contraction: the subtrees of contracted nodes are folded into their parents; leaves are the nodes whose children are all contracted"""

    def __init__(self, T_, st, qual):
        self.T, self.st, self.qual = T_, st, qual
        self.Done = None

    def views(self, E, fr):
        h = self.T.h
        pm, dm, sm = [E.as_map(E.content(E.getattr(h, n))) for n in ("population", "_degrees", "subsets")]
        pop = lambda x: real(num(E.map_getd(pm, x)))
        deg = lambda x: num(E.map_getd(dm, x))

        def sub(x, y):
            v = E.map_getd(sm, x)
            v = v if isinstance(v, SetC) else E.content(E.force(v))
            return zbool(v.mem(y))
        doms = [lambda x, m=m: zbool(E.map_dom(m, x)) for m in (pm, dm, sm)]
        return pop, deg, sub, doms

    def inv(self, E, fr):
        T_, st = self.T, self.st
        g = T_.g
        if self.Done is None:
            root = E.getvar("root", fr)
            t = self.t = rooted(E, g, root)
            st["t"] = t
            st["Pf"] = self.Pf = E.fresh_fun("subtree_pop", A, R)
            self.Done = lambda x: z3.BoolVal(False)
            n = z3.Const("n!deg", A)
            k = E.bvars([A], "k")[0]
        t, Done, Pf = self.t, self.Done, self.Pf
        pop, deg, sub, doms = self.views(E, fr)
        W = E.to_set(E.getvar("leaves", fr))
        x, y, k = E.bvars([A, A, A], "x")
        alldone = lambda z: ForAll([k], Implies(t.child(k, z), Done(k)))
        xc = z3.Const("xc!%d" % E.uid(), A)
        out = [("contracted nodes are inner nodes, their children contracted", ForAll([x], Implies(Done(x), And(t.inner(x), alldone(x))))),
               ("every node has an entry", ForAll([x], And(*[Implies(g.N(x), d(x)) for d in doms]))),
               ("a node's population includes its contracted children's subtrees", ForAll([x], Implies(g.N(x), pop(x) == T_.pop(x) + E.sum([k], And(t.child(k, x), Done(k)), Pf(k))))),
               ("a node's degree is that of the tree without the contracted nodes", ForAll([x], Implies(g.N(x), deg(x) == z3.If(x == t.r, 0, 1) + E.sum([k], And(t.child(k, x), Not(Done(k))), z3.IntVal(1))))),
               ("a node's subset is itself and the subtrees of its contracted children", ForAll([x, y], Implies(g.N(x), sub(x, y) == Or(x == y, And(t.desc(x, y), Done(t.kid(x, y))))))),
               ("the leaves are the nodes left whose children are all contracted", ForAll([x], zbool(W.mem(x)) == And(t.inner(x), Not(Done(x)), alldone(x))))]
        # the cuts so far
        cuts = cut_list(E, E.getvar("cuts", fr), None)
        for bs, gd, a, b, s in cuts:
            out.append(("a listed cut belongs to a contracted qualifying node", ForAll(bs, Implies(gd, And(Done(a), b == t.pred(a), self.qual(Pf(a)), ForAll([y], zbool(s.mem(y)) == t.desc(a, y)))))))
        out.append(("every contracted qualifying node is listed", ForAll([x], Implies(And(Done(x), self.qual(Pf(x))), Or(*[Exists(bs, And(gd, a == x)) for bs, gd, a, b, s in cuts])))))
        for n, c in enumerate(cuts):
            for d in cuts[n:]:
                ns, gd, a, b, S = fresh_inst(E, c, "i%d" % n)
                ms, gd2, a2, b2, S2 = fresh_inst(E, d, "j%d" % n)
                out.append(("no edge is listed twice", ForAll(ns + ms, Implies(And(gd, gd2, a == a2), And(*[x == y for x, y in zip(ns, ms)]) if c is d else z3.BoolVal(False)))))
        return out

    def havoc(self, E, fr):
        T_, t, Pf = self.T, self.t, self.Pf
        done, p, d, s = E.fresh_fun("contracted", A, B), E.fresh_fun("population", A, R), E.fresh_fun("degree", A, I), E.fresh_fun("subset", A, A, B)
        w, wt = E.fresh_fun("leaf", A, B), E.fresh_fun("weight", A, R)
        self.Done = done
        self.p = p
        for n, v in (("population", lambda x: p(x)), ("_degrees", lambda x: d(x)), ("subsets", lambda x: SetC(A, lambda y: s(x, y)))):
            E.heap[E.getattr(T_.h, n).loc] = MapC(A, lambda x: T_.g.N(x), v)
        E.heap[E.getvar("leaves", fr).loc] = WorkC(A, lambda x: w(x), True)
        Cut = imp(E, TR + "Cut")
        mk = lambda n: E.call(Cut, [], {"edge": Tup([n, t.pred(n)]), "weight": wt(n), "subset": SetC(A, lambda y: t.desc(n, y), True)})
        E.heap[E.getvar("cuts", fr).loc] = BagC([Iter([A], lambda bs: (And(done(bs[0]), self.qual(Pf(bs[0]))), mk(bs[0])), distinct=True)])

    def after(self, E, fr):
        done, leaf = self.Done, enc(E.getvar("leaf", fr), A)
        self.Done = lambda x: Or(done(x), x == leaf)
        self.t.split(leaf, self.T.pop, self.Pf)
        lem(E, "a leaf carries the population of its subtree", self.p(leaf) == self.Pf(leaf))

    def at_exit(self, E, fr):
        t, Done = self.t, self.Done
        least(E, lambda x: And(t.inner(x), Not(Done(x))), lambda x: -t.depth(x))
        x = E.bvars([A], "x")[0]
        lem(E, "every inner node is contracted", ForAll([x], Implies(t.inner(x), Done(x))))


def contraction(one_sided):
    def spec(E):
        T_ = T(E)
        st = {}
        tot = T_.total(E)
        w = T_.within
        ws = lambda p: z3.And(p - T_.ideal < T_.ideal * T_.eps, T_.ideal - p < T_.ideal * T_.eps)
        q = ws if one_sided else (lambda p: And(w(p), w(tot - p)))
        E.invariants[(TR + "find_balanced_edge_cuts_contraction", 0)] = o = Contract(T_, st, q)
        wf, wd = E.fresh_fun("w", core.tupsort([A, A]), R), E.fresh_fun("wd", core.tupsort([A, A]), B)
        E.heap[T_.g.ea["random_weight"].loc] = MapC(T_.g.psort, lambda e: wd(e), lambda e: wf(e))
        kw = {"one_sided_cut": True} if one_sided else {}
        k, j, z = E.bvars([A, A, A], "n")
        snap = Snapshot(E, T_.pops)
        exc, res = raises(E, lambda: call(E, TR + "find_balanced_edge_cuts_contraction", T_.h, **kw))
        if exc is not None:
            E.ensure("it only fails when no node has two neighbors", And(exc_name(exc) == "IndexError", ForAll([k, j, z], Not(And(T_.g.J(k, j), T_.g.J(k, z), j != z)))))
            return
        snap.check("the caller's populations are not changed")
        cuts = cut_list(E, res, None)
        t, Pf = st["t"], st["Pf"]
        for c in cuts:
            for b in fresh_inst(E, c, "c%d" % cuts.index(c))[0]:
                E.assume(Implies(t.g.N(b), Pf(b) == t.psum(b, T_.pop)))
        sound(E, T_, cuts, not one_sided, t)
        if not one_sided:
            complete(E, T_, cuts, t, Pf, lambda p, q: And(w(p), w(q)))
    return spec


SPECS = [("lemmas about rooted trees", lemmas), ("_calc_pops", calc_pops), ("_part_nodes", part_nodes),
         ("find_balanced_edge_cuts_memoization", memo(False)), ("find_balanced_edge_cuts_memoization (one-sided)", memo(True)),
         ("find_balanced_edge_cuts_contraction", contraction(False), {"shards": 5}), ("find_balanced_edge_cuts_contraction (one-sided)", contraction(True), {"shards": 5})]
META = {}
