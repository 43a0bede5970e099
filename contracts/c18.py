from .c17 import *

CONTRACT = "contract of a conforming bipartition method (C16): given a connected graph it raises or returns a set of its nodes such that the set and its complement are not empty and connected and the set's population is within tolerance of the target (the complement's too unless one_sided_cut)"


class Method:
    """a conforming bipartition method; conn: the node set currently known to be connected"""

    def __init__(self, E, g, pop, extra=()):
        self.E, self.g, self.pop, self.extra = E, g, pop, set(extra)
        self.conn = lambda x: g.N(x)
        self.last = None
        self.one = False
        self.fn = PyFn(self.call, "method", attrs={"params": ["graph", "pop_col", "pop_target", "epsilon", "node_repeats", "one_sided_cut"]})
        E.trusted.add(CONTRACT)

    def call(self, E, graph, **kw):
        g, x = self.g, z3.Const("mx!%d" % E.uid(), A)
        h = graph_of(graph)
        y = E.bvars([A], "y")[0]
        if set(kw) - {"pop_col", "pop_target", "epsilon", "node_repeats", "one_sided_cut"}:
            raise Unsupported("arguments of the bipartition method")
        E.ensure("precondition of the method: the graph induced by a connected set of nodes", And(h.N(x) == And(g.N(x), self.conn(x)), ForAll([y], h.adj(x, y) == And(g.adj(x, y), self.conn(x), self.conn(y)))))
        E.ensure("the method gets the population column", kw.get("pop_col") == "POP")
        t, e = real(num(kw["pop_target"])), real(num(kw["epsilon"]))
        if E.branch(E.stable("method_fails", B)):
            raise PyRaise(ExcV(imp(E, TR + "ReselectException")))
        S = E.fresh_fun("piece", A, B)
        N = h.N
        E.assume(ForAll([y], Implies(S(y), N(y))))
        E.assume(And(Exists([y], S(y)), Exists([y], And(N(y), Not(S(y))))))
        ps, po = total(E, lambda v: And(S(v)), self.pop), total(E, lambda v: And(N(v), Not(S(v))), self.pop)
        d = e * t
        if z3.is_app_of(e, z3.Z3_OP_DIV) and e.arg(1).eq(t):
            d = z3.If(t == 0, d, e.arg(0))
        ok = lambda p: And(p - t <= d, t - p <= d)
        E.assume(ok(ps))
        one = kw.get("one_sided_cut", self.one)
        E.assume(Implies(Not(zbool(E.truth(one))), ok(po)))
        self.last = S
        self.rest = lambda v: And(N(v), Not(S(v)))
        self.conn = self.rest
        return E.alloc(SetC(A, lambda v: S(v)))


class Pieces:
    """the parts cut off so far"""
    keeps = ("debt", "remaining_nodes")

    def __init__(self, M, lab, ok):
        self.M, self.lab, self.ok = M, lab, ok
        self.ret = lambda i, x: z3.BoolVal(False)

    def state(self, E, fr):
        m = E.as_map(E.content(E.getvar("flips", fr)))
        r = E.to_set(E.getvar("remaining_nodes", fr))
        F = (lambda x: zbool(E.map_dom(m, x))) if m.ksort is not None else (lambda x: z3.BoolVal(False))
        to = lambda x: enc(E.map_getd(m, x), A) if m.ksort is not None else x
        return F, to, (lambda x: zbool(r.mem(x)))

    def inv(self, E, fr, done):
        F, to, Rm = self.state(E, fr)
        g, M, lab, ret = self.M.g, self.M, self.lab, self.ret
        x, i = E.bvars([A, I], "x")
        self.F, self.to = F, to
        pop = lambda i: total(E, lambda v: And(F(v), to(v) == lab(i)), M.pop)
        return [("every node is assigned or remains", ForAll([x], And(F(x), Not(Rm(x))) == And(g.N(x), Not(Rm(x))))),
                ("remaining nodes are not assigned", ForAll([x], Implies(Rm(x), And(g.N(x), Not(F(x)))))),
                ("the remaining nodes are the connected rest", ForAll([x], Rm(x) == And(g.N(x), M.conn(x)))),
                ("some node remains", Exists([x], Rm(x))),
                ("every district so far is a piece the method returned", ForAll([i, x], Implies(done(i), And(F(x), to(x) == lab(i)) == ret(i, x)))),
                ("assigned nodes have the label of a part done", ForAll([x], Implies(F(x), Exists([i], And(done(i), to(x) == lab(i)))))),
                ("every district so far has a node", ForAll([i], Implies(done(i), Exists([x], And(F(x), to(x) == lab(i)))))),
                ("every district so far is within tolerance", ForAll([i], Implies(done(i), self.ok(pop(i)))))]

    def havoc(self, E, fr, done):
        f, t, r, q = E.fresh_fun("assigned", A, B), E.fresh_fun("label", A, A), E.fresh_fun("remains", A, B), E.fresh_fun("returned", I, A, B)
        E.heap[E.getvar("flips", fr).loc] = MapC(A, lambda x: f(x), lambda x: t(x))
        E.heap[E.getvar("remaining_nodes", fr).loc] = SetC(A, lambda x: r(x))
        E.setvar("debt", E.stable("debt", R), fr)
        self.M.conn = lambda x: r(x)
        self.ret, self.done = q, done

    def after(self, E, fr):
        q, S = self.ret, self.M.last
        k = self.cur[0]
        self.ret = lambda i, x: z3.If(i == k, S(x), q(i, x))
        F0, to0 = self.F, self.to
        F, to, _ = self.state(E, fr)
        x, i = E.bvars([A, I], "x")
        dist = lambda F, to, i: lambda v: And(F(v), to(v) == self.lab(i))
        pop = lambda F, to, i: total(E, dist(F, to, i), self.M.pop)
        lem(E, "the new district is the piece", ForAll([x], dist(F, to, k)(x) == S(x)))
        lem(E, "earlier districts are kept", ForAll([i, x], Implies(self.done(i), dist(F, to, i)(x) == dist(F0, to0, i)(x))))
        lem(E, "the population of the new district is that of the piece", pop(F, to, k) == total(E, lambda v: S(v), self.M.pop))
        lem(E, "the populations of earlier districts are kept", ForAll([i], Implies(self.done(i), pop(F, to, i) == pop(F0, to0, i))))


def tree_part(E):
    g = G(E)
    pop = g.attr("POP")
    target, eps = z3.Reals("target epsilon")
    reps, n = z3.Ints("node_repeats n")
    E.assume(And(n >= 2, target > 0, eps >= 0))
    E.trusted.add("precondition: at least two different labels, a positive target")
    lab, pos = z3.Function("label_of", I, A), z3.Function("index_of", A, I)
    i = E.bvars([I], "i")[0]
    x = z3.Const("x", A)
    E.assume(ForAll([i], pos(lab(i)) == i))
    E.inverses["label_of"] = pos
    M = Method(E, g, pop)
    parts = E.alloc(SeqC(n, lambda i: lab(num(i))))
    ok = lambda p: And(target * (1 - eps) <= p, p <= target * (1 + eps))
    inv = E.invariants[(TR + "recursive_tree_part", 0)] = Pieces(M, lab, ok)
    exc, res = raises(E, lambda: call(E, TR + "recursive_tree_part", g.ref, parts, target, "POP", eps, reps, M.fn))
    if exc is not None:
        return
    m = E.as_map(E.content(res))
    F, to = (lambda v: zbool(E.map_dom(m, v))), (lambda v: enc(E.map_getd(m, v), A))
    S, rest, ret = M.last, M.rest, inv.ret
    E.ensure("every node gets a label, nothing else does", F(x) == g.N(x))
    y = E.bvars([A], "y")[0]
    rg = lambda i: And(0 <= i, i < n)
    E.ensure("only the given labels are used", Implies(F(x), Exists([i], And(rg(i), to(x) == lab(i)))))
    piece = lambda i, v: z3.If(i < n - 2, ret(i, v), z3.If(i == n - 2, S(v), rest(v)))
    j = z3.Const("j", I)
    lem(E, "every district is a connected set the method returned, or the rest of the last", ForAll([i, y], Implies(rg(i), And(F(y), to(y) == lab(i)) == piece(i, y))))
    tot = lambda F, to, j: total(E, lambda v: And(F(v), to(v) == lab(j)), pop)
    lem(E, "the population of an earlier district", Implies(And(0 <= j, j < n - 2), tot(F, to, j) == tot(inv.F, inv.to, j)))
    lem(E, "the population of the second-to-last district", tot(F, to, n - 2) == total(E, lambda v: S(v), pop))
    lem(E, "the population of the last district", tot(F, to, n - 1) == total(E, rest, pop))
    lem(E, "cases", Implies(rg(j), Or(And(0 <= j, j < n - 2), j == n - 2, j == n - 1)))
    E.ensure("every label is used", Implies(rg(j), Exists([y], And(F(y), to(y) == lab(j)))))
    E.ensure("every district is within tolerance of the target", Implies(rg(j), ok(total(E, lambda v: And(F(v), to(v) == lab(j)), pop))))


# ---------------------------------------------------------------- seed chunks
class Tries:
    keeps = ("epsilon", "new_epsilon")

    def __init__(self, eps, left):
        self.eps, self.left = eps, left

    def inv(self, E, fr):
        return [("a single district per chunk: the working tolerance is at most the given one", Implies(self.left == 1, real(num(E.getvar("new_epsilon", fr))) <= self.eps)),
                ("the given tolerance is kept", real(num(E.getvar("epsilon", fr))) == self.eps)]

    def havoc(self, E, fr):
        E.setvar("new_epsilon", E.stable("working_epsilon", R), fr)
        E.setvar("epsilon", E.stable("given_epsilon", R), fr)


class Chunks:
    """the chunks cut off so far in this try; the rest is labelled with the last chunk"""
    keeps = ("remaining_nodes",)

    def __init__(self, M, n):
        self.M, self.n = M, n
        self.ret = lambda i, x: z3.BoolVal(False)

    def state(self, E, fr):
        m = E.as_map(E.content(E.getvar("flips", fr)))
        r = E.to_set(E.getvar("remaining_nodes", fr))
        F = (lambda x: zbool(E.map_dom(m, x))) if m.ksort is not None else (lambda x: z3.BoolVal(False))
        to = (lambda x: num(E.map_getd(m, x))) if m.ksort is not None else (lambda x: z3.IntVal(-1))
        return F, to, (lambda x: zbool(r.mem(x)))

    def first(self, E, fr):
        """a new try starts from the whole graph"""
        self.M.conn = lambda x: self.M.g.N(x)

    def inv(self, E, fr, done):
        F, to, Rm = self.state(E, fr)
        M, ret = self.M, self.ret
        g, N = M.g, M.base
        x, i = E.bvars([A, I], "x")
        self.F, self.to, self.Rm = F, to, Rm
        lo, hi = real(num(E.getvar("min_pop", fr))), real(num(E.getvar("max_pop", fr)))
        pop = lambda i: total(E, lambda v: ret(i, v), M.pop)
        some = Exists([i], done(i))
        return [("all nodes are labelled once a chunk is cut off", ForAll([x], F(x) == And(N(x), some))),
                ("the remaining nodes are the connected rest", And(ForAll([x], Implies(Rm(x), N(x))), ForAll([x], Rm(x) == M.conn(x)))),
                ("some node remains", Exists([x], Rm(x))),
                ("every chunk so far is a piece the method returned", ForAll([i, x], Implies(done(i), And(F(x), to(x) == i) == ret(i, x)))),
                ("the rest is labelled as the last chunk", ForAll([x], Implies(And(F(x), Rm(x)), to(x) == self.n - 1))),
                ("other nodes are in a chunk cut off", ForAll([x], Implies(And(N(x), Not(Rm(x))), done(to(x))))),
                ("every chunk so far has a node", ForAll([i], Implies(done(i), Exists([x], ret(i, x))))),
                ("every chunk so far is between the bounds", ForAll([i], Implies(done(i), And(lo <= pop(i), pop(i) <= hi))))]

    def havoc(self, E, fr, done):
        f, t, r, q = E.fresh_fun("assigned", A, B), E.fresh_fun("chunk", A, I), E.fresh_fun("remains", A, B), E.fresh_fun("returned", I, A, B)
        E.heap[E.getvar("flips", fr).loc] = MapC(A, lambda x: f(x), lambda x: t(x))
        E.heap[E.getvar("remaining_nodes", fr).loc] = SetC(A, lambda x: r(x))
        self.M.conn = lambda x: r(x)
        self.ret, self.done = q, done

    def after(self, E, fr):
        q, S = self.ret, self.M.last
        k = self.cur[0]
        self.ret = ret = lambda i, x: z3.If(i == k, S(x), q(i, x))
        i = E.bvars([I], "i")[0]
        tot = lambda f: total(E, f, self.M.pop)
        lem(E, "the population of the new chunk is that of the piece", tot(lambda v: ret(k, v)) == tot(lambda v: S(v)))
        lem(E, "the populations of earlier chunks are kept", ForAll([i], Implies(self.done(i), tot(lambda v: ret(i, v)) == tot(lambda v: q(i, v)))))


def seed_chunks(E):
    g = G(E)
    pop = g.attr("POP")
    target, eps = z3.Reals("target epsilon")
    reps, n, left = z3.Ints("node_repeats num_chunks districts_per_chunk")
    E.assume(And(n >= 2, left >= 1, target > 0, eps >= 0))
    E.trusted.add("precondition of get_seed_chunks: at least two chunks, all of the same positive number of districts; a positive target")
    M = Method(E, g, pop)
    M.base, M.one = g.N, True
    nd = z3.Int("num_dists")
    E.assume(And(nd == n * left, nd / n == left))
    E.invariants[(TR + "get_seed_chunks", 1)] = Tries(eps, left)
    inv = E.invariants[(TR + "get_seed_chunks", 2)] = Chunks(M, n)
    exc, res = raises(E, lambda: call(E, TR + "get_seed_chunks", g.ref, n, nd, target, "POP", eps, reps, M.fn))
    if exc is not None:
        return
    segs = E.segments(res)
    if len(segs) != 1 or not isinstance(segs[0], Iter) or segs[0].sorts != [I]:
        raise Unsupported("chunks of another shape")
    it = segs[0]

    def chunk(k):
        c, v = it.mk([k])
        m = E.to_set(v)
        return zbool(c), (lambda x: zbool(m.mem(x)))
    k, x = z3.Const("k", I), z3.Const("x", A)
    y, i = E.bvars([A, I], "y")
    ret, rest = inv.ret, M.conn
    piece = lambda k, v: z3.If(k < n - 1, ret(k, v), rest(v))
    has, mem = chunk(k)
    rg = And(0 <= k, k < n)
    E.ensure("as many chunks as asked for", has == rg)
    lem(E, "every chunk is a connected set the method returned, or the rest of the last", ForAll([y], Implies(rg, mem(y) == piece(k, y))))
    E.ensure("no chunk is empty", Implies(rg, Exists([y], mem(y))))
    hi = [chunk(i)]
    E.ensure("every node of the graph is in a chunk, nothing else is", g.N(x) == Exists([i], And(hi[0][0], hi[0][1](x))))
    j = z3.Const("j", I)
    hj = chunk(j)
    E.ensure("no node is in two chunks", Implies(And(has, hj[0], mem(x), hj[1](x)), k == j))
    ok = lambda p: And(target * (1 - eps) <= p, p <= target * (1 + eps))
    t = total(E, mem, pop)
    lem(E, "the population of a chunk cut off", Implies(And(0 <= k, k < n - 1), t == total(E, lambda v: ret(k, v), pop)))
    lem(E, "the population of the last chunk", Implies(k == n - 1, t == total(E, rest, pop)))
    E.ensure("one district per chunk: every chunk is within tolerance of the target", Implies(And(rg, left == 1), ok(t)))


# ---------------------------------------------------------------- recursive seed
class Seed:
    """arguments of the recursive constructor and the contract its recursive calls are checked against"""

    def __init__(self, E, kind):
        self.E = E
        self.g = g = G(E)
        self.pop = g.attr("POP")
        self.target, self.eps = z3.Reals("target epsilon")
        self.m = z3.Int("num_dists")
        self.reps = z3.Int("node_repeats")
        E.assume(And(self.target > 0, self.eps >= 0))
        E.trusted.add("precondition of the recursive seed: at least one district, a positive target; a single district: the population is within tolerance")
        self.M = Method(E, g, self.pop)
        self.opts = {}
        if kind == "n":
            self.opts["n"] = z3.Int("n")
        if kind == "ceil":
            self.opts["ceil"] = z3.Int("ceil")
        self.fams = [([], lambda bs: (lambda x: g.N(x)))]
        self.ok = lambda p: And(self.target * (1 - self.eps) <= p, p <= self.target * (1 + self.eps))
        E.contracts[TR + "get_max_prime_factor_less_than"] = self.factor
        E.contracts[TR + "get_seed_chunks"] = self.chunks
        E.contracts[TR + "recursive_seed_part_inner"] = self.inner
        self.C = None
        self.counts = []

    def factor(self, E, n, ceil):
        """contract of get_max_prime_factor_less_than: None or a number between 2 and the ceiling"""
        if E.branch(E.stable("no_factor", B)):
            return None
        r = E.stable("factor", I)
        E.assume(And(r >= 2, r <= num(ceil), r <= num(n)))
        return r

    def settings(self, E, pop_target, pop_col, epsilon, method):
        E.ensure("the settings are passed on", And(pop_col == "POP", E.equal(pop_target, self.target), E.equal(epsilon, self.eps)))
        m = E.force(method)
        while isinstance(m, PartialV):
            if m.args or set(m.kw) - {"one_sided_cut"}:
                raise Unsupported("arguments bound to the bipartition method")
            m = m.fn
        E.ensure("the given method is used", m is self.M.fn)

    def chunks(self, E, graph, num_chunks, num_dists, pop_target, pop_col, epsilon, node_repeats=1, method=None):
        """contract of get_seed_chunks (above)"""
        g, x = self.g, z3.Const("kx", A)
        h = graph_of(graph)
        self.settings(E, pop_target, pop_col, epsilon, method)
        one = E.force(method)
        E.ensure("pieces are cut one-sided: the rest is not a district", isinstance(one, PartialV) and one.kw.get("one_sided_cut") is True)
        E.ensure("the whole connected graph is cut into chunks", h.N(x) == And(g.N(x), self.M.conn(x)))
        c, d = num(num_chunks), num(num_dists)
        left = E.stable("per_chunk", I)
        E.ensure("precondition of get_seed_chunks: at least two chunks, all of the same positive number of districts", And(c >= 2, d >= 1, num(E.arith("%", d, c)) == 0))
        E.assume(And(d == c * left, num(E.arith("//", d, c)) == left, left >= 1))
        self.left, self.c = left, c
        if E.branch(E.stable("chunks_fail", B)):
            raise PyRaise(ExcV(imp(E, TR + "BalanceError")))
        C = z3.Function("chunk", I, A, B)
        k, j, y = E.bvars([I, I, A], "k")
        rg = lambda k: And(0 <= k, k < c)
        E.assume(ForAll([k, y], Implies(And(rg(k), C(k, y)), h.N(y))))
        E.assume(ForAll([y], Implies(h.N(y), Exists([k], And(rg(k), C(k, y))))))
        E.assume(ForAll([k, j, y], Implies(And(rg(k), rg(j), C(k, y), C(j, y)), k == j)))
        E.assume(ForAll([k], Implies(rg(k), Exists([y], C(k, y)))))
        E.assume(ForAll([k], Implies(And(rg(k), left == 1), self.ok(total(E, lambda v: And(h.N(v), C(k, v)), self.pop)))))
        self.C = C
        return E.alloc(SeqC(c, lambda k: E.alloc(BagC([Iter([A], lambda bs: (C(num(k), bs[0]), bs[0]), distinct=True)])) if not E.binders() else BagC([Iter([A], lambda bs: (C(num(k), bs[0]), bs[0]), distinct=True)])))

    def inner(self, E, graph, num_dists, pop_target, pop_col, epsilon, method=None, node_repeats=1, n=None, ceil=None):
        """contract of recursive_seed_part_inner, for smaller graphs"""
        g, x = self.g, z3.Const("kx", A)
        y = E.bvars([A], "y")[0]
        h = graph_of(graph)
        self.settings(E, pop_target, pop_col, epsilon, method)
        E.ensure("the options are passed on", And(*[E.equal(v, self.opts.get(k)) if k in self.opts else v is None for k, v in (("n", n), ("ceil", ceil))]))
        bs = uses(h.N(y), self.C) if self.C is not None else []
        C = (lambda v: self.C(bs[0], v)) if bs else self.M.conn
        m = num(num_dists)
        E.ensure("precondition: the graph induced by a connected set of nodes", And(ForAll([y], h.N(y) == And(g.N(y), C(y)))))
        E.ensure("precondition: at least one district", m >= 1)
        E.ensure("precondition: a single district is within tolerance", Implies(m == 1, self.ok(total(E, lambda v: h.N(v), self.pop))))
        if E.branch(z3.Function("inner_fails_%d" % len(bs), *([I] * len(bs) + [B]))(*bs) if bs else E.stable("inner_fails", B)):
            raise PyRaise(ExcV(imp(E, TR + "BalanceError")))
        D0 = z3.Function("district_%d" % len(bs), *([I] * len(bs) + [I, A, B]))
        D = lambda i, v: D0(*(bs + [i, v]))
        i, j = E.bvars([I, I], "i")
        rg = lambda i: And(0 <= i, i < m)
        E.assume(ForAll([i, y], Implies(And(rg(i), D(i, y)), h.N(y))))
        E.assume(ForAll([y], Implies(h.N(y), Exists([i], And(rg(i), D(i, y))))))
        E.assume(ForAll([i, j, y], Implies(And(rg(i), rg(j), D(i, y), D(j, y)), i == j)))
        E.assume(ForAll([i], Implies(rg(i), And(Exists([y], D(i, y)), self.ok(total(E, lambda v: D(i, v), self.pop))))))
        self.counts.append((len(bs) + 1, m))
        self.fams.append(([I] * len(bs) + [I], lambda xs: (lambda v: D0(*(list(xs) + [v])))))
        return E.alloc(SeqC(m, lambda i: SetC(A, lambda v: D(num(i), v))))


def uses(f, decl):
    """first argument of the first application of decl in f"""
    st = [f]
    while st:
        t = st.pop()
        if z3.is_app(t):
            if t.decl().eq(decl):
                return [t.arg(0)]
            st += t.children()
    return []


def check_seed(E, W, res):
    """the result is a list of num_dists disjoint connected districts within tolerance that cover the graph"""
    g = W.g
    x = z3.Const("x", A)
    segs = E.segments(res)
    if W.M.last is not None:
        W.fams += [([], lambda bs: (lambda v: W.M.last(v))), ([], lambda bs: (lambda v: W.M.rest(v)))]
    els = []
    for s in segs:
        bs = E.bvars(s.sorts, "sg") if isinstance(s, Iter) else []
        cs = [z3.Const("%s_%d" % (b, len(els)), b.sort()) for b in bs]
        els.append((s, cs, *at(E, s, cs)))
    cover = []
    for s, cs, gd, mem in els:
        E.ensure("no district is empty", Implies(gd, Exists([x], mem(x))))
        E.ensure("every district is within tolerance of the target", Implies(gd, W.ok(total(E, mem, W.pop))))
        fs = [f(cs) for so_, f in W.fams if len(so_) == len(cs)]
        E.ensure("every district is a connected set", Implies(gd, Or(*[ForAll([x], mem(x) == f(x)) for f in fs])))
        bs = E.bvars([c.sort() for c in cs], "cv")
        g2, m2 = at(E, s, bs)
        cover.append(Exists(bs, And(g2, m2(x))))
    E.ensure("every node is in a district, nothing else is", g.N(x) == Or(*cover))
    for n, (s, cs, gd, mem) in enumerate(els):
        for s2, cs2, gd2, mem2 in els[n:]:
            if s2 is s and not cs:
                continue
            ds = [z3.Const("%s_o" % c, c.sort()) for c in cs2]
            g2, m2 = at(E, s2, ds)
            same = And(*[a == b for a, b in zip(cs, ds)]) if s2 is s else z3.BoolVal(False)
            E.ensure("no node is in two districts", Implies(And(gd, mem(x), g2, m2(x)), same))
    n = z3.IntVal(0)
    for s, cs, gd, mem in els:
        if not cs:
            n = n + 1
            continue
        ms = [m for k, m in W.counts if k == len(cs)]
        m = ms[-1]
        rg = And(0 <= cs[-1], cs[-1] < m)
        if len(cs) == 2:
            rg = And(rg, 0 <= cs[0], cs[0] < W.c)
            E.trusted.add("product rule: a family indexed by 0..c-1 and 0..m-1 has c*m members")
        E.ensure("the pieces of all recursive calls are in the result", gd == rg)
        n = n + (m if len(cs) == 1 else m * W.c)
    E.ensure("as many districts as asked for", n == W.m)


def at(E, s, bs):
    if isinstance(s, Iter):
        gd, v = s.mk(bs)
    else:
        gd, v = z3.BoolVal(True), s
    m = E.to_set(v)
    return zbool(gd), (lambda x: zbool(m.mem(x)))


def seed(kind):
    def spec(E):
        W = Seed(E, kind)
        g, m = W.g, W.m
        E.assume(And(m >= 1, Implies(m == 1, W.ok(total(E, lambda v: g.N(v), W.pop)))))
        f = imp(E, TR + "recursive_seed_part_inner")
        exc, res = raises(E, lambda: E.apply(f, [g.ref, m, W.target, "POP", W.eps], {"method": W.M.fn, "node_repeats": W.reps, **W.opts}))
        if exc is not None:
            return
        check_seed(E, W, res)
    return spec


class Small:
    """the factor found so far"""
    keeps = ("n", "largest_factor", "i")

    def __init__(self, n, ceil, odd):
        self.n, self.ceil, self.odd = n, ceil, odd

    def inv(self, E, fr):
        n = num(E.getvar("n", fr))
        f = E.force(E.getvar("largest_factor", fr))
        out = [("the number left is positive and not larger", And(1 <= n, n <= self.n)),
               ("the factor found is between 2 and the ceiling", f is None or And(num(f) >= 2, num(f) <= self.ceil, num(f) <= self.n))]
        if self.odd:
            out.append(("the candidates are at least 3", num(E.getvar("i", fr)) >= 3))
        return out

    def havoc(self, E, fr):
        E.setvar("n", E.stable("left", I), fr)
        E.setvar("largest_factor", None if E.branch(E.stable("none_yet", B)) else E.stable("found", I), fr)
        if self.odd:
            E.setvar("i", E.stable("candidate", I), fr)


def prime_factor(E):
    n, ceil = z3.Ints("n ceil")
    q = TR + "get_max_prime_factor_less_than"
    for k in range(3):
        E.invariants[(q, k)] = Small(n, ceil, k > 0)
    r = E.force(call(E, q, n, ceil))
    if r is None:
        return
    E.ensure("the factor is between 2 and the ceiling and not larger than the number", And(num(r) >= 2, num(r) <= ceil, num(r) <= n))


def seed_part(E):
    """the districts of the list get the given labels, one each"""
    W = Seed(E, "")
    g, n = W.g, W.m
    E.assume(n >= 2)
    lab, pos = z3.Function("label_of", I, A), z3.Function("index_of", A, I)
    i, y = E.bvars([I, A], "i")
    E.assume(ForAll([i], pos(lab(i)) == i))
    E.inverses["label_of"] = pos
    parts = E.alloc(SeqC(n, lambda i: lab(num(i))))
    exc, res = raises(E, lambda: call(E, TR + "recursive_seed_part", g.ref, parts, W.target, "POP", W.eps, W.M.fn, W.reps))
    if exc is not None:
        return
    m = E.as_map(E.content(res))
    F, to = (lambda v: zbool(E.map_dom(m, v))), (lambda v: enc(E.map_getd(m, v), A))
    D = z3.Function("district_0", I, A, B)
    x, j = z3.Const("x", A), z3.Const("j", I)
    rg = lambda i: And(0 <= i, i < n)
    E.ensure("as many districts as labels are asked for", And(*[k == n for _, k in W.counts]) if W.counts else False)
    E.ensure("every node gets a label, nothing else does", F(x) == g.N(x))
    E.ensure("only the given labels are used", Implies(F(x), Exists([i], And(rg(i), to(x) == lab(i)))))
    lem(E, "every label is that of one district of the list", ForAll([i, y], Implies(rg(i), And(F(y), to(y) == lab(i)) == D(i, y))))
    lem(E, "the population of a district", Implies(rg(j), total(E, lambda v: And(F(v), to(v) == lab(j)), W.pop) == total(E, lambda v: D(j, v), W.pop)))
    E.ensure("every label is used", Implies(rg(j), Exists([y], And(F(y), to(y) == lab(j)))))
    E.ensure("every district is within tolerance of the target", Implies(rg(j), W.ok(total(E, lambda v: And(F(v), to(v) == lab(j)), W.pop))))


def random_assignment(E):
    """the constructor hands the graph, labels 0..n-1, the mean population and the tolerance to the method, and its result to the class"""
    g = G(E)
    pop = g.attr("POP")
    eps = z3.Real("epsilon")
    n = z3.Int("n_parts")
    E.assume(n >= 1)
    ups = Opaque("updaters")
    use = z3.Bool("use_default")
    plan, made = Opaque("plan"), Opaque("partition")
    seen = []

    def method(E, graph, parts, pop_target, pop_col, epsilon):
        segs = E.segments(parts)
        k = z3.Const("k", I)
        it = segs[0]
        E.ensure("the method is given the graph, the column and the tolerance", And(E.equal(graph, g.ref) if not graph is g.ref else True, pop_col == "POP", E.equal(epsilon, eps)))
        E.ensure("the target is the mean population of a district", real(num(pop_target)) * n == total(E, g.N, pop))
        if len(segs) != 1 or not isinstance(it, Iter):
            raise Unsupported("labels of another shape")
        c, v = it.mk([k])
        E.ensure("the labels are 0 to n-1", And(zbool(c) == And(0 <= k, k < n), Implies(zbool(c), num(v) == k)))
        return plan

    def cls(E, *a, **kw):
        names = ["graph", "assignment", "updaters", "use_default_updaters", "parent", "flips"]
        kw.update(zip(names, a))
        E.ensure("the partition is made of the graph and the method's plan, with the given updaters",
                 And(kw.get("graph") is g.ref, kw.get("assignment") is plan, kw.get("updaters") is ups, E.equal(kw.get("use_default_updaters", True), use)))
        seen.append(1)
        return made
    f = E.class_attr(imp(E, "gerrychain.partition.partition:Partition"), "from_random_assignment")
    f = f.fn if hasattr(f, "fn") else f
    exc, res = raises(E, lambda: E.apply(f, [PyFn(cls, "class"), g.ref, n, eps, "POP"], {"updaters": ups, "use_default_updaters": use, "method": PyFn(method, "method")}))
    E.ensure("the partition made is returned", exc is None and E.force(res) is made)


SPECS = [("recursive_tree_part", tree_part), ("get_seed_chunks", seed_chunks)] + [("recursive_seed_part_inner" + (" (%s given)" % k if k else ""), seed(k)) for k in ("", "n", "ceil")]
SPECS += [("get_max_prime_factor_less_than", prime_factor), ("recursive_seed_part", seed_part), ("Partition.from_random_assignment", random_assignment)]
META = {}
