"""rooted trees: vocabulary, lemmas (discharged from the induction schema) and the assumed contracts of networkx's tree traversals"""
from .graphs import *

IND = "lemma schema: induction over a rooted tree (what holds at the root and passes from every parent to its children holds at every node)"
REIX = "lemma schema: a finite sum may be re-indexed along a bijection"
DEF = "definition: a tree seen from any of its nodes is a parent function with falling depth whose node-parent pairs are exactly the edges"


def lem(E, name, f):
    E.ensure("lemma: " + name, f)
    E.assume(f)


class Rooted:
    """the tree g seen from root r: parent, depth, descendants"""

    def __init__(self, E, g, r):
        self.E, self.g, self.r = E, g, r
        self.pred = E.fresh_fun("pred", A, A)
        self.depth = E.fresh_fun("depth", A, I)
        self.desc = E.fresh_fun("desc", A, A, B)
        self.kid = E.fresh_fun("kid", A, A, A)
        x, y = E.bvars([A, A], "t")
        p, d, N, J = self.pred, self.depth, g.N, g.J
        E.trusted.add(DEF)
        E.assume(z3.ForAll([x], Implies(self.inner(x), And(N(p(x)), d(x) == d(p(x)) + 1, p(x) != x)), patterns=[p(x)]))
        E.assume(z3.ForAll([x], Implies(self.inner(x), J(x, p(x))), patterns=[J(x, p(x)), J(p(x), x)]))
        E.assume(z3.ForAll([x], d(x) >= 0, patterns=[d(x)]))
        E.assume(z3.ForAll([x, y], Implies(J(x, y), Or(And(x != r, y == p(x)), And(y != r, x == p(y)))), patterns=[J(x, y)]))
        # recursive definitions (on depth)
        D, K = self.desc, self.kid
        E.assume(z3.ForAll([x, y], Implies(D(x, y), N(y)), patterns=[D(x, y)]))
        E.assume(z3.ForAll([x, y], Implies(N(y), D(x, y) == Or(x == y, And(y != r, D(x, p(y))))), patterns=[z3.MultiPattern(D(x, y), p(y))]))
        E.assume(z3.ForAll([x], Implies(N(x), D(x, x)), patterns=[D(x, x)]))
        E.assume(z3.ForAll([x, y], K(x, y) == z3.If(p(y) == x, y, K(x, p(y))), patterns=[z3.MultiPattern(K(x, y), p(y))]))

    def inner(self, x):
        return And(self.g.N(x), x != self.r)

    def child(self, k, x):
        """k is a child of x"""
        return And(self.inner(k), self.pred(k) == x)

    def induct(self, name, q):
        """q at every node, from q at the root and the step"""
        E = self.E
        E.trusted.add(IND)
        x = z3.Const("ind!%d" % E.uid(), A)
        E.ensure("lemma: %s (root)" % name, q(self.r))
        E.ensure("lemma: %s (from parent to child)" % name, Implies(And(self.inner(x), q(self.pred(x))), q(x)))
        y = E.bvars([A], "ind")[0]
        E.assume(z3.ForAll([y], Implies(self.g.N(y), q(y)), patterns=[self.g.N(y)]))

    def facts(self, prove=False):
        """descendants lie deeper; each proper descendant lies below exactly one child"""
        E, D, d, K = self.E, self.desc, self.depth, self.kid
        c, k, x = E.bvars([A, A, A], "c")
        f1 = lambda c, x: Implies(D(c, x), And(self.g.N(c), Or(c == x, d(c) < d(x))))
        f2 = lambda c, x: Implies(And(D(c, x), c != x), And(self.child(K(c, x), c), D(K(c, x), x)))
        f3 = lambda c, k, x: Implies(And(self.child(k, c), D(k, x)), And(D(c, x), c != x, K(c, x) == k))
        if prove:
            self.induct("descendants lie deeper", lambda x: z3.ForAll([c], f1(c, x), patterns=[D(c, x)]))
            self.induct("proper descendants lie below a child", lambda x: z3.ForAll([c], f2(c, x), patterns=[K(c, x)]))
            self.induct("only one child is above a node", lambda x: z3.ForAll([c, k], f3(c, k, x), patterns=[z3.MultiPattern(D(k, x), K(c, x))]))
        E.assume(z3.ForAll([c, x], f1(c, x), patterns=[D(c, x)]))
        E.assume(z3.ForAll([c, x], f2(c, x), patterns=[K(c, x)]))
        E.assume(z3.ForAll([c, k, x], f3(c, k, x), patterns=[z3.MultiPattern(D(k, x), K(c, x))]))

    def psum(self, c, pop):
        x = self.E.bvars([A], "x")[0]
        return self.E.sum([x], self.desc(c, x), pop(x))

    def split(self, c, pop, Pf=None, prove=False):
        """subtree population = own + the children's subtrees'"""
        E = self.E
        x, k = E.bvars([A, A], "x")
        P = (lambda z: self.psum(z, pop)) if prove else Pf
        if prove:
            s1 = E.sum([x], And(self.desc(c, x), x != c), pop(x))
            s2 = E.sum([k, x], And(self.child(k, c), self.desc(k, x)), pop(x))
            E.trusted.add(REIX)
            K = self.kid
            y, j = z3.Consts("y j", A)
            E.ensure("lemma: re-indexing below a node, onto", Implies(And(self.desc(c, y), y != c), And(self.child(K(c, y), c), self.desc(K(c, y), y))))
            E.ensure("lemma: re-indexing below a node, one to one", Implies(And(self.child(j, c), self.desc(j, y)), And(self.desc(c, y), y != c, K(c, y) == j)))
            E.assume(s1 == s2)
            lem(E, "a subtree without its top", P(c) == pop(c) + s1)
            lem(E, "the subtrees of the children together", s2 == E.sum([k], self.child(k, c), P(k)))
        f = P(c) == pop(c) + E.sum([k], self.child(k, c), P(k))
        if prove:
            lem(E, "subtree population is own plus the children's subtrees'", f)
        else:
            E.assume(Implies(self.g.N(c), f))

    def parent(self, x):
        k = self.E.bvars([A], "k")[0]
        return And(self.g.N(x), Exists([k], self.child(k, x)))

    def succ_map(self):
        return MapC(A, self.parent, lambda x: SetC(A, lambda z: self.child(z, x)))

    def is_succ(self, m):
        """the map m holds exactly the children of every node that has some"""
        E = self.E
        m = E.as_map(E.content(m))
        x, k = E.bvars([A, A], "s")
        v = E.map_getd(m, x)
        v = v if isinstance(v, SetC) else E.content(E.force(v))
        return And(ForAll([x], zbool(E.map_dom(m, x)) == zbool(self.parent(x))), ForAll([x, k], Implies(self.parent(x), zbool(E.to_set(v).mem(k)) == self.child(k, x))))


def rooted(E, g, root):
    """the view of the tree g from this root (one per root term)"""
    root = enc(root, A)
    tab = g.__dict__.setdefault("views", {})
    key = root.sexpr()
    if key not in tab:
        tab[key] = Rooted(E, g, root)
        tab[key].facts()
    return tab[key]


def _bfs(which):
    def f(E, g, root, *a, **kw):
        if a or kw:
            raise Unsupported("bfs options")
        g = of(E, g)
        E.trusted.add("networkx bfs_predecessors / bfs_successors on a tree: every non-root node once with its parent / every node with children once with their list")
        t = rooted(E, g, g.need(root))
        if which == "pred":
            return BagC([Iter([A], lambda bs: (t.inner(bs[0]), Tup([bs[0], t.pred(bs[0])])), distinct=True)])
        return BagC([Iter([A], lambda bs: (t.parent(bs[0]), Tup([bs[0], SetC(A, lambda z: t.child(z, bs[0]))])), distinct=True)])
    return f


for n in ("networkx.", "networkx.algorithms.traversal.breadth_first_search."):
    MODELS[n + "bfs_predecessors"] = _bfs("pred")
    MODELS[n + "bfs_successors"] = _bfs("succ")
