from .lib import *

AM = "gerrychain.partition.assignment:"


def flip(E):
    """any plan satisfying the class invariant, any flips of nodes to districts of the plan"""
    g = G(E)
    p = P(E, g)
    f = Flip(E, p)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    mv, parts = class_inv(E, g, child)
    k = E.bvars([A], "k")[0]
    E.ensure("the districts are those of the parent", ForAll([k], zbool(E.map_dom(parts, k)) == p.D(k)))


def flip_default(E):
    """the same with the default updaters (cut_edges) registered"""
    g = G(E)
    p = P(E, g)
    p.register("cut_edges")
    f = Flip(E, p)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    class_inv(E, g, child)


def level_sets_map(E, frozen=True):
    D = z3.Function("ls_dom", A, B)
    m = z3.Function("ls_mem", A, A, B)
    k, n = E.bvars([A, A], "ls")
    return D, m, MapC(A, lambda x: D(x), lambda x: SetC(A, lambda y: m(x, y), frozen))


def inverse(E, asg, nodes, what=""):
    """parts and mapping of the Assignment are inverse and cover exactly nodes"""
    parts = E.as_map(E.content(E.getattr(asg, "parts")))
    mp = E.as_map(E.content(E.getattr(asg, "mapping")))
    n, k = E.bvars([A, A], "iv")
    mv = lambda x: enc(E.map_getd(mp, x), A)
    if mp.ksort is None:
        E.ensure(what + "the mapping covers exactly the nodes", ForAll([n], Not(nodes(n))))
        return mv, parts, mp
    E.ensure(what + "the mapping covers exactly the nodes", ForAll([n], zbool(E.map_dom(mp, n)) == zbool(nodes(n))))
    if parts.ksort is None:
        return mv, parts, mp
    E.ensure(what + "every node's district is a key of parts", ForAll([n], Implies(nodes(n), E.map_dom(parts, mv(n)))))
    s = E.map_getd(parts, k)
    s = s if isinstance(s, SetC) else E.content(E.force(s))
    E.ensure(what + "parts[d] is exactly the set of nodes mapped to d", ForAll([k, n], Implies(E.map_dom(parts, k), zbool(s.mem(n)) == And(nodes(n), mv(n) == k))))
    return mv, parts, mp


def init_parts(E):
    """Assignment(parts): ValueError exactly when two level sets overlap, otherwise inverse"""
    D, m, c = level_sets_map(E)
    ref = E.alloc(c)
    exc, a = raises(E, lambda: call(E, AM + "Assignment", ref))
    k, k2, n = E.bvars([A, A, A], "o")
    overlap = Exists([k, k2, n], And(D(k), D(k2), m(k, n), m(k2, n), k != k2))
    if exc is not None:
        E.ensure("refused with ValueError", exc is ValueError)
        E.ensure("refused only when level sets overlap", overlap)
    else:
        E.ensure("accepted only when level sets are disjoint", Not(overlap))
        E.assume(Not(overlap))
        inverse(E, a, lambda x: Exists([k], And(D(k), m(k, x))))


def init_type(E):
    """level sets that are not frozensets are refused"""
    D, m, c = level_sets_map(E, frozen=False)
    k = E.bvars([A], "k")[0]
    E.assume(z3.Exists([k], D(k)))
    exc, a = raises(E, lambda: call(E, AM + "Assignment", E.alloc(c)))
    E.ensure("refused", exc is not None)


def mapping(E, name="given"):
    N = z3.Function(name + "_node", A, B)
    v = z3.Function(name + "_val", A, A)
    return N, v, E.alloc(MapC(A, lambda x: N(x), lambda x: v(x)))


def from_dict(E):
    N, v, d = mapping(E)
    a = call(E, AM + "Assignment.from_dict", d)
    mv, parts, mp = inverse(E, a, lambda x: N(x))
    n, k = E.bvars([A, A], "fd")
    if mp.ksort is not None:
        E.ensure("the mapping is the given dict", ForAll([n], Implies(N(n), mv(n) == v(n))))
    if parts.ksort is not None:
        E.ensure("the districts are exactly the values used", ForAll([k], zbool(E.map_dom(parts, k)) == Exists([n], And(N(n), v(n) == k))))


def get_dict(E):
    N, v, d = mapping(E)
    g = G(E)
    a = call(E, AM + "get_assignment", d, g.ref)
    mv, parts, mp = inverse(E, a, lambda x: N(x))
    n = E.bvars([A], "n")[0]
    E.ensure("the mapping is the given dict", ForAll([n], Implies(N(n), mv(n) == v(n))))


def get_attr(E):
    g = G(E)
    f = g.attr("district", A)
    a = call(E, AM + "get_assignment", "district", g.ref)
    mv, parts, mp = inverse(E, a, lambda x: g.N(x))
    n = E.bvars([A], "n")[0]
    E.ensure("the mapping is the node attribute", ForAll([n], Implies(g.N(n), mv(n) == f(n))))
    exc, _ = raises(E, lambda: call(E, AM + "get_assignment", "district", None))
    E.ensure("an attribute name without a graph is a TypeError", exc is TypeError)


def get_asg(E):
    g = G(E)
    p = P(E, g)
    a = call(E, AM + "get_assignment", p.assignment, g.ref)
    mv, parts, mp = inverse(E, a, lambda x: g.N(x))
    n = E.bvars([A], "n")[0]
    E.ensure("the mapping is that of the given assignment", ForAll([n], Implies(g.N(n), mv(n) == p.asg(n))))


def construct(E):
    """Partition(graph, dict): KeyError exactly when the keys are not the nodes; otherwise the class invariant"""
    g = G(E)
    N, v, d = mapping(E)
    exc, part = raises(E, lambda: E.call(imp(E, PART), [g.frozen(), d], {"use_default_updaters": False}))
    n = E.bvars([A], "n")[0]
    same = ForAll([n], N(n) == g.N(n))
    if exc is not None:
        E.ensure("refused with KeyError", exc is KeyError)
        E.ensure("refused only when keys and nodes differ", Not(same))
    else:
        E.ensure("accepted only when the keys are the nodes", same)
        E.assume(same)
        mv, parts = class_inv(E, g, part)
        E.ensure("the plan is the given one", ForAll([n], Implies(g.N(n), mv(n) == v(n))))


SPECS = [("Partition.flip keeps the class invariant", flip),
         ("Partition.flip keeps the class invariant (default updaters)", flip_default),
         ("Assignment(parts)", init_parts), ("Assignment(parts of sets)", init_type),
         ("Assignment.from_dict", from_dict), ("get_assignment(dict)", get_dict), ("get_assignment(attribute)", get_attr), ("get_assignment(Assignment)", get_asg),
         ("Partition(graph, dict)", construct)]
META = {}
