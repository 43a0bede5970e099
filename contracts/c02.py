from .lib import *


def setup(E, cut=False):
    g = G(E)
    p = P(E, g)
    if cut:
        p.register("cut_edges")
    return g, p


def asg_of(E, part):
    mp = E.as_map(E.content(E.getattr(E.getattr(part, "assignment"), "mapping")))
    return mp, (lambda x: enc(E.map_getd(mp, x), A))


def exact(E, g, p, f, child, tag=""):
    n = E.bvars([A], "n")[0]
    mp, mv = asg_of(E, child)
    E.ensure(tag + "flipped nodes get their new district, all others keep theirs", ForAll([n], Implies(g.N(n), mv(n) == f.new(n))))
    E.ensure(tag + "assignment[node] agrees", ForAll([n], Implies(g.N(n), And(mv(n) == f.new(n), zbool(E.map_dom(mp, n))))))
    E.ensure(tag + "same graph", E.getattr(child, "graph").loc == g.frozen().loc)
    E.ensure(tag + "the parent is the flipped plan", isinstance(E.getattr(child, "parent"), Ref) and E.getattr(child, "parent").loc == p.ref.loc)


def unshared(E, a, b, tag=""):
    aa, bb = E.getattr(a, "assignment"), E.getattr(b, "assignment")
    for fld in ("parts", "mapping"):
        x, y = E.getattr(aa, fld), E.getattr(bb, fld)
        E.ensure(tag + "%s is not shared" % fld, not (isinstance(x, Ref) and isinstance(y, Ref) and x.loc == y.loc) and isinstance(x, Ref))
    E.ensure(tag + "assignment objects and caches are not shared", aa.loc != bb.loc and E.getattr(a, "_cache").loc != E.getattr(b, "_cache").loc)


def flip(E):
    g, p = setup(E)
    f = Flip(E, p)
    s = Snapshot(E, p.ref, f.map)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    exact(E, g, p, f, child)
    unshared(E, child, p.ref)
    s.check("the old plan and the flips are unchanged", grow=(p.cache.loc,))


def flip_cut(E):
    g, p = setup(E, True)
    f = Flip(E, p)
    s = Snapshot(E, p.ref, f.map)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    exact(E, g, p, f, child)
    s.check("the old plan and the flips are unchanged", grow=(p.cache.loc,))


def siblings(E):
    g, p = setup(E)
    f, f2 = Flip(E, p), Flip(E, p, "other")
    c1 = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    s = Snapshot(E, p.ref, c1, f.map)
    c2 = E.call(E.getattr(p.ref, "flip"), [f2.map], {})
    exact(E, g, p, f2, c2, "second sibling: ")
    exact(E, g, p, f, c1, "first sibling afterwards: ")
    unshared(E, c1, c2)
    s.check("the first sibling and the parent are unchanged", grow=(p.cache.loc, E.getattr(c1, "_cache").loc))


def grandchild(E):
    """flipping the result of a flip: the middle plan and the first one stay as they are"""
    g, p = setup(E)
    f = Flip(E, p)
    c1 = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    f2 = Flip(E, p, "other")
    s = Snapshot(E, p.ref, c1, f.map)
    c2 = E.call(E.getattr(c1, "flip"), [f2.map], {})
    n = E.bvars([A], "n")[0]
    mp, mv = asg_of(E, c2)
    E.ensure("the second flip applies on top of the first", ForAll([n], Implies(g.N(n), mv(n) == z3.If(f2.F(n), f2.to(n), f.new(n)))))
    s.check("both earlier plans are unchanged", grow=(p.cache.loc, E.getattr(c1, "_cache").loc))


def reading(E):
    """reading an incremental updater on the new plan leaves the old plan's results alone"""
    g, p = setup(E, True)
    f = Flip(E, p)
    e = E.bvars([PAIR], "e")[0]
    p.put("cut_edges", SetC(PAIR, lambda e: And(g.adj(p0(e), p1(e)), spair(p0(e), p1(e)) == e, p.asg(p0(e)) != p.asg(p1(e)))))
    s = Snapshot(E, p.ref)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    E.getitem(child, "cut_edges")
    s.check("the old plan and its cached results are unchanged", grow=(p.cache.loc,))


def reading_tally(E):
    g, p = setup(E)
    pop = g.attr("TOTPOP")
    t = call(E, "gerrychain.updaters.tally:Tally", "TOTPOP", "population")
    p.register("population", t)
    f = Flip(E, p)
    old = z3.Function("old_pop", A, R)
    p.put("population", MapC(A, lambda k: p.D(k), lambda k: old(k)))
    s = Snapshot(E, p.ref)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    E.getitem(child, "population")
    s.check("the old plan and its cached results are unchanged", grow=(p.cache.loc,))


SPECS = [("Partition.flip", flip), ("Partition.flip (cut_edges registered)", flip_cut), ("two flips of one plan", siblings), ("flip of a flip", grandchild),
         ("reading cut_edges after a flip", reading), ("reading a tally after a flip", reading_tally)]
META = {}
