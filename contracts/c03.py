from .lib import *

FL = "gerrychain.updaters.flows:"


class Reads:
    """a plan with an arbitrary updater `score` (its own result object each time it runs) and results read before"""

    def __init__(self, E, cached=()):
        self.E = E
        self.g = G(E)
        self.p = P(E, self.g)
        self.calls = []
        self.other = self.p.put("other", SetC(A, lambda x: self.g.N(x)))
        self.p.register("score", PyFn(lambda E, part: self.run(part)))
        self.p.register("other", PyFn(lambda E, part: self.bad()))
        self.s = Snapshot(E, self.p.ref)

    def run(self, part):
        E = self.E
        val = z3.Function("score_of", A, R)
        r = E.alloc(MapC(A, lambda k: self.p.D(k), lambda k: val(k)))
        self.calls.append((E.force(part), r))
        return r

    def bad(self):
        self.E.ensure("a result that was read before is not computed again", False)
        return None

    def cache(self, ref=None):
        return self.E.heap[self.E.getattr(ref or self.p.ref, "_cache").loc]


def once(E, w, what, part=None):
    E.ensure(what + "computed once", len(w.calls) == 1)
    E.ensure(what + "for the plan it is read on", isinstance(w.calls[0][0], Ref) and w.calls[0][0].loc == (part or w.p.ref).loc)


def is_(v, r):
    return isinstance(v, Ref) and isinstance(r, Ref) and v.loc == r.loc


def reading(how):
    def spec(E):
        w = Reads(E)
        get = (lambda: E.getitem(w.p.ref, "score")) if how == "item" else (lambda: E.getattr(w.p.ref, "score"))
        a = get()
        once(E, w, "first read: ")
        E.ensure("the value read is what the updater computes", is_(a, w.calls[0][1]))
        E.getitem(w.p.ref, "other")
        b = E.getitem(w.p.ref, "score")
        once(E, w, "later reads: ")
        E.ensure("a later read gives the same value", is_(b, a))
        c = w.cache()
        E.ensure("other results are kept", isinstance(c, RecC) and set(c.d) == {"score", "other"} and is_(c.d["other"], w.other))
        w.s.check("nothing else of the plan changes", grow=(w.p.cache.loc,))
    return spec


def falsy(E):
    """a result is a result, whatever its value"""
    for v in (None, False, 0, ""):
        w = Reads(E)
        w.p.put("score", v)
        r = E.getitem(w.p.ref, "score")
        E.ensure("a result that is %r is not computed again" % (v,), not w.calls)
        E.ensure("and is returned", r is v or type(r) == type(v) and r == v)


def none_result(E):
    """an updater that answers None (or anything false) is still run once"""
    for v in (None, False, 0):
        w = Reads(E)
        n = []
        w.p.register("score", PyFn(lambda E, part: (n.append(1), v)[1]))
        E.getitem(w.p.ref, "score")
        r = E.getitem(w.p.ref, "score")
        E.ensure("computed once, answer %r" % (v,), len(n) == 1 and r is v)


def unknown(E):
    w = Reads(E)
    exc, _ = raises(E, lambda: E.getitem(w.p.ref, "missing"))
    E.ensure("an unknown name raises KeyError", exc is KeyError)
    E.ensure("and no updater runs", not w.calls)
    c = w.cache()
    E.ensure("and no result appears", set(c.d) == {"other"})


def dependent(E):
    """an updater that reads another one: each is computed once, in either order of reading"""
    for order in (("total", "score"), ("score", "total")):
        w = Reads(E)
        n = []

        def total(E, part):
            n.append(1)
            return E.getitem(part, "score")
        w.p.register("total", PyFn(total))
        x = E.getitem(w.p.ref, order[0])
        y = E.getitem(w.p.ref, order[1])
        E.getitem(w.p.ref, order[0])
        once(E, w, "the updater read by another: ")
        E.ensure("the updater that reads is computed once", len(n) == 1)
        E.ensure("both see one value", is_(x, y) and is_(x, w.calls[0][1]))


def interleaved(E):
    """a plan and the plan a flip makes of it: each has its own results, whichever is read first"""
    for late in (False, True):
        w = Reads(E)
        f = Flip(E, w.p)
        old = None if late else E.getitem(w.p.ref, "score")
        child = E.call(E.getattr(w.p.ref, "flip"), [f.map], {})
        cc = E.getattr(child, "_cache")
        E.ensure("a new plan has no results yet", isinstance(E.heap[cc.loc], RecC) and not E.heap[cc.loc].d)
        E.ensure("results are not shared", cc.loc != w.p.cache.loc)
        new = E.getitem(child, "score")
        if late:
            old = E.getitem(w.p.ref, "score")
        E.ensure("one computation per plan", len(w.calls) == 2)
        by = {c[0].loc: c[1] for c in w.calls}
        E.ensure("each plan answers what was computed for it", by.get(child.loc) is not None and is_(new, by[child.loc]) and is_(old, by.get(w.p.ref.loc)))
        E.ensure("and keeps answering it", is_(E.getitem(child, "score"), new) and is_(E.getitem(w.p.ref, "score"), old) and len(w.calls) == 2)
        w.s.check("nothing else of the old plan changes", grow=(w.p.cache.loc,))


def given(default):
    def spec(E):
        """Partition(graph, assignment, updaters): the caller's dictionary keeps its value and is not the plan's"""
        g = G(E)
        p = P(E, g)
        ran = []
        mine = E.alloc(RecC({"score": PyFn(lambda E, part: (ran.append(part), z3.Real("score"))[1])}))
        kw = {"updaters": mine} if default else {"updaters": mine, "use_default_updaters": False}
        before = E.heap[mine.loc]
        part = E.call(imp(E, PART), [g.frozen(), p.assignment], kw)
        c = E.heap[mine.loc]
        E.ensure("the caller's updaters are unchanged", isinstance(c, RecC) and set(c.d) == {"score"} and c.d["score"] is before.d["score"])
        u = E.getattr(part, "updaters")
        E.ensure("the plan's updaters are its own dictionary", isinstance(u, Ref) and u.loc != mine.loc)
        E.ensure("which has the given ones", E.heap[u.loc].d.get("score") is before.d["score"])
        if not default:
            E.ensure("and only those", set(E.heap[u.loc].d) == {"score"})
        E.ensure("nothing is computed before it is read", not ran)
        k = E.getattr(part, "_cache")
        E.ensure("the plan has no results yet", not E.heap[k.loc].d)
        E.getitem(part, "score")
        E.getitem(part, "score")
        E.ensure("computed once", len(ran) == 1)
    return spec


def two_plans(E):
    """two plans given the same updaters do not share results or updaters"""
    g = G(E)
    p = P(E, g)
    mine = E.alloc(RecC({"score": PyFn(lambda E, part: E.alloc(RecC({})))}))
    a, b = (E.call(imp(E, PART), [g.frozen(), p.assignment], {"updaters": mine, "use_default_updaters": False}) for _ in range(2))
    x = E.getitem(a, "score")
    y = E.getitem(b, "score")
    E.ensure("each plan has its own result", not is_(x, y) and is_(E.getitem(a, "score"), x) and is_(E.getitem(b, "score"), y))
    E.ensure("updaters are not shared", E.getattr(a, "updaters").loc != E.getattr(b, "updaters").loc)


def incremental(E):
    """an updater made with on_flow from any function: the earlier plan's result stays as it was"""
    w = Reads(E)
    p = w.p
    f = z3.Function("old_value", A, R)
    init = PyFn(lambda E, part: E.alloc(MapC(A, lambda k: p.D(k), lambda k: f(k))))

    def step(E, part, old, i, o):
        return num(old) + 1
    dec = call(E, FL + "on_flow", init, "votes")
    up = E.call(dec, [PyFn(step)], {})
    p.register("votes", up)
    old = p.put("votes", MapC(A, lambda k: p.D(k), lambda k: f(k)))
    fl = Flip(E, p)
    s = Snapshot(E, p.ref)
    child = E.call(E.getattr(p.ref, "flip"), [fl.map], {})
    new = E.getitem(child, "votes")
    E.ensure("the new plan has its own result", isinstance(new, Ref) and new.loc != old.loc)
    E.ensure("and answers it again", is_(E.getitem(child, "votes"), new))
    s.check("the old plan and its results are unchanged", grow=(p.cache.loc,))


SPECS = [("plan[name]", reading("item")), ("plan.name", reading("attr")), ("results that are false", falsy), ("updaters that answer something false", none_result),
         ("an unknown name", unknown), ("updaters that read updaters", dependent), ("a plan and its flip", interleaved),
         ("Partition with given updaters", given(False)), ("Partition with given and default updaters", given(True)), ("two plans with one dictionary of updaters", two_plans),
         ("on_flow on a new plan", incremental)]
META = {}
