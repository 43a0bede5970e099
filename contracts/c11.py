from .lib import *

CH = "gerrychain.chain:MarkovChain"


def a_plan(E, name):
    return E.alloc(ObjC(imp(E, PART), {"parent": Opaque("parent of " + name), "name": name}))


def same(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc


class Env:
    """arbitrary constraints, proposal and acceptance rule, with ghost logs of their calls"""

    def __init__(self, E, n=2):
        self.E = E
        self.log = []
        self.s0 = a_plan(E, "initial state")
        self.ok = {}
        self.cons = [PyFn(self.con(i), "c%d" % i, attrs={"__name__": "c%d" % i}) for i in range(n)]
        self.prop = PyFn(self.propose, "proposal")
        self.acc = PyFn(self.accept, "accept")
        self.n = z3.Int("total_steps")
        E.assume(self.n >= 1)

    def con(self, i):
        def f(E, p):
            k = (i, p.loc)
            if k not in self.ok:
                self.ok[k] = E.fresh("holds%d" % i, B)
            return self.ok[k]
        return f

    def propose(self, E, s):
        p = a_plan(E, "proposal")
        self.log.append(("propose", s, p))
        return p

    def valid(self, E, p):
        b = E.fresh("valid", B)
        self.log.append(("valid", p, b))
        return b

    def accept(self, E, p):
        b = E.fresh("accepted", B)
        self.log.append(("accept", p, b))
        return b

    def chain(self):
        """a chain as the constructor leaves it (see constructor), then in an arbitrary later state"""
        E = self.E
        return E.alloc(ObjC(imp(E, CH), {"proposal": self.prop, "is_valid": PyFn(self.valid, "is_valid"), "accept": self.acc, "total_steps": self.n, "initial_state": self.s0, "state": self.s0}))


def forms(E, v, form):
    if form == "callable":
        return v.cons[0], v.cons[:1]
    if form == "list":
        return E.alloc(ListC(v.cons)), v.cons
    if form == "tuple":
        return Tup(v.cons), v.cons
    return call(E, "gerrychain.constraints:Validator", E.alloc(ListC(v.cons))), v.cons


def holds(E, v, cons, p):
    return And(*[zbool(E.call(c, [p], {})) for c in cons])


def constructor(form):
    def spec(E):
        v = Env(E)
        arg, cons = forms(E, v, form)
        snap = Snapshot(E, v.s0)
        exc, c = raises(E, lambda: call(E, CH, v.prop, arg, v.acc, v.s0, v.n))
        good = holds(E, v, cons, v.s0)
        snap.check("the initial state is not changed")
        if exc is not None:
            E.ensure("refused with ValueError exactly for an invalid initial state", And(exc_name(exc) == "ValueError", Not(good)))
            return
        E.ensure("accepted only with a valid initial state", good)
        for n, w in (("proposal", v.prop), ("accept", v.acc)):
            E.ensure("the chain uses the caller's %s" % n, E.getattr(c, n) is w)
        E.ensure("the chain starts at the caller's state", same(E.getattr(c, "initial_state"), v.s0) and same(E.getattr(c, "state"), v.s0))
        E.ensure("total_steps is kept", num(E.getattr(c, "total_steps")) == v.n)
        q = a_plan(E, "other")
        E.ensure("the chain's validity test is the conjunction of the constraints", truth(E, E.call(E.getattr(c, "is_valid"), [q], {})) == holds(E, v, cons, q))
        E.ensure("len is total_steps", num(E.length(c)) == v.n)
    return spec


def setter(form):
    def spec(E):
        v = Env(E)
        c = v.chain()
        cur = a_plan(E, "current")
        E.setattr(c, "state", cur)
        E.setattr(c, "counter", z3.Int("counter"))
        arg, cons = forms(E, v, form)
        before = dict(E.content(c).fields)
        snap = Snapshot(E, v.s0, cur)
        exc, _ = raises(E, lambda: E.setattr(c, "constraints", arg))
        good = holds(E, v, cons, v.s0)
        snap.check("no plan is changed")
        after = E.content(c).fields
        if exc is not None:
            E.ensure("refused with ValueError exactly when the initial state violates the new constraints", And(exc_name(exc) == "ValueError", Not(good)))
            E.ensure("a refusal changes nothing", set(after) == set(before) and all(after[k] is before[k] for k in before))
            return
        E.ensure("accepted only when the initial state satisfies the new constraints", good)
        E.ensure("only the validity test changes", set(after) == set(before) and all(after[k] is before[k] for k in before if k != "is_valid"))
        q = a_plan(E, "other")
        for n in ("is_valid", "constraints"):
            E.ensure("%s is the conjunction of the new constraints" % n, truth(E, E.call(E.getattr(c, n), [q], {})) == holds(E, v, cons, q))
    return spec


def restart(E):
    """whatever was iterated before: iter() and the first next() give the initial state and use one step"""
    v = Env(E)
    c = v.chain()
    E.setattr(c, "state", a_plan(E, "current"))
    E.setattr(c, "counter", z3.Int("counter"))
    snap = Snapshot(E, v.s0)
    it = E.call(E.getattr(c, "__iter__"), [], {})
    exc, r = raises(E, lambda: E.call(E.getattr(it, "__next__"), [], {}))
    E.ensure("the first state is the initial state, unchanged", exc is None and same(r, v.s0))
    snap.check("the initial state is not changed")
    E.ensure("one step used", num(E.getattr(it, "counter")) == 1)
    E.ensure("the chain is at the initial state", same(E.getattr(it, "state"), v.s0))
    E.ensure("nothing was proposed", v.log == [])


class Loop:
    """while no valid proposal was found: the chain has not moved"""

    def __init__(self, v, c, cur, k):
        self.v, self.c, self.cur, self.k = v, c, cur, k

    def havoc(self, E, fr):
        f = dict(E.content(self.c).fields)
        E.heap[self.c.loc] = ObjC(f.pop("__class__", imp(E, CH)), f)
        E.heap[self.cur.loc] = ObjC(imp(E, PART), {"parent": Poison("parent of the current state"), "name": "current"})
        self.v.log.clear()

    def inv(self, E, fr):
        return [("no step is used and the state stays", And(num(E.getattr(self.c, "counter")) == self.k, same(E.getattr(self.c, "state"), self.cur)))]

    def after(self, E, fr):
        lg = self.v.log
        E.ensure("a discarded proposal was made from the current state and found invalid",
                 And(len(lg) == 2 and [x[0] for x in lg] == ["propose", "valid"] and same(lg[0][1], self.cur) and same(lg[1][1], lg[0][2]), Not(lg[1][2]) if len(lg) > 1 else False))


def step(E):
    v = Env(E)
    c = v.chain()
    cur = a_plan(E, "current")
    k = z3.Int("counter")
    E.assume(k >= 1)
    E.setattr(c, "state", cur)
    E.setattr(c, "counter", k)
    E.invariants[(CH + ".__next__", 0)] = Loop(v, c, cur, k)
    exc, r = raises(E, lambda: E.call(E.getattr(c, "__next__"), [], {}))
    lg = v.log
    if exc is not None:
        E.ensure("stops exactly when total_steps states were yielded", And(exc_name(exc) == "StopIteration", k >= v.n))
        E.ensure("stays at the end", And(num(E.getattr(c, "counter")) == k, same(E.getattr(c, "state"), cur)))
        return
    E.ensure("a state is yielded only while steps are left", k < v.n)
    shape = [x[0] for x in lg] == ["propose", "valid", "accept"] and same(lg[0][1], cur) and same(lg[1][1], lg[0][2]) and same(lg[2][1], lg[0][2])
    E.ensure("one proposal from the current state is checked and put to the acceptance rule", shape)
    if shape:
        p, ok, acc = lg[0][2], lg[1][2], lg[2][2]
        E.ensure("the proposal satisfied the constraints", ok)
        E.ensure("the state is the proposal if accepted, else the previous state", And(Or(same(r, p), same(r, cur)), zbool(acc) == same(r, p)))
    E.ensure("one step used", num(E.getattr(c, "counter")) == k + 1)
    E.ensure("the chain is at the yielded state", same(E.getattr(c, "state"), r))
    E.ensure("the rest of the chain is unchanged", same(E.getattr(c, "initial_state"), v.s0) and E.getattr(c, "proposal") is v.prop and E.getattr(c, "accept") is v.acc)


SPECS = [("constructor (%s)" % f, constructor(f)) for f in ("callable", "list", "tuple", "validator")] + [("constraints setter (%s)" % f, setter(f)) for f in ("callable", "list", "validator")] + \
    [("__iter__ and the first __next__", restart), ("__next__", step)]
META = {}
