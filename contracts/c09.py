from .lib import *

EL = "gerrychain.updaters.election:"


class Votes:
    """an arbitrary number of distinct parties, an arbitrary sequence of distinct districts, arbitrary vote counts"""

    def __init__(self, E):
        self.E = E
        self.n, self.m = z3.Ints("n_parties n_regions")
        self.pt, self.rg = z3.Function("party", I, A), z3.Function("region", I, A)
        self.v = z3.Function("votes", A, A, R)
        E.assume(And(self.n >= 1, self.m >= 1))
        i, j = E.bvars([I, I], "i")
        a, b = E.bvars([A, A], "a")
        E.assume(z3.ForAll([i, j], Implies(And(self.inp(i), self.inp(j), self.pt(i) == self.pt(j)), i == j), patterns=[z3.MultiPattern(self.pt(i), self.pt(j))]))
        E.assume(z3.ForAll([i, j], Implies(And(self.inr(i), self.inr(j), self.rg(i) == self.rg(j)), i == j), patterns=[z3.MultiPattern(self.rg(i), self.rg(j))]))
        E.assume(z3.ForAll([a, b], self.v(a, b) >= 0, patterns=[self.v(a, b)]))
        self.isp, self.isr = z3.Function("is_party", A, B), z3.Function("is_region", A, B)
        ix = z3.Function("party_index", A, I)
        rx = z3.Function("region_index", A, I)
        E.assume(z3.ForAll([i], Implies(self.inp(i), self.isp(self.pt(i))), patterns=[self.pt(i)]))
        E.assume(z3.ForAll([a], Implies(self.isp(a), And(self.inp(ix(a)), self.pt(ix(a)) == a)), patterns=[self.isp(a)]))
        E.assume(z3.ForAll([i], Implies(self.inr(i), self.isr(self.rg(i))), patterns=[self.rg(i)]))
        E.assume(z3.ForAll([a], Implies(self.isr(a), And(self.inr(rx(a)), self.rg(rx(a)) == a)), patterns=[self.isr(a)]))
        self.counts = E.alloc(MapC(A, lambda a: self.isp(a), lambda a: MapC(A, lambda r: self.isr(r), lambda r: self.v(a, r))))
        self.regions = E.alloc(SeqC(self.m, lambda i: self.rg(i)))
        self.parties = E.alloc(SeqC(self.n, lambda i: self.pt(i)))
        self.election = Opaque("election", attrs={"parties": self.parties})
        self.res = call(E, EL + "ElectionResults", self.election, self.counts, self.regions)

    def inp(self, i):
        return And(0 <= i, i < self.n)

    def inr(self, i):
        return And(0 <= i, i < self.m)

    def total(self, r):
        j = self.E.bvars([I], "j")[0]
        return self.E.sum([j], self.inp(j), self.v(self.pt(j), r))

    def statewide(self, a):
        i = self.E.bvars([I], "i")[0]
        return self.E.sum([i], self.inr(i), self.v(a, self.rg(i)))

    def everything(self):
        i = self.E.bvars([I], "i")[0]
        return self.E.sum([i], self.inr(i), self.total(self.rg(i)))

    def arbitrary(self):
        a, r = z3.Consts("a_party a_region", A)
        self.E.assume(And(self.isp(a), self.isr(r), r != enc(None, A)))
        return a, r

    def beats(self, a, r):
        j = self.E.bvars([I], "j")[0]
        return ForAll([j], Implies(And(self.inp(j), self.pt(j) != a), self.v(a, r) > self.v(self.pt(j), r)))

    def m_(self, name, *args):
        return self.E.call(self.E.getattr(self.res, name), list(args), {})


def tables(E):
    w = Votes(E)
    a, r = w.arbitrary()
    t = E.as_map(E.content(E.getattr(w.res, "totals")))
    x = E.bvars([A], "x")[0]
    E.ensure("totals lists exactly the districts", ForAll([x], zbool(E.map_dom(t, x)) == w.isr(x)))
    E.ensure("district total is the sum over the parties", real(E.map_getd(t, r)) == w.total(r))
    p = E.as_map(E.content(E.getattr(w.res, "percents_for_party")))
    E.ensure("percents for every party", ForAll([x], zbool(E.map_dom(p, x)) == w.isp(x)))
    pm = E.as_map(E.content(E.map_getd(p, a)))
    E.ensure("percents for every district", ForAll([x], zbool(E.map_dom(pm, x)) == w.isr(x)))
    isnan, val = E.nanpair(E.map_getd(pm, r))
    E.ensure("percent is NaN exactly without votes", isnan == (w.total(r) == 0))
    E.ensure("percent is count / total", Implies(w.total(r) > 0, val == w.v(a, r) / w.total(r)))
    c = E.as_map(E.content(E.getattr(w.res, "totals_for_party")))
    E.ensure("counts are the party's votes", real(E.getitem(E.getitem(E.getattr(w.res, "totals_for_party"), a), r)) == w.v(a, r))


def district(E):
    w = Votes(E)
    a, r = w.arbitrary()
    E.ensure("count(party, district)", real(w.m_("count", a, r)) == w.v(a, r))
    isnan, val = E.nanpair(w.m_("percent", a, r))
    E.ensure("percent(party, district)", And(isnan == (w.total(r) == 0), Implies(w.total(r) > 0, val == w.v(a, r) / w.total(r))))


def won(E):
    w = Votes(E)
    a, r = w.arbitrary()
    E.ensure("won exactly when strictly ahead of every other party", truth(E, w.m_("won", a, r)) == w.beats(a, r))


def seats(which):
    def spec(E):
        w = Votes(E)
        a, r = w.arbitrary()
        i = E.bvars([I], "i")[0]
        E.ensure("seats are the number of districts won", real(w.m_(which, a)) == real(E.sum([i], And(w.inr(i), w.beats(a, w.rg(i))), z3.IntVal(1))))
    return spec


def statewide(E):
    w = Votes(E)
    a, r = w.arbitrary()
    E.ensure("count(party) is the statewide sum", real(w.m_("count", a)) == w.statewide(a))
    E.ensure("total_votes is the sum of everything", real(w.m_("total_votes")) == w.everything())
    E.assume(w.everything() > 0)
    E.ensure("percent(party) is statewide count / statewide total", real(w.m_("percent", a)) == w.statewide(a) / w.everything())


def ordered(name, want):
    def spec(E):
        w = Votes(E)
        a, r = w.arbitrary()
        v = w.m_(name, a)
        i = z3.Int("i")
        E.assume(w.inr(i))
        E.ensure("one entry per district", num(E.length(v)) == w.m)
        want(E, w, a, E.getitem(v, i), w.rg(i))
    return spec


def count_at(E, w, a, x, r):
    E.ensure("entry i is the count in district i", real(x) == w.v(a, r))


def percent_at(E, w, a, x, r):
    isnan, val = E.nanpair(x)
    E.ensure("entry i is the percent in district i", And(isnan == (w.total(r) == 0), Implies(w.total(r) > 0, val == w.v(a, r) / w.total(r))))


# ---------------------------------------------------------------- the updater, across flips
def election(form, k):
    """Election(...) with k parties; columns with arbitrary values"""
    def make(E, g):
        names = ["A", "B", "C"][:k]
        if form == "dict":
            cols = {n: "votes_" + n for n in names}
            arg = E.alloc(RecC(dict(cols)))
        else:
            cols = {n: n for n in names}
            arg = E.alloc(ListC(names))
        f = {n: g.attr(cols[n]) for n in names}
        e = call(E, EL + "Election", "E1", arg)
        return names, f, e
    return make


def check_results(E, g, names, f, e, p, asg, res):
    d = z3.Const("a_district", A)
    x, y = E.bvars([A, A], "x")
    E.assume(And(p.D(d), d != enc(None, A)))
    E.ensure("results are about this election", E.getattr(res, "election") is e or isinstance(e, Ref) and E.getattr(res, "election").loc == e.loc)
    tot = {}
    for n in names:
        tot[n] = E.sum([x], And(g.N(x), asg(x) == d), f[n](x))
        c = E.call(E.getattr(res, "count"), [n, d], {})
        E.ensure("count of %s is the sum over the district's nodes" % n, real(c) == tot[n])
    t = E.getitem(E.getattr(res, "totals"), d)
    s = tot[names[0]]
    for n in names[1:]:
        s = s + tot[n]
    E.ensure("district total is the sum over the parties", real(t) == s)
    m = E.as_map(E.content(E.getattr(res, "totals")))
    E.ensure("exactly the plan's districts are reported", ForAll([y], zbool(E.map_dom(m, y)) == p.D(y)))


def first(form, k):
    mk = election(form, k)

    def spec(E):
        g = G(E)
        p = P(E, g)
        x, k_ = E.bvars([A, A], "ne")
        E.assume(z3.ForAll([k_], Implies(p.D(k_), z3.Exists([x], And(g.N(x), p.asg(x) == k_)))))
        names, f, e = mk(E, g)
        p.register("E1", e)
        check_results(E, g, names, f, e, p, p.asg, E.getitem(p.ref, "E1"))
    return spec


def after(form, k):
    mk = election(form, k)

    def spec(E):
        g = G(E)
        p = P(E, g)
        names, f, e = mk(E, g)
        p.register("E1", e)
        x = E.bvars([A], "x")[0]
        old = E.alloc(RecC({n: E.alloc(MapC(A, lambda d: p.D(d), lambda d, n=n: E.sum([x], And(g.N(x), p.asg(x) == d), f[n](x)))) for n in names}))
        prev = call(E, EL + "ElectionResults", e, old, p.parts)
        p.put("E1", prev)
        fl = Flip(E, p)
        s = Snapshot(E, p.ref, prev)
        child = flip_child(E, g, p, fl)
        res = E.getitem(child, "E1")
        check_results(E, g, names, f, e, p, fl.fn, res)
        s.check("the parent's results are unchanged", grow=(p.cache.loc,))
    return spec


def bad_type(E):
    exc, _ = raises(E, lambda: call(E, EL + "Election", "E1", Opaque("neither", tags=("closed",))))
    E.ensure("TypeError for anything else", exc is not None and exc_name(exc) == "TypeError")


SPECS = [("ElectionResults tables", tables), ("count and percent in a district", district), ("won", won), ("seats", seats("seats")), ("wins", seats("wins")), ("statewide", statewide),
         ("counts", ordered("counts", count_at)), ("votes", ordered("votes", count_at)), ("percents", ordered("percents", percent_at)),
         ("Election(dict) on a first plan", first("dict", 2)), ("Election(list) on a first plan", first("list", 2)),
         ("Election(dict) after a flip", after("dict", 2)), ("Election(list) after a flip", after("list", 2)), ("Election(dict), three parties, after a flip", after("dict", 3)),
         ("Election of another type", bad_type)]
META = {"bound": "Election/ElectionUpdater: two and three parties (ElectionResults: any number)"}
