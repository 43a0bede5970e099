from .lib import *

PM = "gerrychain.metrics.partisan:"


class Two:
    """an arbitrary two-party result: votes a(i), b(i) > 0 in total in district i (contract of ElectionResults, C09)"""

    def __init__(self, E, swap=False, share=None):
        self.E = E
        self.m = z3.Int("n_districts")
        a, b = z3.Function("votes_a", I, R), z3.Function("votes_b", I, R)
        self.a, self.b = (b, a) if swap else (a, b)
        i = E.bvars([I], "i")[0]
        E.assume(self.m >= 1)
        E.assume(z3.ForAll([i], And(a(i) >= 0, b(i) >= 0, a(i) + b(i) > 0), patterns=[a(i)]))
        E.assume(z3.ForAll([i], And(a(i) >= 0, b(i) >= 0, a(i) + b(i) > 0), patterns=[b(i)]))
        sa = z3.Function("share_a", I, R)
        self.sa = (lambda i: 1 - sa(i)) if swap else (lambda i: sa(i))
        E.assume(z3.ForAll([i], sa(i) * (a(i) + b(i)) == a(i), patterns=[sa(i)]))
        ov = z3.Real("overall_share_a")
        self.overall = 1 - ov if swap else ov
        self.names = ["Second", "First"] if swap else ["First", "Second"]
        f, s = self.names
        cnt = {f: self.a, s: self.b}
        shr = {f: self.sa, s: lambda i: 1 - self.sa(i)}
        ovs = {f: self.overall, s: 1 - self.overall}
        el = Opaque("election", attrs={"parties": E.alloc(ListC([f, s]))})
        self.T = E.sum([i], self.inr(i), a(i) + b(i))
        E.assume(self.T > 0)
        self.ref = Opaque("results", attrs={
            "election": el, "percents": PyFn(lambda E, p: SeqC(self.m, lambda i: shr[p](num(i)))), "counts": PyFn(lambda E, p: SeqC(self.m, lambda i: cnt[p](num(i)))),
            "votes": PyFn(lambda E, p: SeqC(self.m, lambda i: cnt[p](num(i)))), "total_votes": PyFn(lambda E: self.T),
            "percent": PyFn(lambda E, p, region=None: ovs[p])})

    def inr(self, i):
        return And(0 <= i, i < self.m)

    def mean(self):
        i = self.E.bvars([I], "i")[0]
        return self.E.sum([i], self.inr(i), self.sa(i)) / z3.ToReal(self.m)

    def sorted(self):
        return self.E.sorted_seq(SeqC(self.m, lambda i: self.sa(num(i))))


def wasted(E):
    a, b = z3.Reals("a b")
    r = call(E, PM + "wasted_votes", a, b)
    x, y = E.unpack(r, 2)
    E.ensure("the winner wastes what exceeds half of the votes, the loser all", And(real(x) == z3.If(a > b, a - (a + b) / 2, a), real(y) == z3.If(a > b, b, b - (a + b) / 2)))


def waste(a, b):
    return z3.If(a > b, a - (a + b) / 2, a), z3.If(a > b, b, b - (a + b) / 2)


def gap(E):
    t = Two(E)
    r = real(call(E, PM + "efficiency_gap", t.ref))
    i = E.bvars([I], "i")[0]
    w1, w2 = waste(t.a(i), t.b(i))
    E.ensure("difference of the wasted votes over all votes", r * t.T == E.sum([i], t.inr(i), w2 - w1))


def gap_swap(E):
    t, u = Two(E), Two(E, swap=True)
    i = E.bvars([I], "i")[0]
    E.assume(z3.ForAll([i], Implies(t.inr(i), t.a(i) != t.b(i)), patterns=[t.a(i)]))
    r = real(call(E, PM + "efficiency_gap", t.ref))
    q = real(call(E, PM + "efficiency_gap", u.ref))
    s = []
    for w, x in ((t, r), (u, q)):
        w1, w2 = waste(w.a(i), w.b(i))
        s.append(E.sum([i], w.inr(i), w2 - w1))
        lemma(E, "difference of the wasted votes over all votes", x * w.T == s[-1])
    lemma(E, "the differences are opposite", s[0] == -s[1])
    E.ensure("swapping the parties negates the efficiency gap", r == -q)


def lemma(E, name, f):
    E.ensure(name, f)
    E.assume(f)


def median(E):
    t = Two(E)
    r = real(call(E, PM + "mean_median", t.ref))
    s = t.sorted()
    med = (s.at((t.m - 1) / 2) + s.at(t.m / 2)) / 2
    E.ensure("median share minus mean share", r == med - t.mean())


def thirdian(E):
    t = Two(E)
    r = real(call(E, PM + "mean_thirdian", t.ref))
    s = t.sorted()
    k = z3.Int("third")
    E.assume(And(2 * t.m - 3 <= 6 * k, 6 * k <= 2 * t.m + 3))
    E.ensure("share at one third of the sorted list minus mean share", r == s.at(k) - t.mean())


def bias(E):
    t = Two(E)
    r = real(call(E, PM + "partisan_bias", t.ref))
    i = E.bvars([I], "i")[0]
    above = E.sum([i], And(t.inr(i), t.sa(i) > t.mean()), z3.IntVal(1))
    E.ensure("fraction of districts above the mean share, minus one half", r == z3.ToReal(above) / z3.ToReal(t.m) - z3.Q(1, 2))


def gini_spec(E, t):
    i = E.bvars([I], "i")[0]
    st = t.sorted()
    up = lambda i: t.overall - st.at(t.m - 1 - i) + z3.Q(1, 2)
    dn = lambda i: 1 - (t.overall - st.at(i) + z3.Q(1, 2))
    d = up(i) - dn(i)
    return E.sum([i], t.inr(i), z3.If(d >= 0, d, -d))


def gini(E):
    t = Two(E)
    r = real(call(E, PM + "partisan_gini", t.ref))
    E.ensure("area between the seats-votes curve and its reflection", r * z3.ToReal(t.m) == gini_spec(E, t))


def gini_swap(E):
    t, u = Two(E), Two(E, swap=True)
    r = real(call(E, PM + "partisan_gini", t.ref))
    q = real(call(E, PM + "partisan_gini", u.ref))
    st, su = t.sorted(), u.sorted()
    i = E.bvars([I], "i")[0]
    # uniqueness of the ascending rearrangement: sorting 1 - x reverses the order
    E.assume(z3.ForAll([i], Implies(t.inr(i), su.at(i) == 1 - st.at(t.m - 1 - i)), patterns=[su.at(i)]))
    E.trusted.add("sorted(1 - x) is 1 - sorted(x) in reverse order")
    E.ensure("swapping the parties leaves the Gini unchanged", r * z3.ToReal(t.m) == q * z3.ToReal(u.m))


def methods(E):
    """ElectionResults hands itself to the metric"""
    for n in ("mean_median", "mean_thirdian", "efficiency_gap", "partisan_bias", "partisan_gini"):
        got = []

        def f(E, res, got=got):
            got.append(res)
            return z3.Real("score")
        E.contracts[PM + n] = f
        o = E.alloc(ObjC(imp(E, "gerrychain.updaters.election:ElectionResults"), {}))
        r = E.call(E.getattr(o, n), [], {})
        E.ensure("results.%s() is %s(results)" % (n, n), And(len(got) == 1 and isinstance(got[0], Ref) and got[0].loc == o.loc, real(r) == z3.Real("score")))


SPECS = [("wasted_votes", wasted), ("efficiency_gap", gap), ("efficiency_gap, parties swapped", gap_swap), ("mean_median", median), ("mean_thirdian", thirdian), ("partisan_bias", bias), ("partisan_gini", gini),
         ("partisan_gini, parties swapped", gini_swap), ("the methods of ElectionResults", methods)]
META = {}
