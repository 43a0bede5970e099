from .lib import *

TL = "gerrychain.updaters.tally:"


class Cols:
    """an arbitrary number of node columns with arbitrary, possibly NaN, values"""

    def __init__(self, E, g, nan=True, one=False):
        self.E, self.g = E, g
        self.F = z3.Function("column", A, B)
        self.val = z3.Function("colval", A, A, R)
        self.isnan = z3.Function("colnan", A, A, B)
        k = E.bvars([A], "c")[0]
        self.one = None
        if one:
            self.one = z3.Const("the_column", A)
            E.assume(z3.ForAll([k], self.F(k) == (k == self.one)))
        else:
            E.assume(z3.Exists([k], self.F(k)))
        if not nan:
            n = E.bvars([A], "c")[0]
            E.assume(z3.ForAll([n, k], Not(self.isnan(n, k))))
        g.anyattr = lambda n, k: NanNum(self.isnan(n, k), self.val(n, k)) if nan else self.val(n, k)
        self.fields = E.alloc(BagC([Iter([A], lambda bs: (self.F(bs[0]), bs[0]), distinct=True)]))

    def ok(self, n):
        k = self.E.bvars([A], "ok")[0]
        return Not(Exists([k], And(self.F(k), self.isnan(n, k))))

    def total(self, asg, d):
        E = self.E
        n, k = E.bvars([A, A], "t")
        if self.one is not None:
            return E.sum([n], And(self.g.N(n), asg(n) == d, Not(self.isnan(n, self.one))), self.val(n, self.one))
        return E.sum([n], And(self.g.N(n), asg(n) == d, self.ok(n)), E.sum([k], self.F(k), self.val(n, k)))


def exact(E, c, g, asg, v, D, total=True):
    m = E.as_map(E.content(v))
    d, n = E.bvars([A, A], "d")
    if m.ksort is None:
        return E.ensure("no district with a value is missing", ForAll([n], Implies(g.N(n), Not(c.ok(n)))))
    x = E.map_getd(m, d)
    if isinstance(x, NanNum):
        E.ensure("never NaN", ForAll([d], Implies(E.map_dom(m, d), Not(x.nan))))
        x = x.val
    E.ensure("each entry is the sum over the district's nodes", ForAll([d], Implies(And(E.map_dom(m, d), D(d)), real(x) == real(c.total(asg, d)))))
    if total:
        E.ensure("every district is listed", ForAll([d], Implies(D(d), E.map_dom(m, d))))
    else:
        E.ensure("every district with a value is listed", ForAll([n], Implies(And(g.N(n), c.ok(n)), E.map_dom(m, asg(n)))))


def initial(nan):
    def spec(E):
        g = G(E)
        p = P(E, g)
        c = Cols(E, g, nan)
        t = call(E, TL + "Tally", c.fields, "alias", Fraction if False else imp_int(E))
        exact(E, c, g, p.asg, E.call(t, [p.ref], {}), p.D, total=False)
    return spec


def imp_int(E):
    return E.ext("builtins.int")


def flipped(E, key, t, c, g, p):
    p.register(key, t)
    p.put(key, MapC(A, lambda k: p.D(k), lambda k: real(c.total(p.asg, k))))
    f = Flip(E, p)
    s = Snapshot(E, p.ref)
    child = E.call(E.getattr(p.ref, "flip"), [f.map], {})
    return f, child, s


def step(nan):
    def spec(E):
        g = G(E)
        p = P(E, g)
        c = Cols(E, g, nan)
        t = call(E, TL + "Tally", c.fields, "alias")
        f, child, s = flipped(E, "alias", t, c, g, p)
        exact(E, c, g, f.new, E.getitem(child, "alias"), p.D)
        s.check("the parent's results are unchanged", grow=(p.cache.loc,))
    return spec


def one_column(E):
    """Tally of a single column name, default alias"""
    g = G(E)
    p = P(E, g)
    c = Cols(E, g, True, one=True)
    t = call(E, TL + "Tally", Opaque("column name", tags=("closed", "str"), eqkey=c.one))
    fs = E.content(E.getattr(t, "fields"))
    E.ensure("one field", isinstance(fs, ListC) and len(fs.items) == 1)
    exact(E, c, g, p.asg, E.call(t, [p.ref], {}), p.D, total=False)


def data_initial(attr, nan=True):
    def spec(E):
        g = G(E)
        p = P(E, g)
        c = Cols(E, g, nan, one=True)
        data = data_of(E, g, c, attr)
        t = call(E, TL + "DataTally", data, "alias")
        exact(E, c, g, p.asg, E.call(t, [p.ref], {}), p.D, total=False)
    return spec


def data_of(E, g, c, attr):
    if attr:
        return Opaque("column name", tags=("closed", "str"), eqkey=c.one)
    return E.alloc(MapC(A, lambda n: g.N(n), lambda n: g.anyattr(n, c.one)))


def data_step(attr, nan=True):
    def spec(E):
        g = G(E)
        p = P(E, g)
        c = Cols(E, g, nan, one=True)
        t = call(E, TL + "DataTally", data_of(E, g, c, attr), "alias")
        f, child, s = flipped(E, "alias", t, c, g, p)
        exact(E, c, g, f.new, E.getitem(child, "alias"), p.D)
        s.check("the parent's results are unchanged", grow=(p.cache.loc,))
    return spec


SPECS = [("Tally of a first plan (no NaN)", initial(False)), ("Tally of a first plan", initial(True)), ("Tally after a flip (no NaN)", step(False)), ("Tally after a flip", step(True)),
         ("Tally of one column", one_column),
         ("DataTally(column) of a first plan", data_initial(True)), ("DataTally(mapping) of a first plan", data_initial(False)),
         ("DataTally(column) after a flip", data_step(True)), ("DataTally(mapping) after a flip", data_step(False))]
META = {}
