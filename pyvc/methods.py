"""container and string methods, builtins, assumed contracts of the standard library"""
from fractions import Fraction
import math, operator
import z3
from .core import *
from .core import AccPath, Touch
from . import core
from .interp import *
from .interp import ExtMethod
from .exprs import X, MethodV, StarArg, BagOrList

STR_METHODS = {"format", "join", "lower", "upper", "strip", "split", "startswith", "endswith", "replace", "capitalize"}


class Verifier(X):
    def __init__(self, repo, models=None):
        m = dict(MODELS)
        m.update(models or {})
        super().__init__(repo, m)

    def call_(self, f, args, kw):
        if isinstance(f, MethodV):
            return self.method(f.o, f.name, args, kw)
        return super().call_(f, args, kw)

    # ------------------------------------------------------------ methods of containers
    def method(self, o, name, args, kw):
        o = self.force(o)
        if isinstance(o, (str, OpaqueStr)):
            if isinstance(o, str) and all(isinstance(a, str) for a in args) and name in ("lower", "upper", "strip", "startswith", "endswith", "replace"):
                return getattr(o, name)(*args)
            if name in ("format", "join", "lower", "upper"):
                return OpaqueStr()
            raise Unsupported("str.%s" % name)
        if isinstance(o, Tup):
            if name == "index":
                for n, x in enumerate(o.items):
                    if self.truthy(self.equal(x, args[0])):
                        return n
                raise PyRaise(ExcV(ValueError))
            if name == "_replace" and o.cls is not None:
                return Tup([kw.get(n, x) for n, x in zip(o.cls.fields, o.items)], o.cls)
            raise Unsupported("tuple.%s" % name)
        if is_z(o):
            if name == "item":
                return o
            raise Unsupported("method %s of a symbolic value" % name)
        c = self.content(o)
        cc = c
        if isinstance(c, AccC):
            while isinstance(cc, AccC):
                cc = cc.base
        elif isinstance(c, AccPath):
            cc = self.acc_orig(c)
        if isinstance(cc, SetC):
            return self.set_method(o, c, name, args)
        if isinstance(cc, (RecC, MapC)):
            return self.map_method(o, c, name, args, kw)
        if isinstance(cc, (ListC, BagC, SeqC, WorkC)):
            return self.list_method(o, c, name, args, kw)
        raise Unsupported("method %s of %s" % (name, type(cc).__name__))

    def set_method(self, o, c, name, args):
        if name == "add":
            return self.set_add(o, args[0])
        if name == "discard":
            return self.set_discard(o, args[0], False)
        if name == "remove":
            return self.set_discard(o, args[0], True)
        if name == "update":
            for a in args:
                self.set_update(o, a)
            return None
        if name == "difference_update":
            for a in args:
                self.set_remove_all(o, a)
            return None
        if name == "copy":
            c = self.real_content(o)
            return self.alloc(SetC(c.sort, c.mem, c.frozen))
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            if isinstance(c, (AccC, AccPath)):
                c = self.acc_read(o, c)
            mem, srt = c.mem, c.sort
            for a in args:
                if isinstance(a, StarArg):
                    if name != "union":
                        raise Unsupported("set operation over many sets")
                    mem, srt = self.union_star(mem, srt, a)
                    continue
                s2 = self.to_set(a)
                srt2 = so(srt, s2.sort)
                f = {"union": lambda m, n: (lambda y: Or(m(y), n(y))), "intersection": lambda m, n: (lambda y: And(m(y), n(y))),
                     "difference": lambda m, n: (lambda y: And(m(y), Not(n(y)))), "symmetric_difference": lambda m, n: (lambda y: z3.Xor(zbool(m(y)), zbool(n(y))))}[name]
                mem, srt = f(mem, s2.mem), srt2
            return self.alloc(SetC(srt, mem, c.frozen))
        if name in ("issubset", "issuperset", "isdisjoint"):
            s2 = SetC(*(lambda t: (t.sort, t.mem))(self.to_set(args[0])))
            c = self.real_content(o)
            if name == "isdisjoint":
                s = so(c.sort, s2.sort)
                if s is None:
                    return True
                y = self.bvars([s], "dj")
                return ForAll(y, Not(And(c.mem(y[0]), s2.mem(y[0]))))
            return self.order("LtE" if name == "issubset" else "GtE", o, s2)
        if name == "pop":
            c = self.real_content(o)
            if not self.branch(self.nonempty(c)):
                raise PyRaise(ExcV(KeyError))
            e = self.some_element([Iter([c.sort], lambda bs: (zbool(c.mem(bs[0])), dec(bs[0])))])
            self.set_discard(o, e, False)
            return e
        if name == "clear":
            return self.put_content(o, SetC(None, lambda y: z3.BoolVal(False)))
        raise Unsupported("set.%s" % name)

    def union_star(self, mem, srt, star):
        parts = []
        for s in star.segs:
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "us")
                g, v = s.mk(bs)
                s2 = self.to_set(v)
                parts.append((bs, g, s2))
            else:
                parts.append(([], True, self.to_set(s)))
            srt = so(srt, parts[-1][2].sort)
        return (lambda y, m=mem: Or(m(y), *[Exists(bs, And(g, s2.mem(y))) for bs, g, s2 in parts])), srt

    def map_method(self, o, c, name, args, kw):
        if isinstance(c, AccPath) or isinstance(c, AccC):
            if name == "update" and args and not kw:
                return self.map_update(o, args[0])
            raise Unsupported("dict.%s on an accumulator" % name)
        if name in ("keys", "values", "items"):
            if isinstance(c, RecC):
                return ListC([k if name == "keys" else v if name == "values" else Tup([k, v]) for k, v in c.d.items()])
            if name == "keys":
                return SetC(c.ksort, lambda k: self.map_dom(c, k))
            return BagC(self.map_iter(c, name))
        if name == "get":
            k = self.force(args[0])
            d = args[1] if len(args) > 1 else None
            if self.truthy(self.contains(o, k)):
                return self.getitem(o, k)
            return d
        if name == "copy":
            return self.alloc(self.unaliased(c))
        if name == "update":
            for a in args:
                self.map_update(o, a)
            for k, v in kw.items():
                self.setitem(o, k, v)
            return None
        if name == "pop":
            k = self.force(args[0])
            if self.truthy(self.contains(o, k)):
                v = self.inline(self.getitem(o, k))
                self.map_del(o, k)
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(ExcV(KeyError))
        if name == "setdefault":
            k = self.force(args[0])
            if not self.truthy(self.contains(o, k)):
                self.setitem(o, k, args[1] if len(args) > 1 else None)
            return self.getitem(o, k)
        if name == "clear":
            return self.put_content(o, RecC({}, c.default))
        raise Unsupported("dict.%s" % name)

    def unaliased(self, c):
        """shallow copy: inner mutable containers by value are shared in Python"""
        if isinstance(c, MapC) and c.ksort is not None:
            k = self.bvars([c.ksort], "al")[0]
            h = self.ctxs[-1].facts
            v = self.map_getd(c, k)
            if isinstance(v, (SetC, ListC, BagC, MapC, RecC)) and not (isinstance(v, SetC) and v.frozen):
                r = MapC(c.ksort, c.dom0, c.get0, c.default, c.touched)
                r.shared = True
                return r
        return c

    def list_method(self, o, c, name, args, kw):
        if isinstance(c, ArrC) and name in ("mean", "sum") and not args:
            return MODELS["numpy." + name](self, c)
        if name in ("append", "appendleft"):
            cc = c.base if isinstance(c, AccC) else c
            if name == "appendleft" and isinstance(c, ListC):
                return self.put_content(o, ListC((args[0],) + c.items))
            if name == "appendleft" and not isinstance(cc, (WorkC, BagC)):
                raise Unsupported("appendleft")
            return self.list_append(o, args[0])
        if name == "extend":
            return self.list_extend(o, args[0])
        c = self.real_content(o)
        if name == "copy":
            return self.alloc(c)
        if name in ("pop", "popleft") and isinstance(c, WorkC) and (not args or args[0] in (0, -1)):
            if not self.branch(self.nonempty(c)):
                raise PyRaise(ExcV(IndexError))
            e = self.stable("popped", c.sort)
            self.assume(c.mem(e))
            again = z3.BoolVal(False) if c.distinct else self.stable("again", B)
            self.put_content(o, WorkC(c.sort, lambda y: And(c.mem(y), Or(y != e, again)), c.distinct))
            return dec(e)
        if name == "pop":
            if isinstance(c, ListC):
                if not c.items:
                    raise PyRaise(ExcV(IndexError))
                k = args[0] if args else -1
                if not isinstance(k, int):
                    raise Unsupported("list.pop")
                items = list(c.items)
                v = items.pop(k)
                self.put_content(o, ListC(items))
                return v
            if isinstance(c, SeqC) and not args:
                if not self.branch(num(c.n) > 0):
                    raise PyRaise(ExcV(IndexError))
                v = c.at(num(c.n) - 1)
                self.put_content(o, SeqC(num(c.n) - 1, c.at))
                return v
            raise Unsupported("list.pop")
        if name == "popleft" and isinstance(c, ListC):
            if not c.items:
                raise PyRaise(ExcV(IndexError))
            self.put_content(o, ListC(c.items[1:]))
            return c.items[0]
        if name == "insert" and isinstance(c, ListC) and isinstance(args[0], int):
            items = list(c.items)
            items.insert(args[0], args[1])
            return self.put_content(o, ListC(items))
        if name == "sort" and isinstance(c, ListC):
            return self.put_content(o, self.content(MODELS["builtins.sorted"](self, o, **kw)))
        if name == "sort":
            return None if isinstance(c, (BagC,)) else self.put_content(o, self.sorted_content(c))
        if name == "remove" and isinstance(c, BagC) and len(c.segs) == 1 and isinstance(c.segs[0], Iter) and c.segs[0].distinct:
            it = c.segs[0]
            x = args[0]
            if not self.branch(self.contains(o, x)):
                raise PyRaise(ExcV(ValueError))

            def mk(bs):
                g, v = it.mk(bs)
                return And(g, Not(zbool(self.equal(v, x)))), v
            return self.put_content(o, BagC([Iter(it.sorts, mk, seq=it.seq, distinct=True)]))
        if name == "reverse" and isinstance(c, ListC):
            return self.put_content(o, ListC(c.items[::-1]))
        if name == "index" and isinstance(c, ListC):
            return self.method(Tup(c.items), "index", args, kw)
        if name == "count":
            raise Unsupported("list.count")
        raise Unsupported("list.%s" % name)

    def sorted_content(self, c):
        if isinstance(c, SeqC):
            return BagC(self.segments(c))
        if isinstance(c, ListC) and len(c.items) <= 1:
            return c
        return BagC(list(c.items)) if isinstance(c, ListC) else c


# ---------------------------------------------------------------- builtins
MODELS = {}


def model(name):
    def deco(f):
        MODELS[name] = f
        return f
    return deco


def b(name):
    return model("builtins." + name)


@b("len")
def _len(E, v):
    return E.length(v)


@b("sum")
def _sum(E, v, start=0):
    return E.sum_of(v, start)


@b("all")
def _all(E, v):
    return E.quantify(v, True)


@b("any")
def _any(E, v):
    return E.quantify(v, False)


def _ext(mx):
    def f(E, *a, key=None, default=_ext):
        v = a[0] if len(a) == 1 else Tup(a)
        if default is not _ext:
            segs = E.segments(v)
            if not segs or not E.branch(E.nonempty(BagOrList(E, segs))):
                return default
        return E.extremum(v, mx, key)
    return f


MODELS["builtins.max"] = _ext(True)
MODELS["builtins.min"] = _ext(False)


@b("set")
def _set(E, v=None):
    return E.alloc(SetC(None, lambda y: z3.BoolVal(False)) if v is None else E.to_set(v))


@b("frozenset")
def _fset(E, v=None):
    return E.alloc(SetC(None, lambda y: z3.BoolVal(False), True) if v is None else E.to_set(v, True))


@b("list")
def _list(E, v=None):
    if v is None:
        return E.alloc(ListC([]))
    c = E.content(E.force(v))
    if isinstance(c, SeqC):
        return E.alloc(c)
    r = BagOrList(E, E.segments(v))
    if getattr(c, "code", None) is not None and isinstance(r, BagC):
        r.code, r.canon = c.code, getattr(c, "canon", False)
    return E.alloc(r)


@b("tuple")
def _tuple(E, v=None):
    if v is None:
        return Tup([])
    c = E.content(E.force(v))
    if isinstance(c, BagC) and getattr(c, "code", None) is not None and c.canon:
        return Opaque("sorted tuple of a set", tags=("closed", "tuple"), eqkey=c.code, items=c)
    segs = E.segments(v)
    if any(isinstance(s, Iter) for s in segs):
        return BagOrList(E, segs)
    return Tup(segs)


@b("dict")
def _dict(E, v=None, **kw):
    r = E.alloc(RecC({}))
    if v is not None:
        v = E.force(v)
        c = E.content(v)
        if isinstance(c, (RecC, MapC)):
            E.heap[r.loc] = E.unaliased(MapC(c.ksort, lambda k: E.map_dom(c, k), lambda k: E.map_getd(c, k)) if isinstance(c, MapC) else RecC(c.d))
        elif isinstance(c, ObjC) and E.class_attr(c.cls, "keys") is not None:
            ks = E.segments(E.call(E.getattr(v, "keys"), [], {}))
            pairs = []
            for s in ks:
                if isinstance(s, Iter):
                    bs = E.bvars(s.sorts, "dk")
                    g, k = s.mk(bs)
                    x = E.merged(bs, g, lambda: E.inline(E.getitem(v, k)))
                    from .subst import subst_value
                    pairs.append(Iter(s.sorts, lambda xs, bs=bs, g=g, k=k, x=x: (z3.substitute(zbool(g), *zip(bs, xs)), subst_value(E, Tup([k, x]), list(zip(bs, xs))))))
                else:
                    pairs.append(Tup([s, E.getitem(v, s)]))
            E.heap[r.loc] = E.map_from(pairs)
        else:
            E.heap[r.loc] = E.map_from(E.segments(v))
    for k, x in kw.items():
        E.setitem(r, k, x)
    return r


@b("sorted")
def _sorted(E, v, key=None, reverse=False):
    segs = E.segments(v)
    if not any(isinstance(s, Iter) for s in segs):
        if len(segs) <= 1:
            return E.alloc(ListC(segs))
        if len(segs) == 2 and key is None and not reverse:
            x, y = segs
            c = E.order("Lt", y, x)
            if isinstance(c, bool):
                return E.alloc(ListC([y, x] if c else [x, y]))
            return E.alloc(ListC([E.ite(c, y, x), E.ite(c, x, y)]))
        if all(isinstance(s, (int, Fraction, str)) for s in segs) and key is None:
            return E.alloc(ListC(sorted(segs, reverse=bool(reverse))))
        if 2 <= len(segs) <= 8 and not E.binders():
            return E.alloc(sorted_items(E, segs, key, reverse))
    if len(segs) == 1 and key is None and segs[0].rng is not None:
        q = sorted_seq(E, BagOrList(E, segs))
        if q is not None:
            return E.alloc(SeqC(q.n, lambda i: q.at(num(q.n) - 1 - i)) if reverse is True else q)
    r = BagC(segs)
    c = E.content(E.force(v))
    if getattr(c, "code", None) is not None and key is None:
        # sorting the elements of a set gives a canonical listing of it
        r.code, r.canon = c.code, True
    h = E.models.get("sorted_hook")
    if h is not None:
        q = h(E, v, key, reverse)
        if q is not None:
            return q
    return E.alloc(r)


def sorted_items(E, items, key, reverse):
    """sorted() of a few items with symbolic keys: a stable rearrangement along the keys"""
    if not isinstance(reverse, bool):
        raise Unsupported("sorted(reverse=...)")
    n = len(items)
    ks = [E.force(E.call(key, [x], {}) if key is not None else x) for x in items]
    ks = [[num(y) for y in (k.items if isinstance(k, Tup) else [k])] for k in ks]
    if len({len(k) for k in ks}) != 1:
        raise Unsupported("sort keys of different lengths")
    p = [E.stable("place%d" % i, I) for i in range(n)]

    def key_at(i, m):
        r = ks[-1][m]
        for j in reversed(range(n - 1)):
            x, y = ks[j][m], r
            if x.sort() != y.sort():
                x, y = real(x), real(y)
            r = z3.If(p[i] == j, x, y)
        return r
    E.assume(And(*[And(0 <= x, x < n) for x in p]))
    E.assume(z3.Distinct(*p))
    for i in range(n - 1):
        lt_, eq = z3.BoolVal(False), z3.BoolVal(True)
        for m in range(len(ks[0])):
            a, b_ = key_at(i, m), key_at(i + 1, m)
            lt_ = Or(lt_, And(eq, (a > b_) if reverse else (a < b_)))
            eq = And(eq, a == b_)
        E.assume(Or(lt_, And(eq, p[i] < p[i + 1])))

    def at(i):
        i = num(i)
        pi = p[-1]
        for j in reversed(range(n - 1)):
            pi = z3.simplify(z3.If(i == j, p[j], pi))
        r = items[-1]
        for j in reversed(range(n - 1)):
            r = E.ite(pi == j, items[j], r)
        return r
    return SeqC(z3.IntVal(n), at)


def sorted_seq(E, c):
    """sorted(c) of a sequence of numbers: monotone, a rearrangement of c; the same for the same sequence"""
    if E.binders():
        return None
    i, j = z3.Consts("srt_i srt_j", I)
    try:
        v = c.at(i)
        if not (is_z(v) and v.sort() in (I, R)):
            return None
    except Unsupported:
        return None
    n = num(c.n)
    key = (z3.simplify(v).sexpr(), z3.simplify(n).sexpr())
    memo = E.__dict__.setdefault("_sorted", {})
    if key not in memo:
        tag = "%d" % len(memo)
        st = z3.Function("sorted!" + tag, I, v.sort())
        pm, ip = z3.Function("perm!" + tag, I, I), z3.Function("unperm!" + tag, I, I)
        memo[key] = (st, pm, ip)
    st, pm, ip = memo[key]
    inn = lambda x: And(0 <= x, x < n)
    E.assume(z3.ForAll([i, j], Implies(And(inn(i), inn(j), i <= j), st(i) <= st(j)), patterns=[z3.MultiPattern(st(i), st(j))]))
    E.assume(z3.ForAll([i], Implies(inn(i), And(inn(pm(i)), ip(pm(i)) == i, st(i) == z3.substitute(v, (i, pm(i))))), patterns=[st(i)]))
    E.assume(z3.ForAll([i], Implies(inn(i), And(inn(ip(i)), pm(ip(i)) == i)), patterns=[ip(i)]))
    E.trusted.add("sorted(): the ascending rearrangement")
    return SeqC(n, lambda k: st(num(k)))


Verifier.sorted_seq = sorted_seq


@b("range")
def _range(E, *a):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1 if len(a) == 2 else a[2])
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if len(range(lo, hi, st)) <= 16:
            return ListC(list(range(lo, hi, st)))
    if st != 1:
        raise Unsupported("range step")
    n = E.arith("-", hi, lo)
    n = num(n)
    return SeqC(z3.If(n < 0, z3.IntVal(0), n), lambda i: E.arith("+", lo, i))


@b("enumerate")
def _enum(E, v, start=0):
    c = E.content(E.force(v))
    if isinstance(c, SeqC):
        return SeqC(c.n, lambda i: Tup([E.arith("+", i, start), c.at(i)]))
    segs = E.segments(v)
    if any(isinstance(s, Iter) for s in segs):
        q = E.sequence(segs)
        return SeqC(q.n, lambda i: Tup([E.arith("+", i, start), q.at(i)]))
    return ListC([Tup([n + start, s]) for n, s in enumerate(segs)])


def sequence(E, segs):
    """an arbitrary order of a duplicate-free symbolic collection"""
    if len(segs) != 1 or len(segs[0].sorts) != 1:
        raise Unsupported("order of a collection")
    it = segs[0]
    srt = it.sorts[0]
    n = E.fresh("len", I)
    at = E.fresh_fun("at", I, srt)
    pos = E.fresh_fun("pos", srt, I)
    x = E.bvars([srt], "sq")[0]
    i = E.bvars([I], "si")[0]
    g = lambda y: zbool(it.mk([y])[0])
    cnt = E.sum([x], g(x), z3.IntVal(1))
    E.assume(n == cnt)
    E.assume(ForAll([i], Implies(And(0 <= i, i < n), And(g(at(i)), pos(at(i)) == i))))
    E.assume(ForAll([x], Implies(g(x), And(0 <= pos(x), pos(x) < n, at(pos(x)) == x))))
    return SeqC(n, lambda k: it.mk([at(num(k))])[1])


Verifier.sequence = sequence


@b("zip")
def _zip(E, *vs):
    cs = [E.content(E.force(v)) for v in vs]
    if any(isinstance(c, SeqC) for c in cs):
        seqs = [c if isinstance(c, SeqC) else SeqC(len(c.items), (lambda c: lambda i: E.index(c.items, i))(c)) if isinstance(c, ListC) else None for c in cs]
        if any(s is None for s in seqs):
            raise Unsupported("zip")
        n = num(seqs[0].n)
        for s in seqs[1:]:
            n = z3.If(num(s.n) < n, num(s.n), n)
        return SeqC(n, lambda i: Tup([s.at(i) for s in seqs]))
    segs = [E.segments(v) for v in vs]
    views = [getattr(E.force(v), "order", None) for v in vs]
    if views[0] is not None and all(w is views[0] for w in views) and all(len(ss) == 1 and isinstance(ss[0], Iter) for ss in segs):
        # views of one unchanged collection iterate in the same order
        it = segs[0][0]
        return E.alloc(BagC([Iter(it.sorts, lambda bs: (it.mk(bs)[0], Tup([it.mk(bs)[1] for _ in vs])), distinct=it.distinct)]))
    if any(isinstance(s, Iter) for ss in segs for s in ss):
        raise Unsupported("zip of collections of unknown order")
    return ListC([Tup(t) for t in zip(*segs)])


@b("map")
def _map(E, f, v, *more):
    out = []
    if more:
        z = _zip(E, v, *more)
        return _map(E, PyFn(lambda E, t: E.call(f, list(t.items), {})), z)
    from .subst import subst_value
    for s in E.segments(v):
        if isinstance(s, Iter):
            bs = E.bvars(s.sorts, "mp")
            g, x = s.mk(bs)
            y = E.merged(bs, zbool(g), lambda: E.inline(E.call(f, [x], {})))
            out.append(Iter(s.sorts, lambda xs, bs=bs, g=g, y=y: (z3.substitute(zbool(g), *zip(bs, xs)), subst_value(E, y, list(zip(bs, xs)))), seq=s.seq, rng=s.rng))
        else:
            out.append(E.call(f, [s], {}))
    return BagOrList(E, out)


@b("filter")
def _filter(E, f, v):
    out = []
    from .subst import subst_value
    for s in E.segments(v):
        if isinstance(s, Iter):
            bs = E.bvars(s.sorts, "fl")
            g, x = s.mk(bs)
            t = E.merged(bs, zbool(g), lambda: E.truth(E.call(f, [x], {}) if f is not None else x))
            out.append(Iter(s.sorts, lambda xs, bs=bs, g=g, x=x, t=t: (z3.substitute(And(g, t), *zip(bs, xs)), subst_value(E, x, list(zip(bs, xs)))), seq=s.seq, distinct=s.distinct))
        elif E.truthy(E.call(f, [s], {}) if f is not None else s):
            out.append(s)
    return BagOrList(E, out)


def is_instance(E, v, t):
    v, t = E.force(v), E.force(t)
    if isinstance(t, Tup):
        for x in t.items:
            if is_instance(E, v, x):
                return True
        return False
    if isinstance(v, Opaque):
        nm = E.tyname(t) if isinstance(t, (ClassV, ExtV)) else str(t)
        short = nm.split(":")[-1].split(".")[-1]
        if short in v.tags:
            return True
        if "not " + short in v.tags or "closed" in v.tags:
            return False
        raise Unsupported("isinstance(%r, %s)" % (v, short))
    if isinstance(t, NTClass):
        return isinstance(v, Tup) and v.cls is t
    if isinstance(t, ClassV):
        c = E.content(v) if isinstance(v, (Ref, ObjC)) else None
        if isinstance(c, ObjC):
            return any(isinstance(x, ClassV) and x.qual == t.qual for x in E.mro(c.cls))
        if isinstance(v, ExcV):
            return isinstance(v.cls, ClassV) and any(isinstance(x, ClassV) and x.qual == t.qual for x in E.mro(v.cls))
        return False
    if isinstance(t, ExtV):
        nm = t.name.split(".")[-1]
        k = E.kindof(v)
        c = E.content(v) if isinstance(v, (Ref, PathRef, Content)) else None
        if nm in ("Graph",):
            return isinstance(v, Opaque) and "Graph" in v.tags
        if nm == "bool":
            return k == "bool"
        if nm == "int":
            return k == "bool" or isinstance(v, int) or (is_z(v) and v.sort() == I)
        if nm == "float":
            return isinstance(v, (Fraction, NanNum)) or (is_z(v) and v.sort() == R)
        if nm == "str":
            return isinstance(v, (str, OpaqueStr))
        if nm in ("dict", "Mapping"):
            return isinstance(c, (RecC, MapC))
        if nm in ("list",):
            return isinstance(c, (ListC, BagC, SeqC))
        if nm in ("set",):
            return isinstance(c, SetC) and not c.frozen
        if nm in ("frozenset",):
            return isinstance(c, SetC) and c.frozen
        if nm == "tuple":
            return isinstance(v, Tup)
        if nm == "Callable":
            return _callable(E, v)
        if nm in ("Iterable", "Collection", "Sequence"):
            return c is not None or isinstance(v, Tup)
        if nm in ("bool_",):
            return False
        if isinstance(c, ObjC):
            return any(isinstance(x, ExtV) and x.name == t.name for x in E.mro(c.cls))
        if nm in ("Partition", "ndarray", "Series", "DataFrame"):
            return False
    raise Unsupported("isinstance(%r, %r)" % (v, t))


@b("isinstance")
def _isinstance(E, v, t):
    return is_instance(E, v, t)


@b("callable")
def _callable(E, v):
    v = E.force(v)
    if isinstance(v, (PyFn, Closure, Bound, PartialV, ClassV, ExtV, ExtMethod, MethodV)):
        return True
    if isinstance(v, Opaque):
        return v.call is not None or "callable" in v.tags
    c = E.content(v)
    if isinstance(c, ObjC):
        return E.class_attr(c.cls, "__call__") is not None
    return False


@b("getattr")
def _getattr(E, o, n, *d):
    try:
        return E.getattr(o, n)
    except PyRaise as p:
        if d and p.exc.cls is AttributeError:
            return d[0]
        raise


@model("builtins.object.__getattribute__")
def _objget(E, o, n):
    if isinstance(E.force(o), Opaque):
        return E.getattr(o, n)
    return E.getattr0(o, n)


@b("hasattr")
def _hasattr(E, o, n):
    try:
        E.getattr(o, n)
        return True
    except PyRaise as p:
        if p.exc.cls is AttributeError:
            return False
        raise


@b("setattr")
def _setattr(E, o, n, v):
    E.setattr(o, n, v)


@b("float")
def _float(E, v=0):
    v = E.force(v)
    if isinstance(v, str):
        if v in ("nan",):
            return NanNum(z3.BoolVal(True), z3.RealVal(0))
        if v in ("inf", "-inf"):
            return InfV(1 if v == "inf" else -1)
        raise Unsupported("float(str)")
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        return Fraction(v)
    if isinstance(v, NanNum):
        return v
    return real(v)


@b("int")
def _int(E, v=0):
    v = E.force(v)
    if isinstance(v, (int, Fraction)):
        return int(v)
    e = num(v)
    if e.sort() == I:
        return e
    f = z3.ToInt(e)
    return z3.If(e >= 0, f, -z3.ToInt(-e))


@b("bool")
def _bool(E, v=False):
    return E.truth(v)


@b("str")
def _str(E, v=""):
    return v if isinstance(v, str) else OpaqueStr()


MODELS["builtins.repr"] = lambda E, v: OpaqueStr()
MODELS["builtins.print"] = lambda E, *a, **k: None
MODELS["builtins.id"] = lambda E, v: OpaqueStr()
MODELS["builtins.object"] = lambda E: Opaque("object")


@b("abs")
def _abs(E, v):
    v = E.force(v)
    if isinstance(v, (int, Fraction)):
        return abs(v)
    if isinstance(v, NanNum):
        return NanNum(v.nan, z3.If(v.val >= 0, v.val, -v.val))
    e = num(v)
    return z3.If(e >= 0, e, -e)


@b("round")
def _round(E, v, nd=None):
    v = E.force(v)
    if nd is None:
        if isinstance(v, int):
            return v
        e = real(v)
        fl = z3.ToInt(e)
        fr_ = e - z3.ToReal(fl)
        return z3.If(fr_ < z3.Q(1, 2), fl, z3.If(fr_ > z3.Q(1, 2), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    raise Unsupported("round to digits")


@b("next")
def _next(E, it, *d):
    it = E.force(it)
    c = E.content(it)
    if isinstance(c, ObjC):
        m = E.class_attr(c.cls, "__next__")
        return E.call(m, [it], {})
    if isinstance(c, SeqC):
        if E.branch(num(c.n) > 0):
            return c.at(z3.IntVal(0))
    else:
        segs = E.segments(it)
        if segs and E.branch(E.nonempty(BagOrList(E, segs))):
            return E.some_element(segs)
    if d:
        return d[0]
    raise PyRaise(ExcV(StopIteration))


@b("iter")
def _iter(E, v):
    c = E.content(E.force(v))
    if isinstance(c, ObjC):
        m = E.class_attr(c.cls, "__iter__")
        if m is not None:
            return E.call(m, [v], {})
    return v


@b("type")
def _type(E, v):
    v = E.force(v)
    c = E.content(v)
    if isinstance(c, ObjC):
        return c.cls
    if isinstance(v, bool) or (is_z(v) and v.sort() == B):
        return ExtV("builtins.bool")
    return Opaque("type")


@b("reversed")
def _reversed(E, v):
    c = E.content(E.force(v))
    if isinstance(c, SeqC):
        return SeqC(c.n, lambda i: c.at(num(c.n) - 1 - i))
    segs = E.segments(v)
    if any(isinstance(s, Iter) for s in segs):
        return BagC(segs)
    return ListC(segs[::-1])


@b("property")
def _prop(E, f):
    return Prop(f)


def infinity(E):
    return InfV(1)


Verifier.infinity = infinity


# ---------------------------------------------------------------- standard library
@model("random.random")
def _random(E):
    u = E.stable("u", R)
    E.assume(And(u >= 0, u < 1))
    E.draws.append(u)
    return u


Verifier.draws = []


@model("random.choice")
def _choice(E, v):
    c = E.content(E.force(v))
    if isinstance(c, SeqC):
        if not E.branch(num(c.n) > 0):
            raise PyRaise(ExcV(IndexError))
        i = E.stable("ci", I)
        E.assume(And(0 <= i, i < num(c.n)))
        return c.at(i)
    if isinstance(c, (SetC, RecC, MapC)):
        # random.choice needs a sequence: a set is not subscriptable
        raise PyRaise(ExcV(TypeError))
    segs = E.segments(v)
    if not segs or not E.branch(E.nonempty(BagOrList(E, segs))):
        raise PyRaise(ExcV(IndexError))
    if E.chooser is not None:
        r = E.chooser(E, segs)
        if r is not None:
            return r
    return E.some_element(segs)


Verifier.chooser = None  # a spec about reachable outcomes resolves the draws itself


@model("random.sample")
def _sample(E, v, k):
    if k != 1:
        raise Unsupported("random.sample")
    return E.alloc(ListC([_choice(E, v)]))


@model("random.shuffle")
def _shuffle(E, v):
    c = E.content(E.force(v))
    if isinstance(c, ListC) and len(c.items) > 1:
        E.put_content(v, BagC(list(c.items)))
    elif isinstance(c, SeqC):
        raise Unsupported("shuffle of a sequence")


MODELS["random.seed"] = lambda E, *a: None
MODELS["warnings.warn"] = lambda E, *a, **k: None


@model("math.isnan")
def _isnan(E, v):
    v = E.force(v)
    if v is None or isinstance(v, str):
        raise PyRaise(ExcV(TypeError))
    if isinstance(v, NanNum):
        return v.nan
    if isinstance(v, (int, Fraction)) or is_z(v):
        num(v)
        return False
    raise Unsupported("isnan")


EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SQRT = z3.Function("sqrt", R, R)
PI = z3.Const("pi", R)


@model("math.exp")
def _exp(E, x):
    E.trusted.add("math.exp: positive, strictly increasing, exp(0)=1 (real semantics; overflow not modelled)")
    x = real(E.force(x))
    a, c = z3.Consts("ex_a ex_b", R)
    if not getattr(E, "_expax", None):
        E._expax = True
    E.global_once("exp", [z3.ForAll([a], EXP(a) > 0, patterns=[EXP(a)]), EXP(z3.RealVal(0)) == 1,
                          z3.ForAll([a, c], z3.And(z3.Implies(a < c, EXP(a) < EXP(c)), z3.Implies(a == c, EXP(a) == EXP(c))), patterns=[z3.MultiPattern(EXP(a), EXP(c))])])
    return EXP(x)


@model("math.log")
def _log(E, x, base=None):
    x = real(E.force(x))
    if not E.branch(x > 0):
        raise PyRaise(ExcV(ValueError))
    E.trusted.add("math.log: an uninterpreted function on positive reals")
    a, c = z3.Consts("lg_a lg_b", R)
    E.global_once("log", [LOG(z3.RealVal(1)) == 0, z3.ForAll([a, c], z3.Implies(z3.And(0 < a, a < c), LOG(a) < LOG(c)), patterns=[z3.MultiPattern(LOG(a), LOG(c))])])
    if base is not None:
        d = LOG(real(E.force(base)))
        return LOG(x) / d
    return LOG(x)


@model("math.sqrt")
def _sqrt(E, x):
    x = real(E.force(x))
    if not E.branch(x >= 0):
        raise PyRaise(ExcV(ValueError))
    r = SQRT(x)
    E.assume(r >= 0)
    if not E.binders():
        E.assume(r * r == x)
    return r


@model("math.floor")
def _floor(E, x):
    x = E.force(x)
    if isinstance(x, (int, Fraction)):
        return math.floor(x)
    return z3.ToInt(real(x))


@model("math.ceil")
def _ceil(E, x):
    x = E.force(x)
    if isinstance(x, (int, Fraction)):
        return math.ceil(x)
    return -z3.ToInt(-real(x))


MODELS["math.pi"] = PI
for _n in ("math.inf", "numpy.inf"):
    MODELS[_n] = InfV(1)
MODELS["numpy.nan"] = NanNum(z3.BoolVal(True), z3.RealVal(0))
MODELS["math.nan"] = NanNum(z3.BoolVal(True), z3.RealVal(0))


def nanpair(E, v):
    """(is NaN, value) of a number"""
    v = E.force(v) if not isinstance(v, NanNum) else v
    if isinstance(v, float) and v != v:
        return z3.BoolVal(True), z3.RealVal(0)
    if isinstance(v, NanNum):
        return zbool(v.nan), real(v.val)
    return z3.BoolVal(False), real(v)


Verifier.nanpair = nanpair


def global_once(E, key, axs):
    for f in axs:
        if not any(f.eq(g) for g in E.ctxs[0].facts):
            E.ctxs[0].facts.append(f)


Verifier.global_once = global_once


@model("collections.defaultdict")
def _defaultdict(E, f=None, init=None):
    d = RecC({}, f)
    r = E.alloc(d)
    if init is not None:
        c = E.content(E.force(init))
        if isinstance(c, RecC):
            E.heap[r.loc] = RecC(c.d, f)
        elif isinstance(c, MapC):
            E.heap[r.loc] = MapC(c.ksort, lambda k: E.map_dom(c, k), lambda k: E.map_getd(c, k), f)
        else:
            m = E.map_from(E.segments(init))
            E.heap[r.loc] = RecC(m.d, f) if isinstance(m, RecC) else MapC(m.ksort, m.dom0, m.get0, f)
    return r


@model("collections.namedtuple")
def _namedtuple(E, name, fields, defaults=None):
    if isinstance(fields, str):
        fs = fields.replace(",", " ").split()
    else:
        fs = E.concrete_items(fields)
    ds = E.concrete_items(defaults) if defaults is not None else None
    nt = NTClass(name, fs)
    if ds:
        nt.defaults = None
        nt.dmap = dict(zip(fs[len(fs) - len(ds):], ds))
    return nt


@model("collections.deque")
def _deque(E, v=None):
    return _list(E, v)


def _count(E, v):
    """Counter(iterable): the number of occurrences of each element"""
    if isinstance(E.content(E.force(v)), (MapC, RecC)):
        raise Unsupported("Counter(mapping)")
    segs = E.segments(v)
    if not segs:
        return E.alloc(RecC({}, ExtV("builtins.int")))
    els = [s.mk(E.bvars(s.sorts, "ct"))[1] if isinstance(s, Iter) else s for s in segs]
    ks = enc(els[0]).sort()

    def here(s, k):
        bs = E.bvars(s.sorts, "ct")
        g, x = s.mk(bs)
        return bs, And(g, enc(x, ks) == k)

    def dom(k):
        return Or(*[Exists(*here(s, k)) if isinstance(s, Iter) else enc(s, ks) == k for s in segs])

    def get(k):
        t = z3.IntVal(0)
        for s in segs:
            t = t + (E.sum(*here(s, k), z3.IntVal(1)) if isinstance(s, Iter) else z3.If(enc(s, ks) == k, z3.IntVal(1), z3.IntVal(0)))
        return z3.simplify(t)
    return E.alloc(MapC(ks, dom, get, ExtV("builtins.int")))


@model("collections.Counter")
def _counter(E, v=None):
    r = E.alloc(RecC({}, ExtV("builtins.int")))
    if v is not None:
        return _count(E, v)
    return r


@model("functools.wraps")
def _wraps(E, f, **k):
    return PyFn(lambda E, g: g)


@model("functools.lru_cache")
def _lru(E, *a, **k):
    E.trusted.add("functools.lru_cache is transparent (the cached function is a pure function of its arguments)")
    if a and isinstance(a[0], (Closure, PyFn)):
        return a[0]
    return PyFn(lambda E, g: g)


@model("functools.cached_property")
def _cprop(E, f):
    E.trusted.add("functools.cached_property behaves as a property (of an immutable object)")
    return Prop(f)


@model("dataclasses.dataclass")
def _dataclass(E, cls=None, **k):
    if cls is None:
        return PyFn(lambda E, c: _dataclass(E, c))
    import ast
    cls.dcfields = [(s.target.id, s.value) for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    return cls


@model("functools.partial")
def _partial(E, f, *a, **k):
    return PartialV(f, list(a), k)


@model("itertools.combinations")
def _combinations(E, v, r):
    import itertools
    segs = E.segments(v)
    if any(isinstance(s, Iter) for s in segs) or not isinstance(r, int):
        raise Unsupported("combinations of a collection of unknown size")
    return E.alloc(ListC([Tup(c) for c in itertools.combinations(segs, r)]))


@model("itertools.product")
def _product(E, *vs):
    segs = [E.segments(v) for v in vs]
    out = [([], True, [])]
    res = []

    def go(n, acc):
        if n == len(segs):
            res.append(acc)
            return
        for s in segs[n]:
            go(n + 1, acc + [s])
    go(0, [])
    outs = []
    for combo in res:
        if not any(isinstance(s, Iter) for s in combo):
            outs.append(Tup(combo))
            continue
        srts = [x for s in combo if isinstance(s, Iter) for x in s.sorts]

        def mk(xs, combo=combo):
            g, vals, n = [], [], 0
            for s in combo:
                if isinstance(s, Iter):
                    gg, v = s.mk(xs[n:n + len(s.sorts)])
                    n += len(s.sorts)
                    g.append(gg)
                    vals.append(v)
                else:
                    vals.append(s)
            return And(*g), Tup(vals)
        outs.append(Iter(srts, mk))
    return BagOrList(E, outs)


@model("itertools.chain")
def _chain(E, *vs):
    return BagOrList(E, [s for v in vs for s in E.segments(v)])


MODELS["operator.add"] = lambda E, a, b: E.arith("+", a, b)
for _n in ("Callable", "Optional", "Dict", "List", "Set", "Union", "Tuple", "Any", "Iterable", "Sequence", "FrozenSet", "Hashable", "NamedTuple", "Type"):
    MODELS.setdefault("typing." + _n, ExtV("typing." + _n))


# ---------------------------------------------------------------- numpy (used bits)
@model("numpy.mean")
def _npmean(E, v):
    n = E.length(v)
    E.trusted.add("numpy.mean(v) = sum(v)/len(v)")
    return E.arith("/", E.sum_of(v), n)


MODELS["statistics.mean"] = _npmean


@model("numpy.array")
def _nparray(E, v):
    c = E.content(E.force(v))
    if c is None and isinstance(v, Tup):
        c = ListC(v.items)
    segs = E.segments(v)
    q = BagOrList(E, segs)
    if isinstance(q, SeqC):
        return ArrC(q.n, q.at)
    if isinstance(q, ListC):
        items = list(q.items)
        return ArrC(len(items), lambda i: E.index(items, i))
    raise Unsupported("numpy.array of a collection of unknown order")


MODELS["numpy.asarray"] = _nparray


@model("numpy.median")
def _npmedian(E, v):
    q = BagOrList(E, E.segments(v))
    s = E.sorted_seq(q) if isinstance(q, SeqC) else None
    if s is None:
        raise Unsupported("median")
    E.trusted.add("numpy.median(v) = middle of sorted(v) (mean of the two middle elements)")
    n = num(s.n)
    if not E.branch(n > 0):
        return NanNum(z3.BoolVal(True), z3.RealVal(0))
    return (real(s.at((n - 1) / 2)) + real(s.at(n / 2))) / 2


MODELS["statistics.median"] = _npmedian


@model("numpy.sum")
def _npsum(E, v):
    return E.sum_of(v)


@model("numpy.isnan")
def _npisnan(E, v):
    return _isnan(E, v)
