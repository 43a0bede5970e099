"""expressions, containers, attributes"""
import ast
from fractions import Fraction
import z3
from .core import *
from .core import AccPath, Touch
from .interp import *
from .interp import ExtMethod


class X(Interp):
    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        try:
            return m(e, fr)
        except Unsupported as u:
            if not getattr(u, "where", None):
                u.where = "%s line %s" % (fr.qual, getattr(e, "lineno", "?"))
            raise

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, (int, str, bool, type(None))):
            return v
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, fr):
        return self.getvar(e.id, fr)

    def e_JoinedStr(self, e, fr):
        return OpaqueStr()

    def e_Tuple(self, e, fr):
        return Tup(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.alloc(ListC(self.elts(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.alloc(self.set_of(self.elts(e.elts, fr)))

    def set_of(self, vals, frozen=False):
        es = [enc(v) for v in map(self.force, vals)]
        if not es:
            return SetC(None, lambda y: z3.BoolVal(False), frozen)
        srt = es[0].sort()
        if any(x.sort() != srt for x in es):
            srt = A if any(x.sort() == A for x in es) else R
            es = [enc(v, srt) for v in vals]
        return SetC(srt, lambda y: Or(*[y == x for x in es]), frozen)

    def e_Dict(self, e, fr):
        r = self.alloc(RecC({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.map_update(r, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.setitem(r, kk, self.ev(v, fr))
        return r

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truthy(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for n, x in enumerate(e.values):
            v = self.ev(x, fr)
            if n == len(e.values) - 1:
                return v
            t = self.truth(v)
            # pure boolean operands: build the formula when the rest is simple
            if self.truthy(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.force(self.ev(e.operand, fr))
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Not(t)
        if isinstance(e.op, ast.USub):
            return self.arith("-", 0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for n, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if n == len(e.ops) - 1:
                return c if res is None else And(res, c)
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                res = c if res is None else And(res, c)
            left = right

    def e_Lambda(self, e, fr):
        return Closure(e, fr, fr.mod, fr.qual + ".<lambda>", [self.ev(d, fr) for d in e.args.defaults], {})

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return self.getslice(o, f(e.slice.lower), f(e.slice.upper), f(e.slice.step))
        return self.getitem(o, self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        if e.lower is e.upper is e.step is None:
            return Opaque("slice:all")
        raise Unsupported("slice")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.closure is None or not f.closure.owner:
                f = f.parent
            me = self.heap[f.loc][f.closure.node.args.args[0].arg]
            cls = self.lookup_global(f.mod, f.closure.owner)
            return SuperV(cls, me)
        fn = self.ev(e.func, fr)
        args, kw = [], {}
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                segs = self.segments(v)
                if any(isinstance(s, Iter) for s in segs):
                    args.append(StarArg(segs))
                else:
                    args += segs
            else:
                args.append(self.ev(x, fr))
        for k in e.keywords:
            if k.arg is None:
                c = self.content(self.ev(k.value, fr))
                if not isinstance(c, RecC):
                    raise Unsupported("** of a symbolic map")
                kw.update(c.d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.setvar(e.target.id, v, fr)
        return v

    # comprehensions
    def e_GeneratorExp(self, e, fr):
        return BagOrList(self, self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_ListComp(self, e, fr):
        return self.alloc(BagOrList(self, self.comp(e, fr, lambda f: self.ev(e.elt, f))))

    def e_SetComp(self, e, fr):
        return self.alloc(self.set_from(self.comp(e, fr, lambda f: self.ev(e.elt, f))))

    def e_DictComp(self, e, fr):
        return self.alloc(self.map_from(self.comp(e, fr, lambda f: Tup([self.ev(e.key, f), self.ev(e.value, f)]))))

    def comp(self, e, fr, elt):
        f = Frame("F%d" % self.uid(), fr, fr.mod, fr.qual, None)
        self.heap[f.loc] = {}
        return self.comp_gen(e.generators, 0, f, elt)

    def comp_gen(self, gens, n, f, elt):
        if n == len(gens):
            return [elt(f)]
        g = gens[n]
        out = []
        for s in self.segments(self.ev(g.iter, f)):
            if isinstance(s, Iter):
                out += self.comp_iter(gens, n, f, elt, s)
            else:
                self.assign(g.target, s, f)
                if all(self.truthy(self.ev(c, f)) for c in g.ifs):
                    out += self.comp_gen(gens, n + 1, f, elt)
        return out

    def comp_iter(self, gens, n, f, elt, it):
        """segments contributed by one symbolic generator clause"""
        from .subst import subst_value
        g = gens[n]
        bs = self.bvars(it.sorts, "c")
        guard, el = it.mk(bs)
        guard = zbool(guard)

        def thunk():
            self.assign(g.target, el, f)
            for c in g.ifs:
                if not self.truthy(self.ev(c, f)):
                    return []
            return [s if isinstance(s, Iter) else self.inline(s) for s in self.comp_gen(gens, n + 1, f, elt)]
        paths = self.explore(thunk, bs, guard)
        raises = [p for p in paths if p.kind == "raise"]
        for p in raises:
            self.export_facts(p, bs, guard)
            if self.branch(Exists(bs, And(guard, p.pc))):
                raise PyRaise(p.val.exc)
        rets = [p for p in paths if p.kind == "ret"]
        if len(rets) + len(raises) != len(paths):
            raise Unsupported("control flow out of a comprehension")
        for p in rets:
            self.effects_ok(p, bs, And(guard, p.pc))
            self.export_facts(p, bs, guard)
        # merge paths that give exactly one plain element into one segment
        outs = []
        plain = [p for p in rets if len(p.val) == 1 and not isinstance(p.val[0], Iter)]
        groups = []
        if plain:
            v = self.materialize(plain[-1].val[0], plain[-1].heap)
            for p in reversed(plain[:-1]):
                v = self.ite(p.pc, self.materialize(p.val[0], p.heap), v)
            full = len(plain) == len(rets)
            groups.append((And(guard, True if full else Or(*[p.pc for p in plain])), v))
        for p in rets:
            if p in plain:
                continue
            for s in p.val:
                if isinstance(s, Iter):
                    outs.append(self.nest(bs, And(guard, p.pc), s, it.sorts))
                else:
                    groups.append((And(guard, p.pc), self.materialize(s, p.heap)))
        for gd, v in groups:
            def mk(xs, gd=gd, v=v):
                sub = list(zip(bs, xs))
                return z3.substitute(gd, *sub), subst_value(self, v, sub)
            seq = it.seq if len(groups) == 1 and not outs else None
            full = seq is not None and plain and len(plain) == len(rets)
            outs.insert(0, Iter(it.sorts, mk, seq=seq, distinct=False, rng=it.rng if full else None))
        return outs

    def nest(self, bs, cond, s, sorts):
        from .subst import subst_value
        m = len(bs)

        def mk(xs):
            sub = list(zip(bs, xs[:m]))
            g, v = s.mk(xs[m:])
            return z3.substitute(And(cond, g), *sub), subst_value(self, v, sub)
        return Iter(list(sorts) + list(s.sorts), mk)

    def inline(self, v):
        """containers by value (for elements of symbolic collections)"""
        v = self.force(v) if isinstance(v, ChoiceV) else v
        if isinstance(v, (Ref, PathRef)):
            c = self.content(v)
            if isinstance(c, ObjC):
                return v
            if isinstance(c, (AccC, AccPath)):
                raise Unsupported("accumulator stored")
            return self.inline(c)
        if isinstance(v, Tup):
            return tup_like(v, [self.inline(x) for x in v.items])
        if isinstance(v, ListC):
            return ListC([self.inline(x) for x in v.items])
        if isinstance(v, RecC):
            return RecC({k: self.inline(x) for k, x in v.d.items()}, v.default)
        if isinstance(v, AccNum):
            raise Unsupported("accumulator value stored")
        return v

    # ------------------------------------------------------------ iteration
    def segments(self, v):
        """list of concrete values and Iters"""
        v = self.force(v)
        if isinstance(v, StarArg):
            return v.segs
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Opaque) and v.items is not None:
            return self.segments(v.items)
        c = self.content(v)
        if isinstance(c, (AccC, AccPath)):
            raise Unsupported("iteration over an accumulator")
        if isinstance(c, ListC):
            return list(c.items)
        if isinstance(c, BagC):
            return list(c.segs)
        if isinstance(c, SeqC):
            return [Iter([I], lambda bs: (And(0 <= bs[0], bs[0] < num(c.n)), c.at(bs[0])), seq=lambda a, b: a[0] < b[0], distinct=False, rng=num(c.n))]
        if isinstance(c, WorkC):
            return [Iter([c.sort], lambda bs: (zbool(c.mem(bs[0])), dec(bs[0])), distinct=True)] if c.distinct else self.no_order("worklist")
        if isinstance(c, SetC):
            if c.sort is None:
                return []
            return [Iter([c.sort], lambda bs: (zbool(c.mem(bs[0])), dec(bs[0])), distinct=True)]
        if isinstance(c, RecC):
            return list(c.d.keys())
        if isinstance(c, MapC):
            return self.map_iter(c, "keys")
        if isinstance(c, ObjC):
            m = self.class_attr(c.cls, "__iter__")
            if m is not None:
                return self.segments(self.call(m, [v], {}))
        raise Unsupported("iteration over %r" % (v,))

    def no_order(self, what):
        raise Unsupported("iteration over a " + what)

    def map_iter(self, c, what):
        if c.ksort is None:
            return []
        if c.single is not None and not c.touched:
            return [c.single[0] if what == "keys" else c.single[1] if what == "values" else Tup(list(c.single))]
        if c.it is not None and not c.touched:
            def mki(bs):
                g, kv = c.it.mk(bs)
                return g, (kv.items[0] if what == "keys" else kv.items[1] if what == "values" else kv)
            return [Iter(c.it.sorts, mki, seq=c.it.seq, distinct=what == "keys", rng=c.it.rng)]

        def mk(bs):
            k = bs[0]
            g = zbool(self.map_dom(c, k))
            if what == "keys":
                return g, dec(k)
            v = self.map_getd(c, k)
            return g, (v if what == "values" else Tup([dec(k), v]))
        return [Iter([c.ksort], mk, distinct=True)]

    def set_from(self, segs, frozen=False):
        srt = None
        parts = []
        for s in segs:
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "e")
                g, v = s.mk(bs)
                v = self.force(v) if isinstance(v, ChoiceV) else v
                parts.append((bs, g, v))
            else:
                parts.append(([], True, self.force(s)))
        for bs, g, v in parts:
            es = enc(v).sort()
            if srt is None or (es == A and srt == I):
                srt = es
            elif es != srt and es == R:
                srt = R
        if srt is None:
            return SetC(None, lambda y: z3.BoolVal(False), frozen)
        parts = [(bs, g, enc(v, srt)) for bs, g, v in parts]
        return SetC(srt, lambda y: Or(*[Exists(bs, And(g, y == v)) for bs, g, v in parts]), frozen)

    def map_from(self, segs):
        if not any(isinstance(s, Iter) for s in segs):
            r = self.alloc(RecC({}))
            for s in segs:
                k, v = self.unpack(s, 2)
                self.setitem(r, k, v)
            return self.heap.pop(r.loc)
        loc = "tmp%d" % self.uid()
        m = RecC({})
        for s in segs:
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "m")
                g, kv = s.mk(bs)
                k, v = self.unpack(kv, 2)
                ek = enc(self.force(k))
                empty = isinstance(m, RecC) and not m.d
                m = self.close_map(self.as_map(m), [Op("put", loc, (ek,), self.inline(v), bs, zbool(g))])
                if empty and len(segs) == 1 and s.rng is not None and isinstance(m, MapC):
                    b2 = self.bvars(s.sorts, "m")
                    sub = list(zip(bs, b2))
                    if self.entails(ForAll(bs + b2, Implies(And(g, z3.substitute(And(g, ek == ek), *sub), ek == z3.substitute(ek, *sub)), bs[0] == b2[0])), 1500):
                        m.it = Iter(s.sorts, lambda xs: (s.mk(xs)[0], Tup(self.unpack(s.mk(xs)[1], 2))), seq=s.seq, rng=s.rng)
            else:
                k, v = self.unpack(s, 2)
                m = self.map_put(m, k, v)
        return m

    def as_map(self, c):
        if isinstance(c, MapC):
            return c
        if isinstance(c, RecC):
            if not c.d:
                return MapC(None, lambda k: z3.BoolVal(False), lambda k: Poison("empty map"), c.default)
            ks = [enc(k) for k in c.d]
            srt = ks[0].sort()
            if any(k.sort() != srt for k in ks):
                raise Unsupported("mixed keys")
            vals = [self.inline(v) for v in c.d.values()]

            def get(k):
                v = vals[-1]
                for kk, x in list(zip(ks, vals))[-2::-1]:
                    v = self.ite(k == kk, x, v)
                return v
            return MapC(srt, lambda k: Or(*[k == x for x in ks]), get, c.default)
        raise Unsupported("map expected")

    def map_put(self, c, k, v):
        """functional put"""
        if isinstance(c, RecC) and isinstance(k, CONCRETE) and (c.d or isinstance(k, str) or True):
            if not any(not isinstance(x, CONCRETE) for x in c.d):
                return RecC(dict(c.d, **{}) | {k: v}, c.default)
        m = self.as_map(c)
        if m.ksort == A and not is_z(k):
            kk = enc(k, A)
        else:
            kk = enc(k, m.ksort)
            if m.ksort is not None and kk.sort() != m.ksort:
                raise Unsupported("key sort")
        v = self.inline(v)
        r = MapC(so(m.ksort, kk.sort()), lambda x: Or(self.map_dom(m, x), x == kk), lambda x: self.ite(x == kk, v, self.map_getd(m, x) if m.ksort is not None else v), m.default)
        if m.ksort is None and not m.touched and m.default is None:
            r.single = (dec(kk), v)
        return r

    # ------------------------------------------------------------ truth, comparison
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, str, float)):
            return bool(v)
        if isinstance(v, InfV):
            return True
        if is_z(v):
            if v.sort() == B:
                return v
            if v.sort() in (I, R):
                return v != 0
            if v.sort() == A:
                # labels may be falsy (0, ""); None is
                return And(truthy_label(v), v != enc(None, A))
            raise Unsupported("truth of a label")
        if isinstance(v, NanNum):
            return Or(v.nan, v.val != 0)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Opaque):
            return v.truth(self) if callable(v.truth) else v.truth
        if isinstance(v, (PyFn, Closure, Bound, ClassV, PartialV, ExtV, EnumMember, ExcV, ModV)):
            return True
        c = self.content(v)
        if isinstance(c, ObjC):
            for nm in ("__bool__", "__len__"):
                m = self.class_attr(c.cls, nm)
                if m is not None:
                    r = self.call(m, [v], {})
                    return self.truth(r)
            return True
        if c is not None:
            return self.nonempty(c)
        raise Unsupported("truth of %r" % (v,))

    def nonempty(self, c):
        if isinstance(c, ListC):
            return bool(c.items)
        if isinstance(c, RecC):
            return bool(c.d)
        if isinstance(c, SeqC):
            return num(c.n) > 0
        if isinstance(c, (SetC, WorkC)):
            if c.sort is None:
                return False
            y = self.bvars([c.sort], "ne")
            return Exists(y, c.mem(y[0]))
        if isinstance(c, MapC):
            if c.ksort is None:
                return False
            y = self.bvars([c.ksort], "ne")
            return Exists(y, self.map_dom(c, y[0]))
        if isinstance(c, BagC):
            ds = []
            for s in c.segs:
                if not isinstance(s, Iter):
                    return True
                bs = self.bvars(s.sorts, "ne")
                ds.append(Exists(bs, s.mk(bs)[0]))
            return Or(*ds)
        raise Unsupported("truth of a container")

    def truthy(self, v):
        return self.branch(self.truth(v))

    def kindof(self, v):
        if isinstance(v, bool) or (is_z(v) and v.sort() == B):
            return "bool"
        if isinstance(v, (int, Fraction, float, NanNum, AccNum, InfV)) or (is_z(v) and v.sort() in (I, R)):
            return "num"
        if v is None:
            return "none"
        if isinstance(v, (str, OpaqueStr)):
            return "str"
        if is_z(v) and v.sort() == A:
            return "atom"
        if isinstance(v, Tup) or (is_z(v) and core.tupinfo(v.sort())):
            return "tup"
        return "obj"

    def equal(self, a, b):
        a, b = self.force(a), self.force(b)
        if is_z(a):
            a = dec(a)
        if is_z(b):
            b = dec(b)
        ka, kb = self.kindof(a), self.kindof(b)
        if isinstance(a, AccNum) or isinstance(b, AccNum):
            a, b = self.acc_resolve(a), self.acc_resolve(b)
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            raise Unsupported("comparison of formatted text")
        if isinstance(a, CONCRETE) and isinstance(b, CONCRETE):
            return a == b
        if ka == "tup" and kb == "tup":
            if len(a.items) != len(b.items):
                return False
            return And(*[zbool(self.equal(x, y)) for x, y in zip(a.items, b.items)])
        if isinstance(a, InfV) or isinstance(b, InfV):
            return isinstance(a, InfV) and isinstance(b, InfV) and a.sign == b.sign
        if "num" in (ka, kb) and ka in ("num", "bool") and kb in ("num", "bool"):
            if isinstance(a, NanNum) or isinstance(b, NanNum):
                x, y = tonan(a), tonan(b)
                return And(Not(x.nan), Not(y.nan), x.val == y.val)
            x, y = num(a), num(b)
            if x.sort() != y.sort():
                x, y = real(x), real(y)
            return x == y
        if ka == kb == "bool":
            return zbool(a) == zbool(b)
        if ka == "atom" or kb == "atom":
            if ka == "tup" or kb == "tup" or ka == "obj" or kb == "obj":
                if isinstance(a, Opaque) and a.eqkey is not None or isinstance(b, Opaque) and b.eqkey is not None:
                    return enc(a, A) == enc(b, A)
                return False
            return enc(a, A) == enc(b, A)
        if ka != kb:
            return False
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a is b or (a.cls == b.cls and a.name == b.name)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a is b:
                return True
            if a.eqkey is not None and b.eqkey is not None:
                return a.eqkey == b.eqkey
            return False
        ca, cb = self.content(a), self.content(b)
        if ca is not None and cb is not None:
            return self.content_eq(a, ca, b, cb)
        if a is b:
            return True
        if isinstance(a, (EnumMember, ExcV)) or isinstance(b, (EnumMember, ExcV)):
            return False
        raise Unsupported("comparison of %r and %r" % (a, b))

    def content_eq(self, a, ca, b, cb):
        if isinstance(ca, ObjC) or isinstance(cb, ObjC):
            if isinstance(ca, ObjC) and isinstance(cb, ObjC):
                return isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc
            return False
        isset = lambda c: isinstance(c, SetC)
        ismap = lambda c: isinstance(c, (MapC, RecC))
        islist = lambda c: isinstance(c, (ListC, BagC, SeqC))
        if isset(ca) and isset(cb):
            s = so(ca.sort, cb.sort)
            if s is None:
                return True
            y = self.bvars([s], "eq")
            return ForAll(y, zbool(ca.mem(y[0])) == zbool(cb.mem(y[0])))
        if ismap(ca) and ismap(cb):
            if isinstance(ca, RecC) and isinstance(cb, RecC):
                if set(ca.d) != set(cb.d):
                    return False
                return And(*[zbool(self.equal(ca.d[k], cb.d[k])) for k in ca.d])
            ma, mb = self.as_map(ca), self.as_map(cb)
            s = so(ma.ksort, mb.ksort)
            k = self.bvars([s], "eq")
            dom = ForAll(k, zbool(self.map_dom(ma, k[0])) == zbool(self.map_dom(mb, k[0])))
            if ma.ksort is None or mb.ksort is None:
                return dom
            v = self.merged(k, And(self.map_dom(ma, k[0]), self.map_dom(mb, k[0])), lambda: self.equal(self.map_getd(ma, k[0]), self.map_getd(mb, k[0])))
            return And(dom, ForAll(k, Implies(self.map_dom(ma, k[0]), zbool(v))))
        if islist(ca) and islist(cb):
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                if len(ca.items) != len(cb.items):
                    return False
                return And(*[zbool(self.equal(x, y)) for x, y in zip(ca.items, cb.items)])
            for x, y in ((ca, cb), (cb, ca)):
                if isinstance(y, ListC) and not y.items:
                    t = self.nonempty(x)
                    return (not t) if isinstance(t, bool) else Not(t)
            raise Unsupported("list comparison")
        if isset(ca) != isset(cb) or ismap(ca) != ismap(cb):
            return False
        raise Unsupported("container comparison")

    def identical(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if is_z(o) and o.sort() == A:
                return o == NONE_ATOM
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.loc == b.loc
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, bool):
                return x == y
            if is_z(y) and y.sort() == B:
                return y if x else Not(y)
            return False
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a.cls == b.cls and a.name == b.name
        if isinstance(a, (ClassV, ExtV)) and isinstance(b, (ClassV, ExtV)):
            return self.tyname(a) == self.tyname(b)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.eqkey is not None and b.eqkey is not None:
            return a.eqkey == b.eqkey
        if self.kindof(a) != self.kindof(b):
            return False
        raise Unsupported("identity of %r and %r" % (a, b))

    def tyname(self, t):
        return t.qual if isinstance(t, ClassV) else t.name

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            r = self.equal(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else Not(r)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else Not(r)
        return self.order(type(op).__name__, a, b)

    def order(self, o, a, b):
        if isinstance(a, AccNum) or isinstance(b, AccNum):
            a, b = self.acc_resolve(a), self.acc_resolve(b)
        if isinstance(a, ArrC) or isinstance(b, ArrC):
            return (a if isinstance(a, ArrC) else b).arraylike(self, o, a, b)
        if a is None or b is None:
            raise PyRaise(ExcV(TypeError))
        ka, kb = self.kindof(a), self.kindof(b)
        if isinstance(a, InfV) or isinstance(b, InfV):
            if isinstance(a, NanNum) or isinstance(b, NanNum):
                n = a if isinstance(a, NanNum) else b
                r = self.order(o, a if isinstance(a, InfV) else 0, b if isinstance(b, InfV) else 0)
                return And(Not(n.nan), r)
            x, y = (v.sign * 2 if isinstance(v, InfV) else 0 for v in (a, b))
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[o]
        if ka in ("num", "bool") and kb in ("num", "bool"):
            if isinstance(a, NanNum) or isinstance(b, NanNum):
                x, y = tonan(a), tonan(b)
                f = {"Lt": x.val < y.val, "LtE": x.val <= y.val, "Gt": x.val > y.val, "GtE": x.val >= y.val}[o]
                return And(Not(x.nan), Not(y.nan), f)
            if not is_z(a) and not is_z(b):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[o]
            x, y = num(a), num(b)
            if x.sort() != y.sort():
                x, y = real(x), real(y)
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[o]
        if "atom" in (ka, kb):
            x, y = enc(a, A), enc(b, A)
            return {"Lt": lt(x, y), "Gt": lt(y, x), "LtE": Not(lt(y, x)), "GtE": Not(lt(x, y))}[o]
        if ka == kb == "tup":
            # lexicographic
            strict = "Lt" if o in ("Lt", "LtE") else "Gt"
            r = z3.BoolVal(o in ("LtE", "GtE"))
            if len(a.items) != len(b.items):
                raise Unsupported("tuple order")
            for x, y in reversed(list(zip(a.items, b.items))):
                r = Or(zbool(self.order(strict, x, y)), And(zbool(self.equal(x, y)), r))
            return r
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            s = so(ca.sort, cb.sort)
            if s is None:
                return o in ("LtE", "GtE")
            if o in ("Gt", "GtE"):
                ca, cb, o = cb, ca, {"Gt": "Lt", "GtE": "LtE"}[o]
            y = self.bvars([s], "sub")
            sub = ForAll(y, Implies(ca.mem(y[0]), cb.mem(y[0])))
            if o == "LtE":
                return sub
            return And(sub, Exists(y, And(cb.mem(y[0]), Not(ca.mem(y[0])))))
        raise Unsupported("order comparison")

    def contains(self, coll, x):
        coll = self.force(coll)
        x = self.force(x)
        if isinstance(coll, Opaque) and "contains" in coll.attrs:
            return coll.attrs["contains"](self, x)
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        c = self.content(coll)
        if isinstance(c, AccC):
            base = c.base
            while isinstance(base, AccC):
                base = base.base
            if isinstance(base, SetC) and is_z(x):  # allowed when no other iteration changes this member (check_reads)
                self.acc_note(c.fold, c.loc, x)
                return False if base.sort is None else zbool(base.mem(x))
            if isinstance(base, MapC) and base.default is None and is_z(x):
                self.acc_note(c.fold, c.loc, x)
                return zbool(self.map_dom(base, x))
            raise Unsupported("membership test on an accumulator")
        if isinstance(c, AccPath):
            raise Unsupported("membership test on an accumulator")
        if isinstance(c, SetC):
            if c.sort is None:
                return False
            return self.mem(c, x)
        if isinstance(c, RecC):
            if isinstance(x, CONCRETE):
                return x in c.d
            return Or(*[zbool(self.equal(x, k)) for k in c.d])
        if isinstance(c, MapC):
            if c.ksort is None:
                return False
            return self.map_dom(c, enc(x, c.ksort))
        if isinstance(c, ObjC):
            m = self.class_attr(c.cls, "__contains__")
            if m is not None:
                return self.call(m, [coll, x], {})
            if self.class_attr(c.cls, "keys") is not None:
                pass
        ds = []
        for s in self.segments(coll):
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "in")
                g, v = s.mk(bs)
                eqv = self.merged(bs, g, lambda: self.equal(v, x))
                ds.append(Exists(bs, And(g, zbool(eqv))))
            else:
                ds.append(zbool(self.equal(s, x)))
        r = Or(*ds)
        return r

    def mem(self, c, x):
        if c.sort == A and is_z(x) and x.sort() not in (A, I):
            return False
        info = core.tupinfo(c.sort)
        if info and not isinstance(x, Tup) and not (is_z(x) and x.sort() == c.sort):
            return False
        return c.mem(enc(x, c.sort))

    # ------------------------------------------------------------ arithmetic
    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**"}

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        hook = getattr(a, "binop", None) or getattr(b, "binop", None)
        if hook is not None:
            return hook(self, type(op).__name__, a, b)
        if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            return OpaqueStr()
        ca, cb = self.content(a), self.content(b)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (ca is not None or cb is not None):
            if isinstance(ca, (AccC, AccPath)):
                ca = self.acc_read(a, ca)
            if isinstance(cb, (AccC, AccPath)):
                cb = self.acc_read(b, cb)
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                s = so(ca.sort, cb.sort)
                f = {ast.BitOr: lambda y: Or(ca.mem(y), cb.mem(y)), ast.BitAnd: lambda y: And(ca.mem(y), cb.mem(y)),
                     ast.Sub: lambda y: And(ca.mem(y), Not(cb.mem(y))), ast.BitXor: lambda y: z3.Xor(zbool(ca.mem(y)), zbool(cb.mem(y)))}[type(op)]
                return self.alloc(SetC(s, f, ca.frozen))
            if isinstance(op, ast.BitOr) and isinstance(ca, (MapC, RecC)):
                r = self.alloc(ca)
                self.map_update(r, b)
                return r
            raise Unsupported("set operation on %r, %r" % (ca, cb))
        if isinstance(op, ast.Add) and (isinstance(a, Tup) or isinstance(ca, (ListC, BagC, SeqC))):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            return self.alloc(BagOrList(self, self.segments(a) + self.segments(b)))
        if isinstance(op, ast.Mult) and isinstance(ca, ListC) and isinstance(b, int):
            return self.alloc(ListC(ca.items * b))
        o = self.OPS.get(type(op))
        if o is None:
            if isinstance(op, (ast.BitAnd, ast.BitOr)) and self.kindof(a) == self.kindof(b) == "bool":
                return (And if isinstance(op, ast.BitAnd) else Or)(zbool(a), zbool(b))
            raise Unsupported("operator")
        return self.arith(o, a, b)

    def arith(self, o, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, AccNum) or isinstance(b, AccNum):
            if o == "+" and isinstance(a, AccNum) and not isinstance(b, AccNum):
                return AccNum(a.slot, self.arith("+", a.delta, b))
            if o == "+" and isinstance(b, AccNum) and not isinstance(a, AccNum):
                return AccNum(b.slot, self.arith("+", b.delta, a))
            if o == "-" and isinstance(a, AccNum) and not isinstance(b, AccNum):
                return AccNum(a.slot, self.arith("-", a.delta, b))
            a, b = self.acc_resolve(a), self.acc_resolve(b)
        if isinstance(a, ArrC) or isinstance(b, ArrC):
            n = (a if isinstance(a, ArrC) else b).n
            return ArrC(n, lambda i: self.arith(o, a.at(i) if isinstance(a, SeqC) else a, b.at(i) if isinstance(b, SeqC) else b))
        if a is None or b is None:
            raise PyRaise(ExcV(TypeError))
        if isinstance(a, InfV) or isinstance(b, InfV):
            if o == "-" and isinstance(b, InfV) and not isinstance(a, InfV):
                return InfV(-b.sign)
            if o in "+-" and isinstance(a, InfV) and not isinstance(b, (InfV, NanNum)):
                return a
            if o == "+" and isinstance(b, InfV) and not isinstance(a, NanNum):
                if not (isinstance(a, InfV) and a.sign != b.sign):
                    return b
            raise Unsupported("arithmetic with infinity")
        if isinstance(a, NanNum) or isinstance(b, NanNum):
            x, y = tonan(a), tonan(b)
            nan = Or(x.nan, y.nan)
            v = self.arith(o, x.val, y.val)
            return NanNum(nan, real(v))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if not is_z(a) and not is_z(b) and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if o in "/" or o in ("//", "%"):
                if b == 0:
                    raise PyRaise(ExcV(ZeroDivisionError))
            if o == "/":
                return Fraction(a) / Fraction(b)
            if o == "**":
                if isinstance(b, int):
                    return a ** b if b >= 0 else Fraction(1) / Fraction(a) ** (-b)
            else:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b}[o]()
        x, y = num(a), num(b)
        if o == "/":
            if self.branch(y == 0):
                raise PyRaise(ExcV(ZeroDivisionError))
            x, y = real(x), real(y)
            q = x / y
            if not z3.is_rational_value(z3.simplify(y)):
                self.assume(Implies(y > 0, And((x > 0) == (q > 0), (x >= 0) == (q >= 0), (x < y) == (q < 1), (x <= y) == (q <= 1))))
            return q
        if o in ("//", "%"):
            if x.sort() != I or y.sort() != I:
                raise Unsupported("floor division of reals")
            if self.branch(y == 0):
                raise PyRaise(ExcV(ZeroDivisionError))
            if not self.entails(y > 0):
                raise Unsupported("division by a possibly negative number")
            if z3.is_int_value(z3.simplify(y)):
                return x / y if o == "//" else x % y
            M, D = z3.Function("pymod", I, I, I), z3.Function("pydiv", I, I, I)
            self.assume(And(0 <= M(x, y), M(x, y) < y, Implies(And(0 <= x, x < y), And(M(x, y) == x, D(x, y) == 0)), x == y * D(x, y) + M(x, y)))
            for x2 in (z3.simplify(x - y), z3.simplify(x + y)):
                self.assume(M(x2, y) == M(x, y))
            return D(x, y) if o == "//" else M(x, y)
        if o == "**":
            if z3.is_int_value(y) and 0 <= y.as_long() <= 4:
                r = z3.IntVal(1) if x.sort() == I else z3.RealVal(1)
                for _ in range(y.as_long()):
                    r = r * x
                return r
            f = z3.Function("pow", R, R, R)
            self.used_models.add("float power (uninterpreted)")
            return f(real(x), real(y))
        if x.sort() != y.sort():
            x, y = real(x), real(y)
        if is_zero(y) and o in "+-":
            return x
        if is_zero(x) and o == "+":
            return y
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[o]()

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, ModV):
            v = self.lookup_global(o.mod, name)
            if v is not None:
                return v
            m = self.module(o.mod.name + "." + name)
            if m:
                return ModV(m)
            raise PyRaise(ExcV(AttributeError))
        if isinstance(o, ExtV):
            return self.ext(o.name + "." + name)
        if isinstance(o, SuperV):
            v = self.class_attr(self.obj_class(o.self_), name, after=o.cls)
            if v is None:
                if name == "__init__":
                    return PyFn(lambda E, *a, **k: None)
                raise Unsupported("super().%s" % name)
            return Bound(o.self_, v)
        if isinstance(o, Opaque):
            if name in o.attrs:
                v = o.attrs[name]
                return v(self) if callable(v) and not isinstance(v, Value) else v
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, Tup) and o.cls is not None and name in o.cls.fields:
            return o.items[o.cls.fields.index(name)]
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            v = self.class_attr(o, name)
            if isinstance(v, ClassM):
                return Bound(o, v.fn)
            if isinstance(v, StaticM):
                return v.fn
            if v is None:
                raise Unsupported("class attribute %s" % name)
            return v
        if isinstance(o, EnumMember):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
        c = self.content(o)
        if isinstance(c, ObjC):
            gab = self.class_attr(c.cls, "__getattribute__")
            if isinstance(gab, Closure) and name != "__class__":
                return self.call(gab, [o, name], {})
        return self.getattr0(o, name)

    def getattr0(self, o, name):
        """object.__getattribute__ (and __getattr__)"""
        o = self.force(o)
        c = self.content(o)
        if isinstance(c, ObjC):
            if name in c.fields:
                v = c.fields[name]
                if isinstance(v, Poison):
                    raise Unsupported("field %s: %s" % (name, v.why))
                return v
            if c.lazy is not None and name in c.lazy:
                v = c.lazy[name](self, o)
                if isinstance(o, Ref):
                    cc = self.heap[o.loc]
                    self.heap[o.loc] = ObjC(cc.cls, dict(cc.fields, **{name: v}), cc.lazy)
                return v
            if name == "__class__":
                return c.cls
            v = self.class_attr(c.cls, name)
            if v is None:
                ga = self.class_attr(c.cls, "__getattr__")
                if ga is not None:
                    return self.call(ga, [o, name], {})
                raise PyRaise(ExcV(AttributeError))
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if isinstance(v, ClassM):
                return Bound(c.cls, v.fn)
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, (Closure, ExtMethod)):
                return Bound(o, v)
            return v
        if isinstance(o, (Closure, PyFn, PartialV, Bound)):
            if isinstance(o, PyFn) and name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__doc__"):
                return OpaqueStr()
            raise PyRaise(ExcV(AttributeError))
        if c is not None or isinstance(o, (Tup, str, OpaqueStr)) or is_z(o):
            ty = {"RecC": dict, "MapC": dict, "ListC": list, "BagC": list, "SeqC": list, "WorkC": list, "SetC": set}.get(type(c).__name__, str if isinstance(o, (str, OpaqueStr)) else tuple if isinstance(o, Tup) else None)
            if ty is not None and not hasattr(ty, name) and not (isinstance(o, Tup) and o.cls is not None) and name not in ("popleft", "appendleft", "most_common", "total"):
                raise PyRaise(ExcV(AttributeError))
            return MethodV(o, name)
        if o is None:
            raise PyRaise(ExcV(AttributeError))
        raise Unsupported("attribute %s of %r" % (name, o))

    def obj_class(self, o):
        if isinstance(o, ClassV):
            return o
        return self.content(o).cls

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Opaque) and "setattr" in o.attrs:
            return o.attrs["setattr"](self, name, v)
        if not isinstance(o, Ref):
            raise Unsupported("attribute assignment on %r" % (o,))
        c = self.heap[o.loc]
        if not isinstance(c, ObjC):
            raise Unsupported("attribute assignment")
        p = self.class_attr(c.cls, name)
        if isinstance(p, Prop):
            if p.fset is None:
                raise PyRaise(ExcV(AttributeError))
            self.call(p.fset, [o, v], {})
            return
        self.heap[o.loc] = ObjC(c.cls, dict(c.fields, **{name: v}), c.lazy)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Opaque) and "getitem" in o.attrs:
            return o.attrs["getitem"](self, k)
        if isinstance(o, (ClassV, ExtV)):
            return o  # typing generics
        if isinstance(o, Tup):
            return self.index(o.items, k)
        if isinstance(o, str) and isinstance(k, int):
            return o[k]
        c = self.content(o)
        if isinstance(c, AccC):
            return self.acc_get(o, c, k)
        if isinstance(c, AccPath):
            orig = self.acc_orig(c)
            if isinstance(orig, RecC) and isinstance(k, CONCRETE) and isinstance(o, (Ref, PathRef)):
                if k not in orig.d:
                    raise PyRaise(ExcV(KeyError))
                if self.content(orig.d[k]) is not None:
                    return PathRef(c.acc.loc, c.path + (k,))
            raise Unsupported("read through an accumulator")
        if isinstance(c, ListC):
            return self.index(c.items, k)
        if isinstance(c, ArrC) and isinstance(k, ArrC):
            # boolean mask
            return BagC([Iter([I], lambda bs: (And(0 <= bs[0], bs[0] < num(c.n), k.at(bs[0])), c.at(bs[0])), seq=lambda a, b: a[0] < b[0])])
        if isinstance(c, SeqC):
            i = num(k)
            n = num(c.n)
            if not self.branch(And(i < n, i >= -n)):
                raise PyRaise(ExcV(IndexError))
            if isinstance(k, int):
                return c.at(i if k >= 0 else n + i)
            return c.at(z3.If(i < 0, n + i, i))
        if isinstance(c, RecC):
            if isinstance(k, CONCRETE):
                if k in c.d:
                    return self.owned(o, k, c.d[k])
                if c.default is not None:
                    v = self.call(c.default, [], {})
                    self.put_content(o, RecC({**self.content(o).d, k: v}, c.default))
                    return v
                raise PyRaise(ExcV(KeyError))
            if not c.d:
                if c.default is not None:
                    m = MapC(None, lambda x: z3.BoolVal(False), lambda x: Poison("empty"), c.default)
                    return self.map_read(o, m, enc(k))
                raise PyRaise(ExcV(KeyError))
            for kk, v in c.d.items():
                if self.truthy(self.equal(k, kk)):
                    return v
            raise PyRaise(ExcV(KeyError))
        if isinstance(c, MapC):
            if c.ksort is None and c.default is None:
                raise PyRaise(ExcV(KeyError))
            return self.map_read(o, c, enc(k, c.ksort))
        if isinstance(c, BagC):
            if isinstance(k, int):
                # some element of the bag; non-emptiness decides IndexError
                if not self.branch(self.nonempty(c)):
                    raise PyRaise(ExcV(IndexError))
                return self.some_element(c.segs)
            raise Unsupported("indexing a list of unknown order")
        if isinstance(c, ObjC):
            m = self.class_attr(c.cls, "__getitem__")
            if m is not None:
                return self.call(m, [o, k], {})
        raise Unsupported("subscript of %r" % (o,))

    def owned(self, o, k, v):
        """an element of o: inline mutable containers are addressed through o"""
        if isinstance(v, (SetC, MapC, ListC, BagC, RecC)) and isinstance(o, (Ref, PathRef)) and not (isinstance(v, SetC) and v.frozen):
            while isinstance(o, Ref) and isinstance(self.heap[o.loc], PathRef):
                o = self.heap[o.loc]
            return PathRef(o.loc, (o.path if isinstance(o, PathRef) else ()) + (k,))
        if isinstance(v, Tup) and isinstance(o, (Ref, PathRef)) and any(isinstance(x, (SetC, MapC, ListC, BagC, RecC)) for x in v.items):
            while isinstance(o, Ref) and isinstance(self.heap[o.loc], PathRef):
                o = self.heap[o.loc]
            path = (o.path if isinstance(o, PathRef) else ()) + (k,)
            return Tup([PathRef(o.loc, path + (("tup", i),)) if isinstance(x, (SetC, MapC, ListC, BagC, RecC)) and not (isinstance(x, SetC) and x.frozen) else x for i, x in enumerate(v.items)], v.cls)
        return v

    def some_element(self, segs):
        """an arbitrary element of the collection (known to be non-empty)"""
        opts = []
        for s in segs:
            if isinstance(s, Iter):
                w = [self.stable("el", x) for x in s.sorts]
                g, v = s.mk(w)
                opts.append((zbool(g), v))
            else:
                opts.append((z3.BoolVal(True), s))
        for n, (g, v) in enumerate(opts):
            if n == len(opts) - 1:
                self.assume(g)
                return v
            if self.branch(self.stable("pick", B)):
                self.assume(g)
                return v

    def map_read(self, o, c, k):
        d = self.map_dom(c, k)
        if c.default is None:
            if not self.branch(d):
                raise PyRaise(ExcV(KeyError))
            v = c.get0(k)
        else:
            v = self.map_getd(c, k)
            dd = z3.simplify(zbool(d))
            if not z3.is_true(dd) and not self.entails(d, 150):
                new = MapC(so(c.ksort, k.sort()), c.dom0, c.get0, c.default, c.touched + (Touch([], True, k),))
                self.put_content(o, new)
        v = self.force(v) if isinstance(v, ChoiceV) else v
        return self.owned(o, k, v)

    def index(self, items, k):
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            try:
                return items[k]
            except IndexError:
                raise PyRaise(ExcV(IndexError))
        if is_z(k) and k.sort() == B and len(items) == 2:
            return self.ite(k, items[1], items[0])
        if is_z(k) and k.sort() == I:
            for n, v in enumerate(items):
                if self.branch(Or(k == n, k == n - len(items))):
                    return v
            raise PyRaise(ExcV(IndexError))
        raise Unsupported("index %r" % (k,))

    def getslice(self, o, lo, hi, st):
        o = self.force(o)
        if st is not None:
            raise Unsupported("slice step")
        items = None
        if isinstance(o, Tup):
            items = o.items
            if all(isinstance(x, (int, type(None))) for x in (lo, hi)):
                return Tup(items[lo:hi])
        c = self.content(o)
        if isinstance(c, ListC) and all(isinstance(x, (int, type(None))) for x in (lo, hi)):
            return self.alloc(ListC(c.items[lo:hi]))
        if isinstance(c, SeqC):
            n = num(c.n)

            def norm(x, d):
                if x is None:
                    return d
                x = num(x)
                x = z3.If(x < 0, x + n, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
            a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
            a, b = z3.simplify(a), z3.simplify(b)
            ln = z3.If(b > a, b - a, z3.IntVal(0))
            return self.alloc(SeqC(ln, lambda i: c.at(i + a) if not is_zero(a) else c.at(i)))
        raise Unsupported("slice")

    def setitem(self, o, k, v):
        o, k = self.force(o), self.force(k)
        if isinstance(o, Opaque) and "setitem" in o.attrs:
            return o.attrs["setitem"](self, k, v)
        c = self.content(o)
        if isinstance(c, AccC):
            return self.acc_put(o, c, (k,), v)
        if isinstance(c, AccPath):
            return self.acc_put(o, c.acc, c.path + (k,), v)
        if isinstance(c, ListC):
            if isinstance(k, int) and -len(c.items) <= k < len(c.items):
                items = list(c.items)
                items[k] = v
                return self.put_content(o, ListC(items))
            raise Unsupported("list store")
        if isinstance(c, (RecC, MapC)):
            if isinstance(c, RecC) and isinstance(k, CONCRETE):
                return self.put_content(o, RecC({**c.d, k: v}, c.default))
            mutable = lambda v: isinstance(v, Ref) and isinstance(self.heap[v.loc], (SetC, MapC, ListC, BagC, RecC))
            fwd = [(v, ())] if mutable(v) else [(x, (("tup", i),)) for i, x in enumerate(v.items) if mutable(x)] if isinstance(v, Tup) else []
            nv = self.map_put(c, k, v)
            self.put_content(o, nv)
            if isinstance(o, Ref):
                for r, sub in fwd:
                    if r.loc != o.loc:
                        self.heap[r.loc] = PathRef(o.loc, (enc(k, nv.ksort),) + sub)
            return
        if isinstance(c, ObjC):
            m = self.class_attr(c.cls, "__setitem__")
            if m is not None:
                return self.call(m, [o, k, v], {})
        raise Unsupported("item assignment")

    def put_content(self, o, c):
        if isinstance(o, Ref):
            cur = self.heap[o.loc]
            if isinstance(cur, PathRef):
                return self.put_content(cur, c)
            self.heap[o.loc] = c
            return
        if isinstance(o, PathRef):
            self.heap[o.loc] = self.put_path(self.heap[o.loc], o.path, c)
            return
        raise Unsupported("update of a value that is not owned")

    def put_path(self, base, path, c):
        if not path:
            return c
        if o_loc_shared(base):
            raise Unsupported("update of a shared inner container")
        k = path[0]
        if isinstance(base, MapC):
            inner = self.put_path(self.force(self.map_getd(base, k)), path[1:], c)
            return MapC(base.ksort, lambda x: Or(self.map_dom(base, x), x == k), lambda x: self.ite(x == k, inner, self.map_getd(base, x)), base.default)
        if isinstance(base, RecC):
            return RecC({**base.d, k: self.put_path(base.d[k], path[1:], c)}, base.default)
        if isinstance(base, Tup) and isinstance(k, tuple) and k[0] == "tup":
            items = list(base.items)
            items[k[1]] = self.put_path(items[k[1]], path[1:], c)
            return Tup(items, base.cls)
        raise Unsupported("nested update")

    def real_content(self, o):
        c = self.content(o)
        if isinstance(c, (AccC, AccPath)):
            raise Unsupported("accumulator read")
        return c

    # ------------------------------------------------------------ accumulators
    def log(self, op):
        self.ctxs[-1].log.append(op)

    def acc_orig(self, ap):
        """shape of the content behind an accumulator path"""
        c = ap.acc.base
        for k in ap.path:
            c = c.base if isinstance(c, AccC) else c
            if isinstance(c, RecC) and not c.d and c.default is not None:
                c = MapC(None, lambda x: z3.BoolVal(False), lambda x: Poison("empty"), c.default)
            if isinstance(c, MapC):
                if c.default is not None:
                    c = self.default_content(c)
                else:
                    c = self.force(c.get0(enc(k, c.ksort)))
            elif isinstance(c, RecC):
                c = c.d[k]
            else:
                raise Unsupported("accumulator shape")
            if isinstance(c, (Ref, PathRef)):
                c = self.content(c)
        return c

    def acc_get(self, o, c, k):
        base = c.base
        while isinstance(base, AccC):
            base = base.base
        if isinstance(base, RecC):
            if base.d:
                raise Unsupported("accumulator record")
            if base.default is None:
                raise Unsupported("read of an accumulator map")
            base = MapC(None, lambda x: z3.BoolVal(False), lambda x: Poison("empty"), base.default)
        if isinstance(base, MapC):
            kk = enc(k, base.ksort)
            if base.default is None:
                # presence must be known from the state before the loop
                if base.ksort is None:
                    raise Unsupported("read of an accumulator map")
                if not self.branch(self.map_dom(base, kk)):
                    raise Unsupported("accumulator map may lack the key")
                v = self.force(base.get0(kk))
            else:
                self.log(Op("touch", c.loc, (kk,), None))
                v = self.map_getd(base, kk)
                v = self.force(v)
            if isinstance(v, (SetC, MapC, ListC, BagC, RecC)):
                if isinstance(v, SetC) and v.frozen:
                    self.acc_note(c.fold, c.loc, kk)
                    return v
                return PathRef(c.loc, (kk,))
            if self.is_num(v):
                return AccNum((c.loc, ("key", kk.get_id()), kk), z3.IntVal(0)) if not self.own_key(c, kk) else self.own_read(c, kk, v)
            self.acc_note(c.fold, c.loc, kk)
            return v
        raise Unsupported("accumulator read")

    def acc_note(self, fold, loc, k):
        """a read of an accumulator: it must not see what this iteration has already written"""
        for cx in self.ctxs:
            if any(o.kind != "touch" and o.loc == loc for o in cx.log):
                raise Unsupported("accumulator read after a write in the same iteration")
        fold.reads.append((loc, k))

    def own_key(self, c, kk):
        return False

    def own_read(self, c, kk, v):
        self.acc_note(c.fold, c.loc, kk)
        return v

    def acc_read(self, o, c):
        """value of (part of) an accumulator as it was before the loop; checked at the end of the fold"""
        if isinstance(c, AccPath):
            ap = c
            k = ap.path[0]
            base = ap.acc.base
            while isinstance(base, AccC):
                base = base.base
            self.acc_note(ap.acc.fold, ap.acc.loc, k)
            v = self.map_getd(self.as_map(base), k)
            for kk in ap.path[1:]:
                v = self.force(v)
                v = v.d[kk] if isinstance(v, RecC) else self.map_getd(v, kk)
            return self.force(v)
        raise Unsupported("accumulator read")

    def acc_resolve(self, v):
        """an accumulated map entry used as a plain value: allowed only if no iteration changes it (check_reads)"""
        if not isinstance(v, AccNum):
            return v
        if len(v.slot) != 3:
            raise Unsupported("accumulator used in an expression")
        loc, _, kk = v.slot
        c = self.heap[loc]
        base = c.base
        while isinstance(base, AccC):
            base = base.base
        self.acc_note(c.fold, loc, kk)
        return self.arith("+", self.map_getd(self.as_map(base), kk), v.delta)

    def acc_put(self, o, c, path, v):
        base = c.base
        while isinstance(base, AccC):
            base = base.base
        ks = base.ksort if isinstance(base, MapC) else None
        if isinstance(base, RecC) and base.d:
            raise Unsupported("store into an accumulator record")
        if not isinstance(base, (RecC, MapC)):
            raise Unsupported("store into an accumulator list")
        path = (enc(path[0], ks),) + tuple(path[1:])
        if isinstance(v, AccNum):
            if isinstance(v.slot, tuple) and v.slot[0] == c.loc and len(path) == 1 and v.slot[1] == ("key", path[0].get_id()):
                return self.log(Op("ksum", c.loc, path, v.delta))
            v = self.acc_resolve(v)
        if len(path) > 1:
            if len(path) == 2 and isinstance(base, RecC) and not base.d and not isinstance(v, AccNum):
                return self.log(Op("put", c.loc, (path[0], enc(path[1])), v))
            raise Unsupported("nested store in a loop")
        self.log(Op("put", c.loc, path, self.inline(v)))

    # ------------------------------------------------------------ container methods
    def set_update(self, o, v):
        c = self.content(o)
        segs = self.segments(v)
        if isinstance(c, (AccC, AccPath)):
            acc = c if isinstance(c, AccC) else c.acc
            path = () if isinstance(c, AccC) else c.path
            for s in segs:
                if isinstance(s, Iter):
                    bs = self.bvars(s.sorts, "u")
                    g, x = s.mk(bs)
                    self.log(Op("add", acc.loc, path, x, bs, zbool(g)))
                else:
                    self.log(Op("add", acc.loc, path, s))
            return
        s2 = self.to_set(v)
        if s2.sort is None:
            return
        self.put_content(o, SetC(so(c.sort, s2.sort), lambda y: Or(c.mem(y), s2.mem(y))))

    def set_remove_all(self, o, v):
        c = self.content(o)
        if isinstance(c, (AccC, AccPath)):
            raise Unsupported("removal from an accumulator")
        s2 = self.to_set(v)
        if s2.sort is None or c.sort is None:
            return
        self.put_content(o, SetC(c.sort, lambda y: And(c.mem(y), Not(s2.mem(y)))))

    def set_add(self, o, x):
        c = self.content(o)
        x = self.force(x)
        if isinstance(c, AccC):
            return self.log(Op("add", c.loc, (), x))
        if isinstance(c, AccPath):
            return self.log(Op("add", c.acc.loc, c.path, x))
        e = enc(x, c.sort)
        self.put_content(o, SetC(so(c.sort, e.sort()), lambda y: Or(c.mem(y), y == e)))

    def set_discard(self, o, x, must):
        c = self.content(o)
        x = self.force(x)
        if isinstance(c, AccC):
            if must:
                raise Unsupported("remove from an accumulator")
            return self.log(Op("rem", c.loc, (), x))
        if isinstance(c, AccPath):
            raise Unsupported("removal from an accumulator")
        if must and not self.branch(self.mem(c, x) if c.sort is not None else False):
            raise PyRaise(ExcV(KeyError))
        if c.sort is None:
            return
        e = enc(x, c.sort)
        self.put_content(o, SetC(c.sort, lambda y: And(c.mem(y), y != e)))

    def list_append(self, o, v):
        c = self.content(o)
        if isinstance(c, AccC):
            return self.log(Op("append", c.loc, (), self.inline(v)))
        if isinstance(c, AccPath):
            return self.log(Op("append", c.acc.loc, c.path, self.inline(v)))
        if isinstance(c, WorkC):
            e = enc(self.force(v), c.sort)
            if c.distinct:
                self.ensure("no element is put on the worklist twice", Not(c.mem(e)))
            return self.put_content(o, WorkC(c.sort, lambda y: Or(c.mem(y), y == e), c.distinct))
        if isinstance(c, ListC):
            return self.put_content(o, ListC(c.items + (v,)))
        if isinstance(c, BagC):
            return self.put_content(o, BagC(c.segs + [self.inline(v)]))
        if isinstance(c, SeqC):
            n = num(c.n)
            v = self.inline(v)
            return self.put_content(o, SeqC(n + 1, lambda i: self.ite(i == n, v, c.at(i))))
        raise Unsupported("append")

    def list_extend(self, o, v):
        c = self.content(o)
        segs = self.segments(v)
        if isinstance(c, (AccC, AccPath)):
            acc = c if isinstance(c, AccC) else c.acc
            path = () if isinstance(c, AccC) else c.path
            for s in segs:
                if isinstance(s, Iter):
                    bs = self.bvars(s.sorts, "u")
                    g, x = s.mk(bs)
                    self.log(Op("append", acc.loc, path, x, bs, zbool(g)))
                else:
                    self.log(Op("append", acc.loc, path, self.inline(s)))
            return
        if isinstance(c, WorkC) and not c.distinct:
            s2 = self.to_set(v)
            return self.put_content(o, WorkC(c.sort, lambda y: Or(c.mem(y), s2.mem(y)) if s2.sort is not None else c.mem(y)))
        if isinstance(c, (ListC, BagC)):
            cur = list(c.items) if isinstance(c, ListC) else list(c.segs)
            return self.put_content(o, BagOrList(self, cur + segs))
        if isinstance(c, SeqC) and not any(isinstance(s, Iter) for s in segs):
            for s in segs:
                self.list_append(o, s)
            return
        raise Unsupported("extend")

    def to_set(self, v, frozen=False):
        v = self.force(v)
        c = self.content(v)
        if isinstance(c, WorkC):
            return SetC(c.sort, c.mem, frozen)
        if isinstance(c, (AccC, AccPath)):
            c = self.acc_read(v, c)
        if isinstance(c, SetC):
            r = SetC(c.sort, c.mem, frozen)
            if getattr(c, "code", None) is not None:
                r.code = c.code
            return r
        return self.set_from(self.segments(v), frozen)

    def map_update(self, o, v):
        """dict.update"""
        c2 = self.content(v)
        if c2 is None:
            for s in self.segments(v):
                if isinstance(s, Iter):
                    raise Unsupported("update from pairs")
                k, x = self.unpack(s, 2)
                self.setitem(o, k, x)
            return
        if isinstance(c2, ObjC):
            raise Unsupported("update from an object")
        if isinstance(c2, RecC):
            for k, x in c2.d.items():
                self.setitem(o, k, x)
            return
        c = self.content(o)
        if isinstance(c2, MapC):
            if c2.ksort is None:
                return
            if c2.single is not None:
                self.setitem(o, *c2.single)
                return
            if isinstance(c, (AccC, AccPath)):
                k = self.bvars([c2.ksort], "u")
                self.log(Op("put", c.loc, (k[0],), self.map_getd(c2, k[0]), k, zbool(self.map_dom(c2, k[0]))))
                return
            m = self.as_map(c)
            r = MapC(c2.ksort, lambda x: Or(self.map_dom(m, x), self.map_dom(c2, x)),
                     lambda x: self.ite(self.map_dom(c2, x), self.map_getd(c2, x), self.map_getd(m, x)) if m.ksort is not None else self.map_getd(c2, x), m.default)
            return self.put_content(o, r)
        for s in self.segments(v):
            if isinstance(s, Iter):
                raise Unsupported("update from pairs")
            k, x = self.unpack(s, 2)
            self.setitem(o, k, x)

    def map_del(self, o, k):
        c = self.content(o)
        if isinstance(c, RecC) and isinstance(k, CONCRETE):
            if k not in c.d:
                raise PyRaise(ExcV(KeyError))
            return self.put_content(o, RecC({a: b for a, b in c.d.items() if a != k}, c.default))
        if isinstance(c, (RecC, MapC)):
            m = self.as_map(c)
            kk = enc(k, m.ksort)
            if not self.branch(self.map_dom(m, kk)):
                raise PyRaise(ExcV(KeyError))
            return self.put_content(o, MapC(m.ksort, lambda x: And(self.map_dom(m, x), x != kk), lambda x: self.map_getd(m, x), m.default))
        raise Unsupported("del")

    def length(self, v):
        v = self.force(v)
        if isinstance(v, Tup):
            return len(v.items)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Opaque) and "len" in v.attrs:
            return v.attrs["len"](self)
        c = self.content(v)
        if isinstance(c, (AccC, AccPath)):
            raise Unsupported("length of an accumulator")
        if isinstance(c, ListC):
            return len(c.items)
        if isinstance(c, WorkC) and not c.distinct:
            n = self.stable("len", I)
            self.assume(And(n >= 0, (n > 0) == self.nonempty(c)))
            return n
        if isinstance(c, RecC):
            return len(c.d)
        if isinstance(c, SeqC):
            return c.n
        if isinstance(c, ObjC):
            m = self.class_attr(c.cls, "__len__")
            if m is not None:
                return self.call(m, [v], {})
        r = 0
        for s in self.segments(v):
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "n")
                r = self.arith("+", r, self.sum(bs, zbool(s.mk(bs)[0]), z3.IntVal(1)))
            else:
                r = self.arith("+", r, 1)
        return r

    def sum_of(self, v, start=0):
        r = start
        for s in self.segments(v):
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "s")
                g, x = s.mk(bs)
                if isinstance(x, ChoiceV):
                    x = self.merged(bs, zbool(g), lambda: self.force(x))
                    if isinstance(x, ChoiceV):
                        raise Unsupported("sum of mixed values")
                if isinstance(x, NanNum):
                    nan = Exists(bs, And(g, x.nan))
                    tot = self.sum(bs, zbool(g), x.val)
                    if self.entails(Not(nan)):
                        r = self.arith("+", r, tot)
                    else:
                        r = self.arith("+", r, NanNum(nan, tot))
                else:
                    r = self.arith("+", r, self.sum(bs, zbool(g), num(x)))
            else:
                r = self.arith("+", r, s)
        return r

    def quantify(self, v, all_):
        fs = []
        for s in self.segments(v):
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "q")
                g, x = s.mk(bs)
                t = self.merged(bs, zbool(g), lambda: self.truth(x))
                fs.append(ForAll(bs, Implies(g, zbool(t))) if all_ else Exists(bs, And(g, zbool(t))))
            else:
                fs.append(zbool(self.truth(s)))
        r = And(*fs) if all_ else Or(*fs)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def extremum(self, v, mx, key=None):
        segs = self.segments(v)
        if not segs:
            raise PyRaise(ExcV(ValueError))
        if not any(isinstance(s, Iter) for s in segs) and key is None:
            r = segs[0]
            for s in segs[1:]:
                c = self.order("Gt" if mx else "Lt", s, r)
                r = self.ite(zbool(c), s, r) if not isinstance(c, bool) else (s if c else r)
                if isinstance(r, ChoiceV):
                    raise Unsupported("extremum of mixed values")
            return r
        ne = self.nonempty(BagC(segs))
        if not self.branch(ne):
            raise PyRaise(ExcV(ValueError))
        best = self.some_element(segs)
        bk = best if key is None else self.call(key, [best], {})
        for s in segs:
            if isinstance(s, Iter):
                bs = self.bvars(s.sorts, "mx")
                g, x = s.mk(bs)
                le = self.merged(bs, zbool(g), lambda: self.order("LtE" if mx else "GtE", x if key is None else self.call(key, [x], {}), bk))
                self.assume(ForAll(bs, Implies(g, zbool(le))))
            else:
                self.assume(zbool(self.order("LtE" if mx else "GtE", s if key is None else self.call(key, [s], {}), bk)))
        return best


truthy_label = z3.Function("truthy_label", A, B)


class StarArg(Value):
    def __init__(self, segs):
        self.segs = segs


class MethodV(Value):
    def __init__(self, o, name):
        self.o, self.name = o, name


def o_loc_shared(c):
    return getattr(c, "shared", False)


def BagOrList(E, segs):
    if any(isinstance(s, Iter) for s in segs):
        if len(segs) == 1 and segs[0].rng is not None:
            return SeqC(segs[0].rng, lambda i: segs[0].mk([num(i)])[1])
        return BagC(segs)
    return ListC(segs)
