"""pyvc core: values, path exploration, sums, obligations.

A symbolic executor over the AST of the real sources.  Branches are explored by
re-execution with decision vectors; loops are folded to closed forms (or cut by
contract invariants), so every obligation speaks about all inputs and all
iterations.  Obligations are discharged in solve.py.
"""
import itertools
from fractions import Fraction
import z3

Z = z3
A = z3.DeclareSort("Atom")
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
lt = z3.Function("lt", A, A, B)
IA = z3.Function("int_atom", I, A)
AI = z3.Function("atom_int", A, I)
SA = z3.Function("str_atom", I, A)
AS = z3.Function("atom_str", A, I)
KIND = z3.Function("atom_kind", A, I)
NONE_ATOM = z3.Const("none_atom", A)
_a, _b = z3.Consts("ax_a ax_b", A)
_i = z3.Int("ax_i")
ORDER_AXIOMS = [
    z3.ForAll([_a, _b], z3.Or(lt(_a, _b), lt(_b, _a), _a == _b), patterns=[lt(_a, _b)]),
    z3.ForAll([_a, _b], z3.Not(z3.And(lt(_a, _b), lt(_b, _a))), patterns=[lt(_a, _b)]),
    z3.ForAll([_a], z3.Not(lt(_a, _a)), patterns=[lt(_a, _a)]),
]
ATOM_AXIOMS = [
    z3.ForAll([_i], z3.And(AI(IA(_i)) == _i, KIND(IA(_i)) == 0), patterns=[IA(_i)]),
    z3.ForAll([_i], z3.And(AS(SA(_i)) == _i, KIND(SA(_i)) == 1), patterns=[SA(_i)]),
    KIND(NONE_ATOM) == 2,
]
_strs = {}


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


RL = 2200  # solver resource units per nominal millisecond


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


# ---------------------------------------------------------------- values
class Value:
    pass


class Tup(Value):
    eqkey = None  # a term that identifies the tuple (equal exactly when the tuples are)

    def __init__(self, items, cls=None):
        self.items = tuple(items)
        self.cls = cls  # namedtuple class

    def __repr__(self):
        return "Tup%r" % (self.items,)


class NanNum(Value):
    """A real that may be NaN."""

    def __init__(self, nan, val):
        self.nan, self.val = nan, val


class ChoiceV(Value):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Poison(Value):
    def __init__(self, why):
        self.why = why


class AccNum(Value):
    """Value of an accumulator at the start of an iteration plus delta."""

    def __init__(self, slot, delta):
        self.slot, self.delta = slot, delta


class InfV(Value):
    def __init__(self, sign):
        self.sign = sign


class OpaqueStr(Value):
    pass


class Opaque(Value):
    """A value of which only the given facts are known (contract supplied)."""

    def __init__(self, name, tags=(), truth=True, attrs=None, items=None, eqkey=None, call=None):
        self.name, self.tags, self.truth = name, tuple(tags), truth
        self.attrs = attrs or {}
        self.items = items
        self.eqkey = eqkey
        self.call = call

    def __repr__(self):
        return "<%s>" % self.name


class Ref(Value):
    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "Ref(%s)" % (self.loc,)


class PathRef(Value):
    def __init__(self, loc, path):
        self.loc, self.path = loc, tuple(path)


# contents (immutable); may also occur inline as values
class Content(Value):
    pass


class SetC(Content):
    def __init__(self, sort, mem, frozen=False):
        self.sort, self.mem, self.frozen = sort, mem, frozen


class MapC(Content):
    single = None  # (key, value) of a map with exactly one, symbolic, key
    it = None  # the (key, value) pairs in insertion order, when known and duplicate-free
    def __init__(self, ksort, dom, get, default=None, touched=()):
        self.ksort, self.dom0, self.get0, self.default, self.touched = ksort, dom, get, default, tuple(touched)


class RecC(Content):
    """dict with concrete keys"""

    def __init__(self, d, default=None):
        self.d = d
        self.default = default


class ListC(Content):
    def __init__(self, items):
        self.items = tuple(items)


class BagC(Content):
    """list/generator of unknown order: segments are values or Iter; frozen order irrelevant"""

    def __init__(self, segs):
        self.segs = list(segs)


class SeqC(Content):
    """symbolic sequence: length n (Int), at(i)"""

    def __init__(self, n, at):
        self.n, self.at = n, at


class ArrC(SeqC):
    """a one-dimensional numpy array"""

    def arraylike(self, E, o, a, b):
        n = self.n
        pick = lambda v, i: v.at(i) if isinstance(v, SeqC) else v
        return ArrC(n, lambda i: E.order(o, pick(a, i), pick(b, i)))


class WorkC(Content):
    """a list or deque used as a worklist: which elements it holds; order (and multiplicity, unless distinct) abstracted"""

    def __init__(self, sort, mem, distinct=False):
        self.sort, self.mem, self.distinct = sort, mem, distinct


class ObjC(Content):
    def __init__(self, cls, fields, lazy=None):
        self.cls, self.fields, self.lazy = cls, fields, lazy


class AccC(Content):
    """placeholder for a container modified by the loop being folded"""

    def __init__(self, base, loc, fold):
        self.base, self.loc, self.fold = base, loc, fold


class Iter:
    """sorts of the binders and mk(binders) -> (guard, element)"""

    def __init__(self, sorts, mk, seq=None, distinct=False, rng=None):
        self.sorts, self.mk, self.seq, self.distinct = list(sorts), mk, seq, distinct
        self.rng = rng  # one integer binder, running through 0 <= i < rng in order


class PyFn(Value):
    def __init__(self, fn, name="", tags=(), attrs=None):
        self.fn, self.name, self.tags, self.attrs = fn, name or getattr(fn, "__name__", "fn"), tags, attrs or {}

    def __repr__(self):
        return "PyFn(%s)" % self.name


# ---------------------------------------------------------------- z3 helpers
def is_z(v):
    return isinstance(v, z3.ExprRef)


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def And(*xs):
    xs = [x for x in xs if not (x is True or (is_z(x) and z3.is_true(x)))]
    if any(x is False or (is_z(x) and z3.is_false(x)) for x in xs):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def Or(*xs):
    xs = [x for x in xs if not (x is False or (is_z(x) and z3.is_false(x)))]
    if any(x is True or (is_z(x) and z3.is_true(x)) for x in xs):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not xs else (xs[0] if len(xs) == 1 else z3.Or(*xs))


def Not(x):
    if x is True or x is False:
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def _mentions(t, consts, cache):
    k = t.get_id()
    if k in cache:
        return cache[k]
    if z3.is_quantifier(t):
        r = _mentions(t.body(), consts, cache)
    elif z3.is_var(t):
        r = False
    elif t.num_args() == 0:
        r = any(t.eq(c) for c in consts)
    else:
        r = any(_mentions(c, consts, cache) for c in t.children())
    cache[k] = r
    return r


def mentions(t, consts):
    if not is_z(t):
        return False
    return _mentions(t, consts, {})


def conjuncts(t):
    if is_z(t) and z3.is_and(t):
        out = []
        for c in t.children():
            out += conjuncts(c)
        return out
    return [t]


def ForAll(bs, body):
    body = zbool(body)
    bs = [b for b in bs if mentions(body, [b])]
    if not bs or z3.is_true(body):
        return body
    return z3.ForAll(bs, body)


def Exists(bs, body):
    """one-point rule, then z3.Exists"""
    body = zbool(body)
    bs = list(bs)
    changed = True
    while changed and bs:
        changed = False
        cs = conjuncts(body)
        for n, c in enumerate(cs):
            if z3.is_eq(c):
                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    for b in bs:
                        if x.eq(b) and not mentions(y, [b]):
                            rest = And(*(cs[:n] + cs[n + 1:]))
                            body = z3.substitute(rest, (b, y))
                            bs = [o for o in bs if not o.eq(b)]
                            changed = True
                            break
                    if changed:
                        break
            if changed:
                break
    bs = [b for b in bs if mentions(body, [b])]
    if not bs or z3.is_false(body):
        return body
    return z3.Exists(bs, body)


_tups = {}


def tupsort(sorts):
    key = tuple(s.sexpr() for s in sorts)
    if key not in _tups:
        nm = "T_" + "_".join(k.replace(" ", "").replace("(", "").replace(")", "") for k in key)
        d = z3.Datatype(nm)
        d.declare("mk_" + nm, *[("%s_%d" % (nm, n), s) for n, s in enumerate(sorts)])
        d = d.create()
        _tups[key] = d
        _tups[d.sexpr()] = (d, list(sorts))
    return _tups[key]


PAIR = tupsort([A, A])


def tupinfo(sort):
    t = _tups.get(sort.sexpr())
    return t[1] if isinstance(t, tuple) else None


def mkpair(a, b):
    return PAIR.constructor(0)(a, b)


def p0(e):
    return simp_acc(e, 0)


def p1(e):
    return simp_acc(e, 1)


def simp_acc(e, n):
    s = e.sort()
    d = _tups[s.sexpr()][0]
    if z3.is_app(e) and e.decl().eq(d.constructor(0)):
        return e.arg(n)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), simp_acc(e.arg(1), n), simp_acc(e.arg(2), n))
    return d.accessor(0, n)(e)


def dec(e):
    """z3 expression -> value"""
    if is_z(e):
        info = tupinfo(e.sort())
        if info:
            return Tup([dec(simp_acc(e, n)) for n in range(len(info))])
    return e


def num(v):
    """numeric value -> z3 arithmetic expression"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        v = Fraction(v).limit_denominator(10**12) if v == v and abs(v) != float("inf") else None
        if v is None:
            raise Unsupported("infinite or NaN constant")
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    if is_z(v):
        if v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() in (I, R):
            return v
    raise Unsupported("number expected, got %r" % (v,))


def real(e):
    e = num(e)
    return e if e.sort() == R else z3.ToReal(e)


def enc(v, sort=None):
    """value -> z3 expression of the given sort (or its natural sort)"""
    if isinstance(v, Tup) and v.eqkey is not None and sort in (None, v.eqkey.sort()):
        return v.eqkey
    if isinstance(v, Tup):
        info = tupinfo(sort) if sort is not None else [None] * len(v.items)
        if info is None or len(info) != len(v.items):
            raise Unsupported("tuple shape")
        es = [enc(x, s) for x, s in zip(v.items, info)]
        d = tupsort([e.sort() for e in es])
        return d.constructor(0)(*es)
    if is_z(v):
        if sort is None or v.sort() == sort:
            return v
        if sort == R and v.sort() == I:
            return z3.ToReal(v)
        if sort == R and v.sort() == B or sort == I and v.sort() == B:
            return enc(num(v), sort)
        if sort == A and v.sort() == I:
            return IA(v)
        raise Unsupported("sort %s where %s is expected" % (v.sort(), sort))
    if v is None:
        return NONE_ATOM
    if isinstance(v, str):
        return SA(z3.IntVal(_strs.setdefault(v, len(_strs))))
    if isinstance(v, bool):
        if sort is None or sort == B:
            return z3.BoolVal(v)
        v = int(v)
    if isinstance(v, (int, Fraction, float)):
        if sort == A:
            if isinstance(v, int):
                return IA(z3.IntVal(v))
            raise Unsupported("non-integer label")
        e = num(v)
        if sort == R:
            return real(e)
        return e
    if isinstance(v, Opaque) and v.eqkey is not None:
        return v.eqkey
    if isinstance(v, SetC) and v.frozen and getattr(v, "code", None) is not None:
        return v.code
    raise Unsupported("cannot use %r as a key or element" % (v,))


def tup_like(v, items):
    r = Tup(items, v.cls)
    r.eqkey = v.eqkey
    return r


CONCRETE = (bool, int, Fraction, float, str, type(None))


# ---------------------------------------------------------------- engine
class Ctx:
    def __init__(self, decisions, binders, guard):
        self.dec = list(decisions)
        self.pos = 0
        self.alts = []  # positions where the other side is open
        self.binders = list(binders)
        self.guard = guard
        self.pc = []  # real decisions, as formulas
        self.facts = []  # everything else known on this path
        self.log = []  # accumulator operations
        self.taken = []


class Path:
    def __init__(self, ctx, kind, val, heap):
        self.ctx, self.kind, self.val, self.heap = ctx, kind, val, heap
        self.pc = And(*ctx.pc)
        self.facts = ctx.facts
        self.log = ctx.log


class SumDef:
    def __init__(self, f, params, binders, guard, term):
        self.f, self.params, self.binders, self.guard, self.term = f, params, binders, guard, term
        self.axioms = []


class Obligation:
    def __init__(self, name, hyps, goal, where=""):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


class Engine:
    FEAS_MS = 200

    def __init__(self):
        self.reset()
        self.sums = {}  # name -> SumDef
        self.sumkeys = {}
        self.obligations = []
        self.covers = []
        self.trusted = set()
        self.inlined = set()
        self.stats = dict(checks=0, paths=0)
        self.contracts = {}
        self.invariants = {}
        self.max_paths = 4000
        self.use_order = False
        self.memo_feas = {}

    def reset(self):
        self.heap = {}
        self.ctxs = []
        self.n = itertools.count()
        self.setfuns = {}
        self.depth = 0

    def uidreset(self):
        self.n = itertools.count()
        self.setfuns = {}
        self.__dict__["_wits"] = {}
        self._expax = None

    # -- names
    def uid(self):
        return next(self.n)

    def binders(self):
        return [b for c in self.ctxs for b in c.binders]

    def fresh(self, name, sort):
        bs = self.binders()
        nm = "%s!%d" % (name, self.uid())
        if not bs:
            return z3.Const(nm, sort)
        return z3.Function(nm, *([b.sort() for b in bs] + [sort]))(*bs)

    def tag(self, name):
        """identifies this point of the execution: the same on every re-run that took the same decisions so far"""
        c = self.ctxs[-1] if self.ctxs else self
        if not hasattr(c, "counts"):
            c.counts = {}
        n = c.counts[name] = c.counts.get(name, 0) + 1
        if not self.ctxs:
            return "%s!%d" % (name, n)
        bits = "".join("01"[bool(d[0] if isinstance(d, tuple) else d)] for d in c.dec[:c.pos])
        return "%s!%s.%s.%d" % (name, c.ident, bits, n)

    def stable(self, name, sort):
        """a fresh value; the paths that branch after this point share it (never cache it)"""
        bs = self.binders()
        nm = self.tag(name)
        if not bs:
            return z3.Const(nm, sort)
        return z3.Function(nm, *([b.sort() for b in bs] + [sort]))(*bs)

    def fresh_fun(self, name, *sorts):
        """an uninterpreted function, depending on the enclosing binders"""
        bs = self.binders()
        f = z3.Function("%s!%d" % (name, self.uid()), *([b.sort() for b in bs] + list(sorts)))
        return lambda *a: f(*(list(bs) + list(a)))

    def bvars(self, sorts, hint="b"):
        return [z3.Const("%s!%d" % (hint, self.uid()), s) for s in sorts]

    # -- assumptions
    def assume(self, f):
        f = zbool(f)
        if z3.is_true(f):
            return
        self.ctxs[-1].facts.append(f)

    def assumptions(self):
        out = []
        for c in self.ctxs:
            if c.guard is not None and not z3.is_true(c.guard):
                out.append(c.guard)
            out += c.pc
            out += c.facts
        return out

    def sum_axioms(self, exprs):
        """axioms of every sum symbol occurring (transitively) in exprs"""
        seen, out, todo, done = set(), [], list(exprs), set()
        atoms = order = False
        while todo:
            t = todo.pop()
            k = t.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_quantifier(t):
                todo.append(t.body())
            elif z3.is_app(t):
                nm = t.decl().name()
                if nm == "lt" and not order:
                    order = True
                    out += ORDER_AXIOMS
                if nm in ("int_atom", "str_atom", "none_atom") and not atoms:
                    atoms = True
                    out += ATOM_AXIOMS
                if nm in self.sums and nm not in done:
                    done.add(nm)
                    for ax in self.sums[nm].axioms:
                        out.append(ax)
                        todo.append(ax)
                todo += t.children()
        return out

    def check(self, extra, ms=None):
        """'unsat' / 'sat' / 'unknown' of current assumptions and extra"""
        self.stats["checks"] += 1
        fs = self.assumptions() + list(extra)
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", (ms or self.FEAS_MS) * 5)
        s.set("rlimit", (ms or self.FEAS_MS) * RL)
        s.set("mbqi", False)
        s.add(*fs)
        s.add(*self.sum_axioms(fs))
        return str(s.check())

    def entails(self, f, ms=None):
        f = zbool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        return self.check([Not(f)], ms) == "unsat"

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if c is None:
            return False
        c = zbool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.dec):
            d, open_ = ctx.dec[ctx.pos], False
            forced = isinstance(d, tuple)
            d = d[0] if forced else d
        else:
            forced = True
            if self.check([c]) == "unsat":
                d = False
                if self.check([Not(c)]) == "unsat":
                    raise Infeasible()
            elif self.check([Not(c)]) == "unsat":
                d = True
            else:
                d, forced = True, False
            ctx.dec.append((d,) if forced else d)
            if not forced:
                ctx.alts.append(ctx.pos)
        ctx.pos += 1
        f = c if d else Not(c)
        if forced:
            ctx.facts.append(f)
        else:
            ctx.pc.append(f)
        return d

    def explore(self, thunk, binders=(), guard=None):
        results = []
        todo = [[]]
        H0 = self.heap
        ident = self.uid()
        while todo:
            dec_ = todo.pop()
            ctx = Ctx(dec_, binders, guard)
            ctx.ident = ident if len(self.ctxs) else 0
            self.ctxs.append(ctx)
            self.heap = dict(H0)
            self.stats["paths"] += 1
            if self.stats["paths"] > self.max_paths:
                raise Unsupported("too many paths")
            try:
                try:
                    v = thunk()
                    kind = "ret"
                except PyRaise as e:
                    v, kind = e, "raise"
                except ReturnX as e:
                    v, kind = e.v, "return"
                except BreakX:
                    v, kind = None, "break"
                except ContinueX:
                    v, kind = None, "ret"
                except Infeasible:
                    kind = None
            finally:
                self.ctxs.pop()
            for a in ctx.alts:
                todo.append(ctx.dec[:a] + [not ctx.dec[a]])
            if kind is not None:
                results.append(Path(ctx, kind, v, self.heap))
        self.heap = H0
        return results

    def export_facts(self, p, binders, guard):
        for f in p.facts:
            if mentions_any(f, binders):
                self.assume(ForAll(binders, Implies(And(guard if guard is not None else True, p.pc), f)))
            else:
                self.assume(Implies(Exists(binders, And(guard if guard is not None else True, p.pc)), f))

    def merged(self, binders, guard, thunk):
        """evaluate thunk for arbitrary binders under guard; one merged value"""
        paths = self.explore(thunk, binders, guard)
        g = guard if guard is not None else True
        raises = [p for p in paths if p.kind == "raise"]
        rets = [p for p in paths if p.kind == "ret"]
        if any(p.kind in ("return", "break") for p in paths):
            raise Unsupported("control flow out of an expression")
        for p in raises:
            self.export_facts(p, binders, guard)
            if self.branch(Exists(binders, And(g, p.pc))):
                raise PyRaise(p.val.exc)
        if not rets:
            if binders:
                # only reachable when the iteration is empty
                self.assume(ForAll(binders, Not(g)))
                return Poison("no element")
            raise Infeasible()
        for p in rets:
            self.effects_ok(p, binders, And(g, p.pc))
        for p in rets:
            self.export_facts(p, binders, guard)
        vals = [(p.pc, self.materialize(p.val, p.heap)) for p in rets]
        v = vals[-1][1]
        for pc, w in reversed(vals[:-1]):
            v = self.ite(pc, w, v)
        return v

    def effects_ok(self, p, binders, cond):
        """an expression under binders may only allocate, or touch defaultdicts"""
        if p.log:
            # accumulator operations inside an expression: hand on to the enclosing loop
            for op in p.log:
                op.lift(binders, cond)
                self.ctxs[-1].log.append(op)
        for loc, c in p.heap.items():
            if loc in self.heap and self.heap[loc] is not c:
                if isinstance(loc, tuple):
                    continue  # module caches
                old = self.heap[loc]
                if isinstance(c, MapC) and isinstance(old, MapC) and c.dom0 is old.dom0 and c.get0 is old.get0:
                    new = [t.lifted(binders, cond) for t in c.touched[len(old.touched):]]
                    self.heap[loc] = MapC(so(old.ksort, c.ksort), old.dom0, old.get0, old.default, old.touched + tuple(new))
                    continue
                if isinstance(c, ObjC) and c.cls is old.cls and old.lazy is not None:
                    if all(c.fields.get(k) is v for k, v in old.fields.items()):
                        continue
                if isinstance(c, dict) and isinstance(old, dict) and all(c.get(k) is v for k, v in old.items()):
                    continue
                raise Unsupported("side effect inside an expression under binders")

    def materialize(self, v, heap):
        """replace references to locations unknown to self.heap by inline contents"""
        if isinstance(v, Ref):
            if v.loc in self.heap:
                return v
            c = heap[v.loc]
            return self.materialize(c, heap)
        if isinstance(v, PathRef):
            if v.loc in self.heap:
                return v
            h, self.heap = self.heap, heap
            try:
                c = self.content(v)
            finally:
                self.heap = h
            return self.materialize(c, heap)
        if isinstance(v, Tup):
            return tup_like(v, [self.materialize(x, heap) for x in v.items])
        if isinstance(v, RecC):
            return RecC({k: self.materialize(x, heap) for k, x in v.d.items()}, v.default)
        if isinstance(v, ListC):
            return ListC([self.materialize(x, heap) for x in v.items])
        if isinstance(v, ObjC):
            return ObjC(v.cls, {k: self.materialize(x, heap) for k, x in v.fields.items()}, v.lazy)
        if isinstance(v, ChoiceV):
            return ChoiceV(v.c, self.materialize(v.a, heap), self.materialize(v.b, heap))
        return v

    # -- ite over values
    def ite(self, c, a, b):
        c = zbool(c)
        if z3.is_true(c) or a is b:
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, CONCRETE) and isinstance(b, CONCRETE) and type(a) == type(b) and a == b:
            return a
        sa, sb = self.scalar(a), self.scalar(b)
        if sa and sb:
            try:
                return self.ite_scalar(c, a, b)
            except Unsupported:
                return ChoiceV(c, a, b)
        if isinstance(a, NanNum) or isinstance(b, NanNum):
            if (isinstance(a, NanNum) or sa) and (isinstance(b, NanNum) or sb):
                x, y = tonan(a), tonan(b)
                return NanNum(z3.If(c, x.nan, y.nan), z3.If(c, x.val, y.val))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.cls is b.cls:
            r = Tup([self.ite(c, x, y) for x, y in zip(a.items, b.items)], a.cls)
            if a.eqkey is not None and b.eqkey is not None and a.eqkey.sort() == b.eqkey.sort():
                r.eqkey = z3.If(c, a.eqkey, b.eqkey)
            return r
        if isinstance(a, SetC) and isinstance(b, SetC) and a.frozen == b.frozen:
            s = so(a.sort, b.sort)
            return SetC(s, lambda y: z3.If(c, zbool(a.mem(y)), zbool(b.mem(y))), a.frozen)
        if isinstance(a, (BagC, ListC)) and isinstance(b, (BagC, ListC)) and (isinstance(a, BagC) or isinstance(b, BagC)):
            return BagC([guarded(x, c) for x in bag_segs(a)] + [guarded(x, Not(c)) for x in bag_segs(b)])
        if isinstance(a, MapC) and isinstance(b, MapC) and not a.touched and not b.touched and a.default is b.default:
            return MapC(so(a.ksort, b.ksort), lambda k: z3.If(c, zbool(a.dom0(k)), zbool(b.dom0(k))), lambda k: self.ite(c, a.get0(k), b.get0(k)), a.default)
        if isinstance(a, RecC) and isinstance(b, RecC) and list(a.d) == list(b.d):
            return RecC({k: self.ite(c, a.d[k], b.d[k]) for k in a.d})
        return ChoiceV(c, a, b)

    def scalar(self, v):
        return is_z(v) or isinstance(v, CONCRETE)

    def ite_scalar(self, c, a, b):
        if is_z(a) and is_z(b) and a.sort() == b.sort():
            return z3.If(c, a, b)
        for x in (a, b):
            if x is None or isinstance(x, str):
                s = [y for y in (a, b) if is_z(y) and y.sort() == A]
                if not s:
                    raise Unsupported("mixed")
                return z3.If(c, enc(a, A), enc(b, A))
        ea, eb = enc(a), enc(b)
        if ea.sort() == B and eb.sort() == B:
            return z3.If(c, ea, eb)
        if A in (ea.sort(), eb.sort()):
            raise Unsupported("mixed")
        if ea.sort() == B or eb.sort() == B:
            raise Unsupported("mixed")
        if ea.sort() != eb.sort():
            ea, eb = real(ea), real(eb)
        return z3.If(c, ea, eb)

    def force(self, v):
        while isinstance(v, ChoiceV):
            v = v.a if self.branch(v.c) else v.b
        if isinstance(v, Poison):
            raise Unsupported("value not determined: " + v.why)
        return v

    # -- sums
    def sum(self, binders, guard, term):
        term = num(term)
        guard = zbool(guard)
        while True:
            if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
                if is_zero(term.arg(2)):
                    guard, term = And(guard, term.arg(0)), term.arg(1)
                    continue
                if is_zero(term.arg(1)):
                    guard, term = And(guard, Not(term.arg(0))), term.arg(2)
                    continue
            if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_TO_REAL:
                return z3.ToReal(self.sum(binders, guard, term.arg(0)))
            break
        if z3.is_false(guard) or is_zero(term):
            return z3.IntVal(0) if term.sort() == I else z3.RealVal(0)
        # solve binders fixed by an equation in the guard
        binders = list(binders)
        changed = True
        while changed:
            changed = False
            cs = conjuncts(guard)
            for n, c in enumerate(cs):
                if z3.is_eq(c):
                    for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                        for b in binders:
                            if x.eq(b) and not mentions(y, [b]):
                                guard = z3.substitute(And(*(cs[:n] + cs[n + 1:])), (b, y))
                                term = z3.substitute(term, (b, y))
                                binders = [o for o in binders if not o.eq(b)]
                                changed = True
                                break
                        if changed:
                            break
                if changed:
                    break
        if not binders:
            z = z3.IntVal(0) if term.sort() == I else z3.RealVal(0)
            return z3.If(guard, term, z)
        return self.sum_symbol(binders, guard, term)

    def sum_symbol(self, binders, guard, term):
        subs = {}
        order = []
        memo = {}

        def closed(t):  # no binder, no de Bruijn variable inside
            k = t.get_id()
            if k not in memo:
                if z3.is_var(t):
                    memo[k] = False
                elif z3.is_quantifier(t):
                    memo[k] = closed_q(t)
                elif t.num_args() == 0:
                    memo[k] = not any(t.eq(b) for b in binders)
                else:
                    memo[k] = all(closed(c) for c in t.children())
            return memo[k]

        def closed_q(t):
            return not mentions(t, binders) and not has_free_var(t)

        def walk(t):
            if closed(t):
                if is_literal(t) or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and is_literal(t.arg(0)):
                    return
                if t.get_id() not in subs:
                    subs[t.get_id()] = t
                    order.append(t)
                return
            if z3.is_quantifier(t):
                walk(t.body())
            else:
                for c in t.children():
                    walk(c)

        whole = z3.And(guard, term == term) if False else None
        walk(guard)
        walk(term)
        params = [z3.Const("sp!%d!%s" % (n, t.sort().name()), t.sort()) for n, t in enumerate(order)]
        cb = [z3.Const("sb!%d!%s" % (n, b.sort().name()), b.sort()) for n, b in enumerate(binders)]
        pairs = sorted(zip(order, params), key=lambda q: -size(q[0]))
        g, t = guard, term
        for o, p in pairs:
            g, t = z3.substitute(g, (o, p)), z3.substitute(t, (o, p))
        bp = list(zip(binders, cb))
        g, t = z3.substitute(g, *bp), z3.substitute(t, *bp)
        g, t = z3.simplify(g), z3.simplify(t)
        key = "%s|%s|%s|%s" % (",".join(b.sexpr() for b in cb), ",".join(p.sexpr() for p in params), g.sexpr(), t.sexpr())
        if key not in self.sumkeys:
            nm = "sum!%d" % len(self.sumkeys)
            if params:
                f = z3.Function(nm, *([p.sort() for p in params] + [t.sort()]))
            else:
                f = z3.Const(nm, t.sort())
            d = SumDef(f, params, cb, g, t)
            self.sumkeys[key] = d
            self.sums[nm] = d
            app = f(*params) if params else f
            d.app = app
            if z3.is_int_value(t) and t.as_long() == 1:
                cb2 = [z3.Const(str(b) + "_q", b.sort()) for b in cb]
                g2 = z3.substitute(g, *zip(cb, cb2))
                ne = Exists(cb, g)
                uniq = ForAll(cb + cb2, Implies(And(g, g2), And(*[x == y for x, y in zip(cb, cb2)])))
                body = And(app >= 0, (app == 0) == Not(ne), (app <= 1) == uniq)
                d.axioms.append(z3.ForAll(params, body, patterns=[app]) if params else body)
            elif z3.is_rational_value(t) and t.as_fraction() > 0:
                body = And(app >= 0, (app == 0) == Not(Exists(cb, g)))
                d.axioms.append(z3.ForAll(params, body, patterns=[app]) if params else body)
        d = self.sumkeys[key]
        return d.f(*order) if order else d.f

    # -- references
    def alloc(self, content):
        loc = "L%d" % self.uid()
        self.heap[loc] = content
        return Ref(loc)

    def content(self, v):
        """content behind a container value"""
        if isinstance(v, Content):
            return v
        if isinstance(v, Ref):
            c = self.heap[v.loc]
            while isinstance(c, PathRef):
                return self.content(c)
            return c
        if isinstance(v, PathRef):
            c = self.heap[v.loc]
            for n, k in enumerate(v.path):
                if isinstance(c, AccC):
                    return AccPath(c, v.path[n:])
                if isinstance(c, MapC):
                    c = self.map_getd(c, k)
                elif isinstance(c, RecC):
                    c = c.d[k]
                elif isinstance(c, Tup) and isinstance(k, tuple) and k[0] == "tup":
                    c = c.items[k[1]]
                else:
                    raise Unsupported("path")
                c = self.force(c)
                if isinstance(c, (Ref, PathRef)):
                    c = self.content(c)
            return c
        return None

    def map_dom(self, m, k):
        d = m.dom0(k) if m.dom0 is not None else False
        ds = [d]
        for t in m.touched:
            ds.append(Exists(t.binders, And(t.cond, t.key == k)))
        return Or(*ds)

    def map_getd(self, m, k):
        """value at k, taking the default for a default map"""
        if m.default is None:
            return m.get0(k)
        d = m.dom0(k)
        dv = self.default_content(m)
        if d is False or (is_z(d) and z3.is_false(d)):
            return dv
        if d is True:
            return m.get0(k)
        return self.ite(d, m.get0(k), dv)

    def default_content(self, m):
        h = self.heap
        self.heap = dict(h)
        try:
            v = self.call(m.default, [], {})
            hh = self.heap
        finally:
            self.heap = h
        return self.materialize(v, hh)

    def call(self, f, args, kw):
        raise NotImplementedError

    # -- set-valued functions (connectivity and the like), congruent in the set
    def setfun(self, name, mem, sort, rsort=B):
        """value of an uninterpreted function of the set; equal sets give equal values"""
        r = self.fresh(name, rsort)
        bs = self.binders()
        x = self.bvars([sort], "sx")[0]
        for mem2, r2, bs2 in self.setfuns.setdefault(name, []):
            eqv = ForAll([x], zbool(mem(x)) == zbool(mem2(x)))
            self.global_assume(ForAll(uniq(bs + bs2), Implies(eqv, r == r2)))
        if bs:
            bs2 = [z3.Const(str(b) + "_q", b.sort()) for b in bs]
            sub = list(zip(bs, bs2))
            eqv = ForAll([x], zbool(mem(x)) == z3.substitute(zbool(mem(x)), *sub))
            self.global_assume(ForAll(bs + bs2, Implies(eqv, r == z3.substitute(r, *sub))))
        self.setfuns[name].append((mem, r, bs))
        return r

    def global_assume(self, f):
        self.ctxs[0].facts.append(zbool(f))

    # -- obligations
    def ensure(self, name, goal, where=""):
        goal = zbool(goal)
        self.obligations.append(Obligation(name, self.assumptions(), goal, where))


class Touch:
    def __init__(self, binders, cond, key):
        self.binders, self.cond, self.key = list(binders), cond, key

    def lifted(self, binders, cond):
        return Touch(list(binders) + self.binders, And(cond, self.cond), self.key)


class AccPath(Content):
    def __init__(self, acc, path):
        self.acc, self.path = acc, tuple(path)


def bag_segs(v):
    return list(v.items) if isinstance(v, ListC) else list(v.segs)


def guarded(s, c):
    if isinstance(s, Iter):
        def mk(bs):
            g, e = s.mk(bs)
            return And(c, g), e
        return Iter(s.sorts, mk, s.seq, s.distinct)
    return Iter([], lambda bs: (c, s))


def so(a, b):
    return b if a is None else a


def uniq(bs):
    out = []
    for b in bs:
        if not any(b.eq(o) for o in out):
            out.append(b)
    return out


def mentions_any(f, bs):
    return bool(bs) and mentions(f, bs)


def tonan(v):
    return v if isinstance(v, NanNum) else NanNum(z3.BoolVal(False), real(v))


def is_zero(t):
    if z3.is_int_value(t):
        return t.as_long() == 0
    if z3.is_rational_value(t):
        return t.numerator_as_long() == 0
    return False


def is_literal(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t)


_size = {}


def size(t):
    n, todo, seen = 0, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return n


def has_free_var(t, depth=0):
    if z3.is_var(t):
        return z3.get_var_index(t) >= depth
    if z3.is_quantifier(t):
        return has_free_var(t.body(), depth + t.num_vars())
    return any(has_free_var(c, depth) for c in t.children())
