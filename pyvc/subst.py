import copy
import z3
from .core import *


def subst_value(E, v, sub):
    if not sub:
        return v
    sub = list(sub)
    if is_z(v):
        return z3.substitute(v, *sub)
    if isinstance(v, Tup):
        r = Tup([subst_value(E, x, sub) for x in v.items], v.cls)
        if v.eqkey is not None:
            r.eqkey = z3.substitute(v.eqkey, *sub)
        return r
    if isinstance(v, NanNum):
        return NanNum(z3.substitute(zbool(v.nan), *sub), z3.substitute(v.val, *sub))
    if isinstance(v, ChoiceV):
        return ChoiceV(z3.substitute(v.c, *sub), subst_value(E, v.a, sub), subst_value(E, v.b, sub))
    if isinstance(v, SetC):
        r = SetC(v.sort, lambda y: z3.substitute(zbool(v.mem(y)), *sub), v.frozen)
        if getattr(v, "code", None) is not None:
            r.code = z3.substitute(v.code, *sub)
        return r
    if isinstance(v, MapC):
        if v.touched:
            raise Unsupported("substitution in a touched map")
        r = MapC(v.ksort, lambda k: z3.substitute(zbool(v.dom0(k)), *sub), lambda k: subst_value(E, v.get0(k), sub), v.default)
        if v.single is not None:
            r.single = tuple(subst_value(E, x, sub) for x in v.single)
        if v.it is not None:
            r.it = subst_iter(E, v.it, sub)
        return r
    if isinstance(v, RecC):
        return RecC({k: subst_value(E, x, sub) for k, x in v.d.items()}, v.default)
    if isinstance(v, ListC):
        return ListC([subst_value(E, x, sub) for x in v.items])
    if isinstance(v, SeqC):
        return SeqC(z3.substitute(num(v.n), *sub), lambda i: subst_value(E, v.at(i), sub))
    if isinstance(v, BagC):
        segs = []
        for s in v.segs:
            if isinstance(s, Iter):
                segs.append(subst_iter(E, s, sub))
            else:
                segs.append(subst_value(E, s, sub))
        return BagC(segs)
    if isinstance(v, ObjC):
        return ObjC(v.cls, {k: subst_value(E, x, sub) for k, x in v.fields.items()}, v.lazy)
    if isinstance(v, Opaque):
        if hasattr(v, "resubst"):
            return v.resubst(E, sub)
        if is_z(v.eqkey) and sub:
            k = z3.substitute(v.eqkey, *sub)
            if not k.eq(v.eqkey):
                if any(callable(a) for a in v.attrs.values()):
                    raise Unsupported("an opaque element of a loop")
                r = copy.copy(v)
                r.eqkey, r.attrs = k, {n: subst_value(E, a, sub) for n, a in v.attrs.items()}
                return r
        return v
    return v


def subst_iter(E, s, sub):
    def mk(bs):
        g, e = s.mk(bs)
        return z3.substitute(zbool(g), *sub), subst_value(E, e, sub)
    return Iter(s.sorts, mk, s.seq, s.distinct, z3.substitute(s.rng, *sub) if s.rng is not None else None)
