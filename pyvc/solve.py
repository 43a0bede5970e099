"""discharging obligations: z3 (E-matching, then MBQI), sum tactics, cvc5"""
import os, subprocess, tempfile, time
import z3
from fractions import Fraction
from .core import *
from . import core

CVC5 = "cvc5"
TRACE = os.environ.get("PYVC_TRACE")


def closed_sum_apps(E, exprs):
    """ground applications of sum symbols"""
    out, seen = [], set()
    todo = list(exprs)
    while todo:
        t = todo.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().name() in E.sums and not core.has_free_var(t):
                out.append(t)
            todo += t.children()
    return out


def inst(E, app, bs):
    """guard, term of a sum application for binders bs"""
    d = E.sums[app.decl().name()]
    sub = list(zip(d.params, app.children())) + list(zip(d.binders, bs))
    return z3.substitute(d.guard, *sub), z3.substitute(d.term, *sub)


def unfold_inner(E, exprs):
    return exprs


def intro(E, hyps, goal):
    """strip quantifiers and implications of the goal; split conjunctions"""
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.Const("sk!%d" % E.uid(), goal.var_sort(n)) for n in range(goal.num_vars())]
        return intro(E, hyps, z3.substitute_vars(goal.body(), *reversed(cs)))
    if z3.is_and(goal):
        return [g for c in goal.children() for g in intro(E, hyps, c)]
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        return intro(E, hyps + [goal.arg(0)], goal.arg(1))
    if z3.is_or(goal):
        # move negated/simple disjuncts to the hypotheses, keep the most complex one
        cs = list(goal.children())
        keep = None
        for c in cs:
            if z3.is_quantifier(c) and c.is_forall() or z3.is_and(c) or (z3.is_eq(c) and has_sum(E, c)):
                keep = c
        if keep is None and cs:
            keep = cs[-1]
        rest = [Not(c) for c in cs if not c.eq(keep)]
        return intro(E, hyps + rest, keep)
    if z3.is_not(goal):
        g = goal.arg(0)
        if z3.is_or(g):
            return intro(E, hyps, And(*[Not(c) for c in g.children()]))
        if z3.is_quantifier(g) and not g.is_forall():
            cs = [z3.Const("sk!%d" % E.uid(), g.var_sort(n)) for n in range(g.num_vars())]
            return intro(E, hyps, Not(z3.substitute_vars(g.body(), *reversed(cs))))
        if z3.is_not(g):
            return intro(E, hyps, g.arg(0))
        if z3.is_and(g):
            return [(hyps + [x for x in g.children()[:-1]], Not(g.children()[-1]))]
    if z3.is_eq(goal) and goal.arg(0).sort() == B:
        a, b = goal.children()
        if z3.is_true(a) or z3.is_true(b):
            return intro(E, hyps, b if z3.is_true(a) else a)
        return intro(E, hyps + [a], b) + intro(E, hyps + [b], a)
    return [(hyps, goal)]


def has_sum(E, t):
    return bool(closed_sum_apps(E, [t]))


def any_sum(E, t):
    """a sum occurs in t, under quantifiers too"""
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().name() in E.sums:
                return True
            todo += t.children()
    return False


def linear(E, t, c=1, out=None):
    """decompose arithmetic term into [(coef, atom)]"""
    if out is None:
        out = []
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for x in t.children():
                linear(E, x, c, out)
            return out
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            linear(E, cs[0], c, out)
            for x in cs[1:]:
                linear(E, x, -c, out)
            return out
        if k == z3.Z3_OP_UMINUS:
            return linear(E, t.arg(0), -c, out)
        if k == z3.Z3_OP_TO_REAL:
            sub = linear(E, t.arg(0), c, [])
            out += [(cc, z3.ToReal(x) if x.sort() == I else x) for cc, x in sub]
            return out
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            a, b = t.children()
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(x) or z3.is_rational_value(x):
                    v = x.as_fraction() if z3.is_rational_value(x) else x.as_long()
                    return linear(E, y, c * v, out)
    out.append((c, t))
    return out


def strip_real(t):
    return t.arg(0) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL else t


def ground_terms(exprs, sort, limit=12):
    out, seen, todo = [], set(), list(exprs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.sort() == sort and not core.has_free_var(t) and size(t) <= 6:
                out.append(t)
            todo += t.children()
    out.sort(key=size)
    return out[:limit]


class Solver:
    def __init__(self, E, z3_ms=8000, cvc5_s=15, budget=400):
        self.E, self.z3_ms, self.cvc5_s = E, z3_ms, cvc5_s
        self.time = 0.0
        self.by = {}
        self.patience = 1
        self.t_end = time.time() + budget

    # -- back ends
    def z3(self, fs, ms, mbqi):
        s = z3.Solver()
        ms = ms * self.patience
        s.set("timeout", int(ms * 5))  # the resource limit decides, so that the outcome does not depend on the load
        s.set("rlimit", int(ms * core.RL))
        s.set("mbqi", bool(mbqi))
        s.set("random_seed", 7)
        s.add(*fs)
        t = time.time()
        r = str(s.check())
        self.time += time.time() - t
        if TRACE:
            import traceback
            print("      z3 %s %.1fs (%d ms)  %s" % (r, time.time() - t, ms, [(f.name, f.lineno) for f in traceback.extract_stack()[-4:-1]]))
        return r, s

    def cvc5(self, fs, sec):
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        if "(set-logic" not in txt:
            txt = "(set-logic ALL)\n" + txt
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        t = time.time()
        try:
            p = subprocess.run([CVC5, "--tlimit=%d" % int(sec * 2000), "--full-saturate-quant", f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=2 * sec + 5)
            r = p.stdout.decode(errors="replace").strip().split("\n")[-1]
        except subprocess.TimeoutExpired:
            r = "unknown"
        finally:
            os.unlink(f.name)
        self.time += time.time() - t
        return r

    def lemmas(self, exprs):
        """extensionality, sign and zero lemmas for the ground sums that occur"""
        E = self.E
        apps = closed_sum_apps(E, exprs)
        out = []
        for n, a in enumerate(apps[:14]):
            d = E.sums[a.decl().name()]
            bs = [z3.Const("lb!%d" % E.uid(), x.sort()) for x in d.binders]
            g, t = inst(E, a, bs)
            z = z3.IntVal(0) if t.sort() == I else z3.RealVal(0)
            if not core.is_literal(t):
                out.append(Implies(ForAll(bs, Implies(g, t >= z)), a >= z))
                out.append(Implies(ForAll(bs, Implies(g, t == z)), a == z))
                out.append(Implies(And(ForAll(bs, Implies(g, t >= z)), Exists(bs, And(g, t > z))), a > z))
            fa = self.flatten(1, a) if z3.is_app(t) and t.decl().name() in E.sums or z3.is_int_value(t) else []
            if len(fa) == 1 and fa[0][0] == 1 and z3.is_int_value(fa[0][3]) and fa[0][3].as_long() == 1 and len(fa[0][1]) >= 2:
                _, ba, ga, _ = fa[0]
                for b in apps:
                    fb = [] if b.eq(a) else self.flatten(1, b)
                    if len(fb) == 1 and fb[0][0] == 1 and len(fb[0][1]) == len(ba) - 1 and z3.is_int_value(fb[0][3]) and fb[0][3].as_long() == 1:
                        _, bb, gb, _ = fb[0]
                        for i in range(len(ba)):
                            rest = ba[:i] + ba[i + 1:]
                            if [x.sort() for x in rest] != [x.sort() for x in bb]:
                                continue
                            gbr = z3.substitute(gb, *zip(bb, rest))
                            o2 = z3.Const("lb!%d" % E.uid(), ba[i].sort())
                            proj = ForAll(rest, gbr == Exists([ba[i]], ga))
                            fun = ForAll(ba + [o2], Implies(And(ga, z3.substitute(ga, (ba[i], o2))), ba[i] == o2))
                            # |projection| <= |relation|, equal exactly when the relation is functional
                            out.append(Implies(proj, And(a >= b, (a == b) == fun)))
            for b in apps[:n]:
                d2 = E.sums[b.decl().name()]
                if [x.sort() for x in d2.binders] != [x.sort() for x in d.binders] or b.sort() != a.sort():
                    continue
                g2, t2 = inst(E, b, bs)
                same = ForAll(bs, And(g == g2, Implies(g, t == t2))) if not t.eq(t2) else ForAll(bs, g == g2)
                out.append(Implies(same, a == b))
                if core.is_literal(t) and t.eq(t2):
                    out.append(Implies(ForAll(bs, Implies(g, g2)), a <= b))
                    out.append(Implies(ForAll(bs, Implies(g2, g)), b <= a))
                    out.append(Implies(And(ForAll(bs, Implies(g, g2)), Exists(bs, And(g2, Not(g)))), a < b))
                    out.append(Implies(And(ForAll(bs, Implies(g2, g)), Exists(bs, And(g, Not(g2)))), b < a))
        return out

    def quick(self, fs, extra=(), ms=None):
        fs = list(fs) + list(extra)
        fs = fs + self.E.sum_axioms(fs)
        r, s = self.z3(fs, ms or self.z3_ms, False)
        return r == "unsat"

    def prove(self, hyps, goal):
        """(ok, backend, detail)"""
        parts = intro(self.E, list(hyps), goal)
        used = set()
        for h, g in parts:
            ok, be, det = self.prove1(h, g)
            if not ok:
                return False, be, det
            used.add(be)
        return True, "+".join(sorted(used)) or "trivial", ""

    def prove1(self, hyps, goal):
        E = self.E
        gs = z3.simplify(goal)
        if z3.is_true(gs):
            return True, "z3", ""
        fs = list(hyps) + [Not(goal)]
        ax = E.sum_axioms(fs)
        apps = closed_sum_apps(E, fs)
        r, s = self.z3(fs + ax, 1500 if apps else self.z3_ms // 2, False)
        if r == "unsat":
            return True, "z3", ""
        if apps:
            arith = z3.is_eq(goal) and goal.arg(0).sort() in (I, R)
            if arith:
                if self.linear_sum(hyps, goal, ms=1000):
                    return True, "z3(sum)", ""
                h2 = self.subst_goal(hyps, goal)
                if h2 is not None and self.linear_sum(hyps, h2, ms=1000):
                    return True, "z3(sum)", ""
            lem = self.equate(hyps, apps) + self.lemmas(fs) + self.cancel(hyps, goal)
            fs2 = fs + lem
            ax2 = E.sum_axioms(fs2)
            for sec in (2, 8):
                r, s = self.z3(fs2 + ax2, sec * 1000, False)
                if r == "unsat":
                    return True, "z3(sum)", ""
                if sec == 2 and self.cvc5(fs2 + ax2, 3) == "unsat":
                    return True, "cvc5(sum)", ""
            if arith and self.linear_sum(hyps, goal):
                return True, "z3(sum)", ""
            fs, ax = fs2, ax2
        if time.time() > self.t_end:
            return False, "budget", "time budget exhausted"
        r2, s2 = self.z3(fs + ax, self.z3_ms, True)
        if r2 == "unsat":
            return True, "z3", ""
        model = ""
        if r2 == "sat":
            try:
                model = str(s2.model())[:3000]
            except z3.Z3Exception:
                pass
        if r2 != "sat":
            r3 = self.cvc5(fs + ax, self.cvc5_s)
            if r3 == "unsat":
                return True, "cvc5", ""
            r2 = r2 + "/cvc5:" + r3
        return False, "z3:" + r2, "goal: %s\nmodel: %s" % (str(z3.simplify(goal))[:1500], model)

    def equate(self, hyps, apps, limit=10):
        """equalities between ground sums with pointwise equal summands"""
        E = self.E
        out = []
        for n, a in enumerate(apps):
            d = E.sums[a.decl().name()]
            for b in apps[:n]:
                d2 = E.sums[b.decl().name()]
                if [x.sort() for x in d2.binders] != [x.sort() for x in d.binders] or b.sort() != a.sort() or limit <= 0:
                    continue
                limit -= 1
                bs = [z3.Const("eq!%d" % E.uid(), x.sort()) for x in d.binders]
                g, t = inst(E, a, bs)
                g2, t2 = inst(E, b, bs)
                if self.quick(list(hyps) + [Not(And(g == g2, Implies(g, t == t2)))], ms=400):
                    out.append(a == b)
        return out

    def cancel(self, hyps, goal):
        """the sums of an inequality that cancel out point by point"""
        E = self.E
        if not z3.is_app(goal) or goal.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return []
        l, r = goal.children()
        ts = [(c, strip_real(t)) for c, t in linear(E, l) + linear(E, r, -1)]
        ts = [(c, t) for c, t in ts if z3.is_app(t) and t.decl().name() in E.sums]
        if len(ts) < 3:
            return []
        eq = z3.Sum([real(t) * z3.Q(Fraction(c).numerator, Fraction(c).denominator) for c, t in ts]) == z3.RealVal(0)
        return [eq] if self.linear_sum(hyps, eq, ms=2000) else []

    def subst_goal(self, hyps, goal):
        """rewrite ground subterms of the goal by equations among the hypotheses"""
        eqs = []
        for h in hyps:
            for c in conjuncts(h):
                if z3.is_eq(c) and not core.has_free_var(c):
                    a, b = c.children()
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not mentions(b, [a]):
                        eqs.append((a, b))
        if not eqs:
            return None
        g = goal
        for _ in range(3):
            g = z3.substitute(g, *eqs)
        return None if g.eq(goal) else g

    def linear_sum(self, hyps, goal, depth=0, ms=None):
        E = self.E
        ms = ms or self.z3_ms
        l, r = goal.children()
        terms = linear(E, l) + linear(E, r, -1)
        terms = [(c, strip_real(t)) for c, t in terms]
        # split on top-level conditionals
        for n, (c, t) in enumerate(terms):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and depth < 5:
                cond = t.arg(0)
                res = True
                for cc, br in ((cond, t.arg(1)), (Not(cond), t.arg(2))):
                    g2 = z3.substitute(goal, (t, br))
                    h2 = list(hyps) + [cc]
                    if self.quick(h2, ms=500):
                        continue
                    if not (self.quick(h2 + [Not(g2)], ms=500) or self.linear_sum(h2, g2, depth + 1, ms) or ms > 1000 and self.quick(h2 + [Not(g2)])):
                        res = False
                        break
                return res
        if depth < 7:
            g2 = self.unfold(hyps, [t for _, t in terms], goal)
            if g2 is not None:
                return self.linear_sum(hyps, g2, depth + 2, ms)
        flat = []
        for c, t in terms:
            flat += self.flatten(c, t)
        flat = [q for q in flat if not core.is_zero(z3.simplify(q[3]))]
        sums = [(c, bs, g, t) for c, bs, g, t in flat if bs]
        rest = [(c, bs, g, t) for c, bs, g, t in flat if not bs]
        if not sums:
            return False
        sig = [[b.sort() for b in bs] for _, bs, _, _ in sums]
        if any(s != sig[0] for s in sig):
            groups = {}
            for q, s in zip(sums, sig):
                groups.setdefault(tuple(str(x) for x in s), []).append(q)
            if rest:
                return False
            return all(self.point_zero(hyps, q, ms) for q in groups.values())
        xs = [z3.Const("pt!%d" % E.uid(), s) for s in sig[0]]

        def point(anchor):
            tot = z3.RealVal(0)
            for c, bs, g, t in sums:
                sub = list(zip(bs, xs))
                v = real(z3.substitute(t, *sub))
                tot = tot + z3.If(z3.substitute(g, *sub), v * z3.Q(c.numerator, c.denominator), z3.RealVal(0))
            for c, _, g, t in rest:
                v = real(t)
                at = And(*[x == a for x, a in zip(xs, anchor)]) if anchor is not None else True
                tot = tot + z3.If(And(g, at), v * z3.Q(c.numerator, c.denominator), z3.RealVal(0))
            return tot == 0
        sums = [(Fraction(c), bs, g, t) for c, bs, g, t in sums]
        rest = [(Fraction(c), bs, g, t) for c, bs, g, t in rest if not core.is_zero(z3.simplify(t))]
        anchors = [None]
        if rest:
            import itertools
            flat = [h for h in hyps if not z3.is_quantifier(h)]
            cand = []
            for s in sig[0]:
                c = ground_terms([goal], s)
                ids = {t.get_id() for t in c}
                g0 = list(c)
                c += [t for t in ground_terms(flat, s, 40) if t.get_id() not in ids and not is_literal(t)][:12]
                c += [f(t) for f in self.unary(hyps, s) for t in g0[:4]][:8]
                cand.append(c)
            anchors = sorted(itertools.islice(itertools.product(*cand), 400), key=lambda a: 0)[:40]
        end = time.time() + 16 * ms * self.patience / 1000
        for an in anchors:
            if self.quick(list(hyps) + [Not(point(an))], ms=ms if an is None else ms // 4):
                return True
            if time.time() > end:
                break
        return False

    def unary(self, hyps, s):
        """functions s -> s among the hypotheses"""
        out, seen, todo = {}, set(), list(hyps)
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                todo.append(t.body())
            elif z3.is_app(t):
                d = t.decl()
                if d.arity() == 1 and d.kind() == z3.Z3_OP_UNINTERPRETED and d.range() == s and d.domain(0) == s:
                    out[d.name()] = d
                todo += t.children()
        return list(out.values())

    def unfold(self, hyps, terms, goal):
        """replace f(t) by its definition when a hypothesis says ForAll x. guard -> f(x) == sum"""
        E = self.E
        todo = {}
        for t in terms:
            if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() not in E.sums:
                todo[t.get_id()] = t
        for h in hyps if todo else []:
            for c in conjuncts(h):
                if z3.is_eq(c) and not any_sum(E, c):  # already known in simpler terms
                    for l in c.children():
                        todo.pop(strip_real(l).get_id(), None)
        if not todo:
            return None
        sub = []
        for h in hyps:
            for c in conjuncts(h):
                q = z3.is_quantifier(c) and c.is_forall()
                if z3.is_quantifier(c) and not q or not any_sum(E, c):
                    continue
                nv = c.num_vars() if q else 0
                b, guards = c.body() if q else c, []
                while z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_IMPLIES, z3.Z3_OP_OR):
                    if b.decl().kind() == z3.Z3_OP_IMPLIES:
                        guards.append(b.arg(0))
                        b = b.arg(1)
                        continue
                    eqs = [x for x in b.children() if any_sum(E, x)]
                    if len(eqs) != 1:
                        break
                    guards += [Not(x) for x in b.children() if not x.eq(eqs[0])]
                    b = eqs[0]
                if not z3.is_eq(b):
                    continue
                for l, r in (b.children(), b.children()[::-1]):
                    l = strip_real(l)
                    if not (z3.is_app(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and l.num_args() > 0 and l.decl().name() not in E.sums and any_sum(E, r)):
                        continue
                    if not q:
                        t = todo.get(l.get_id())
                        if t is not None and not mentions(r, [t]) and self.quick(list(hyps) + [Not(And(*guards))], ms=600):
                            sub.append((t, r))
                            del todo[l.get_id()]
                        continue
                    if l.num_args() != nv or not all(z3.is_var(a) for a in l.children()):
                        continue
                    idx = [z3.get_var_index(a) for a in l.children()]
                    if len(set(idx)) != len(idx):
                        continue
                    for k, t in list(todo.items()):
                        if not t.decl().eq(l.decl()):
                            continue
                        vs = [None] * nv
                        for a, i in zip(t.children(), idx):
                            vs[i] = a
                        gs = [z3.substitute_vars(g, *vs) for g in guards]
                        if self.quick(list(hyps) + [Not(And(*gs))], ms=600):
                            sub.append((t, z3.substitute_vars(r, *vs)))
                            del todo[k]
        if not sub:
            return None
        return z3.substitute(goal, *sub)

    def point_zero(self, hyps, sums, ms=None):
        E = self.E
        xs = [z3.Const("pt!%d" % E.uid(), b.sort()) for b in sums[0][1]]
        tot = z3.RealVal(0)
        for c, bs, g, t in sums:
            c = Fraction(c)
            sub = list(zip(bs, xs))
            tot = tot + z3.If(z3.substitute(g, *sub), real(z3.substitute(t, *sub)) * z3.Q(c.numerator, c.denominator), z3.RealVal(0))
        return self.quick(list(hyps) + [Not(tot == 0)], ms=ms)

    def flatten(self, c, t, depth=0):
        """coefficient * t  ->  [(coef, binders, guard, term)] with nested sums flattened"""
        E = self.E
        t = strip_real(t)
        if z3.is_app(t) and t.decl().name() in E.sums:
            d = E.sums[t.decl().name()]
            bs = [z3.Const("fb!%d" % E.uid(), x.sort()) for x in d.binders]
            g, tm = inst(E, t, bs)
            out = []
            for c2, t2 in linear(E, tm):
                t2 = strip_real(t2)
                if z3.is_app(t2) and t2.decl().name() in E.sums and depth < 3:
                    for c3, bs3, g3, t3 in self.flatten(c * c2, t2, depth + 1):
                        out.append((c3, bs + bs3, And(g, g3), t3))
                elif core.is_literal(t2) or True:
                    out.append((c * c2, bs, g, t2))
            return out
        return [(c, [], z3.BoolVal(True), t)]

    def consistent(self, hyps):
        """False only when the hypotheses are refuted"""
        fs = list(hyps) + self.E.sum_axioms(hyps)
        r, _ = self.z3(fs, 2000, False)
        return r != "unsat"
