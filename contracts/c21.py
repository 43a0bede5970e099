from .c20 import *

CHAIN = "contract of MarkovChain (C11): iterating a chain of n >= 1 steps gives exactly n plans, the first of them the initial state"


def tqdm(E, it, *a, **kw):
    """assumed contract of tqdm: iterates over its first argument"""
    return it


MODELS["tqdm.tqdm"] = tqdm
MODELS["tqdm.auto.tqdm"] = tqdm


class Run:
    """ghost state of an optimizer run: the plans yielded so far (Y) and their number"""

    def __init__(self, E, mx):
        self.E, self.mx = E, mx
        self.score = z3.Function("score", A, R)
        self.i0 = z3.Const("initial", A)
        step = z3.Int("step")
        self.init = self.plan(self.i0, {"updaters": E.alloc(RecC({"step": PyFn(lambda E, p: step)}))})
        self.prop, self.cons = Opaque("proposal"), Opaque("constraints")
        self.o = call(E, OPT, self.prop, self.cons, self.init, PyFn(lambda E, p: self.score(E.force(p).eqkey)), maximize=mx)
        if E.branch(z3.Bool("the optimizer ran before")):
            # whatever an earlier run left behind
            old = z3.Const("best_of_the_earlier_run", A)
            E.setattr(self.o, "_best_part", self.plan(old))
            E.setattr(self.o, "_best_score", self.score(old))
        self.Y = lambda x: z3.BoolVal(False)
        self.cnt = z3.IntVal(0)
        self.chains = 0
        E.contracts["gerrychain.chain:MarkovChain"] = self.chain
        E.trusted.add(CHAIN)
        E.trusted.add("the score is a function of the plan; scores are real numbers")

    def plan(self, key, extra=None):
        return Opaque("plan", tags=("closed", "Partition"), eqkey=key, attrs=dict(extra or {}))

    def chain(self, E, proposal, constraints, accept, initial_state, total_steps):
        k = E.force(initial_state)
        if not isinstance(k, Opaque) or k.eqkey is None:
            raise Unsupported("initial state of a chain")
        n = num(total_steps)
        E.ensure("precondition of the chain: at least one step", n >= 1)
        self.start, self.length, self.base = k.eqkey, n, self.cnt
        self.chains += 1
        c = z3.Function(E.tag("chain"), I, A)
        E.assume(c(0) == k.eqkey)
        self.at_chain(E)
        return E.alloc(SeqC(n, lambda i: self.plan(c(num(i)))))

    def at_chain(self, E):
        pass

    def on_yield(self, v):
        v = self.E.force(v)
        if not isinstance(v, Opaque) or v.eqkey is None:
            raise Unsupported("a yielded value that is not a plan")
        old, k = self.Y, v.eqkey
        self.Y = lambda x: Or(old(x), x == k)
        self.cnt = self.cnt + 1

    # best so far
    def best(self, E):
        b = E.force(E.getattr(self.o, "best_part"))
        s = E.getattr(self.o, "best_score")
        return b, s

    def facts(self, E):
        b, s = self.best(E)
        if not isinstance(b, Opaque) or b.eqkey is None:
            return [("the best plan is a plan", z3.BoolVal(False))]
        x = E.bvars([A], "x")[0]
        s = real(num(s))
        seen = lambda x: Or(self.Y(x), x == self.i0)
        return [("the best plan is the initial plan or one of those yielded", seen(b.eqkey)),
                ("the best score is the score of the best plan", s == self.score(b.eqkey)),
                ("no plan yielded is better", ForAll([x], Implies(seen(x), self.score(x) <= s if self.mx else self.score(x) >= s)))]

    def havoc(self, E, fr):
        self.Y = E.fresh_fun("yielded", A, B)
        self.cnt = E.fresh("count", I)
        E.setattr(self.o, "_best_part", self.plan(E.fresh("best", A)))
        E.setattr(self.o, "_best_score", E.fresh("best_score", R))
        fr.on_yield = self.on_yield


def first(E, k, done):
    """done is exactly {0, ..., k-1}"""
    j = E.bvars([I], "j")[0]
    f = lambda j: zbool(done(j)) == And(0 <= j, j < k)
    return And(k >= 0, ForAll([j], f(j)), f(k), f(k - 1), f(z3.IntVal(0)))


class Burst:
    """one chain: every plan of it is yielded, in order"""

    def __init__(self, run, extra=None):
        self.run, self.extra = run, extra

    def inv(self, E, fr, done):
        r = self.run
        return r.facts(E) + [("one plan is yielded per step of the chain", first(E, r.cnt - r.base, done))] + (self.extra(E, fr) if self.extra else [])

    def havoc(self, E, fr, done):
        self.run.havoc(E, fr)
        if self.extra:
            E.setvar("i", E.fresh("i", I), fr)
            E.setvar("time_stuck", E.fresh("time_stuck", I), fr)
        self.before = self.run.cnt

    keeps = ("i", "time_stuck")

    def after(self, E, fr):
        E.ensure("each step of the chain yields one plan", self.run.cnt == self.before + 1)


class Bursts:
    def __init__(self, run, L):
        self.run, self.L = run, L

    def inv(self, E, fr, done):
        r = self.run
        return r.facts(E) + [("bursts are counted", first(E, self.k, done)), ("as many plans as bursts times their length", r.cnt == self.L * self.k)]

    k = z3.IntVal(0)

    def havoc(self, E, fr, done):
        self.run.havoc(E, fr)
        self.k = E.fresh("bursts", I)

    def after(self, E, fr):
        self.k = self.k + 1


class While:
    keeps = ("i", "time_stuck", "burst_length")

    def __init__(self, run, n):
        self.run, self.n = run, n

    def inv(self, E, fr):
        r = self.run
        return r.facts(E) + [("i counts the plans yielded", And(num(E.getvar("i", fr)) == r.cnt, r.cnt <= self.n)), ("bursts are not empty", num(E.getvar("burst_length", fr)) >= 1)]

    def havoc(self, E, fr):
        self.run.havoc(E, fr)
        for v in self.keeps:
            E.setvar(v, E.fresh(v, I), fr)


def done(E, r, n):
    for name, f in r.facts(E):
        E.ensure("after the run: " + name, f)
    E.ensure("the requested number of plans is yielded", r.cnt == n)


def bursts(kind, mx):
    def spec(E):
        r = Run(E, mx)
        L, n = z3.Ints("burst_length num_bursts")
        E.assume(And(L >= 1, n >= 0))

        def started(E):
            b, s = r.best(E)
            E.ensure("each burst starts from the best plan so far", b.eqkey == r.start if isinstance(b, Opaque) and b.eqkey is not None else False)
            E.ensure("each burst has the given length", r.length == L)
        r.at_chain = started
        q = OPT + ".short_bursts"
        E.invariants[(q, 1)] = Bursts(r, L)
        E.invariants[(q, 2)] = Burst(r)
        if kind == "short":
            E.call(E.getattr(r.o, "short_bursts"), [L, n], {"accept": Opaque("accept")})
        else:
            E.call(E.getattr(r.o, "tilted_short_bursts"), [L, n, z3.Real("p")], {})
        done(E, r, L * n)
    return spec


def variable(mx):
    def spec(E):
        r = Run(E, mx)
        n, buf = z3.Ints("num_steps stuck_buffer")
        E.assume(n >= 1)

        def started(E):
            b, s = r.best(E)
            E.ensure("each burst starts from the best plan so far", b.eqkey == r.start if isinstance(b, Opaque) and b.eqkey is not None else False)
        r.at_chain = started
        q = OPT + ".variable_length_short_bursts"
        E.invariants[(q, 1)] = While(r, n)
        E.invariants[(q, 2)] = Burst(r, lambda E, fr: [("i counts the plans yielded", And(num(E.getvar("i", fr)) == r.cnt, r.cnt < n))])
        E.call(E.getattr(r.o, "variable_length_short_bursts"), [n, buf], {"accept": Opaque("accept")})
        done(E, r, n)
    return spec


def single(name, mx):
    def spec(E):
        r = Run(E, mx)
        n = z3.Int("num_steps")
        E.assume(n >= 1)

        def started(E):
            E.ensure("the run starts from the initial plan", r.start == r.i0)
            E.ensure("the run has the given length", r.length == n)
        r.at_chain = started
        E.invariants[(OPT + "." + name, 0)] = Burst(r)
        args = [n, Opaque("beta"), z3.Real("magnitude")] if name == "simulated_annealing" else [n, z3.Real("p")]
        E.call(E.getattr(r.o, name), args, {"with_progress_bar": z3.Bool("progress")})
        done(E, r, n)
    return spec


def progress(name, args):
    """with a progress bar the same plans are passed on"""
    def spec(E):
        r = Run(E, True)
        n = z3.Int("total")
        f = z3.Function("plan_at", I, A)
        E.assume(n >= 0)
        a = [z3.Int(x) for x in args]
        acc = Opaque("accept")
        q = OPT + "." + name
        calls = []

        def rec(E, slf, x, y, accept=None, with_progress_bar=False):
            calls.append(1)
            E.ensure("the arguments are passed on", And(E.equal(x, a[0]), E.equal(y, a[1]), accept is acc, with_progress_bar is False))
            return E.alloc(SeqC(n, lambda i: r.plan(f(num(i)))))
        E.contracts[q] = rec
        m = E.getattr(r.o, name)
        res = E.apply(m.fn, [r.o] + a, {"accept": acc, "with_progress_bar": True})
        segs = E.segments(res)
        k = z3.Const("k", I)
        if len(segs) != 1 or not isinstance(segs[0], Iter) or segs[0].sorts != [I]:
            raise Unsupported("plans passed on in another shape")
        c, v = segs[0].mk([k])
        E.ensure("exactly the plans of the run are passed on", And(zbool(c) == And(0 <= k, k < n), Implies(zbool(c), E.force(v).eqkey == f(k)), len(calls) == 1))
    return spec


SPECS = []
for _mx in (True, False):
    _m = "maximize" if _mx else "minimize"
    SPECS += [("short_bursts (%s)" % _m, bursts("short", _mx)), ("variable_length_short_bursts (%s)" % _m, variable(_mx)),
              ("simulated_annealing (%s)" % _m, single("simulated_annealing", _mx)), ("tilted_run (%s)" % _m, single("tilted_run", _mx))]
SPECS += [("tilted_short_bursts", bursts("tilted", True)), ("short_bursts with a progress bar", progress("short_bursts", ["burst_length", "num_bursts"])),
          ("variable_length_short_bursts with a progress bar", progress("variable_length_short_bursts", ["num_steps", "stuck_buffer"]))]
META = {}
