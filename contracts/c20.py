from .lib import *

OPT = "gerrychain.optimization.optimization:SingleMetricOptimizer"


def accepts_with(E, what, r, q):
    """the answer r, as a function of the single uniform draw, is true with probability min(1, q), q >= 0"""
    if len(E.draws) > 1:
        raise Unsupported("more than one random draw in an acceptance rule")
    if not E.draws:
        E.ensure(what + " (no draw: the probability is 1)", Implies(r, q >= 1))
        E.ensure(what + " (no draw: the probability is 0)", Implies(Not(r), q <= 0))
    else:
        u = E.draws[0]
        E.ensure(what + ": accepts below the probability", Implies(u < q, r))
        E.ensure(what + ": rejects above the probability", Implies(u > q, Not(r)))


def always(E):
    E.ensure("always_accept is true", truth(E, call(E, "gerrychain.accept:always_accept", plan("p"))))


def cut_accept(E):
    hp = z3.Bool("has_parent")
    c1, c0 = fset(E, "cut_new", core.PAIR), fset(E, "cut_old", core.PAIR)
    x = E.bvars([core.PAIR], "e")[0]
    E.assume(z3.Exists([x], c1.mem(x)))
    par = Opaque("parent", tags=("Partition",), attrs={"getitem": lambda E, k: {"cut_edges": E.alloc(c0)}[k]})
    p = Opaque("p", tags=("Partition",), attrs={"getitem": lambda E, k: {"cut_edges": E.alloc(c1)}[k], "parent": ChoiceV(hp, par, None)})
    r = truth(E, call(E, "gerrychain.accept:cut_edge_accept", p))
    n1, n0 = (z3.ToReal(E.sum([x], c.mem(x), z3.IntVal(1))) for c in (c1, c0))
    accepts_with(E, "min(1, parent cut edges / proposal cut edges), 1 without parent", r, z3.If(hp, n0 / n1, z3.RealVal(1)))


def optimizer(E, mx):
    hp = z3.Bool("has_parent")
    s1, s0 = z3.Reals("score_new score_old")
    step = z3.Int("step")
    E.assume(step >= 0)
    par = Opaque("parent", tags=("Partition",), attrs={"score": s0})
    p = Opaque("p", tags=("Partition",), attrs={"score": s1, "parent": ChoiceV(hp, par, None), "getitem": lambda E, k: step if k == "step" else None})
    init = Opaque("initial", tags=("Partition",), attrs={"updaters": E.alloc(RecC({"step": PyFn(lambda E, p: step)}))})
    o = call(E, OPT, Opaque("proposal"), Opaque("constraints"), init, PyFn(lambda E, p: p.attrs["score"]), maximize=mx)
    return o, p, hp, s0, s1, step


def tilted(E, mx):
    o, p, hp, s0, s1, _ = optimizer(E, mx)
    pr = z3.Real("p")
    E.assume(And(pr >= 0, pr <= 1))
    f = E.call(E.getattr(o, "_tilted_acceptance_function"), [pr], {})
    r = truth(E, E.call(f, [p], {}))
    ok = s1 >= s0 if mx else s1 <= s0
    accepts_with(E, "1 when no worse, else p", r, z3.If(Or(Not(hp), ok), z3.RealVal(1), pr))


def anneal(E, mx):
    o, p, hp, s0, s1, step = optimizer(E, mx)
    mag = z3.Real("magnitude")
    bf = z3.Function("beta", I, R)
    f = E.call(E.getattr(o, "_simulated_annealing_acceptance_function"), [PyFn(lambda E, s: bf(s)), mag], {})
    r = truth(E, E.call(f, [p], {}))
    loss = (s0 - s1) if mx else (s1 - s0)
    from pyvc.methods import EXP, _exp
    q = _exp(E, -(bf(step) * mag * loss))
    if E.draws:
        pass
    accepts_with(E, "min(1, exp(-beta*magnitude*loss))", r, z3.If(hp, q, z3.RealVal(1)))


def improvement(E, mx):
    o, p, hp, s0, s1, _ = optimizer(E, mx)
    r = truth(E, E.call(E.getattr(o, "_is_improvement"), [s1, s0], {}))
    E.ensure("no worse means improvement", r == (s1 >= s0 if mx else s1 <= s0))


def schedule(E, name, ramps, logit):
    """ramps: 0 (jump), 1 (one cooldown), 2 (cooldown and warm-up)"""
    hot, cool, cold = z3.Ints("hot cool cold")
    E.assume(And(hot >= 0, cool >= 0, cold >= 0))
    if ramps == 0:
        cyc = hot + cold
        args = [hot, cold]
    else:
        cyc = hot + (2 * cool if ramps == 2 else cool) + cold
        args = [hot, cool, cold]
    E.assume(cyc >= 1)
    f = E.call(E.getattr(imp(E, OPT), name), args, {})
    s = z3.Int("step")
    E.assume(s >= 0)
    if which(E, "periodic"):
        a, b = real(E.call(f, [s], {})), real(E.call(f, [s + cyc], {}))
        E.ensure("periodic with the cycle length", a == b)
        return
    E.assume(s < cyc)
    v = real(E.call(f, [s], {}))
    E.ensure("0 in the hot phase", Implies(s < hot, v == 0))
    if ramps == 0:
        E.ensure("1 in the cold phase", Implies(s >= hot, v == 1))
        return
    E.ensure("stays in [0,1]", And(v >= 0, v <= 1))
    E.ensure("1 in the cold phase", Implies(And(s >= hot + cool, s < hot + cool + cold), v == 1))
    c = z3.ToReal(cool)
    up = z3.ToReal(s - hot) / c
    down = z3.ToReal(s - (cyc - cool)) / c
    inup, indown = And(s >= hot, s < hot + cool), s >= cyc - cool
    if logit:
        from pyvc.methods import LOG
        clamp = lambda x: z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x))
        lg = lambda x: (LOG(x / (1 - x)) + 5) / 10
        E.ensure("first step of the cooldown is 0", Implies(And(inup, s == hot), v == 0))
        E.ensure("clamped logit in the cooldown", Implies(And(inup, s > hot), v == clamp(lg(up))))
        if ramps == 2:
            E.ensure("first step of the warm-up is 1", Implies(And(indown, s == cyc - cool), v == 1))
            E.ensure("clamped logit in the warm-up", Implies(And(indown, s > cyc - cool), v == clamp(1 - lg(down))))
    else:
        E.ensure("linear in the cooldown", Implies(inup, v == up))
        if ramps == 2:
            E.ensure("linear in the warm-up", Implies(indown, v == 1 - down))


def which(E, name):
    return E.branch(z3.Bool("case!" + name))


def monotone(E, ramps, logit):
    """over the closed forms proved for the schedules: later is larger in the cooldown, smaller in the warm-up"""
    from pyvc.methods import LOG
    E.global_once("log", [])
    a, b = z3.Ints("a b")
    c = z3.Int("c")
    E.assume(And(0 <= a, a < b, b < c))
    x, y = z3.ToReal(a) / z3.ToReal(c), z3.ToReal(b) / z3.ToReal(c)
    E.ensure("linear interpolation increases", And(x < y, x >= 0, y < 1))
    E.ensure("odds increase", Implies(a > 0, And(x / (1 - x) < y / (1 - y), x / (1 - x) > 0)))


def monotone_logit(E):
    from pyvc.methods import LOG, _log
    x, y = z3.Reals("ox oy")
    E.assume(And(0 < x, x < y))
    lx, ly = (_log(E, x) + 5) / 10, (_log(E, y) + 5) / 10
    clamp = lambda x: z3.If(x < 0, z3.RealVal(0), z3.If(x > 1, z3.RealVal(1), x))
    E.ensure("the clamped logit increases with the odds", And(clamp(lx) <= clamp(ly), clamp(1 - lx) >= clamp(1 - ly)))


SPECS = [("always_accept", always), ("cut_edge_accept", cut_accept)]
for m in (True, False):
    t = "maximize" if m else "minimize"
    SPECS += [("_tilted_acceptance_function (%s)" % t, lambda E, m=m: tilted(E, m)), ("_simulated_annealing_acceptance_function (%s)" % t, lambda E, m=m: anneal(E, m)),
              ("_is_improvement (%s)" % t, lambda E, m=m: improvement(E, m))]
SPECS += [("jumpcycle_beta_function", lambda E: schedule(E, "jumpcycle_beta_function", 0, False)),
          ("linearcycle_beta_function", lambda E: schedule(E, "linearcycle_beta_function", 2, False)),
          ("linear_jumpcycle_beta_function", lambda E: schedule(E, "linear_jumpcycle_beta_function", 1, False)),
          ("logitcycle_beta_function", lambda E: schedule(E, "logitcycle_beta_function", 2, True)),
          ("logit_jumpcycle_beta_function", lambda E: schedule(E, "logit_jumpcycle_beta_function", 1, True)),
          ("lemma: monotone interpolation", lambda E: monotone(E, 1, False)), ("lemma: monotone logit", monotone_logit)]
META = {"assumptions": ["random.random() is uniform on [0,1); a rule that makes one draw u and accepts exactly when u < q accepts with probability min(1,q)"]}
