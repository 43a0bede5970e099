from .core import *

RULE = "scripted proposals/constraints/acceptance with random accept-reject patterns (and real flip chains); every call is logged and the yielded sequence is checked against the log; distinct by script"


class State:
    def __init__(self, tag, parent=None):
        self.tag = tag
        self.parent = parent
        self.flips = None
        self.updaters = {}

    def __repr__(self):
        return "S%s" % (self.tag,)


def scripted(ctx):
    from gerrychain import MarkovChain
    from gerrychain.constraints import Validator
    import numpy

    rng = ctx.rng
    init = State(0)
    log = []
    made = {}
    cnt = [0]
    npc = rng.randint(1, 3)
    verdict = {}
    pv = rng.choice([0.3, 0.7, 1.0])
    pa = rng.choice([0.0, 0.3, 0.7, 1.0])
    samep = rng.choice([0, 0, 0.3])
    script = random.Random(rng.random())

    def proposal(s):
        cnt[0] += 1
        if script.random() < samep:
            t = s
        else:
            t = State(cnt[0], s)
        made[id(t)] = t
        log.append(("propose", s, t))
        return t

    def mk(i):
        def c(s):
            if s is init and i in init_bad:
                return False
            key = (id(s), i)
            if key not in verdict:
                verdict[key] = True if s is init else script.random() < pv ** (1 / npc)
            v = verdict[key]
            log.append(("check", i, s, v))
            return numpy.bool_(v) if i == 1 else v
        c.__name__ = "c%d" % i
        return c

    init_bad = set()

    def accept(s):
        v = script.random() < pa
        log.append(("accept", s, v))
        return v

    cs = [mk(i) for i in range(npc)]
    form = rng.choice(["list", "validator", "callable"])
    con = {"list": cs, "validator": Validator(cs), "callable": (lambda s: all(bool(c(s)) for c in cs))}[form]
    total = rng.choice([1, 2, 3, 5, 10])
    chain = MarkovChain(proposal, con, accept, init, total)
    require(len(chain) == total, "len(chain)")
    for run in range(rng.randint(1, 3)):
        del log[:]
        out = []
        partial = rng.random() < 0.3
        it = iter(chain)
        while True:
            try:
                out.append(next(it))
            except StopIteration:
                break
            require(len(out) <= total, "more states than total_steps", total=total, got=len(out))
            if partial and len(out) == max(1, total // 2):
                break
        if not partial:
            require(len(out) == total, "number of states", total=total, got=len(out), log=log)
            try:
                next(it)
                raise Violation("iteration continues after total_steps")
            except StopIteration:
                pass
        require(out[0] is init, "first state is the initial state")
        # replay the log
        cur = init
        seq = [init]
        i = 0
        L = [x for x in log]
        while i < len(L):
            require(L[i][0] == "propose", "call order", log=L[: i + 1])
            require(L[i][1] is cur, "proposal made from a state that is not the current one", log=L[: i + 1])
            t = L[i][2]
            i += 1
            ok = True
            checked = set()
            while i < len(L) and L[i][0] == "check":
                require(L[i][2] is t, "constraint called on another state", log=L[: i + 1])
                checked.add(L[i][1])
                ok = ok and L[i][3]
                i += 1
            if ok:
                require(checked == set(range(npc)), "constraint skipped", log=L[:i])
            accs = []
            while i < len(L) and L[i][0] == "accept":
                accs.append(L[i])
                i += 1
            if not ok:
                require(not accs, "acceptance asked for an invalid proposal", log=L[:i])
                continue
            require(len(accs) == 1 and accs[0][1] is t, "acceptance rule not asked once for the proposal", log=L[:i])
            if accs[0][2]:
                cur = t
            seq.append(cur)
        require(len(seq) == len(out) and all(x is y for x, y in zip(seq, out)), "yielded states do not match valid accepted proposals",
                want=seq, got=out, log=L)
        ctx.count += len(out)
        ctx.note(form, total, [(x[0], getattr(x[-1], "tag", x[-1])) for x in L])
    # invalid initial state
    init_bad.add(rng.randrange(npc))
    try:
        MarkovChain(proposal, con, accept, init, total)
    except ValueError:
        pass
    else:
        raise Violation("invalid initial state accepted", form=form)
    init_bad.clear()


def setter(ctx):
    from gerrychain import MarkovChain

    rng = ctx.rng
    init = State(0)
    n = [0]

    def proposal(s):
        n[0] += 1
        return State(n[0], s)

    calls = []

    def c1(s):
        calls.append(("c1", s.tag))
        return s.tag % 2 == 0

    def c2(s):
        calls.append(("c2", s.tag))
        return s.tag % 3 == 0

    def bad(s):
        return s.tag != 0

    steps = rng.randint(1, 6)
    ch = MarkovChain(proposal, [c1], lambda s: True, init, steps)
    try:
        ch.constraints = rng.choice([[bad], bad, [c1, bad]])
    except ValueError:
        pass
    else:
        raise Violation("constraints violated by the initial state were installed")
    require([s.tag % 2 for s in ch] == [0] * steps, "old constraints lost after a refused replacement")
    new = rng.choice([[c2], c2, [c1, c2]])
    ch.constraints = new
    out = [s.tag for s in ch]
    require(len(out) == steps and all(t % 3 == 0 for t in out), "replaced constraints not used", out=out)
    if isinstance(new, list) and len(new) == 2:
        require(all(t % 6 == 0 for t in out), "replaced constraints not used", out=out)
    require(callable(ch.constraints) and ch.constraints(State(6)) is True and ch.constraints(State(7)) is False, "constraints getter")
    ctx.note(steps, repr(type(new)), len(new) if isinstance(new, list) else 1)


def real(ctx):
    from gerrychain import MarkovChain, Partition
    from gerrychain.constraints import contiguous, single_flip_contiguous, no_vanishing_districts
    from gerrychain.proposals import propose_random_flip
    from gerrychain.accept import always_accept

    rng = ctx.rng
    g = graph(rng, n=rng.choice([6, 8, 10]))
    a = plan(rng, g, k=2, contiguous=True)
    if len(set(a.values())) < 2:
        return
    p = Partition(g, a)
    # at least one valid flip must exist, otherwise the chain would never move on
    adj = adj_of(g)

    def ok(w):
        return len(set(w.values())) == 2 and all(connected_set(adj, [x for x in w if w[x] == k]) for k in set(a.values()))

    def movable(w):
        return any(ok({**w, x: w[y]}) for x in w for y in adj[x] if w[y] != w[x])

    if not movable(a):
        return
    ch = MarkovChain(propose_random_flip, [no_vanishing_districts, contiguous], always_accept, p, 8)
    prev = None
    for s in ch:
        w = asg_of(s)
        require(ok(w), "invalid state visited", state=w, edges=list(g.edges))
        if prev is not None:
            require(sum(1 for x in w if w[x] != prev[x]) <= 1, "two states are not one proposal apart", a=prev, b=w)
        prev = w
        ctx.count += 1
    ctx.note(sorted(map(repr, g.edges)), a)


SCENARIOS = [("scripted", scripted, 1500), ("setter", setter, 150), ("real", real, 200)]
