from .core import *

RULE = "1-9 districts with random integer votes (positive totals, totals a power of two for the threshold metrics); definitions evaluated in exact rationals; distinct by vote vectors"


def results(votes1, votes2, order):
    from gerrychain import Partition, Graph
    from gerrychain.updaters import Election

    n = len(votes1)
    g = Graph()
    g.add_nodes_from(range(n))
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    for i in range(n):
        g.nodes[i]["D"], g.nodes[i]["R"] = votes1[i], votes2[i]
    p = Partition(g, {i: order[i] for i in range(n)}, {"E": Election("E", {"Dem": "D", "Rep": "R"}), "F": Election("F", {"Rep": "R", "Dem": "D"})})
    return p["E"], p["F"]


def metrics(ctx):
    from gerrychain import metrics as m
    from gerrychain.metrics import partisan

    rng = ctx.rng
    n = rng.randint(1, 9)
    T = rng.choice([16, 64, 1024])
    equal = rng.random() < 0.7
    v1, v2 = [], []
    for i in range(n):
        t = T if equal else rng.choice([8, 16, 64, 256])
        x = rng.choice([0, t, t // 2, rng.randint(0, t), rng.randint(0, t)])
        v1.append(x)
        v2.append(t - x)
    E, F = results(v1, v2, list(range(n)))
    sh = [Fraction(a, a + b) for a, b in zip(v1, v2)]
    mean = sum(sh) / n
    ss = sorted(sh)
    med = ss[n // 2] if n % 2 else (ss[n // 2 - 1] + ss[n // 2]) / 2
    case = dict(dem=v1, rep=v2)
    chk = lambda nm, got, want: require(close(got, float(want)), nm, got=got, want=float(want), **case)
    chk("mean_median", E.mean_median(), med - mean)
    chk("mean_median fn", m.mean_median(E), med - mean)
    chk("mean_thirdian", E.mean_thirdian(), ss[round(n / 3)] - mean)
    chk("partisan_bias", E.partisan_bias(), Fraction(sum(1 for s in sh if s > mean), n) - Fraction(1, 2))
    num = Fraction(0)
    for a, b in zip(v1, v2):
        t = a + b
        if a > b:
            w1, w2 = a - Fraction(t, 2), Fraction(b)
        else:
            w1, w2 = Fraction(a), b - Fraction(t, 2)
        g1, g2 = m.wasted_votes(a, b)
        require(Fraction(g1) == w1 and Fraction(g2) == w2, "wasted votes", votes=(a, b), got=(g1, g2), want=(w1, w2))
        num += w2 - w1
    eg = num / (sum(v1) + sum(v2))
    chk("efficiency_gap", E.efficiency_gap(), eg)
    chk("efficiency_gap fn", m.efficiency_gap(E), eg)
    overall = Fraction(sum(v1), sum(v1) + sum(v2))
    sv = [overall - r + Fraction(1, 2) for r in sorted(sh, reverse=True)]
    ref = [1 - s for s in reversed(sv)]
    gini = sum(abs(a - b) for a, b in zip(sv, ref)) / n
    chk("partisan_gini", E.partisan_gini(), gini)
    chk("partisan_gini swapped", F.partisan_gini(), gini)
    if all(a != b for a, b in zip(v1, v2)):
        chk("efficiency_gap swapped", F.efficiency_gap(), -eg)
    ctx.note(v1, v2)


SCENARIOS = [("metrics", metrics, 2500)]
