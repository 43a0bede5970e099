from .core import *

RULE = "all dimensions 1..9 x 1..9 with and without diagonals (exhaustive over seeds), default and given assignments, flip histories, caller arguments compared before and after; distinct by (dimensions, diagonals, assignment)"


def grid(ctx):
    from gerrychain.grid import Grid, create_grid_graph
    from gerrychain.grid import color_quadrants

    rng = ctx.rng
    m, n = rng.randint(1, 9), rng.randint(1, 9)
    diag = rng.random() < 0.5
    case = dict(dimensions=(m, n), with_diagonals=diag)
    cells = {(i, j) for i in range(m) for j in range(n)}
    ups = {"mine": lambda p: 42}
    ups0 = dict(ups)
    a = None
    kw = {}
    if rng.random() < 0.5:
        a = {c: rng.choice([0, 1, 2]) for c in cells}
        kw["assignment"] = a
        a0 = dict(a)
    if rng.random() < 0.5:
        kw["updaters"] = ups
    if diag or rng.random() < 0.5:
        kw["with_diagonals"] = diag
    G = Grid((m, n), **kw)
    require(ups == ups0, "caller's updaters modified", got=list(ups), **case)
    if a is not None:
        require(a == a0, "caller's assignment modified", **case)
    g = G.graph
    require(set(g.nodes) == cells, "cells", got=list(g.nodes), **case)
    want = {}
    for (i, j) in cells:
        for d, w in (((1, 0), 1), ((0, 1), 1), ((1, 1), 0), ((1, -1), 0)):
            c = (i + d[0], j + d[1])
            if c in cells and (w or diag):
                want[frozenset(((i, j), c))] = w
    got = {frozenset(e): g.edges[e]["shared_perim"] for e in g.edges}
    require(got == want, "edges and shared lengths", got=got, want=want, **case)
    for (i, j) in cells:
        d = g.nodes[(i, j)]
        sides = (i == 0) + (i == m - 1) + (j == 0) + (j == n - 1)
        require(d["population"] == 1 and d["area"] == 1, "unit area and population", node=(i, j), got=d, **case)
        require(d["boundary_node"] == (sides > 0), "boundary flag", node=(i, j), got=d, **case)
        require(d.get("boundary_perim", 0) == sides, "outer boundary length", node=(i, j), got=d, **case)
    b = asg_of(G)
    wa = a or {(i, j): (0 if i < m // 2 else 1) + (0 if j < n // 2 else 2) for (i, j) in cells}
    require(b == wa, "assignment", got=b, want=wa, **case)
    require(tuple(G.dimensions) == (m, n), "dimensions", **case)
    cur = G
    for _ in range(rng.randint(1, 3)):
        b = asg_of(cur)
        fl = flips_for(rng, b, set(b.values()), keep_nonempty=True)
        if not fl:
            continue
        nxt = cur.flip(fl)
        b.update(fl)
        require(asg_of(nxt) == b and tuple(nxt.dimensions) == (m, n), "flip keeps dimensions", flips=fl, **case)
        require(type(nxt) is Grid, "class of a flipped grid", **case)
        cur = nxt
    b = asg_of(cur)
    require(cur.as_list_of_lists() == [[b[(i, j)] for i in range(m)] for j in range(n)], "list of lists", **case)
    ds = set(b.values())
    require(all(cur["population"][k] == sum(1 for x in b if b[x] == k) for k in ds), "population of a flipped grid", **case)
    per = {k: sum(g.nodes[x].get("boundary_perim", 0) for x in b if b[x] == k) + sum(w for e, w in want.items() if len({b[x] for x in e}) == 2 and k in {b[x] for x in e}) for k in ds}
    require(all(cur["perimeter"][k] == per[k] for k in ds), "perimeter of a flipped grid", got=dict(cur["perimeter"]), want=per, **case)
    ctx.note(m, n, diag, a is None)


def bad(ctx):
    from gerrychain.grid import Grid, create_grid_graph

    rng = ctx.rng
    for d in [(3,), (2, 2, 2)]:
        try:
            create_grid_graph(d, False)
        except ValueError:
            continue
        require(False, "dimensions other than two accepted", dims=d)
    try:
        Grid()
    except Exception:
        return
    require(False, "Grid() accepted")


SCENARIOS = [("grid", grid, 700), ("bad", bad, 1)]
