from .core import *

RULE = "tilings of integer rectangles by cell-union polygons (rectilinear, some with gaps, holes between them and islands), shuffled non-default indices, rook and queen; oracle counts unit sides on the integer grid; distinct by (tiling, adjacency)"


def tiling(ctx):
    import geopandas as gp
    import warnings
    from shapely.geometry import box
    from shapely.ops import unary_union
    from gerrychain import Graph, GeographicPartition

    rng = ctx.rng
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    cells = {(i, j) for i in range(m) for j in range(n)}
    adjc = lambda c: [(c[0] + 1, c[1]), (c[0] - 1, c[1]), (c[0], c[1] + 1), (c[0], c[1] - 1)]
    k = rng.randint(1, min(7, len(cells)))
    owner = {c: i for i, c in enumerate(rng.sample(sorted(cells), k))}
    gap = rng.random() < 0.4
    while True:
        front = [(c, d) for c in owner for d in adjc(c) if d in cells and d not in owner]
        if not front or (gap and rng.random() < 0.06):
            break
        c, d = rng.choice(sorted(front))
        owner[d] = owner[c]
    polys = [unary_union([box(x, y, x + 1, y + 1) for (x, y), o in owner.items() if o == i]) for i in range(k)]
    if any(p.geom_type != "Polygon" or not p.is_valid for p in polys):
        return
    if rng.random() < 0.2:
        polys.append(box(20, 20, 22, 23))
        for x in range(20, 22):
            for y in range(20, 23):
                owner[(x, y)] = k
        k += 1
    sc = rng.choice([1, 1, 2, 0.5, 1024, 1 / 256, 1 / 2048, 1 / 65536])
    from shapely.affinity import scale
    polys = [scale(p, sc, sc, origin=(0, 0)) for p in polys]
    idx = rng.choice([list(range(k)), rng.sample(range(100), k), ["p%d" % i for i in rng.sample(range(50), k)]])
    df = gp.GeoDataFrame({"val": [rng.randint(0, 9) for _ in idx], "other": [rng.randint(0, 9) for _ in idx]}, geometry=polys, index=idx)
    adjacency = rng.choice(["rook", "queen", None])
    cols = rng.choice([None, ["val"]])
    kw = {} if adjacency is None else dict(adjacency=adjacency)
    adjacency = adjacency or "rook"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = Graph.from_geodataframe(df, cols_to_add=cols or ["val", "other"], **kw)
    sh, pt = {}, set()
    cellset = {}
    for c, o in owner.items():
        for d in adjc(c):
            if d in owner and owner[d] != o:
                e = frozenset((o, owner[d]))
                sh[e] = sh.get(e, 0) + sc / 2
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                d = (c[0] + dx, c[1] + dy)
                if d in owner and owner[d] != o:
                    pt.add(frozenset((o, owner[d])))
    want = {}
    for e in pt:
        if adjacency == "queen" or e in sh:
            i, j = e
            want[frozenset((idx[i], idx[j]))] = sh.get(e, 0)
    got = {frozenset(e): g.edges[e]["shared_perim"] for e in g.edges}
    case = dict(adjacency=adjacency, owner=owner, index=idx, scale=sc)
    require(set(g.nodes) == set(idx), "nodes", got=list(g.nodes), **case)
    require(set(got) == set(want), "adjacent pairs", got=got, want=want, **case)
    for e in want:
        require(close(got[e], want[e]), "shared perimeter", pair=e, got=got[e], want=want[e], **case)
    allp = unary_union(polys).boundary
    for i in range(k):
        x = idx[i]
        d = g.nodes[x]
        cnt = sum(1 for o in owner.values() if o == i)
        require(close(d["area"], cnt * sc * sc), "area", node=x, got=d["area"], **case)
        per = sum(sc for c, o in owner.items() if o == i for y in adjc(c) if owner.get(y) != i)
        shared = sum(v for e, v in want.items() if x in e)
        onb = polys[i].boundary.intersects(allp)
        require(bool(d["boundary_node"]) == onb, "boundary flag", node=x, got=d["boundary_node"], want=onb, **case)
        if onb:
            require(close(d.get("boundary_perim"), per - shared), "boundary perimeter", node=x, got=d.get("boundary_perim"), want=per - shared, **case)
        else:
            require(close(per, shared), "oracle", **case)
        require(d["val"] == df["val"][x] and (cols is None or "other" not in d), "columns", node=x, got=d, **case)
    if rng.random() < 0.5:
        a = {x: rng.choice([0, 1]) for x in idx}
        p = GeographicPartition(g, a)
        for q in set(a.values()):
            own = {c for c, o in owner.items() if a[idx[o]] == q}
            per = sum(sc for c in own for y in adjc(c) if y not in own)
            require(close(p["perimeter"][q], per), "district perimeter", part=q, got=p["perimeter"][q], want=per, assignment=a, **case)
            require(close(p["area"][q], len(own) * sc * sc), "district area", part=q, **case)
    ctx.note(adjacency, sorted(owner.items()), sc)


def invalid(ctx):
    import geopandas as gp
    from shapely.geometry import Polygon, box
    from gerrychain import Graph
    from gerrychain.graph.geo import GeometryError

    rng = ctx.rng
    bow = Polygon([(0, 0), (2, 2), (2, 0), (0, 2)])
    ps = [box(3, 0, 4, 1), box(4, 0, 5, 1)]
    ps.insert(rng.randrange(3), bow)
    df = gp.GeoDataFrame({"v": [1, 2, 3]}, geometry=ps)
    try:
        Graph.from_geodataframe(df)
    except GeometryError:
        pass
    else:
        require(False, "invalid polygon accepted")
    try:
        Graph.from_geodataframe(df, adjacency="bishop", ignore_errors=True)
    except ValueError:
        return
    require(False, "unknown adjacency accepted")


SCENARIOS = [("tiling", tiling, 500), ("invalid", invalid, 3)]
