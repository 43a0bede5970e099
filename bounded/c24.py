from .core import *

RULE = "random attributed graphs (int/str nodes, numpy integers, geometry columns) through JSON files in a private scratch directory; dataframes with shuffled, partial and extra rows joined by index or key; frozen graphs queried and attacked; distinct by (graph, data)"


def jsonio(ctx):
    import tempfile, shutil, numpy
    from gerrychain import Graph
    from shapely.geometry import Point, Polygon

    rng = ctx.rng
    g = graph(rng, connected=False, kind=rng.choice(["int", "int0", "str", "shuffled"]))
    geo = rng.random() < 0.5
    for i, x in enumerate(g.nodes):
        d = g.nodes[x]
        d["np"] = numpy.int64(rng.randint(-9, 9))
        d["np32"] = numpy.int32(i)
        d["f"] = rng.random()
        d["s"] = rng.choice(["", "é", "a\"b"])
        d["l"] = [1, "x", None]
        d["none"] = None
        if rng.random() < 0.5:
            d["extra"] = {"k": rng.randint(0, 3)}
        if geo:
            d["geometry"] = Polygon([(0, 0), (i + 1, 0), (0, 1)])
            if rng.random() < 0.4:
                d["pt"] = Point(i, 2)
    for e in g.edges:
        g.edges[e]["w"] = numpy.int64(rng.randint(0, 5))
    before = {x: dict(g.nodes[x]) for x in g.nodes}
    ebefore = {frozenset(e): dict(g.edges[e]) for e in g.edges}
    inc = geo and rng.random() < 0.5
    tmp = tempfile.mkdtemp(prefix="verif_c24_")
    try:
        fn = tmp + "/g.json"
        g.to_json(fn, include_geometries_as_geojson=True) if inc else g.to_json(fn)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h = Graph.from_json(fn)
    finally:
        shutil.rmtree(tmp)
    case = dict(nodes=before, edges=ebefore, geojson=inc)
    require({x: dict(g.nodes[x]) for x in g.nodes} == before and {frozenset(e): dict(g.edges[e]) for e in g.edges} == ebefore, "writing changed the graph", **case)
    require(isinstance(h, Graph), "class of the graph read back")
    require(list(h.nodes) == list(g.nodes), "nodes after the round trip", got=list(h.nodes), **case)
    require({frozenset(e): dict(h.edges[e]) for e in h.edges} == ebefore, "edges after the round trip", got=dict(h.edges), **case)
    for x in before:
        w = {k: v for k, v in before[x].items() if not hasattr(v, "__geo_interface__")}
        got = dict(h.nodes[x])
        if inc:
            for k, v in before[x].items():
                if hasattr(v, "__geo_interface__"):
                    import json as J
                    require(J.dumps(got.pop(k, None)) == J.dumps(v.__geo_interface__), "geojson geometry", node=x, **case)
        require(got == w, "attributes of node %r after the round trip" % (x,), got=got, want=w, **case)
    ctx.note(sorted(map(repr, ebefore)), geo, inc, len(before))


def frames(ctx):
    import pandas as pd
    import warnings

    rng = ctx.rng
    g = graph(rng, connected=False, kind=rng.choice(["int", "int0", "str", "shuffled"]))
    nodes = list(g.nodes)
    for i, x in enumerate(nodes):
        g.nodes[x]["key"] = "k%d" % i
    cols = ["u", "v", "w"]
    mode = rng.choice(["join_index", "join_key", "join_left", "join_right", "add", "add"])
    rows = nodes[:]
    rng.shuffle(rows)
    keyed = mode in ("join_key", "join_left")
    ids = [g.nodes[x]["key"] for x in rows] if keyed else rows
    extra = rng.choice([0, 0, 1, 2])
    partial = mode == "add" and rng.random() < 0.5
    if partial:
        ids = rng.sample(ids, rng.randint(1, len(ids)))
    more = ["zz%d" % i for i in range(extra)] if mode != "add" else []
    allids = ids + more
    rng.shuffle(allids)
    data = {c: [rng.randint(0, 99) for _ in allids] for c in cols}
    data["other"] = [rng.randint(0, 9) for _ in allids]
    if rng.random() < 0.3:
        data["pop"] = [-1] * len(allids)
    df = pd.DataFrame(data, index=allids)
    sel = rng.choice([None, ["u"], ["v", "u"], cols])
    tab = {i: {c: data[c][n] for c in data} for n, i in enumerate(allids)}
    before = {x: dict(g.nodes[x]) for x in g.nodes}
    ebefore = {frozenset(e): dict(g.edges[e]) for e in g.edges}
    kw = {} if sel is None else dict(columns=sel)
    want_cols = list(data) if sel is None else sel
    missing = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mode == "add":
            g.add_data(df, **kw)
        else:
            if keyed and rng.random() < 0.3 and len(nodes) > 1:
                x = rng.choice(nodes)
                del g.nodes[x]["key"]
                del before[x]["key"]
            if mode in ("join_key", "join_right"):
                df = df.reset_index().rename(columns={"index": "theid"})
                perm = list(range(len(df)))
                rng.shuffle(perm)
                df = df.iloc[perm]
                kw["right_index"] = "theid"
            if keyed:
                kw["left_index"] = "key"
            g.join(df, **kw)
    case = dict(mode=mode, columns=sel, table=tab, before=before)
    for x in nodes:
        i = before[x].get("key") if keyed else x
        w = dict(before[x])
        if i in tab:
            w.update({c: tab[i][c] for c in want_cols})
        require(dict(g.nodes[x]) == w, "attributes of node %r" % (x,), got=dict(g.nodes[x]), want=w, **case)
    require(list(g.nodes) == nodes and {frozenset(e): dict(g.edges[e]) for e in g.edges} == ebefore, "nodes or edges changed", **case)
    if mode == "add" and sel and rng.random() < 0.5:
        df2 = pd.DataFrame({"second": list(range(len(nodes)))}, index=nodes)
        g.add_data(df2)
        require(all(g.nodes[x]["second"] == i for i, x in enumerate(nodes)), "second add_data", **case)
    ctx.note(mode, sel, sorted(map(repr, tab.items())))


def frozen(ctx):
    import networkx as nx
    import pandas as pd
    from gerrychain.graph import FrozenGraph

    rng = ctx.rng
    g = graph(rng, connected=False)
    nodes, edges = list(g.nodes), list(g.edges)
    attrs = {x: dict(g.nodes[x]) for x in nodes}
    adj = {x: set(g.neighbors(x)) for x in nodes}
    f = FrozenGraph(g)
    case = dict(nodes=nodes, edges=edges)
    S = rng.sample(nodes, rng.randint(0, len(nodes)))

    def queries():
        require(len(f) == len(nodes), "length", **case)
        require(set(f) == set(nodes) and len(list(f)) == len(nodes), "iteration", **case)
        require(set(f.nodes) == set(nodes) and set(f.node_indices) == set(nodes), "nodes", **case)
        require({frozenset(e) for e in f.edges} == {frozenset(e) for e in edges} and len(list(f.edges)) == len(edges), "edges", **case)
        require({frozenset(e) for e in f.edge_indices} == {frozenset(e) for e in edges}, "edge indices", **case)
        for x in nodes:
            require(set(f.neighbors(x)) == adj[x] and len(list(f.neighbors(x))) == len(adj[x]), "neighbors", node=x, **case)
            require(f.degree(x) == len(adj[x]), "degree", node=x, **case)
            require(set(f[x]) == adj[x], "item access", node=x, **case)
            for k in attrs[x]:
                require(f.lookup(x, k) == attrs[x][k] and f.nodes[x][k] == attrs[x][k], "lookup", node=x, key=k, **case)
        h = f.subgraph(S)
        require(set(h.nodes) == set(S) and len(h) == len(S), "subgraph nodes", subset=S, **case)
        require({frozenset(e) for e in h.edges} == {frozenset(e) for e in edges if e[0] in S and e[1] in S}, "subgraph edges", subset=S, **case)
        for x in S:
            require(set(h.neighbors(x)) == adj[x] & set(S) and h.degree(x) == len(adj[x] & set(S)), "subgraph neighbors", node=x, subset=S, **case)
            require(h.lookup(x, "pop") == attrs[x]["pop"], "subgraph lookup", node=x, **case)

    queries()
    x = rng.choice(nodes)
    acts = dict(
        add_node=lambda: f.add_node("new"), add_nodes=lambda: f.add_nodes_from(["a", "b"]), remove_node=lambda: f.remove_node(x),
        remove_nodes=lambda: f.remove_nodes_from([x]), add_edge=lambda: f.add_edge(x, "new"), add_edges=lambda: f.add_edges_from([(x, "new")]),
        remove_edges=lambda: f.remove_edges_from(edges), clear=lambda: f.clear(), join=lambda: f.join(pd.DataFrame({"zz": [1] * len(nodes)}, index=nodes)),
        add_data=lambda: f.add_data(pd.DataFrame({"zz": [1] * len(nodes)}, index=nodes)))
    for nm in rng.sample(sorted(acts), 4):
        ctx.count += 1
        try:
            acts[nm]()
        except nx.NetworkXError:
            pass
        else:
            require(False, "frozen graph accepted %s" % nm, **case)
    queries()
    require({y: dict(f.nodes[y]) for y in nodes} == attrs, "attributes changed", **case)
    ctx.note(sorted(map(repr, edges)), sorted(map(repr, S)))


SCENARIOS = [("jsonio", jsonio, 200), ("frames", frames, 500), ("frozen", frozen, 400)]
