import collections
from ..core import many
import networkx as nx
import numpy as np
import torch
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder

CASES = {"quick": 48700, "thorough": 1046000}
RULE = ("random directed, undirected and multi graphs with arbitrary node names, 1..3 node and edge attributes (numbers, lists, arrays, tensors, text) "
        "and any grouping are converted; every feature row, edge, weight and left-over attribute is compared with the graph it came from. "
        "Non-trivial: at least 2 nodes and 2 edges; distinct by graph and grouping.")
REQUIRED_EVENTS = ["directed", "undirected", "multi", "default_grouping", "listed_grouping", "all_grouping", "shared_names", "kept_attributes",
                   "self_loops", "matrix_features", "refusals_seen", "uneven_graphs"]
ASSUMPTIONS = ["graphs with at least one edge, every node (edge) with attributes of one kind and length"]
NODE_KINDS = ["float", "int", "tensor", "array", "list", "matrix", "text", "whole"]
EDGE_KINDS = ["float", "int", "list", "bool"]


def val(r, kind, k):
    f = [round(r.uniform(-9, 127), 2) if r.random() < .95 else float(r.randint(-2 ** 23, 2 ** 23)) for _ in range(k)]
    if kind == "float":
        return f[0]
    if kind == "int":
        return r.randint(-5, 99) if r.random() < .9 else r.randint(-2 ** 23, 2 ** 23)
    if kind == "bool":
        return r.random() < .5
    if kind == "tensor":
        return torch.tensor(f)
    if kind == "array":
        return np.array(f)
    if kind == "list":
        return f
    if kind == "whole":
        return torch.tensor([r.choice([r.randint(-5, 127), r.randint(-2 ** 60, 2 ** 60)]) for _ in range(k)])
    if kind == "matrix":
        return torch.tensor([f, f[::-1]])
    return "t%d" % r.randint(0, 9)


def flat(v):
    if torch.is_tensor(v) or isinstance(v, np.ndarray):
        return [float(x) for x in v.reshape(-1)]
    if isinstance(v, (list, tuple)):
        return [float(x) for x in v]
    return [float(v)]


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-4 + 1e-7 * abs(y) for x, y in zip(a, b))


def key_of(v):
    return v if isinstance(v, str) else tuple(round(x, 2) + 0.0 for x in flat(v))


def frozen(g):
    return (g.is_directed(), g.is_multigraph(),
            [(n, [(a, key_of(v)) for a, v in d.items()]) for n, d in g.nodes(data=True)],
            [(u, v, [(a, key_of(x)) for a, x in d.items()]) for u, v, d in g.edges(data=True)])


def huge(ctx):
    """more nodes than a small integer counts"""
    r = ctx.rng
    n = r.randint(33000, 70000)
    g = nx.DiGraph()
    for i in range(n):
        g.add_node(i * 7 - 5, attr=float(i % 1000), node_hash=i * 7 - 5)
    es = [(r.randrange(n), r.randrange(n)) for _ in range(300)] + [(i, i + 1) for i in range(n - 200, n - 1)] + [(n - 1, 0)]
    for k, (u, v) in enumerate(es):
        g.add_edge(u * 7 - 5, v * 7 - 5, weight=float(k))
    d = MidiGraphBuilder.from_midi_networkx(g)
    ctx.eq((tuple(d.x.shape), d.num_nodes, list(d.node_hash)), ((n, 1), n, [i * 7 - 5 for i in range(n)]), "one row per node")
    ctx.check(torch.equal(d.x[:, 0], torch.arange(n) % 1000 * 1.0), "the features of each node")
    at = {x: i for i, x in enumerate(g.nodes)}
    ctx.eq(sorted(zip(*d.edge_index.tolist(), d.edge_attr[:, 0].tolist())), sorted((at[u], at[v], w) for u, v, w in g.edges(data="weight")), "each edge once with its own weight")
    ctx.ev("huge_graphs")
    ctx.seen(n, es[:20])


def case(ctx):
    r = ctx.rng
    cls = r.choice([nx.DiGraph, nx.DiGraph, nx.DiGraph, nx.Graph, nx.MultiDiGraph])
    g = cls()
    if r.random() < .0002:
        return huge(ctx)
    n = many(r, 1, 9, 60) if r.random() < .998 else r.randint(200, 500)
    more = r.random() < .02
    pool = [r.choice([i, "n%d" % i, hash(frozenset([i, 60])), (i, "x"), -i - 100]) for i in range(n)]
    r.shuffle(pool)
    default = r.random() < .4
    nk = {"attr": r.choice(["float", "tensor", "tensor", "array", "list", "int", "matrix", "whole"])}
    for a in r.sample(["pitch", "vel", "weight", "label"] + ["n%d" % i for i in range(9) if more], r.randint(5, 12) if more else r.randint(0, 2)):
        nk[a] = r.choice(["float", "int", "list", "tensor", "text"] if nk["attr"] != "matrix" else ["text", "int"])
    nl = {a: r.randint(1, 5) for a in nk}
    ek = {"weight": r.choice(["float", "float", "int", "list"])}
    for a in r.sample(["gain", "attr", "pitch", "count"] + ["e%d" % i for i in range(9) if more], r.randint(5, 12) if more else r.randint(0, 2)):
        ek[a] = r.choice(EDGE_KINDS)
    el = {a: r.randint(1, 3) for a in ek}

    def attrs(kinds, lens):
        names = list(kinds)
        return {a: val(r, kinds[a], lens[a]) for a in names}
    for x in pool:
        g.add_node(x, **attrs(nk, nl))
    for _ in range(r.randint(1, 2 * n)):
        u, v = r.choice(pool), r.choice(pool)
        if u == v:
            ctx.ev("self_loops")
        g.add_edge(u, v, **attrs(ek, el))
    ctx.note(graph=frozen(g))
    before = frozen(g)
    kw = {}
    gn, ge = ["attr"], ["weight"]
    can = [a for a in nk if nk[a] not in ("text", "matrix")]
    if default:
        ctx.ev("default_grouping")
    else:
        if r.random() < .25 and "text" not in nk.values() and "matrix" not in nk.values():
            gn = list(nk)
            kw["group_node_attrs"] = "all"
            ctx.ev("all_grouping")
        elif can and r.random() < .7:
            gn = r.sample(can, r.randint(1, len(can)))
            kw["group_node_attrs"] = list(gn)
            ctx.ev("listed_grouping")
        if r.random() < .4:
            ge = list(ek)
            kw["group_edge_attrs"] = "all"
            ctx.ev("all_grouping")
        elif r.random() < .6:
            ge = r.sample(list(ek), r.randint(1, len(ek)))
            kw["group_edge_attrs"] = list(ge)
            ctx.ev("listed_grouping")
    given = {k: list(v) for k, v in kw.items()}
    d = MidiGraphBuilder.from_midi_networkx(g, **kw)
    ctx.eq(frozen(g), before, "converting leaves the graph as it was")
    ctx.eq({k: list(v) for k, v in kw.items()}, given, "converting leaves the arguments as they were")
    at = {x: i for i, x in enumerate(g.nodes)}
    data = d.to_dict()
    # nodes
    ctx.eq((d.x.shape[0], d.num_nodes), (n, n), "one row per node")
    for x, i in at.items():
        want = sum((flat(g.nodes[x][a]) for a in gn), [])
        if nk["attr"] == "matrix" and gn == ["attr"]:
            ctx.eq(tuple(d.x.shape), (n, 2, nl["attr"]), "features of several rows keep their shape")
            ctx.ev("matrix_features")
        else:
            ctx.eq(d.x.dim(), 2, "a row of features per node")
        if gn == ["attr"] and nk["attr"] == "whole":
            ctx.eq(d.x[i].tolist(), g.nodes[x]["attr"].tolist(), "whole numbers stay exact")
            ctx.ev("whole_numbers")
        ctx.check(near(flat(d.x[i]), want), "the features of each node, in the order of the grouping", node=x, got=flat(d.x[i]), want=want)
    for a in nk:
        if a in gn:
            ctx.check(a not in data, "a grouped attribute moves into the features", attribute=a)
        else:
            ctx.eq([key_of(v) for v in data[a]], [key_of(g.nodes[x][a]) for x in at], "an attribute not grouped stays, in node order", attribute=a)
            ctx.ev("kept_attributes")
    # edges
    rows = []
    keys = {}
    for a in ek:
        keys[a] = "edge_" + a if a in nk else a
        if a in nk:
            ctx.ev("shared_names")
    kept = [a for a in ek if a not in ge]
    for a in ek:
        if a in ge and keys[a] != "edge_attr" and not (keys[a] in nk):
            ctx.check(keys[a] not in data, "a grouped edge attribute moves into the edge features", attribute=a)
    if any(keys[a] == "edge_attr" for a in kept):
        kept = []                    # the name is taken by the grouped features: not claimed
    m = d.edge_index.shape[1]
    ctx.eq((d.edge_index.dtype, d.edge_attr.dim(), d.edge_attr.shape[0]), (torch.int64, 2, m), "one row of edge features per edge")
    for j in range(m):
        u, v = d.edge_index[:, j].tolist()
        rows.append((u, v, tuple(round(x, 2) + 0.0 for x in flat(d.edge_attr[j])), tuple(key_of(data[keys[a]][j]) for a in kept)))
    want = []
    for u, v, w in g.edges(data=True):
        e = (tuple(round(x, 2) + 0.0 for a in ge for x in flat(w[a])), tuple(key_of(w[a]) for a in kept))
        want.append((at[u], at[v]) + e)
        if not g.is_directed() and u != v:
            want.append((at[v], at[u]) + e)
    ctx.eq(collections.Counter(rows), collections.Counter(want), "each edge once with its own attributes, both ways when undirected")
    ctx.ev("multi" if g.is_multigraph() else "directed" if g.is_directed() else "undirected")
    if n > 1:
        # a graph whose nodes or edges do not carry the same attributes is refused
        h = g.copy()
        if r.random() < .5:
            x = r.choice(list(h.nodes))
            if r.random() < .5:
                h.nodes[x]["more"] = 1.0
            else:
                del h.nodes[x][r.choice(list(nk))]
            bad = True
        else:
            es = list(h.edges(data=True))
            bad = len(es) > 1
            if r.random() < .5:
                r.choice(es)[2]["more"] = 1.0
            else:
                w = r.choice(es)[2]
                del w[r.choice(list(w))]
        if bad:
            ctx.ev("uneven_graphs")
            ctx.raises(ValueError, lambda: MidiGraphBuilder.from_midi_networkx(h, **kw), "uneven attributes are refused")
    if n >= 2 and m >= 2:
        ctx.seen(before, given)
        ctx.show("%s n=%d edges=%d node attributes %s edge attributes %s grouping %s" % (cls.__name__, n, m, nk, ek, given))
