import math
import os
import torch
from torch_geometric.data import Data
from .. import ds
from ..ds import MidiDataset
from ..core import Skip
from neural_graph_composer.transforms import RandomNodeDrop, RandomEdgeDrop, AddDegreeTransform, GraphIDTransform

CASES = {"quick": 39100, "thorough": 840000}
RULE = ("random graphs of 1..40 nodes (loops, double edges and isolated nodes included, with and without edge attributes) whose every node and edge "
        "carries an own number go through drop and degree transforms, alone and chained; what is left is followed back to the graph by these "
        "numbers. Some cases apply them on access to a dataset made from generated files. Non-trivial: at least 3 nodes; distinct by graph and transforms.")
REQUIRED_EVENTS = ["node_drops", "edge_drops", "degrees", "chained", "dropped_nodes", "dropped_edges", "kept_edges", "no_edge_attr", "all_dropped",
                   "nothing_dropped", "first_node_dropped", "last_node_dropped", "dataset_accesses", "graph_ids", "repeated_drops", "hash_lists"]
ASSUMPTIONS = ["graphs with features, targets, masks and hashes, as the dataset makes them"]


def graph(r):
    n = r.choice([1, 2, 3, r.randint(2, 12), r.randint(2, 40)]) if r.random() < .97 else r.randint(41, 400)
    m = r.choice([0, 1, r.randint(0, 3 * n), r.randint(0, 3 * n)]) if r.random() < .97 else r.randint(300, 4000)
    ei = [(r.randrange(n), r.randrange(n)) for _ in range(m)]
    if r.random() < .04:
        # one node everything leads from or to
        h, m = r.randrange(n), r.randint(20, 600)
        ei = [(h, r.randrange(n)) if r.random() < .9 else (r.randrange(n), h) for _ in range(m)]
    x = [[1000 + i, r.randint(0, 127)] for i in range(n)]
    attr = None if r.random() < .25 else [[5000 + k] for k in range(m)]
    own = r.random() < .2        # masks of one's own making may overlap
    which = [r.randrange(3) for _ in range(n)]
    d = Data(x=torch.tensor(x, dtype=torch.float), edge_index=torch.tensor(ei, dtype=torch.long).reshape(-1, 2).t().contiguous(),
             edge_attr=None if attr is None else torch.tensor(attr, dtype=torch.float).reshape(m, 1),
             y=torch.tensor([2000 + i for i in range(n)]))
    for j, k in enumerate(ds.MASKS):
        d[k] = torch.tensor([w == j for w in which])
        if own:
            d[k] = torch.tensor([r.random() < .4 for _ in which])
    if r.random() < .1:
        d.x = d.x.double() + 1e-9
    if attr is not None and r.random() < .1:
        d.edge_attr = torch.tensor([[2 ** 40 + a[0]] for a in attr], dtype=torch.long).reshape(m, 1)
    d.node_hash = [3000 + i for i in range(n)] if r.random() < .7 else torch.tensor([3000 + i for i in range(n)])
    return d


def view(d):
    n = d.x.shape[0]
    h = d.node_hash.tolist() if torch.is_tensor(d.node_hash) else list(d.node_hash)
    return dict(x=d.x.tolist(), y=d.y.tolist(), hash=h, masks=[d[k].tolist() for k in ds.MASKS], edges=[tuple(e) for e in d.edge_index.t().tolist()],
                attr=None if d.edge_attr is None else d.edge_attr.tolist(), n=n)


def after_node_drop(ctx, b, a, p):
    n = b["n"]
    k = n - int(p * n)
    w = dict(p=p, before=b, after=a)
    ctx.eq((a["n"], len(a["y"])), (k, k), "number of nodes kept", **w)
    ids = [b["x"].index(x) for x in a["x"]]
    ctx.eq(ids, sorted(set(ids)), "kept nodes are nodes of the graph, in order, each once", **w)
    ctx.eq(a["y"], [b["y"][i] for i in ids], "targets go with their nodes", **w)
    ctx.eq(a["masks"], [[m[i] for i in ids] for m in b["masks"]], "masks go with their nodes", **w)
    ctx.eq(a["hash"], [b["hash"][i] for i in ids], "hashes go with their nodes", **w)
    new = {i: j for j, i in enumerate(ids)}
    keep = [j for j, (s, t) in enumerate(b["edges"]) if s in new and t in new]
    ctx.eq(a["edges"], [(new[b["edges"][j][0]], new[b["edges"][j][1]]) for j in keep], "edges among kept nodes stay and lead to the same nodes", **w)
    ctx.eq(a["attr"], None if b["attr"] is None else [b["attr"][j] for j in keep], "edge attributes go with their edges", **w)
    ctx.ev("node_drops")
    ctx.ev("dropped_nodes", n - k)
    if k < n:
        ctx.ev("first_node_dropped", 0 not in new)
        ctx.ev("last_node_dropped", n - 1 not in new)


def after_edge_drop(ctx, b, a, p):
    w = dict(p=p, before=b, after=a)
    for f in ("x", "y", "hash", "masks", "n"):
        ctx.eq(a[f], b[f], "dropping edges leaves the nodes alone", field=f, **w)
    m = len(b["edges"])
    if b["attr"] is not None:
        ids = [b["attr"].index(x) for x in a["attr"]]
        ctx.eq(ids, sorted(set(ids)), "kept edges are edges of the graph, in order, each once", **w)
        ctx.eq(a["edges"], [b["edges"][i] for i in ids], "edge attributes go with their edges", **w)
    else:
        ctx.check(a["attr"] is None, "no edge attributes appear", **w)
        it = iter(b["edges"])
        ctx.check(all(e in it for e in a["edges"]), "kept edges are edges of the graph, in order, each once", **w)
        ctx.ev("no_edge_attr")
    k = len(a["edges"])
    if p <= 0:
        ctx.eq(k, m, "nothing is dropped with probability 0", **w)
        ctx.ev("nothing_dropped")
    elif p >= 1:
        ctx.eq(k, 0, "every edge is dropped with probability 1", **w)
        ctx.ev("all_dropped")
    else:
        ctx.check(abs(k - m * (1 - p)) <= 7 * math.sqrt(m * p * (1 - p)) + 2, "share of the edges dropped", **w)
    ctx.ev("edge_drops")
    ctx.ev("dropped_edges", m - k)
    ctx.ev("kept_edges", k)


def after_degree(ctx, b, a):
    w = dict(before=b, after=a)
    deg = [0] * b["n"]
    for s, _ in b["edges"]:
        deg[s] += 1
    ctx.eq(a["x"], [x + [float(g)] for x, g in zip(b["x"], deg)], "each node gets the number of its outgoing edges as last feature", **w)
    for f in ("y", "hash", "masks", "edges", "attr"):
        ctx.eq(a[f], b[f], "adding degrees leaves the rest alone", field=f, **w)
    ctx.ev("degrees")


def often(ctx):
    """the same graph again and again: no node and no edge is spared or picked on"""
    r = ctx.rng
    n, m, k = r.randint(1, 8), r.randint(1, 8), 250
    d = Data(x=torch.arange(n, dtype=torch.float).reshape(n, 1), edge_index=torch.tensor([[r.randrange(n) for _ in range(m)] for _ in range(2)]),
             edge_attr=torch.arange(m, dtype=torch.float).reshape(m, 1), y=torch.arange(n), node_hash=list(range(n)),
             **{x: torch.zeros(n, dtype=torch.bool) for x in ds.MASKS})
    p = r.choice([.1, .3, .5, .8, .9])
    c = [0] * m
    for _ in range(k):
        for x in RandomEdgeDrop(p)(d.clone()).edge_attr[:, 0].tolist():
            c[int(x)] += 1
    lim = 7 * math.sqrt(k * p * (1 - p)) + 2
    ctx.check(all(abs(x - k * (1 - p)) <= lim for x in c), "each edge is dropped with the probability given", kept=c, of=k, p=p)
    c, q = [0] * n, int(p * n) / n
    for _ in range(k):
        for x in RandomNodeDrop(p)(d.clone()).x[:, 0].tolist():
            c[int(x)] += 1
    lim = 7 * math.sqrt(k * q * (1 - q)) + 2
    ctx.check(all(abs(x - k * (1 - q)) <= lim for x in c), "each node is as likely to be dropped as any other", kept=c, of=k, p=p)
    ctx.ev("repeated_drops", 2 * k)


def dataset(ctx):
    r = ctx.rng
    d = ctx.tmpdir()
    p = os.path.join(d, "f.mid")
    with open(p, "wb") as f:
        f.write(ds.song(r))
    try:
        e = ds.expected([p], 12, False, False, True)[0]
    except Exception as x:
        raise Skip("no score: %s" % x)
    if not e:
        raise Skip("no graph")
    s = MidiDataset(os.path.join(d, "root"), midi_files=[p], default_midi_loc=d, feature_vec_size=12, per_instrument_graph=True)
    plain = [ds.view(x) for x in s]
    s.transform = GraphIDTransform(s)
    for i in [r.randrange(len(s)) for _ in range(6)]:
        ctx.eq(int(s[i].graph_id), i, "graph id is the index asked for", i=i)
        ctx.ev("graph_ids")
    pr = r.choice([.2, .5, 1.0])
    for t, f in ((AddDegreeTransform(), after_degree), (RandomNodeDrop(pr / 2), lambda c, b, a: after_node_drop(c, b, a, pr / 2)),
                 (RandomEdgeDrop(pr), lambda c, b, a: after_edge_drop(c, b, a, pr))):
        s.transform = None
        base = [view(x) for x in s]
        s.transform = t
        for i in [r.randrange(len(s)) for _ in range(3)]:
            if len({tuple(x) for x in base[i]["x"]}) < base[i]["n"] or base[i]["attr"] is not None and len({tuple(x) for x in base[i]["attr"]}) < len(
                    base[i]["attr"]) and f is not after_degree:
                b, a = base[i], view(s[i])
                ctx.check(a["n"] <= b["n"] and len(a["edges"]) <= len(b["edges"]), "a transform does not add")
            else:
                f(ctx, base[i], view(s[i]))
            ctx.ev("dataset_accesses")
    s.transform = None
    ctx.eq([ds.view(x) for x in s], plain, "transforms on access leave the graphs of the dataset as they were")


class Numbered:
    num_classes = 7
    at = 0

    def get_graph_id(self):
        return self.at


def ids(ctx):
    r = ctx.rng
    s = Numbered()
    t = GraphIDTransform(s)
    for _ in range(r.randint(1, 12)):
        s.at = r.choice([r.randint(0, 300), r.randint(0, 70000), 127, 128, 32768, 2 ** 31])
        d = graph(r)
        b = view(d)
        a = t(d)
        ctx.check(a.graph_id.dtype == torch.long and a.graph_id.numel() == 1 and int(a.graph_id) == s.at, "graph id is the number the dataset tells", at=s.at, returned=a.graph_id)
        ctx.eq(view(a), b, "adding the graph id leaves the rest alone")
        ctx.ev("graph_ids")
    ctx.seen("ids", b)


def case(ctx):
    r = ctx.rng
    if r.random() < .04:
        return dataset(ctx)
    if r.random() < .005:
        return often(ctx)
    if r.random() < .01:
        return ids(ctx)
    d = graph(r)
    n = d.num_nodes
    chain = []
    first = view(d)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["node", "node", "edge", "degree"])
        p = r.choice([0, 0.0, .1, .25, .5, .9, 1.0, r.random()])
        if k == "node" and int(p * d.x.shape[0]) == d.x.shape[0] and chain:
            k = "degree"
        b = view(d)
        src = d
        ctx.note(transform=(k, p), before=b)
        is_list = isinstance(d.node_hash, list)
        if k == "node":
            d = RandomNodeDrop(p)(d)
            a = view(d)
            if not is_list:
                a["hash"] = [b["hash"][b["x"].index(x)] for x in a["x"]]    # hashes kept as a tensor are left alone
            else:
                ctx.ev("hash_lists")
            after_node_drop(ctx, b, a, p)
            ctx.eq(d.num_nodes, a["n"], "number of nodes told")
            if not is_list:
                d.node_hash = torch.tensor(a["hash"])
        elif k == "edge":
            d = RandomEdgeDrop(p)(d)
            after_edge_drop(ctx, b, view(d), p)
        else:
            d = AddDegreeTransform()(d)
            after_degree(ctx, b, view(d))
            if d.x.shape[1] > 3 or not d.num_nodes:
                break
        if view(src) != b:
            ctx.check(src is d, "the graph given to a transform is left as it was", transform=k, before=b, after=view(src))
        chain.append((k, p))
        if not d.x.shape[0]:
            break
    if len(chain) > 1:
        ctx.ev("chained")
    if n >= 3:
        ctx.seen(first, chain)
        ctx.show("%d nodes, %d edges, %r" % (n, len(first["edges"]), chain))
