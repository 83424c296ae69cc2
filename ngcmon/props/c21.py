import math
import os
from .. import ds
from ..ds import MidiDataset
from ..core import Skip, many

CASES = {"quick": 1400, "thorough": 45000}
RULE = ("datasets over 1..3 generated files, per track or merged, with random split ratios (0, 1, and sums of 1 among them); the three masks of every "
        "graph are checked for form, sizes, overlap and cover, and for being drawn at random. Non-trivial: a graph with at least 4 nodes; "
        "distinct by files and ratios.")
REQUIRED_EVENTS = ["graphs_masked", "per_track_datasets", "merged_datasets", "unmasked_datasets", "empty_train", "empty_val", "empty_test",
                   "bad_ratios", "refusals_seen", "transformed_graphs", "prefix_possible"]
ASSUMPTIONS = ["randomness is judged by the chance that an honest draw gives the first nodes every time (below 1e-12)"]


def part(ctx, d, tr, va, **w):
    n = d.x.shape[0]
    a, b = int(tr * n), int(va * n)
    m = []
    for k in ds.MASKS:
        x = getattr(d, k)
        ctx.eq((str(x.dtype), tuple(x.shape)), ("torch.bool", (n,)), "form of a mask", mask=k, **w)
        m.append([i for i, y in enumerate(x.tolist()) if y])
    ctx.eq(sorted(sum(m, [])), list(range(n)), "every node is in exactly one of the three masks", train=m[0], val=m[1], test=m[2], **w)
    ctx.eq([len(x) for x in m], [a, b, n - a - b], "sizes of the masks", nodes=n, train=tr, val=va, **w)
    ctx.ev("graphs_masked")
    for k, s in zip(("empty_train", "empty_val", "empty_test"), m):
        if not s:
            ctx.ev(k)
    p = math.comb(n, a)
    if p > 1:
        ctx.ev("prefix_possible")
    return m, p, m[0] == list(range(a))


def case(ctx):
    r = ctx.rng
    d = ctx.tmpdir()
    n = many(r, 1, 3, 14, .03)
    paths = []
    for i in range(n):
        p = os.path.join(d, "f%d.mid" % i)
        with open(p, "wb") as f:
            f.write(ds.song(r))
        paths.append(p)
    tr = r.choice([.7, .5, 0.0, 1.0, 0, 1, r.random(), 1 / 3, r.choice([.29, .57, .58, .14, .28, .55, .07, .999, .9999])])
    va = r.choice([.15, 0.0, 1 - tr, r.random() * (1 - tr), .1])
    if va + tr > 1:
        va = 0.0
    per = r.random() < .6
    kw = dict(midi_files=list(paths), default_midi_loc=d, per_instrument_graph=per, feature_vec_size=12)
    ctx.note(train=tr, val=va, per_track=per)
    if r.random() < .1:
        bad, exc = r.choice([((1.2, 0.0), ValueError), ((-.1, .5), ValueError), ((.7, .4), ValueError), ((.7, .31), ValueError), ((.5, .5001), ValueError), ((.5, -.2), ValueError),
                             ((.5, 1.01), ValueError), (("x", .1), TypeError), ((.2, None), TypeError)])
        ctx.raises(exc, lambda: MidiDataset(os.path.join(d, "bad"), train_ratio=bad[0], val_ratio=bad[1], **kw), "impossible ratios are refused",
                   ratios=bad)
        ctx.check(not os.path.exists(os.path.join(d, "bad")), "a refused dataset leaves nothing behind")
        ctx.ev("bad_ratios")
    try:
        per_e, whole_e, _, _ = ds.expected(paths, 12, False, False, True)
    except Exception as e:
        raise Skip("no score: %s" % e)
    if not per_e:
        raise Skip("no graph")
    if any(len(h) != len(set(h)) for h in [x.node_hash for x in per_e]):
        raise Skip("hashes")
    seen_by_transform = []

    def pre(x):
        seen_by_transform.append({k: x[k].tolist() for k in ds.MASKS if k in x})
        return x
    masked = r.random() < .9
    s = MidiDataset(os.path.join(d, "root"), train_ratio=tr, val_ratio=va, do_split_mask=masked, pre_transform=pre, **kw)
    ctx.ev("per_track_datasets" if per else "merged_datasets")
    ctx.eq(len(s), len(per_e if per else whole_e), "number of graphs")
    if not masked:
        ctx.ev("unmasked_datasets")
        for x in s:
            ctx.check(not any(k in x for k in ds.MASKS), "no masks when not asked for")
        return
    prob = 1.0
    all_first = True
    got = []
    for x in s:
        m, p, first = part(ctx, x, tr, va)
        got.append({k: x[k].tolist() for k in ds.MASKS})
        prob /= p
        all_first &= first
    ctx.check(not (all_first and prob < 1e-12), "the split is drawn at random, not the first nodes of every graph", chance=prob)
    want = seen_by_transform[:len(per_e)] if per else seen_by_transform[len(per_e):]
    ctx.eq(got, want, "the masks that were made are the masks of the dataset")
    ctx.ev("transformed_graphs", len(seen_by_transform))
    # the other file written in the same run
    o = MidiDataset(os.path.join(d, "root"), train_ratio=tr, val_ratio=va, **dict(kw, per_instrument_graph=not per))
    for x in o:
        part(ctx, x, tr, va, other=True)
    if max(x.x.shape[0] for x in s) >= 4:
        ctx.seen([x.tolist() for x in [y.y for y in s]], tr, va)
        ctx.show("%d graphs, train %s val %s, %s" % (len(s), tr, va, "per track" if per else "merged"))
