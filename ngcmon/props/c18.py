import torch
from .. import graphs
from ..core import Skip, Violation, many
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder, NodeAttributeType
from .c17 import chords, to_edges

CASES = {"quick": 12300, "thorough": 265000}
RULE = ("one builder, 1..4 builds of scores of several tracks (drum, single-note, empty ones among them), per track or merged, mixed with partial "
        "and interleaved consumption through graphs() and iteration; each emitted graph is compared with the transition graph of its track. "
        "Non-trivial: at least 2 graphs emitted; distinct by scores and history.")
REQUIRED_EVENTS = ["doubled_tracks", "emitted", "drum_tracks_skipped", "single_note_tracks_skipped", "empty_tracks_skipped", "partial_consumptions", "interleaved_consumptions",
                   "second_builds", "merged_builds", "per_track_builds", "labels_skipped", "sanity_checked", "refusals_seen", "data_compared", "one_hot_nodes", "many_tracks"]
ASSUMPTIONS = ["merged graphs are compared with the merged network the builder shows; their transitions are watched by C17"]


def data_view(b, d):
    """what a graph object says, in terms of chords"""
    h = [frozenset(b.hash_to_notes[x]) for x in d.node_hash]
    e = {}
    for i, (u, v) in enumerate(d.edge_index.t().tolist()):
        e[(h[u], h[v])] = d.edge_attr[i].tolist()
    return h, e


def compare(ctx, b, d, want, F, vel, skip_label):
    h, e = data_view(b, d)
    n = len(h)
    w = {"chords": [sorted(c) for c in h]}
    ctx.eq(len(set(h)), n, "each chord is one node", **w)
    ctx.eq(h, want["nodes"], "the chords of the emitted graph", **w)
    ctx.eq({k: [x] for k, x in want["edges"].items()}, e, "the transitions of the emitted graph", **w)
    ctx.eq(len(e), d.edge_index.shape[1], "each edge is there once")
    ctx.eq(tuple(d.edge_attr.shape), (len(e), 1), "one weight per edge")
    ctx.eq(tuple(d.x.shape), (n, 2, F) if vel else (n, F), "shape of the features")
    x = d.x[:, 0] if vel else d.x
    for i, c in enumerate(h):
        row = x[i].tolist()
        ctx.eq((sorted(row[:len(c)]), row[len(c):]), (sorted(map(float, c)), [0.0] * (F - len(c))),
               "row %d of the features is the chord of node %d" % (i, i), **w)
    idx = b.hash_to_index
    ix = [idx[x] for x in d.node_hash]
    ctx.eq((d.y.dtype, d.y.tolist()), (torch.int64, ix), "the target of a node is the index of its hash", **w)
    ctx.eq(None if skip_label else ix, d.to_dict().get("label"), "the label list, or none when skipped", **w)
    ctx.eq(list(d.node_hash), [hash(c) for c in h], "the hash list")
    ctx.ev("data_compared")


def refusals(ctx):
    r = ctx.rng
    m = graphs.score(r, 1, drums=0, n_groups=4, max_chord=2)
    seq = m[list(m)[0]]
    b = MidiGraphBuilder(None)
    NAN = float("nan")
    bad = [(TypeError, lambda v: MidiGraphBuilder(v), [3, "a.mid", [m], (x for x in [m]), object(), {"a": m}]),
           (ValueError, lambda v: MidiGraphBuilder(None, tolerance=v), [-1, -.01, "0.2", None, [1]]),
           (ValueError, lambda v: MidiGraphBuilder(None, feature_size=v), [0, -1, 128, 12.0, "12"]),
           (TypeError, lambda v: b.build(m, default_trim_time=v), [None, 3.0, "3"]),
           (TypeError, lambda v: b.build(m, feature_vec_size=v), [None, 12.0, "12"]),
           (TypeError, lambda v: b.build(m, velocity_num_buckets=v), [None, 8.0, "8"]),
           (TypeError, lambda v: b.build_sequence(v), [None, m, [], list(seq.notes), 3]),
           (ValueError, lambda v: b.build_sequence(seq, feature_vec_size=v), [0, -1, 129, 12.0, "12"]),
           (ValueError, lambda v: b.build_sequence(seq, velocity_num_buckets=v), [0, -8, 8.0, "8"]),
           (ValueError, lambda v: b.build_sequence(seq, node_attr_type=v), [None, 1, "Tensor"]),
           (ValueError, lambda v: b.build_sequence(seq, filter_single_notes=v), [None, 1, "yes"]),
           (ValueError, lambda v: b.build_sequence(seq, tolerance=v), [-.1, 1.01, "0.2", None]),
           (ValueError, lambda v: b.build_sequence(seq, is_include_velocity=v), [1, "yes"])]
    before = graphs.text(m)
    for exc, f, values in r.sample(bad, 4):
        v = r.choice(values)
        ctx.raises(exc, lambda: f(v), "refusal", value=repr(v), call=bad.index((exc, f, values)))
        ctx.ev("refusals_seen")
    ctx.eq((b.pyg_data or [], b.sub_graphs or [], b.hash_to_notes, b.hash_to_index, graphs.text(m)), ([], [], {}, {}, before), "a refused build leaves nothing behind")
    for F in (1, 127):
        ctx.eq(MidiGraphBuilder(None, feature_size=F).feature_size, F, "a feature size within limits")


def onehot(ctx):
    """one-hot features, chords of one size"""
    r = ctx.rng
    n = r.choice([1, 2, 3, 4, r.randint(5, 12)])
    base = r.choice([0, 128 - n - 3, r.randint(0, 100)])
    vocab = [frozenset(r.sample(range(base, min(128, base + n + 3)), n)) for _ in range(r.randint(1, 6))]
    m = graphs.score(r, 1, drums=0, n_groups=r.randint(2, 8), max_chord=n)
    k = list(m)[0]
    t = graphs.track(r, k, n_groups=r.randint(2, 8), vocab=vocab, texture="chords")
    m[k].notes = t.notes
    vel = r.random() < .5
    grp, f = graphs.groups(graphs.plain(m[k]), False)
    if f or {len({x[1] for x in g}) for _, g in grp} != {n}:
        raise Skip("chords of several sizes")
    ctx.note(score=graphs.text(m), velocity=vel)
    b = MidiGraphBuilder(None)
    b.build(m, node_attr_type=NodeAttributeType.OneHotTensor, is_include_velocity=vel)
    d = next(b.graphs())
    ctx.eq(len(d.node_hash), len({frozenset(x[1] for x in g) for _, g in grp}), "one node for each chord")
    x = d.x.tolist()
    for row, h in zip(x, d.node_hash):
        c = b.hash_to_notes[h]
        hot = [[i for i, v in enumerate(p[:-1] if vel else p) if v] for p in row]
        ctx.check(sorted(hot) == [[p] for p in sorted(c)] and all(v in (0, 1) for p in row for v in (p[:-1] if vel else p)),
                  "the features of a node name its pitches", chord=sorted(c), rows=hot)
        if vel:
            got = {i[0]: p[-1] for i, p in zip(hot, row)}
            occ = [graphs.chord_velocity(c, g) for _, g in grp if {x[1] for x in g} == set(c)]
            ctx.check(any(all(abs(got[p] - v[p]) < 1e-6 for p in v) for v in occ), "the last column holds the velocities of one occurrence", got=got, occurrences=occ)
        ctx.ev("one_hot_nodes")


def case(ctx):
    r = ctx.rng
    k = r.random()
    if k < .06:
        return refusals(ctx)
    if k < .12:
        return onehot(ctx)
    F = r.choice([12, 12, 40, 128])
    q = []                     # graphs waiting
    hist = []
    frag = False
    b = MidiGraphBuilder(feature_size=12)
    gens = []
    emitted = 0
    ctx.note(F=F)
    if r.random() < .3:
        ctx.raises(ValueError, lambda: list(b.graphs()), "nothing was built")
        ctx.raises(ValueError, lambda: b.build(), "nothing to build")
    for i in range(r.randint(1, 4)):
        nt = many(r, 1, 4, r.choice([20, 70]), .004)
        if nt > 12:
            ctx.ev("many_tracks")
        m = graphs.score(r, nt, drums=.2 if nt < 12 else .05, n_groups=r.randint(0, 8) if nt < 12 else 3, max_chord=3)
        k0 = list(m)
        if r.random() < .3:
            m[k0[0]].notes = m[k0[0]].notes[:1]
        if r.random() < .15:
            m[k0[-1]].notes = []
        if len(k0) > 1 and r.random() < .1:
            # one instrument doubles another
            m[k0[1]].notes = [n.make_copy() for n in m[k0[0]].notes]
            ctx.ev("doubled_tracks")
        before = graphs.text(m)
        merged = r.random() < .3
        vel = r.random() < .3
        single_out = r.random() < .15
        new = []
        for t in graphs.playing(m):
            c, grp, f = chords(graphs.plain(t), single_out)
            frag |= f
            if c and max(map(len, c)) > F:
                raise Skip("oversized chord")
            w = graphs.Walk()
            for x in c:
                w.step(x)
            if c:
                new.append({"nodes": w.nodes, "edges": w.edges, "vel": vel})
            else:
                ctx.ev("empty_tracks_skipped")
        for k in m:
            if m[k].instrument.is_drum:
                ctx.ev("drum_tracks_skipped")
            elif len(m[k].notes) == 1:
                ctx.ev("single_note_tracks_skipped")
        kw = dict(feature_vec_size=F, is_include_velocity=vel, is_per_instrument=not merged, filter_single_notes=single_out)
        if r.random() < .3:
            b2 = MidiGraphBuilder(m, feature_size=12)     # the score may be given at construction
            b2.build(**kw)
            ctx.eq(len(b2.pyg_data), min(1, len(new)) if merged else len(new), "number of graphs") if not frag else None
        b.build(m, **kw)
        if i:
            ctx.ev("second_builds")
        ctx.ev("merged_builds" if merged else "per_track_builds")
        hist.append((before, kw))
        ctx.eq(graphs.text(m), before, "building leaves the score as it was")
        if merged and new:
            g = b.sub_graphs[-1]
            e = to_edges(b, g)
            new = [{"nodes": [frozenset(b.hash_to_notes[n]) for n in g.nodes], "edges": e, "vel": vel}]
        q += new
        try:
            ctx.eq((len(b.pyg_data), len(b.sub_graphs)), (len(q), len(q)), "graphs waiting to be emitted", history=hist)
            # some of the graphs are taken, by one or several readers
            if b.hash_to_notes:
                take = r.choice([0, 1, len(q), r.randint(0, len(q))])
                while take and q:
                    take -= 1
                    if not gens or r.random() < .4:
                        skip, sane = r.random() < .3, r.random() < .3
                        it = iter(b) if r.random() < .2 else None
                        if it is not None:
                            skip = sane = False
                        gens.append((it or b.graphs(skip_label=skip, is_sanity_check=sane), skip))
                        ctx.ev("labels_skipped", skip)
                        ctx.ev("sanity_checked", sane)
                        if len(gens) > 1:
                            ctx.ev("interleaved_consumptions")
                    gen, skip = r.choice(gens)
                    try:
                        d = next(gen)
                    except StopIteration:
                        gens.remove((gen, skip))          # a finished reader stays finished
                        take += 1
                        continue
                    want = q.pop(0)
                    compare(ctx, b, d, want, F, want["vel"], skip)
                    ctx.ev("emitted")
                    emitted += 1
                if q and emitted:
                    ctx.ev("partial_consumptions")
                ctx.eq(len(b.pyg_data), len(q), "a graph leaves the builder when it is emitted")
        except Violation:
            if frag:
                raise Skip("rounding boundary")
            raise
    if b.hash_to_notes:
        try:
            rest = list(b.graphs())
            ctx.eq(len(rest), len(q), "the rest is emitted, each graph once")
            for d, want in zip(rest, q):
                compare(ctx, b, d, want, F, want["vel"], False)
                ctx.ev("emitted")
                emitted += 1
            ctx.eq((list(b.graphs()), b.pyg_data, b.sub_graphs), ([], [], []), "nothing is left")
        except Violation:
            if frag:
                raise Skip("rounding boundary")
            raise
    else:
        ctx.raises(ValueError, lambda: list(b.graphs()), "no chord was found")
    if emitted >= 2:
        ctx.seen(hist)
        ctx.show("%d builds, %d graphs, F=%d" % (len(hist), emitted, F))
