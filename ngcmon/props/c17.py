import collections
import itertools
from .. import graphs
from ..core import Skip, Violation
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
from ..build import MidiNote, MidiNoteSequence, MidiNoteSequences, MidiInstrumentInfo
from .c16 import check_features

CASES = {"quick": 11000, "thorough": 237000}
RULE = ("random tracks of recurring chords are built one by one (exact simulation of the transitions) or merged into one graph (counts per pair "
        "of chords); edges, directions, weights and the neighbour queries are compared with the play order. Non-trivial: at least 3 "
        "chords played; distinct by notes and mode.")
REQUIRED_EVENTS = ["single_builds", "merged_builds", "edges_compared", "self_transitions", "repeated_transitions", "back_transitions",
                   "merged_tracks", "shared_chords", "queries", "continued_builds", "weights_over_130", "oversized_walks", "many_chords"]
ASSUMPTIONS = ["for exact transitions chords fit the features; of larger ones the parts are claimed to play one after the other", "which chord of the graph built so far a merged track is joined to is not claimed"]


def chords(notes, single_out=False):
    g, fragile = graphs.groups(notes, single_out)
    return [frozenset(n[1] for n in x) for _, x in g], g, fragile


def to_edges(b, g):
    h = b.hash_to_notes
    return {(frozenset(h[u]), frozenset(h[v])): d["weight"] for u, v, d in g.edges(data=True)}


def show_e(e):
    return sorted((sorted(u), sorted(v), w) for (u, v), w in e.items())


def queries(ctx, g, played, want):
    r = ctx.rng
    known = sorted(set(played), key=sorted)
    for _ in range(4):
        u, v = r.choice(known), r.choice(known)
        lu, lv = list(u), list(v)
        r.shuffle(lu)
        as_notes = r.random() < .4
        qu = [MidiNote(p, 0, 1) for p in lu] if as_notes else lu
        qv = [MidiNote(p, 0, 1) for p in lv] if as_notes else lv
        ctx.eq(MidiGraphBuilder.is_connected(g, qu, qv), (v, u) in want, "connected when there is a transition", u=sorted(u), v=sorted(v))
        ctx.eq(MidiGraphBuilder.is_connected(g, hash(u), hash(v)), (v, u) in want, "connected when there is a transition (by hash)")
        ctx.eq(MidiGraphBuilder.get_edge_connected(g, lu, lv), (hash(u), hash(v)) if (u, v) in want else None, "the edge of two chords")
        ctx.eq(set(MidiGraphBuilder.neighbors(g, qu)), {hash(b) for a, b in want if a == u}, "neighbours of a chord")
        ctx.ev("queries")
    ctx.eq(MidiGraphBuilder.get_edge_connected(g, [0, 1, 2, 3, 4, 5, 6], lu), None, "no edge for a chord that was not played")


def single(ctx):
    r = ctx.rng
    F = r.choice([12, 12, 12, 4, 5, 16, 64, 127, 128])
    single_out = r.random() < .25
    s = graphs.track(r, r.randint(0, 127), zero_vel=r.random() < .2, n_groups=r.randint(1, 25), max_chord=r.choice([4, 4, 4, 12]))
    if r.random() < .05:                     # a long piece of few chords: weights in the hundreds
        gap = r.choice([.25, .5, 1.0])
        vocab = [frozenset(r.sample(range(40, 60), r.randint(1, 3))) for _ in range(r.randint(1, 4))]
        if r.random() < .4:                  # many chords, some of them around one
            base = r.randint(0, 60)
            vocab = list({frozenset(r.sample(range(base, base + 60), r.randint(1, 3))) for _ in range(r.randint(100, 500))})
            ctx.ev("many_chords")
        play = [r.choice(vocab) for _ in range(r.randint(200, 900))]
        if len(vocab) > 4 and r.random() < .4:
            play = [x for c in play for x in (vocab[0], c)]
        elif len(vocab) > 4:
            play = vocab + play
        if r.random() < .3:
            play = vocab * (1000 // len(vocab))
        s = MidiNoteSequence(notes=[MidiNote(p, i * gap, i * gap + gap / 2, velocity=r.randint(1, 127))
                                    for i, c in enumerate(play) for p in c], instrument=0)
    notes = graphs.plain(s)
    played, grp, fragile = chords(notes, single_out)
    if played and max(map(len, played)) > F:
        F = 128
    b = MidiGraphBuilder()
    if r.random() < .3:                      # a used builder builds the same graph
        b.build_sequence(graphs.track(r, 3))
    vel = r.random() < .3
    ctx.note(notes=sorted(notes), F=F, single_out=single_out)
    g = b.build_sequence(s, feature_vec_size=F, filter_single_notes=single_out, is_include_velocity=vel)
    ctx.ev("single_builds")
    w = graphs.Walk()
    for c in played:
        w.step(c)
    if len(played) > len(set(zip(played, played[1:]))) + 1:
        ctx.ev("repeated_transitions")
    for a, c in zip(played, played[1:]):
        if a == c:
            ctx.ev("self_transitions")
        if (c, a) in w.edges and a != c:
            ctx.ev("back_transitions")

    def compare():
        got = to_edges(b, g)
        ctx.eq(show_e(got), show_e(w.edges), "the transitions between chords", played=[sorted(c) for c in played])
        ctx.eq([frozenset(b.hash_to_notes[n]) for n in g.nodes], w.nodes, "chords in the order they first play",
               played=[sorted(c) for c in played])
        ctx.ev("edges_compared", len(got))
        if played:
            queries(ctx, g, played, w.edges)
        if any(w > 130 for (u, v), w in got.items() if u != v):
            ctx.ev("weights_over_130")
    guard(ctx, fragile, compare)
    if len(played) >= 3:
        ctx.seen(sorted(notes), F, single_out)
        ctx.show("played %s" % [sorted(c) for c in played])


def guard(ctx, fragile, fn):
    try:
        fn()
    except Violation:
        if fragile:
            ctx.ev("set_aside")
            raise Skip("rounding boundary")
        raise


def oversized(ctx):
    """chords larger than the features come apart: their parts play one after the other, in an order that is not claimed"""
    r = ctx.rng
    F = r.choice([1, 2, 3, 3, 5, 12])
    s = graphs.track(r, r.randint(0, 127), n_groups=r.randint(1, 20), max_chord=r.choice([3 * F, 30]), texture="chords")
    if r.random() < .5:
        base = r.randint(0, 60)
        v = [frozenset(r.sample(range(base, base + 6 * F), r.randint(1, min(60, 5 * F)))) for _ in range(r.randint(1, 4))]
        s = graphs.track(r, 5, n_groups=r.randint(1, 20), vocab=v, texture="chords")
    notes = graphs.plain(s)
    played, grp, fragile = chords(notes)
    if not played or max(map(len, played)) <= F:
        raise Skip("nothing oversized")
    ctx.note(notes=sorted(notes), F=F)
    b = MidiGraphBuilder()
    g = b.build_sequence(s, feature_vec_size=F, is_include_velocity=r.random() < .3)
    parts = sum(-(-len(c) // F) for c in played)

    def compare():
        e = to_edges(b, g)
        w = dict(edges=show_e(e), played=[sorted(c) for c in played], F=F)
        ctx.eq(sum(e.values()), parts, "each part of a chord is one step", **w)
        deg = collections.Counter({frozenset(b.hash_to_notes[n]): 0 for n in g.nodes})
        first = played[0]
        loops = [u for (u, v) in e if u == v and u <= first]
        ctx.check(bool(loops), "the first part starts the walk", **w)
        near = collections.defaultdict(set)
        for (u, v), x in e.items():
            deg[u] += x
            deg[v] += x
            near[u].add(v)
            near[v].add(u)
        odd = [c for c in deg if deg[c] % 2]
        ctx.check(len(odd) in (0, 2), "the transitions are those of one walk", odd=[sorted(c) for c in odd], **w)
        todo, done = [next(iter(deg))], set()
        while todo:
            c = todo.pop()
            if c not in done:
                done.add(c)
                todo += near[c]
        ctx.eq(len(done), len(deg), "the walk visits every chord", **w)
        for c in played:
            k = -(-len(c) // F)
            own = [n for n in deg if n <= c]
            ctx.check(frozenset().union(*own) == c and len(own) >= k, "the parts of a chord are nodes", chord=sorted(c), **w)
        ctx.ev("oversized_walks")
    guard(ctx, fragile, compare)
    if len(played) >= 3:
        ctx.seen(sorted(notes), F)


def merged(ctx):
    r = ctx.rng
    m = graphs.score(r, r.randint(1, 4), n_groups=r.randint(1, 10))
    if r.random() < .015:                    # several tracks of hundreds of chords
        n = r.randint(100, 400)
        v = [frozenset(r.sample(range(20, 90), r.randint(1, 3))) for _ in range(n)]
        m = MidiNoteSequences(midi_seq=[MidiNoteSequence(notes=[MidiNote(p, i * .5, i * .5 + .25, program=k, instrument=k) for i in range(r.randint(n, 2 * n))
                                                                for p in r.choice(v)], instrument=MidiInstrumentInfo(k, "t", False)) for k in r.sample(range(128), r.randint(2, 4))])
        ctx.ev("many_chords")
    ts = graphs.playing(m)
    info = [chords(graphs.plain(t)) for t in ts]
    fragile = any(x[2] for x in info)
    info = [x for x in info if x[0]]
    big = max([len(c) for x in info for c in x[0]], default=0)
    F = 12 if big <= 12 else 128
    vel = r.random() < .4
    ctx.note(notes=graphs.text(m), F=F)
    b = MidiGraphBuilder(m, is_instrument_graph=False)
    own_g = r.random() < .3
    if own_g and ts:
        g = None
        for t in ts:
            g = b.build_sequence(t, feature_vec_size=F, is_include_velocity=vel, g=g if g is not None and len(g) else None)
        ctx.ev("continued_builds")
        if not info:
            ctx.eq(len(g), 0, "no chords, no graph")
    else:
        b.build(is_per_instrument=False, feature_vec_size=F, is_include_velocity=vel)
        ctx.eq((len(b.sub_graphs), len(b.pyg_data)), (int(bool(info)),) * 2, "merging gives one graph")
        g = b.sub_graphs[0] if info else None
    ctx.ev("merged_builds")
    if not info:
        return

    def compare():
        got = to_edges(b, g)
        ctx.eq({frozenset(b.hash_to_notes[n]) for n in g.nodes}, {c for x in info for c in x[0]}, "the nodes are the chords of all tracks")
        for (u, v) in got:
            ctx.check(u == v or (v, u) not in got, "one edge between two chords", u=sorted(u), v=sorted(v))
        left = collections.Counter()
        for (u, v), w in got.items():
            left[frozenset([u, v])] += w
        left[frozenset([info[0][0][0]])] -= 1
        for x in info:
            for a, c in zip(x[0], x[0][1:]):
                left[frozenset([a, c])] -= 1
        ctx.check(all(v >= 0 for v in left.values()), "every transition of every track counts", edges=show_e(got),
                  played=[[sorted(c) for c in x[0]] for x in info])
        units = [k for k, v in left.items() for _ in range(int(v))]
        ctx.eq(len(units), len(info) - 1, "one more transition joins each further track", edges=show_e(got))
        firsts = [x[0][0] for x in info[1:]]
        ctx.check(any(all(f in u for f, u in zip(firsts, p)) for p in itertools.permutations(units)),
                  "each further track is joined at its first chord", firsts=[sorted(f) for f in firsts],
                  units=[[sorted(c) for c in u] for u in units])
        ctx.check(all(w == int(w) and w >= 1 for w in got.values()), "weights count")
        ctx.ev("edges_compared", len(got))
        occ = {}
        for x in info:
            for _, ns in x[1]:
                c = frozenset(n[1] for n in ns)
                occ.setdefault(c, []).append((c, graphs.chord_velocity(c, ns)))
        check_features(ctx, {frozenset(b.hash_to_notes[n]): d for n, d in g.nodes(data=True)}, occ, F, vel)
        queries(ctx, g, [c for x in info for c in x[0]], got)
    guard(ctx, fragile, compare)
    if len(info) > 1:
        ctx.ev("merged_tracks")
        if len({c for x in info for c in x[0]}) < sum(len(set(x[0])) for x in info):
            ctx.ev("shared_chords")
    if sum(len(x[0]) for x in info) >= 3:
        ctx.seen(graphs.text(m), F)
        ctx.show("merged %s" % [[sorted(c) for c in x[0]] for x in info])


def case(ctx):
    x = ctx.rng.random()
    (single if x < .55 else merged if x < .92 else oversized)(ctx)
