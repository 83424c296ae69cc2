import itertools
import torch
from .. import graphs
from ..core import Skip, Violation
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder, NodeAttributeType

CASES = {"quick": 27400, "thorough": 589000}
RULE = ("random tracks of recurring chords (aligned, strummed, free, doubled notes, silent notes, up to 40 pitches at once) are built into a graph, "
        "with and without velocity, with and without single notes, feature sizes 1..128; nodes, their features, labels and hashes are compared "
        "with the chords found by the oracle. Non-trivial: at least 2 nodes; distinct by notes and parameters.")
REQUIRED_EVENTS = ["nodes_compared", "chords_of_several_notes", "oversized_chords", "velocity_rows", "single_notes_filtered", "empty_graphs",
                   "repeated_chords", "short_tracks", "silent_notes", "doubled_pitches", "huge_chords"]
ASSUMPTIONS = ["onsets within 1e-6 of a rounding boundary are set aside when they disagree"]


def cover(group, cands, F):
    """is the group a disjoint union of candidate chords, all of size F but at most one smaller?"""
    group = frozenset(group)
    cands = [c for c in cands if c <= group]

    def rec(left, small):
        if not left:
            return []
        x = min(left)
        for c in cands:
            if x in c and c <= left and (len(c) == F or not small and len(c) == len(group) % F):
                got = rec(left - c, small or len(c) != F)
                if got is not None:
                    return [c] + got
        return None
    return rec(group, False)


def check_features(ctx, nodes, occ, F, vel, **w):
    """nodes: {chord: attribute dict}; occ: {chord: [(pitches of the group, velocity by pitch)]}"""
    for c, d in nodes.items():
        x = d["attr"]
        ctx.eq(tuple(x.shape), (2, F) if vel else (F,), "shape of the features of a node", chord=sorted(c))
        row = (x[0] if vel else x).tolist()
        n = len(c)
        ctx.eq((sorted(row[:n]), row[n:]), (sorted(float(p) for p in c), [0.0] * (F - n)),
               "the features of a node are its pitches, padded with zeros", chord=sorted(c), **w)
        if vel:
            got = dict(zip(row[:n], x[1].tolist()[:n]))
            ctx.check(any(all(abs(got[p] - v[p]) < 1e-6 for p in v) for _, v in occ[c]), "the second row holds the velocity of each pitch of one "
                      "occurrence of the chord, rescaled", chord=sorted(c), got=got, occurrences=[v for _, v in occ[c]], **w)
            ctx.eq(x[1].tolist()[n:], [0.0] * (F - n), "the rest of the second row is zero")
            ctx.ev("velocity_rows")
        h = hash(frozenset(c))
        ctx.check(d["label"] == h or any(d["label"] == frozenset(graphs.name(p) for p in g) for g, _ in occ[c]),
                  "the label of a node is its hash or the names of its notes", chord=sorted(c), label=d["label"], **w)
        ctx.ev("nodes_compared")
        if n > 1:
            ctx.ev("chords_of_several_notes")


def case(ctx):
    r = ctx.rng
    big = r.random() < .15
    F = r.choice([12, 12, 12, 4, 5, 8, 64, 127, 128] if not big else [1, 2, 3, 4, 12])
    vel = r.random() < .5
    single_out = r.random() < .3
    huge = r.random() < .02         # more notes at once than hands can play
    if huge:
        F = r.choice([64, 100, 127, 128])
        vocab = [frozenset(r.sample(range(128), r.randint(40, 128))) for _ in range(r.randint(1, 3))]
        ctx.ev("huge_chords")
        big = False
    s = graphs.track(r, r.randint(0, 127), texture="chords", vocab=vocab, n_groups=r.randint(1, 4), zero_vel=r.random() < .3) if huge else \
        graphs.track(r, r.randint(0, 127), max_chord=40 if big else 4, zero_vel=r.random() < .3, texture="chords" if big else None,
                     n_groups=r.randint(1, 5) if big else None)
    if r.random() < .1:
        s.notes = s.notes[:r.randint(0, 3)]
    notes = graphs.plain(s)
    grp, fragile = graphs.groups(notes, single_out)
    ctx.note(notes=sorted(notes), F=F, velocity=vel, single_out=single_out)
    b = MidiGraphBuilder(feature_size=12)
    before = [repr(n) for n in s.notes]
    g = b.build_sequence(s, feature_vec_size=F, is_include_velocity=vel, filter_single_notes=single_out)
    ctx.eq([repr(n) for n in s.notes], before, "building leaves the track as it was")
    if any(n[2] == 0 for n in notes):
        ctx.ev("silent_notes")
    if single_out:
        ctx.ev("single_notes_filtered")
    if len(notes) < 3:
        ctx.ev("short_tracks")
    if not grp:
        ctx.ev("empty_graphs")
        ctx.eq((len(g.nodes), len(g.edges)), (0, 0), "no chords, no graph")
        return
    try:
        compare(ctx, b, g, grp, F, vel)
    except Violation:
        if fragile:
            ctx.ev("set_aside")
            raise Skip("rounding boundary")
        raise
    wanted = [frozenset(n[1] for n in x) for _, x in grp]
    if len(wanted) > len(set(wanted)):
        ctx.ev("repeated_chords")
    if len(g.nodes) >= 2:
        ctx.seen(sorted(notes), F, vel, single_out)
        ctx.show("F=%d velocity=%s filter=%s chords=%s" % (F, vel, single_out, [sorted(c) for c in wanted]))


def compare(ctx, b, g, grp, F, vel):
    nodes = {}
    for n, d in g.nodes(data=True):
        ctx.eq(set(d), {"attr", "label", "node_hash"}, "attributes of a node")
        ctx.eq(d["node_hash"], n, "the hash of a node is the node")
        c = b.hash_to_notes.get(n)
        ctx.check(c is not None, "every node has its notes in the mapping", node=n)
        ctx.eq(hash(frozenset(c)), n, "a node is the hash of its set of pitches", chord=sorted(c))
        nodes[frozenset(c)] = d
    occ = {}
    expected = set()
    wanted = [frozenset(n[1] for n in x) for _, x in grp]
    for (k, x), c in zip(grp, wanted):
        if len(x) > len(c):
            ctx.ev("doubled_pitches")
        if len(c) > F:
            ctx.ev("oversized_chords")
            parts = cover(c, set(nodes), F)
            if parts is None:
                ctx.check(False, "a chord larger than the features is split into nodes of full size", chord=sorted(c), F=F,
                          nodes=[sorted(v) for v in nodes])
            parts = [v for v in nodes if v <= c]          # any of them may be the part
            must = cover(c, set(nodes), F)
        else:
            parts = must = [c]
        expected |= set(must)
        for p in parts:
            occ.setdefault(p, []).append((c, graphs.chord_velocity(p, x)))
    has_big = any(len(c) > F for c in wanted)
    got = set(nodes)
    ok = got == expected if not has_big else expected <= got and all(any(v <= c for c in wanted) for v in got)
    ctx.check(ok, "the nodes are the chords of the track", got=[sorted(v) for v in got], want=[sorted(v) for v in expected],
              groups=[(k, sorted(n[1] for n in x)) for k, x in grp])
    ctx.check(all(1 <= len(v) <= F for v in got), "no node holds more pitches than features")
    if has_big:
        n_parts = sum(-(-len(c) // F) for c in wanted)
        ctx.close(sum(d["weight"] for _, _, d in g.edges(data=True)), n_parts, "one weight per played part of a chord")
    check_features(ctx, nodes, occ, F, vel)
