import json
import os
import subprocess
import sys
from .. import graphs
from ..core import Skip, Violation
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
from ..build import MidiNote, MidiNoteSequence
from .c17 import chords

CASES = {"quick": 5700, "thorough": 122000}
CHILDREN = {"quick": 8, "thorough": 64}
RULE = ("one builder builds 1..5 scores or single tracks; after each build index, hash and note mappings are compared with the order in which chords "
        "first played; the given dictionaries are damaged on purpose in between. The first cases repeat a batch of 40 builds in processes with "
        "other hash seeds. Non-trivial: at least 3 chords indexed; distinct by the scores.")
REQUIRED_EVENTS = ["chords_indexed", "indices_kept", "damaged_copies", "oversized_builds", "other_processes", "processes_compared",
                   "targets_compared", "track_builds", "many_chords", "score_builds"]
ASSUMPTIONS = ["the order among parts of a chord larger than the features is not claimed"]


def first_order(m_tracks, seen, single_out):
    frag = False
    for t in m_tracks:
        c, _, f = chords(graphs.plain(t), single_out)
        frag |= f
        for x in c:
            if x not in seen:
                seen.append(x)
    return frag


def digest(seed):
    """everything a build says that must not depend on the process"""
    import random
    r = random.Random("hash/%d" % seed)
    m = graphs.score(r, r.randint(1, 3), n_groups=r.randint(1, 8), max_chord=6)
    b = MidiGraphBuilder()
    F = r.choice([12, 3])
    b.build(m, feature_vec_size=F, is_include_velocity=seed % 2 == 1, is_per_instrument=seed % 3 != 0)
    if not b.hash_to_notes:
        return []
    return [[[h, sorted(p), b.hash_to_index[h]] for h, p in b.hash_to_notes.items()],
            [[d.node_hash, d.y.tolist(), d.label, d.x.tolist(), d.edge_index.tolist(), d.edge_attr.tolist()] for d in b.graphs()]]


def other_process(ctx):
    r = ctx.rng
    base = r.randint(0, 10 ** 9)
    n = 40
    env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 4294967295)))
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "ngcmon.props.c19", str(base), str(n)], env=env, capture_output=True,
                       timeout=200, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    ctx.check(p.returncode == 0, "the other process builds, too", stderr=p.stderr.decode()[-2000:])
    got = json.loads(p.stdout.decode().strip().splitlines()[-1])
    ctx.ev("other_processes")
    for i in range(n):
        ctx.eq(got[i], json.loads(json.dumps(digest(base + i))), "a build says the same in every process", hashseed=env["PYTHONHASHSEED"])
        ctx.ev("processes_compared")
        ctx.seen(base + i)


def verify(ctx, b, seen, old, exact, **w):
    hn, nh, hi, ih = b.hash_to_notes, b.notes_to_hash, b.hash_to_index, b.index_to_hash
    ctx.eq({h: frozenset(p) for h, p in hn.items()}, {hash(frozenset(p)): frozenset(p) for p in nh}, "hash and notes map to each other", **w)
    ctx.eq({frozenset(p): h for p, h in nh.items()}, {frozenset(p): h for h, p in hn.items()}, "notes and hash map to each other", **w)
    ctx.eq(hi, {h: i for i, h in ih.items()}, "hash and index map to each other", **w)
    ctx.eq(set(hi), set(hn), "every known chord has an index", **w)
    ctx.eq(sorted(ih), list(range(1, len(hn) + 1)), "indices are 1..n", **w)
    for h, i in old.items():
        ctx.eq(hi.get(h), i, "an index given once stays", **w)
        ctx.ev("indices_kept")
    if exact:
        ctx.eq([sorted(hn[ih[i]]) for i in sorted(ih)], [sorted(c) for c in seen], "indices follow the order in which chords first play", **w)
    ctx.ev("chords_indexed", len(hi))
    return hi


def case(ctx):
    if ctx.case < CHILDREN[ctx.tier]:
        return other_process(ctx)
    r = ctx.rng
    b = MidiGraphBuilder(feature_size=12)
    seen, old, frag, exact = [], {}, False, True
    hist = []
    vocab = [frozenset(r.sample(range(50, 66), r.randint(1, 4))) for _ in range(r.randint(2, 9))]
    for _ in range(r.randint(1, 5)):
        single_out = r.random() < .15
        F = 128 if r.random() < .85 else r.choice([1, 2, 3])
        merged = r.random() < .3
        exact &= F == 128
        if F != 128:
            ctx.ev("oversized_builds")
        if r.random() < .3:
            t = graphs.track(r, 5, vocab=vocab if r.random() < .7 else None)
            if r.random() < .01:
                big = [frozenset(r.sample(range(30, 90), r.randint(1, 4))) for _ in range(r.choice([r.randint(260, 600), r.randint(260, 600), r.randint(1100, 2700)]))]
                t = MidiNoteSequence(notes=[MidiNote(p, i * .5, i * .5 + .4) for i, c in enumerate(big) for p in c], instrument=5)
                ctx.ev("many_chords")
            frag |= first_order([t], seen, single_out)
            hist.append((sorted(graphs.plain(t)), F, single_out))
            b.build_sequence(t, feature_vec_size=F, filter_single_notes=single_out)
            ctx.ev("track_builds")
        else:
            m = graphs.score(r, r.randint(1, 3), n_groups=r.randint(0, 8))
            frag |= first_order(graphs.playing(m), seen, single_out)
            hist.append((graphs.text(m), F, merged, single_out))
            b.build(m, feature_vec_size=F, is_per_instrument=not merged, filter_single_notes=single_out)
            ctx.ev("score_builds")
        ctx.note(history=hist)
        old = verify(ctx, b, seen, old, exact and not frag, history=hist[-2:])
        if r.random() < .5:
            for d in (b.hash_to_notes, b.notes_to_hash, b.hash_to_index, b.index_to_hash):
                r.choice([d.clear, lambda: d.update({1: 1, 2: 5}), d.popitem if d else d.clear])()
            ctx.ev("damaged_copies")
            verify(ctx, b, seen, old, exact and not frag, history=hist[-2:])
        if b.hash_to_notes and r.random() < .5:
            for d in b.graphs(is_sanity_check=True):
                hn, ih = b.hash_to_notes, b.index_to_hash
                x = d.x if d.x.dim() == 2 else d.x[:, 0]
                for i, y in enumerate(d.y.tolist()):
                    ctx.eq({p for p in x[i].tolist() if p} | ({0.0} if 0 in hn[ih[y]] else set()), set(map(float, hn[ih[y]])),
                           "the index of a node leads to its pitches")
                    ctx.ev("targets_compared")
    if len(old) >= 3:
        ctx.seen(hist)
        ctx.show("%d builds, %d chords" % (len(hist), len(old)))


if __name__ == "__main__":
    base, n = int(sys.argv[1]), int(sys.argv[2])
    print(json.dumps([digest(base + i) for i in range(n)]))
