import numpy as np
from .. import build
from ..core import many
from ..common import note_full
from ..build import MidiNoteSequences, MidiNoteSequence, MidiInstrumentInfo

CASES = {"quick": 27500, "thorough": 592000}
RULE = ("two scores alive at once, started empty or from a list of tracks (repeated instruments merge), then random histories of fetching, creating, "
        "indexing, assigning and filling tracks, and of refused calls; after each step tracks, order, counts, lengths, instruments and the list "
        "of all events are compared with a model. Non-trivial: at least 3 tracks and 8 steps; distinct by the history.")
OPS = ["get_new", "get_old", "create_new", "create_old", "index_old", "index_new", "assign_seq", "assign_list", "set_seq", "set_list", "fill",
       "bad_create", "bad_index", "bad_assign", "bad_get", "length"]
REQUIRED_EVENTS = ["op_" + o for o in OPS] + ["merged_at_start", "drum_tracks", "events_listed"]
ASSUMPTIONS = ["track numbers 0..127"]


def key(f):
    return f[3]


def case(ctx):
    r = ctx.rng
    cs, models = [], []
    res = r.choice([220, 220, 96, 480, 1])
    hist = []
    ctx.note(history=hist)
    for _ in range(2):
        mod = {}
        if r.random() < .5:
            c = MidiNoteSequences(resolution=res)
        else:
            seqs = []
            insts = [(p, r.random() < .2) for p in r.sample(range(128), many(r, 1, 4, 60))]
            if r.random() < .5:
                insts += r.choices(insts, k=r.randint(1, 2))
            for p, d in insts:
                s = build.seq(r, p, d, n=many(r, 0, 4, 40), grid=.25, cc=False, name="t%d" % p)
                seqs.append(s)
                if p in mod:
                    mod[p][2].extend(note_full(n) for n in s.notes)
                    ctx.ev("merged_at_start")
                else:
                    mod[p] = [p, d, [note_full(n) for n in s.notes]]
            hist.append(("start", [(s.instrument.instrument_num, len(s)) for s in seqs]))
            c = MidiNoteSequences(resolution=res, midi_seq=seqs if len(seqs) > 1 or r.random() < .5 else seqs[0])
        cs.append(c)
        models.append(mod)

    def compare(j):
        c, m = cs[j], models[j]
        ctx.eq(list(c), sorted(m), "track numbers in order", history=hist[-12:])
        ctx.eq((len(c), c.num_track(), c.num_instruments()), (len(m), len(m), len({v[0] for v in m.values()})),
               "number of tracks and instruments", history=hist[-12:])
        ctx.eq([(i.instrument_num, i.is_drum) for i in c.instruments], [tuple(m[k][:2]) for k in sorted(m)], "instruments in track order",
               history=hist[-12:])
        for k in m:
            t = c[k]
            ctx.eq((t.instrument.instrument_num, t.instrument.is_drum), tuple(m[k][:2]), "instrument of a track", track=k, history=hist[-12:])
            ctx.eq(sorted(note_full(n) for n in t.notes), sorted(m[k][2]), "notes of a track", track=k, history=hist[-12:])
            ctx.eq(c.instrument_midi_seq_len(k), len(m[k][2]), "length of a track", track=k)
            if m[k][1]:
                ctx.ev("drum_tracks")
        ctx.eq(list(c), sorted(m), "looking changes nothing", history=hist[-12:])

    steps = 0
    for _ in range(r.randint(8, 24)):
        j = r.randrange(2)
        c, m = cs[j], models[j]
        op = r.choice(OPS)
        old = r.choice(sorted(m)) if m else None
        new = r.choice([x for x in r.sample(range(128), 6) + [0, 127, len(m)] if x not in m] or [-1])
        if new == -1:
            continue
        if op.endswith("_old") and old is None or op in ("fill",) and old is None:
            continue
        p, d = r.randint(0, 127), r.random() < .3
        if op == "get_new":
            hist.append((op, j, new, p, d))
            t = c.get_track(new, "n", p, d)
            m[new] = [p, d, []]
            ctx.eq(t.instrument.name, "n", "name of a new track")
            ctx.eq(t.resolution, res, "a new track takes the resolution of the score")
        elif op == "get_old":
            hist.append((op, j, old))
            nm = c[old].instrument.name
            t = c.get_track(old, "other", p, d)
            ctx.eq(t.instrument.name, nm, "fetching a track keeps its name", history=hist[-12:])
            ctx.check(t is c.get_track(old, "x", 1, False) and t is c[old], "a track is fetched, not made again", history=hist[-12:])
        elif op == "create_new":
            pp = r.choice([p, np.int64(p)])
            hist.append((op, j, new, p, d))
            i = c.create_track(new, pp, "n", d)
            ctx.eq(i, new, "number of a created track")
            m[new] = [p, d, []]
        elif op == "create_old":
            hist.append((op, j, old))
            t = c[old]
            nm = t.instrument.name
            ctx.eq(c.create_track(old, p, "n", d), old, "creating an existing track keeps it")
            ctx.check(c[old] is t and t.instrument.name == nm, "creating an existing track keeps it and its name", history=hist[-12:])
        elif op == "index_old":
            hist.append((op, j, old))
            ctx.check(c[old] is c[old], "indexing fetches the track")
        elif op == "index_new":
            hist.append((op, j, new))
            t = c[new]
            ctx.eq(t.resolution, res, "a track made by indexing takes the resolution of the score")
            ctx.eq(len(t), 0, "a track made by indexing is empty", history=hist[-12:])
            m[new] = [new, False, []]
            ctx.check(c[new] is t, "indexing again fetches the same track", history=hist[-12:])
        elif op in ("assign_seq", "set_seq"):
            k = r.choice([old, new]) if old is not None else new
            s = build.seq(r, p, d, n=many(r, 0, 4, 40), grid=.25, cc=False)
            hist.append((op, j, k, p, d, len(s)))
            if op == "assign_seq":
                c[k] = s
            else:
                c.set_sequence(k, s)
            m[k] = [p, d, [note_full(n) for n in s.notes]]
            ctx.check(c[k] is s, "the assigned track is the track", history=hist[-12:])
        elif op in ("assign_list", "set_list"):
            k = r.choice([old, new]) if old is not None else new
            ns = [build.note(r, 0, False) for _ in range(r.randint(1, 4))]
            hist.append((op, j, k, len(ns)))
            if op == "assign_list":
                c[k] = ns
            else:
                c.set_sequence(k, ns)
            m[k] = [0, False, [note_full(n) for n in ns]]
        elif op == "fill":
            t = c[old]
            n = build.note(r, m[old][0], m[old][1], grid=.25)
            hist.append((op, j, old, repr(n)))
            t.add_note(n)
            m[old][2].append(note_full(n))
        elif op == "bad_create":
            a = r.choice([(-1, "n", True), (128, "n", False), (1.5, "n", True), ("3", "n", True), (3, 5, True), (3, None, True), (3, "n", 1),
                          (3, "n", None)])
            hist.append((op, j, a))
            ctx.raises(ValueError, lambda: c.create_track(new, *a), "a track with bad program, name or drum flag is refused", args=a)
        elif op == "bad_get":
            k = r.choice([-1, 128, 500])
            hist.append((op, j, k))
            ctx.raises(ValueError, lambda: c.get_track(k, "n", 1, False), "a track number out of range is refused")
        elif op == "bad_index":
            k = r.choice([-1, 128, "3", 2.0, None])
            hist.append((op, j, k))
            ctx.raises(ValueError if isinstance(k, int) else TypeError, lambda: c[k], "a bad track number is refused", number=k)
        elif op == "bad_assign":
            k, v = r.choice([(-1, []), (128, []), ("3", []), (2.0, []), (3, 5), (3, "x"), (3, None), (3, (1,))])
            hist.append((op, j, k, repr(v)))
            ctx.raises(ValueError if isinstance(k, int) and not 0 <= k < 128 else TypeError, lambda: c.__setitem__(k, v),
                       "a bad assignment is refused", number=k, value=v)
        elif op == "length":
            hist.append((op, j, new))
            ctx.eq(c.instrument_midi_seq_len(new), 0, "a missing track has no notes")
        ctx.ev("op_" + op)
        steps += 1
        compare(0)
        compare(1)
    for j in range(2):
        ev = [note_full(n) for n in cs[j].get_all_sequence_events()]
        want = [f for v in models[j].values() for f in v[2]]
        ctx.eq(sorted(ev), sorted(want), "all events of the score")
        ctx.eq([x[3] for x in ev], sorted(x[3] for x in want), "all events come in time order")
        ctx.ev("events_listed", len(ev))
    for bad in ({"filename": 5}, {"resolution": 2.5}, {"is_debug": "x"}, {"midi_seq": 5}, {"midi_seq": [5]}, {"time_signatures": 4},
                {"time_signatures": [4]}, {"key_signatures": "C"}, {"key_signatures": ["C"]}, {"tempo_signatures": 120},
                {"tempo_signatures": [120]}):
        if r.random() < .2:
            ctx.raises(TypeError, lambda: MidiNoteSequences(**bad), "a score from bad parts is refused", args=bad)
    if steps >= 8 and len(models[0]) + len(models[1]) >= 3:
        ctx.seen(hist)
        ctx.show(repr(hist))
