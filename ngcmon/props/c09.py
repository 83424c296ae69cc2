import collections
from .. import build
from ..common import note_full, seq_state, cc_full, bend_full
from ..build import MidiNote, MidiNoteSequence, MidiInstrumentInfo

CASES = {"quick": 34300, "thorough": 738000}
RULE = ("random histories of 8..30 edits on a track (append, extend, add, insert, merge, cut, truncate, slice, shift, stretch, replace, add two "
        "tracks, controller events, refused edits) on melodic and drum tracks; after every step notes, order, length, total time and events "
        "are compared with a list model. Non-trivial: at least 5 edits that changed the track; distinct by the history.")
OPS = ["append", "append_list", "extend", "extend_list", "add_note", "add_mismatch", "insert", "merge", "merge_mismatch", "cut_in_place",
       "cut", "truncate", "slice", "shift", "shift_empty", "stretch", "set_notes", "note_seq", "bad_type", "add_seq", "add_seq_mismatch",
       "last_event", "min_step", "events", "from_notes", "set_total", "adopt"]
REQUIRED_EVENTS = ["op_" + o for o in OPS] + ["drum_histories", "big_histories", "far_histories"]
ASSUMPTIONS = ["notes of a track agree with it in instrument and drum flag; sorted insertion is used on sorted tracks"]


def key(t):
    return (t[3], t[4], t[0])      # start, end, pitch


def in_order(a, b):
    """notes a millionth of a second apart may stand in either order"""
    ds, de = abs(a[3] - b[3]), abs(a[4] - b[4])
    return key(a) <= key(b) or 0 < ds <= 1.5e-6 or ds == 0 and 0 < de <= 1.5e-6


class M:
    """the model: (full note tuples in order)"""

    def __init__(self, notes, inst):
        self.n = list(notes)
        self.inst = inst
        self.total = max([x[4] for x in notes], default=0.0)
        self.cc, self.pb = [], []


def upd(t, start, end):
    return t[:3] + (start, end) + t[5:]


def compare(ctx, s, m, hist, ordered=True):
    got = [note_full(n) for n in s.notes]
    if ordered is True:
        same = got == m.n
    else:                         # sorted track: equal keys may stand in either order
        same = sorted(got) == sorted(m.n) and all(in_order(a, b) for a, b in zip(got, got[1:]))
    ctx.check(same, "notes of the track after the edit", history=hist[-12:], got=got, want=m.n)
    m.n = got
    ctx.eq(len(s), len(m.n), "length is the number of notes", history=hist[-12:])
    ctx.check(abs(float(s.total_time) - m.total) <= 1e-9 * max(1, m.total), "total time after the edit", got=float(s.total_time), want=m.total,
              history=hist[-12:])
    ctx.check([note_full(x) for x in s] == got and all(note_full(s[i]) == got[i] for i in range(len(got))),
              "iteration and indexing give the notes", history=hist[-12:])
    ctx.check([note_full(x) for x in s.get_midi_events()] == got, "the events are the notes", history=hist[-12:])
    ctx.eq((s.instrument.instrument_num, s.instrument.is_drum), m.inst, "the instrument stays", history=hist[-12:])
    ctx.eq([cc_full(c) for c in s.control_changes], m.cc, "control changes stay", history=hist[-12:])
    ctx.eq([bend_full(c) for c in s.pitch_bends], m.pb, "pitch bends stay", history=hist[-12:])
    ctx.eq(len(s.drum_events), len(m.n) if m.inst[1] else 0, "drum events are the notes of a drum track", history=hist[-12:])


def case(ctx):
    r = ctx.rng
    grid = r.choice([None, .25, .5])
    hi = r.choice([20.0] * 12 + [5000.0, 90000.0])
    silent = r.random() < .1
    big = r.random() < .015         # long tracks, lists and merges
    inst, drum = r.randint(0, 127), r.random() < .25
    ii = MidiInstrumentInfo(inst, "x", drum)

    def mk(n=None):
        if n is None:
            n = r.randint(1, 5) if not big or r.random() < .7 else r.randint(20, 150)
        return [build.note(r, inst, drum, grid=grid, hi=hi, silent=silent) for _ in range(n)]
    first = mk(r.randint(0, 6) if not big else r.randint(100, 700))
    if big and r.random() < .5:
        first.sort(key=lambda n: (n.start_time, n.end_time, n.pitch))
    if big:
        ctx.ev("big_histories")
    if hi > 20:
        ctx.ev("far_histories")
    s = MidiNoteSequence(notes=list(first), instrument=ii)
    m = M([note_full(x) for x in first], (inst, drum))
    hist = [("new", len(first), drum)]
    ctx.note(history=hist)
    if drum:
        ctx.ev("drum_histories")
    compare(ctx, s, m, hist)
    changed = 0
    for _ in range(r.randint(8, 30)):
        op = r.choice(OPS if not big or r.random() < .5 else ["insert", "merge", "append_list", "extend_list", "set_notes"])
        ordered = True
        pre = list(m.n)
        if op == "append" or op == "extend" or op == "add_note":
            x = mk(1)[0]
            hist.append((op, repr(x)))
            getattr(s, op)(x)
            m.n.append(note_full(x))
            m.total = max(m.total, x.end_time)
        elif op in ("append_list", "extend_list"):
            xs = mk()
            hist.append((op, repr(xs)))
            getattr(s, op.split("_")[0])(xs)
            m.n += [note_full(x) for x in xs]
            m.total = max([m.total] + [x.end_time for x in xs])
        elif op == "add_mismatch":
            x = build.note(r, (inst + r.randint(1, 100)) % 128, drum)
            hist.append((op,))
            ctx.raises(ValueError, lambda: s.add_note(x), "a note of another instrument is refused")
        elif op == "insert":
            if [key(x) for x in m.n] != sorted(key(x) for x in m.n):
                continue
            x = mk(1)[0]
            hist.append((op, repr(x)))
            s.insert(x)
            m.n.append(note_full(x))
            m.total = max(y[4] for y in m.n)
            ordered = False
        elif op == "merge":
            o = MidiNoteSequence(notes=mk(r.randint(0, 6) if not big else None), instrument=MidiInstrumentInfo(inst, "x", drum))
            st = seq_state(o)
            hist.append((op, repr(o.notes)))
            s.merge(o)
            ctx.eq(seq_state(o), st, "the merged in track stays", history=hist[-12:])
            m.n += list(st[1])
            m.total = max([y[4] for y in m.n], default=0.0)
            ordered = False
        elif op == "merge_mismatch":
            k = r.randint(0, 3)
            if k == 0:
                o = MidiNoteSequence(notes=[], instrument=MidiInstrumentInfo((inst + 1) % 128, "x", drum))
            elif k == 1:
                o = MidiNoteSequence(notes=mk(), instrument=ii, resolution=96)
            elif k == 2:
                o = MidiNoteSequence(notes=mk(2) + [build.note(r, (inst + 1) % 128, drum)], instrument=ii)
            else:
                o = mk()
            hist.append((op, k))
            ctx.raises(ValueError, lambda: s.merge(o), "a track that does not fit is refused", kind=k)
            if k == 2:
                st = seq_state(o)
                ctx.raises(ValueError, lambda: o.merge(s), "a track with a note of another instrument cannot be merged into", kind=k)
                ctx.eq(seq_state(o), st, "a refused merge changes nothing")
        elif op == "cut_in_place":
            k = r.randint(0, len(m.n) + 1)
            hist.append((op, k))
            s.cut_in_place(k)
            m.n = m.n[:k]
            m.total = max([y[4] for y in m.n], default=0.0)
        elif op == "cut":
            k = r.randint(0, len(m.n) + 1)
            hist.append((op, k))
            c = s.cut(k)
            ctx.eq([note_full(x) for x in c.notes], m.n[:k], "a cut holds the first notes", history=hist[-12:])
            # a track stretched or shifted may know a total time of its own
            ctx.close(c.total_time, min(m.total, max([y[4] for y in m.n[:k]], default=0.0)), "total time of a cut", history=hist[-12:])
            ctx.eq((c.instrument.instrument_num, c.instrument.is_drum), m.inst, "instrument of a cut")
        elif op == "truncate":
            t = r.choice([0.0, m.total, r.uniform(0, m.total + 1)] + [y[4] for y in m.n[:2]] + [max(0.0, y[4] - 5e-8) for y in m.n[:2]])
            hist.append((op, t))
            c = s.truncate(t)
            ctx.eq([note_full(x) for x in c.notes], [y for y in m.n if y[4] <= t], "a truncation holds the notes that end by then",
                   history=hist[-12:])
            ctx.close(c.total_time, min(m.total, t), "total time of a truncation", history=hist[-12:])
        elif op == "slice":
            a = r.choice([0.0, r.uniform(0, m.total + 1)] + [y[3] for y in m.n[:2]])
            b = r.choice([a + r.uniform(.01, 5), m.total + 1] + [y[3] for y in m.n[:2]] + [y[4] for y in m.n[:2]])
            if r.random() < .2:         # just beside a moment something happens
                a = max(0.0, a + r.choice([-1, 1]) * r.choice([1e-9, 2e-7, 3e-5]))
            if r.random() < .2:
                b = max(0.0, b + r.choice([-1, 1]) * r.choice([1e-9, 2e-7, 3e-5]))
            hist.append((op, a, b))
            c = s.slice(a, b)
            want = [upd(y, y[3], min(y[4], b)) for y in m.n if a <= y[3] < b]
            ctx.eq([note_full(x) for x in c.notes], want, "a slice holds the notes that start inside, cut at its end", history=hist[-12:])
            ctx.close(c.total_time, min(m.total, b), "total time of a slice", history=hist[-12:])
        elif op == "shift":
            if not m.n:
                continue
            t = r.choice([1.0, r.uniform(0, 7), 0.25])
            hist.append((op, t))
            s.shift_times(t)
            m.n = [upd(y, y[3] + t, y[4] + t) for y in m.n]
            m.total += t
        elif op == "shift_empty":
            e = MidiNoteSequence(instrument=ii)
            hist.append((op,))
            ctx.raises(ValueError, lambda: e.shift_times(1.0), "an empty track cannot be shifted")
        elif op == "stretch":
            f = r.choice([.5, 2.0, 1.0, r.uniform(.2, 3)])
            hist.append((op, f))
            s.stretch(f)
            m.n = [upd(y, y[3] * f, y[4] * f) for y in m.n]
            m.total = max([y[4] for y in m.n], default=0.0)
        elif op == "set_notes":
            xs = mk(r.randint(0, 5) if not big else r.randint(100, 600))
            if r.random() < .1:         # almost no gap between two notes
                x = xs[-1] if xs else mk(1)[0]
                a = x.end_time + r.choice([3e-7, 4e-6, 2e-4])
                xs.append(build.MidiNote(r.randint(0, 127), a, a + r.uniform(.1, 2), program=inst, instrument=inst, is_drum=drum))
            hist.append((op, repr(xs)))
            s.notes = list(xs)
            m.n = [note_full(x) for x in xs]
            m.total = max([y[4] for y in m.n], default=0.0)
        elif op == "note_seq":
            hist.append((op,))
            got = s.as_note_seq()
            ctx.check(all(type(x) is int for x in got), "pitches are integers")
            # notes with one onset may stand in either order
            by = collections.defaultdict(list)
            for y in m.n:
                by[y[3]].append(y[0])
            i = 0
            for t in sorted(by):
                ctx.eq(sorted(got[i:i + len(by[t])]), sorted(by[t]), "pitches come in onset order", history=hist[-12:])
                i += len(by[t])
            ctx.eq(i, len(got), "one pitch per note")
            now = [note_full(x) for x in s.notes]
            ctx.eq(sorted(now), sorted(m.n), "listing pitches keeps every note", history=hist[-12:])
            m.n = now
        elif op == "bad_type":
            x = r.choice(["x", 5, None, (1, 2), {}])
            hist.append((op, repr(x)))
            f = r.choice([s.append, s.extend, lambda v: s + v])
            ctx.raises(TypeError, lambda: f(x), "something that is no note is refused")
        elif op == "add_seq":
            o = MidiNoteSequence(notes=mk(r.randint(0, 5)), instrument=MidiInstrumentInfo(inst, "x", drum))
            st = seq_state(o)
            hist.append((op, repr(o.notes)))
            c = s + o
            ctx.eq([note_full(x) for x in c.notes], m.n + list(st[1]), "the sum holds the notes of both", history=hist[-12:])
            ctx.close(c.total_time, max([y[4] for y in m.n + list(st[1])], default=0.0), "total time of a sum", history=hist[-12:])
            ctx.eq(seq_state(o), st, "the added track stays", history=hist[-12:])
        elif op == "add_seq_mismatch":
            o = MidiNoteSequence(notes=[], instrument=MidiInstrumentInfo(inst, "x", not drum))
            if r.random() < .5:
                o = MidiNoteSequence(notes=mk(r.randint(0, 2)) + [build.note(r, (inst + 1) % 128, drum)] + mk(r.randint(0, 2)), instrument=ii)
                ctx.raises(ValueError, lambda: o + s, "a track with a note of another instrument is not added to")
            hist.append((op,))
            ctx.raises(ValueError, lambda: s + o, "tracks of different instruments are not added")
        elif op == "set_total":
            t = r.choice([m.total + r.uniform(0, 9), int(m.total) + r.randint(1, 4)])
            hist.append((op, t))
            s.total_time = t
            m.total = float(t)
        elif op == "adopt":             # go on with a track made from this one
            k = r.choice(["slice", "truncate", "cut", "sum", "clone"])
            a, b = 0.0, r.uniform(m.total * .6, m.total + 1)
            if k == "slice":
                a = r.choice([0.0, r.uniform(0, m.total * .3)])
                s = s.slice(a, b)
                m.n = [upd(y, y[3], min(y[4], b)) for y in m.n if a <= y[3] < b]
                m.total = min(m.total, b)
            elif k == "truncate":
                s = s.truncate(b)
                m.n = [y for y in m.n if y[4] <= b]
                m.total = min(m.total, b)
            elif k == "cut":
                b = r.randint(0, len(m.n) + 1)
                s = s.cut(b)
                m.n = m.n[:b]
                m.total = min(m.total, max([y[4] for y in m.n], default=0.0))
            elif k == "sum":
                xs = mk(r.randint(0, 4))
                b = repr(xs)
                s = s + MidiNoteSequence(notes=list(xs), instrument=MidiInstrumentInfo(inst, "x", drum))
                m.n = m.n + [note_full(x) for x in xs]
                m.total = max([y[4] for y in m.n], default=0.0)
            else:
                s = s.clone()
            m.cc, m.pb = [cc_full(c) for c in s.control_changes], [bend_full(c) for c in s.pitch_bends]
            hist.append((op, k, a, b))
        elif op == "last_event":
            off = r.choice([0.0, 1.0, r.uniform(0, 5)])
            hist.append((op, off))
            ctx.close(s.truncate_to_last_event(off), max([y[4] for y in m.n], default=0.0) + off,
                      "end after the last note plus an offset", history=hist[-12:])
        elif op == "min_step":
            hist.append((op,))
            o = sorted(m.n, key=lambda y: y[3])
            starts = [y[3] for y in o]
            if len(set(starts)) == len(starts):        # with ties the neighbour that counts is not defined
                want = min((b[3] - a[3] for a, b in zip(o, o[1:]) if a[4] < b[3]), default=0.0)
                ctx.close(s.calculate_min_step(), want, "smallest onset distance of successive notes with a gap", history=hist[-12:])
        elif op == "events":
            c = build.MidiControlChange(r.randint(0, 127), r.randint(0, 127), r.uniform(0, 9), inst, 0, drum)
            b = build.MidiPitchBend(r.randint(-8192, 8191), r.uniform(0, 9), inst, 0, drum)
            s.add_control_changes(c)
            s.add_pitch_bends(b)
            m.cc.append(cc_full(c))
            m.pb.append(bend_full(b))
            hist.append((op,))
        elif op == "from_notes":
            if inst != 0 or drum:
                xs = [build.note(r, 0, False) for _ in range(r.randint(0, 5))]
            else:
                xs = mk(r.randint(0, 5))
            c = MidiNoteSequence.from_notes(list(xs))
            hist.append((op, repr(xs)))
            ctx.eq([note_full(x) for x in c.notes], [note_full(x) for x in xs], "a track made from notes holds them")
            ctx.close(c.total_time, max([x.end_time for x in xs], default=0.0), "its total time")
        ctx.ev("op_" + op)
        compare(ctx, s, m, hist, ordered)
        changed += m.n != pre
    if changed >= 5:
        ctx.seen(hist)
        ctx.show(repr(hist))
