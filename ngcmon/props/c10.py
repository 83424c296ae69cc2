import copy
from .. import build
from ..core import many
from ..common import note_full, seq_state, cc_full, bend_full
from ..build import MidiNoteSequence, MidiInstrumentInfo

CASES = {"quick": 31800, "thorough": 683000}
RULE = ("pools of tracks grown by deriving (clone, empty clone, slice, truncation, quantized copy of a note, copies of notes and control "
        "changes, cut and sum used as lists) and by editing random members (append, shift, stretch, cut, quantize, times, pitches and values "
        "of single events). After every step every other member is compared with its recorded state. Non-trivial: at least 2 "
        "derivations and 3 edits; distinct by the history.")
DER = ["clone", "clone_empty", "slice", "truncate", "cut_list", "sum_list", "note_copy", "note_quantize", "cc_copy", "cc_quantize"]
EDIT = ["append", "shift", "stretch", "cut_in_place", "quantize", "note_fields", "note_times", "cc_fields", "bend_fields", "add_events",
        "insert", "merge", "clear"]
REQUIRED_EVENTS = ["derive_" + x for x in DER] + ["edit_" + x for x in EDIT] + ["drum_pools", "member_comparisons"]
ASSUMPTIONS = ["the first notes (cut) and the sum of two tracks share note objects with their sources by design: there only the lists are claimed "
               "to be independent"]


def state(s):
    return seq_state(s) + (s.program, s.resolution, s.total_quantized_steps, s.quantized_step, s.ticks_per_quarter)


def case(ctx):
    r = ctx.rng
    drum = r.random() < .3
    inst = r.randint(0, 127)
    res = r.choice([220, 96, 480])
    ii = MidiInstrumentInfo(inst, r.choice(build.NAMES), drum)

    def fresh():
        s = build.seq(r, inst, drum, n=many(r, 1, 10, r.choice([70, 70, 250])), grid=r.choice([None, .25]), resolution=res, name=ii.name)
        s.program = r.randint(0, 127)
        if r.random() < .2:
            s.quantize(sps=r.choice([2, 4, 8]))
        return s
    pool = [fresh() for _ in range(r.randint(1, 2))]
    snap = [state(s) for s in pool]
    hist = []
    ctx.note(history=hist)
    if drum:
        ctx.ev("drum_pools")
    nd = ne = 0

    def others(skip=None):
        for j, s in enumerate(pool):
            if j != skip:
                ctx.check(state(s) == snap[j], "a track changed though another one was worked on", history=hist[-14:], changed=j,
                          got=state(s), want=snap[j])
                ctx.ev("member_comparisons")

    for _ in range(r.randint(8, 24)):
        i = r.randrange(len(pool))
        s, st = pool[i], snap[i]
        if r.random() < .45:
            op = r.choice(DER)
            new = None
            if op == "clone":
                hist.append((op, i))
                new = s.clone()
                ctx.eq(state(new), st, "a clone equals its source", history=hist[-14:])
            elif op == "clone_empty":
                hist.append((op, i))
                new = s.clone_empty()
                ctx.eq(([note_full(n) for n in new.notes], list(new.control_changes), list(new.pitch_bends)), ([], [], []),
                       "an empty clone holds no events")
                ctx.eq((new.instrument, new.resolution, float(new.total_time)), (s.instrument, s.resolution, float(s.total_time)),
                       "an empty clone keeps instrument, resolution and total time")
                ctx.eq((new.total_quantized_steps, new.quantized_step, new.ticks_per_quarter), (s.total_quantized_steps, s.quantized_step, s.ticks_per_quarter),
                       "an empty clone keeps the grid")
            elif op == "slice":
                a = r.choice([0.0, r.uniform(0, 20)])
                b = a + r.uniform(.05, 15)
                hist.append((op, i, a, b))
                new = s.slice(a, b)
                want = [t[:4] + (min(t[4], b),) + t[5:] for t in st[1] if a <= t[3] < b]
                ctx.eq([note_full(n) for n in new.notes], want, "a slice holds the notes that start inside, cut at its end")
            elif op == "truncate":
                b = r.uniform(0, 22)
                hist.append((op, i, b))
                new = s.truncate(b)
                ctx.eq([note_full(n) for n in new.notes], [t for t in st[1] if t[4] <= b], "a truncation holds the notes that end by then")
            elif op in ("cut_list", "sum_list"):
                hist.append((op, i))
                k = r.randint(0, max(8, len(s.notes)))
                if op == "cut_list":
                    d = s.cut(k)
                else:
                    try:
                        d = s + s
                    except ValueError:
                        raise
                n = len(d)
                d.append(build.note(r, inst, drum))
                ctx.eq(len(d), n + 1, "the new track takes a note")
                if len(d) > 1:
                    d.cut_in_place(1)
            elif op in ("note_copy", "note_quantize"):
                if not s.notes:
                    continue
                n = r.choice(s.notes)
                nf = note_full(n)
                hist.append((op, i, repr(n)))
                if op == "note_copy":
                    c = n.make_copy()
                    ctx.eq(note_full(c), nf, "a copy of a note equals it")
                    ctx.check(c == n and not (c != n), "a copy compares equal")
                    x, y = r.randint(0, 9), r.randint(10, 20)
                    c2 = n.make_copy(quantized_start_step=x, quantized_end_step=y)
                    ctx.eq(note_full(c2), nf[:11] + (x, y), "a copy with other steps differs in them only")
                    c.pitch = (c.pitch + 1) % 128
                    c.shift_time(3.0)
                    c2.stretch(2.0)
                    c.voice, c.numerator, c.denominator = 5, 7, 8
                    c.program = 200
                else:
                    if nf[11] >= 0:
                        continue
                    c = n.quantize(sps=r.choice([1, 2, 4, 8, 16]))
                    ctx.check(c.is_quantized(), "the quantized copy is quantized")
                    ctx.eq((c.pitch, c.velocity, c.program, c.instrument, c.is_drum), (nf[0], nf[2], nf[5], nf[6], nf[10]),
                           "the quantized copy is the same note")
            else:
                if not s.control_changes:
                    continue
                c0 = r.choice(s.control_changes)
                cf = cc_full(c0)
                hist.append((op, i, cf))
                if op == "cc_copy":
                    c = c0.make_copy()
                    ctx.eq(cc_full(c), cf, "a copy of a control change equals it")
                    t = r.uniform(0, 9)
                    ctx.eq(cc_full(c0.make_copy(cc_time=t)), cf[:2] + (t,) + cf[3:], "a copy at another time differs in it only")
                    c.cc_value = (c.cc_value + 1) % 128
                    c.shift_time(2.0)
                    c.quantized_step = 9
                    c.cc_time = 1.25
                else:
                    c = c0.quantize(sps=r.choice([1, 4, 8]))
                    ctx.check(c.is_quantized(), "the quantized copy is quantized")
                    ctx.eq(cc_full(c)[:6], cf[:6], "the quantized copy is the same event at the same time")
            ctx.ev("derive_" + op)
            nd += 1
            others()
            if new is not None:
                pool.append(new)
                snap.append(state(new))
                if len(pool) > 6:
                    k = r.randrange(len(pool))
                    del pool[k], snap[k]
        else:
            op = r.choice(EDIT)
            hist.append(("edit " + op, i))
            if op == "append":
                s.append(build.note(r, inst, drum))
            elif op == "insert":
                s.insert(build.note(r, inst, drum))
            elif op == "merge":
                s.merge(build.seq(r, inst, drum, n=r.randint(0, 3), resolution=s.resolution, name=ii.name))
            elif op == "clear":
                s.notes.clear()
            elif op == "shift":
                if not s.notes or s.is_quantized():
                    continue
                s.shift_times(r.uniform(0, 5))
            elif op == "stretch":
                s.stretch(r.uniform(.3, 2))
            elif op == "cut_in_place":
                s.cut_in_place(r.randint(0, max(8, len(s.notes) + 1)))
            elif op == "quantize":
                if any(n.is_quantized() for n in s.notes):
                    continue
                old = [(n, note_full(n)) for n in s.notes]
                oldc = [(c, cc_full(c)) for c in s.control_changes]
                s.quantize(sps=r.choice([1, 2, 4, 8]))
                ctx.check(all(note_full(n) == f for n, f in old) and all(cc_full(c) == f for c, f in oldc),
                          "quantizing a track makes new events, the old objects stay", history=hist[-14:])
            elif op == "note_fields":
                if not s.notes:
                    continue
                n = r.choice(s.notes)
                n.pitch = (n.pitch + r.randint(1, 100)) % 128
                n.voice += 1
                n.numerator, n.denominator = 7, 8
                n.program = r.randint(0, 127)
                n.quantized_start_step, n.quantized_end_step = 3, 9
            elif op == "note_times":
                if not s.notes:
                    continue
                for n in s.notes:
                    n.end_time = n.end_time + 1.5
                    n.start_time = n.start_time + .25
                    n.shift_time(.5)
            elif op == "cc_fields":
                if not s.control_changes:
                    continue
                for c in s.control_changes:
                    c.cc_value = (c.cc_value + 1) % 128
                    c.shift_time(1.0)
                    c.quantized_step = r.randint(1, 32)
            elif op == "bend_fields":
                if not s.pitch_bends:
                    continue
                for b in s.pitch_bends:
                    b.amount = -b.amount // 2
                    b.midi_time = float(b.midi_time) + 1
                    b.program = (b.program + 1) % 128
            elif op == "add_events":
                s.add_control_changes(build.MidiControlChange(1, 2, .5, inst, 0, drum))
                s.add_pitch_bends(build.MidiPitchBend(5, .5, inst, 0, drum))
            ctx.ev("edit_" + op)
            ne += 1
            others(i)
            snap[i] = state(s)
    if nd >= 2 and ne >= 3:
        ctx.seen(hist)
        ctx.show(repr(hist))
