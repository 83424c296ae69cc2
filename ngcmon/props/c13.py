import math
from .. import build
from ..common import note_full, cc_full, bend_full
from ..build import MidiNote, MidiNoteSequence, MidiNoteSequences, MidiControlChange

CASES = {"quick": 21900, "thorough": 470000}
RULE = ("a score of 1..3 tracks (drums included) is quantized, note by note and track by track, at a random grid of 1..100 steps per second and "
        "rounding amount; steps, times and everything else of each note and control change are compared with the grid arithmetic. "
        "Non-trivial: at least one note; distinct by the notes and grid.")
REQUIRED_EVENTS = ["notes_quantized", "ccs_quantized", "onsets_between_steps", "onsets_on_a_step", "drum_tracks", "partly_quantized_scores",
                   "short_notes", "refusals_seen", "second_grids", "quantized_note_by_note"]
ASSUMPTIONS = ["notes that were not quantized before, starting at 0 or later; rounding amount in (0, 1]; where the position is within 1e-9 of "
               "a rounding boundary either side is accepted"]


def near_floor(x):
    return {max(0, v) for v in (math.floor(x), math.floor(x - 1e-9), math.floor(x + 1e-9))}


def near_ceil(x):
    return {math.ceil(x), math.ceil(x - 1e-9), math.ceil(x + 1e-9)}


def check_note(ctx, q, f, sps, amount):
    """q: quantized note, f: fields before"""
    w = dict(note=f, sps=sps, amount=amount, quantized=note_full(q))
    s, e = f[3], f[4]
    x = s * sps + (1 - amount)
    ctx.check(q.quantized_start_step in near_floor(x), "start step of a quantized note", **w)
    y = e * sps + (1 - amount)
    ctx.check(q.quantized_end_step in near_ceil(y), "end step of a quantized note", **w)
    ctx.check(q.is_quantized() and q.quantized_end_step > q.quantized_start_step >= 0, "a quantized note takes at least one step", **w)
    ctx.check(q.start_time >= 0 and q.end_time > q.start_time, "a quantized note has a length", **w)
    grid = q.quantized_start_step / sps
    if grid <= e - .0011:
        ctx.check(abs(q.start_time - grid) <= .00501, "onset of a quantized note stands on its step", **w)
    else:
        ctx.ev("short_notes")
        ctx.check(q.start_time < e, "onset of a short quantized note is before its old end", **w)
    ctx.check(abs(q.end_time - q.quantized_end_step / sps) <= .00501 or abs((q.end_time - q.start_time) - (e - s)) <= 1e-9,
              "end of a quantized note is on its step or keeps the length", **w)
    ctx.check(q.end_time >= min(e, q.start_time + (e - s)) - 1e-9, "a quantized note is not cut", **w)
    ctx.eq(note_full(q)[:3] + note_full(q)[5:11], f[:3] + f[5:11], "quantizing changes times and steps only", **w)
    ctx.eq(q.step_duration_in_samples(), q.quantized_end_step - q.quantized_start_step + 1, "duration in samples")
    ctx.close(q.compute_step_duration_in_seconds(sps), (q.quantized_end_step - q.quantized_start_step) / sps, "duration of the steps")
    for z in (0, -1, -sps):
        ctx.raises(ValueError, lambda: q.compute_step_duration_in_seconds(z), "no steps per second")
    ctx.ev("notes_quantized")
    ctx.ev("onsets_on_a_step" if abs(s * sps - round(s * sps)) < 1e-6 else "onsets_between_steps")


def check_cc(ctx, q, f, sps, amount):
    w = dict(cc=f, sps=sps, amount=amount, quantized=cc_full(q))
    ctx.check(q.quantized_start_step in near_floor(f[2] * sps + (1 - amount)), "step of a quantized control change", **w)
    ctx.eq(q.quantized_step, min(sps, 32), "steps per second of a quantized control change", **w)
    ctx.eq(q.quantized_end_step, q.quantized_start_step + 1, "a control change takes one step", **w)
    ctx.check(q.is_quantized(), "the control change is quantized")
    ctx.eq(cc_full(q)[:6], f[:6], "quantizing a control change changes its steps only", **w)
    ctx.ev("ccs_quantized")


def case(ctx):
    r = ctx.rng
    sps = r.choice([1, 2, 3, 4, 4, 5, 8, 10, 16, 24, 48, 100])
    amount = r.choice([.5, .5, .5, 1.0, .25, .75, r.uniform(.01, 1)])
    seqs, progs = [], r.sample(range(128), r.randint(1, 3))
    for p in progs:
        drum = r.random() < .25
        s = build.seq(r, p, drum, n=r.randint(0, 8) if r.random() < .96 else r.randint(12, 90), grid=r.choice([None, 1 / sps, .25, .1]), hi=r.choice([3.0, 30.0, 3.0, 30.0, 3.0, 30.0, 700.0, 9000.0]))
        if r.random() < .3:
            a = r.uniform(0, 9)
            s.append(MidiNote(60, a, a + r.choice([.0005, .01, .05]), program=p, instrument=p, is_drum=drum))
        if r.random() < .05:
            a = r.uniform(0, 9)
            s.append(MidiNote(61, a, a + r.choice([59.9, 61.3, 130.0, r.uniform(60, 4000)]), program=p, instrument=p, is_drum=drum))
            ctx.ev("long_notes")
        seqs.append(s)
    m = MidiNoteSequences(midi_seq=list(seqs))
    befores = [([note_full(n) for n in s.notes], [cc_full(c) for c in s.control_changes], [bend_full(b) for b in s.pitch_bends]) for s in seqs]
    ctx.note(sps=sps, amount=amount, score=befores)
    # single notes
    for s, (nf, cf, _) in zip(seqs, befores):
        for n, f in zip(s.notes, nf):
            q = n.quantize(sps=sps, amount=amount)
            check_note(ctx, q, f, sps, amount)
            ctx.check(q is not n and note_full(n) == f, "quantize gives a new note and leaves the old one", note=f)
            ctx.check(not n.is_quantized(), "the old note is not quantized")
            for fn in (n.step_duration_in_samples, lambda: n.compute_step_duration_in_seconds(sps)):
                ctx.raises(ValueError, fn, "a note that is not quantized has no step duration")
        for c, f in zip(s.control_changes, cf):
            q = c.quantize(sps=sps, amount=amount)
            check_cc(ctx, q, f, sps, amount)
            ctx.check(q is not c and cc_full(c) == f, "quantize gives a new control change and leaves the old one")
    # tracks, one after another
    order = list(range(len(seqs)))
    r.shuffle(order)
    done = set()
    for i in order:
        want = all(j in done or not seqs[j].notes for j in range(len(seqs)))
        ctx.eq(m.is_quantized(), want, "the score is quantized when all its tracks are", done=sorted(done))
        if done and not want:
            ctx.ev("partly_quantized_scores")
        s = seqs[i]
        nf, cf, bf = befores[i]
        ctx.eq(s.is_quantized(), not nf, "a track is quantized when all its notes are")
        if len(nf) > 1:
            # quantized one note after the other: done when the last one is
            part = s.clone()
            todo = list(part.notes)
            r.shuffle(todo)
            for n in todo:
                ctx.check(not part.is_quantized(), "a track with a note that is not quantized is not quantized", notes=len(todo))
                n.quantize_in_place(sps=sps, amount=amount)
            ctx.check(part.is_quantized(), "a track is quantized when its last note is")
            ctx.ev("quantized_note_by_note")
        inst = s.instrument
        r_ = s.quantize(sps=sps, amount=amount)
        ctx.eq((len(s.notes), len(s.control_changes)), (len(nf), len(cf)), "quantizing a track keeps every event")
        for q, f in zip(s.notes, nf):
            check_note(ctx, q, f, sps, amount)
        for q, f in zip(s.control_changes, cf):
            check_cc(ctx, q, f, sps, amount)
        ctx.eq([bend_full(b) for b in s.pitch_bends], bf, "pitch bends stay")
        ctx.check(s.instrument == inst, "the instrument stays")
        ctx.check(s.is_quantized(), "the track is quantized afterwards")
        ctx.eq(s.total_quantized_steps, max([n.quantized_end_step for n in s.notes], default=0), "total steps of the track")
        ctx.close(s.total_time, max([n.end_time for n in s.notes], default=0.0), "total time follows the moved notes")
        if inst.is_drum and nf:
            ctx.ev("drum_tracks")
        done.add(i)
    ctx.check(m.is_quantized(), "the score is quantized at the end")
    # arithmetic helpers
    t, k = r.uniform(0, 50), r.randint(1, 100)
    ctx.check(MidiNote.quantize_to_nearest_step(t, k) in near_floor(t * k + .5), "nearest step", time=t, sps=k)
    ctx.check(MidiNote.quantize_to_nearest_step(t, k, amount, is_floor=False) in near_ceil(t * k + 1 - amount), "next step", time=t, sps=k)
    ctx.check(MidiControlChange.quantize_to_nearest_step(t, k) in near_floor(t * k + .5), "nearest step of a control change")
    ctx.check(MidiNoteSequence.quantize_to_nearest_step(t, k) in near_floor(t * k + .5), "nearest step of a track")
    n = r.randint(0, 5000)
    ctx.check(abs(MidiNote.steps_to_seconds(n, k) - n / k) <= .50001e-5, "steps in seconds, five decimals", steps=n, sps=k)
    ctx.check(abs(MidiNote.steps_to_seconds(n, k) * 1e5 - round(MidiNote.steps_to_seconds(n, k) * 1e5)) < 1e-4, "five decimals")
    for bad in (0, -1, -4):
        ctx.raises(ValueError, lambda: MidiNote.quantize_to_nearest_step(t, bad), "a grid without steps is refused")
        ctx.raises(ValueError, lambda: MidiNote.quantize_to_nearest_step(t, 4, amount=bad), "a rounding amount not above 0 is refused")
        ctx.raises(ValueError, lambda: MidiNote(60, t, t + 1).quantize(sps=bad), "a note refuses a grid without steps")
    # the same notes on a second grid give that grid's steps
    for s, (nf, cf, _) in zip(seqs, befores):
        for f in nf[:2]:
            o = MidiNote(f[0], f[3], f[4], program=f[5], instrument=f[6], velocity=f[2], voice=f[7], numerator=f[8], denominator=f[9], is_drum=f[10])
            o.quantize(sps=sps, amount=amount)
            check_note(ctx, o.quantize(sps=7, amount=.5), f, 7, .5)
            o.quantize_in_place(sps=sps, amount=amount)
            check_note(ctx, o, f, sps, amount)
            ctx.ev("second_grids")
    if any(b[0] for b in befores):
        ctx.seen(sps, amount, befores)
        ctx.show("sps=%r amount=%r %r" % (sps, amount, befores))
