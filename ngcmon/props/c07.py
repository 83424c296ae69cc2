import os
from .. import smf, rd, build
from ..common import reader, container_state, seq_state
from ..build import (MidiNote, MidiNoteSequence, MidiNoteSequences, MidiInstrumentInfo, MidiControlChange, MidiPitchBend,
                     MidiTempoSignature, MidiTimeSignature, MidiKeySignature)

CASES = {"quick": 8100, "thorough": 174000}
RULE = ("half of the cases read a generated file, write it and read it again; half build a score through the interface (1..5 tracks, drums, "
        "repeated programs, chords, up to 8 tempo changes, meters, keys, controllers, odd names), write it and read it. Every note, "
        "controller event, signature and tempo of the result is compared with the score written. Non-trivial: at least one note; distinct "
        "by the score.")
REQUIRED_EVENTS = ["notes_compared", "control_changes_compared", "pitch_bends_compared", "tempo_changes_compared", "signatures_compared",
                   "drum_tracks", "tracks_sharing_a_program", "rewritten_files", "built_scores", "scores_with_tempo_changes"]
ASSUMPTIONS = ["scores obey what reading itself guarantees: notes of a track end no later than its next onset, last at least two ticks, one "
               "note per pitch and onset; events and signatures after the end of the last note are outside the claim",
               "a MIDI file stores tempo in whole microseconds and times in whole ticks: half a tick, and one microsecond per quarter, are allowed"]


def score_of(m):
    """what a file must preserve"""
    trs = [m[k] for k in m]
    trs = [s for s in trs if len(s.notes)]
    end = max([n.end_time for s in trs for n in s.notes], default=0.0)
    out = []
    for s in trs:
        out.append({
            "prog": s.instrument.instrument_num, "drum": s.instrument.is_drum, "name": s.instrument.name,
            "notes": sorted((float(n.start_time), n.pitch, n.velocity, float(n.end_time)) for n in s.notes),
            "cc": sorted((float(c.cc_time), c.cc_number, c.cc_value) for c in s.control_changes),
            "bend": sorted((float(b.midi_time), b.amount) for b in s.pitch_bends)})
    tempi = []
    for t in sorted(m.tempo_signatures, key=lambda x: x.midi_time):
        if not tempi and t.midi_time > 1e-6:
            tempi.append((0.0, t.qpm))
        if tempi and abs(6e7 / tempi[-1][1] - 6e7 / t.qpm) <= 1:
            continue
        tempi.append((float(t.midi_time), float(t.qpm)))
    ts = [(float(t.midi_time), t.numerator, t.denominator) for t in m.time_signatures]
    ks = [(float(t.midi_time), t.midi_key, t.mode.name) for t in m.key_signatures]
    return {"end": end, "tracks": out, "tempi": tempi, "ts": ts, "ks": ks, "res": m.resolution}


def compare(ctx, want, got, tol):
    """tol(t): allowed distance at time t"""
    def near(a, b, what, **w):
        ctx.check(abs(a - b) <= tol(b), what, got=a, want=b, allowed=tol(b), **w)

    def merge(rows, end):
        """rows up to the end, timed; entries closer than the tolerance are compared in any order"""
        return [x for x in rows if x[0] < end - 2 * tol(x[0])]

    def timed(g, w, what):
        left = list(g)
        for x in w:
            c = [y for y in left if y[1:] == x[1:] and abs(y[0] - x[0]) <= tol(x[0])]
            ctx.check(bool(c), "%s is missing or changed" % what, missing=x, returned=g, written=w)
            left.remove(min(c, key=lambda y: abs(y[0] - x[0])))
        return left
    ctx.eq(got["res"], want["res"], "resolution")
    ctx.eq(len(got["tracks"]), len(want["tracks"]), "number of sounding tracks")
    for i, (g, w) in enumerate(zip(got["tracks"], want["tracks"])):
        ctx.eq((g["prog"], g["drum"]), (w["prog"], w["drum"]), "program and drum flag of track %d" % i)
        if w["name"]:
            ctx.eq(g["name"], w["name"].encode("latin1", "replace").decode("latin1"), "name of track %d" % i)
        ctx.eq(len(g["notes"]), len(w["notes"]), "number of notes of track %d" % i, got_list=g["notes"], want_list=w["notes"])
        gn, wn = sorted(g["notes"], key=lambda x: (x[1], x[0])), sorted(w["notes"], key=lambda x: (x[1], x[0]))
        for a, b in zip(gn, wn):
            ctx.eq((a[1], a[2]), (b[1], b[2]), "pitch and velocity of a note of track %d" % i, got_note=a, want_note=b)
            near(a[0], b[0], "onset of a note", note=b, track=i)
            near(a[3], b[3], "end of a note", note=b, track=i)
        ctx.ev("notes_compared", len(wn))
        for k, name in (("cc", "control_changes"), ("bend", "pitch_bends")):
            ww = merge(w[k], want["end"])
            rest = timed(g[k], ww, name[:-1].replace("_", " "))
            extra = merge(rest, want["end"] - 2 * tol(want["end"]))
            ctx.eq(extra, [], "an event that was not written: %s" % name, returned=g[k], written=w[k])
            ctx.ev(name + "_compared", len(ww))
        if w["drum"]:
            ctx.ev("drum_tracks")
    ps = [w["prog"] for w in want["tracks"]]
    if len(set(ps)) < len(ps):
        ctx.ev("tracks_sharing_a_program")
    for k in ("ts", "ks"):
        ww = merge(want[k], want["end"])
        rest = timed(got[k], ww, "time signature" if k == "ts" else "key signature")
        ctx.eq(merge(rest, want["end"] - 2 * tol(want["end"])), [], "a signature that was not written",
               returned=got[k], written=want[k])
        ctx.ev("signatures_compared", len(ww))

    def at(tempi, t):
        q = tempi[0][1]
        for a, b in tempi:
            if a <= t:
                q = b
        return q
    # the tempo just before and just after every change, and in the middle
    pts = sorted({0.0, want["end"]} | {t for t, _ in want["tempi"] + got["tempi"] if t < want["end"]})
    for a, b in zip(pts, pts[1:]):
        mid = (a + b) / 2
        if b - a > 4 * tol(b):
            ctx.check(abs(6e7 / at(got["tempi"], mid) - 6e7 / at(want["tempi"], mid)) <= 1.01, "tempo at %.6f s" % mid,
                      got=got["tempi"], want=want["tempi"], microseconds=(6e7 / at(got["tempi"], mid), 6e7 / at(want["tempi"], mid)))
    ctx.ev("tempo_changes_compared", len(want["tempi"]))
    if len(want["tempi"]) > 1:
        ctx.ev("scores_with_tempo_changes")


def built(ctx, extreme=False):
    r = ctx.rng
    res = r.choice([96, 120, 220, 240, 384, 480, 960, r.choice([1000, 1920, r.randint(24, 2000)])])
    tempi = [(0.0, r.choice([120.0, 60.0, 90.5, r.uniform(30, 280)]) if not extreme else r.choice([3.6, r.uniform(3.6, 30), r.uniform(280, 900)]))]
    t = 0.0
    for _ in range(r.choice([0, 0, 1, 2, 8])):
        t += r.uniform(.3, 4)
        tempi.append((t, r.uniform(30, 280) if not extreme else r.uniform(3.6, 900)))
    clock = build.Clock(tempi, res)
    step = 3 * clock.slowest()
    seqs = []
    n_tr = r.randint(1, 5)
    progs = r.sample(range(128), n_tr)
    for ti in range(n_tr):
        drum = r.random() < .2
        p = progs[ti]
        notes = []
        t = r.choice([0.0, r.uniform(0, 3)])
        for _ in range(r.randint(0, 14)):
            dt = max(2 * step, r.choice([.1, .25, .5, r.uniform(.05, 3)]))
            e = t + r.choice([dt, dt, max(step, dt * r.uniform(.2, 1))])
            for pitch in r.sample(range(128), r.choice([1, 1, 2, 3, 5])):
                end = e if r.random() < .8 else t + max(step, (e - t) * r.uniform(.3, 1))
                notes.append(MidiNote(pitch, t, end, velocity=r.randint(1, 127), program=p, instrument=p, is_drum=drum))
            t += dt
        r.shuffle(notes)
        s = MidiNoteSequence(notes=notes, resolution=res,
                             instrument=MidiInstrumentInfo(p, r.choice(build.NAMES + ["\u266b la", "q" * r.randint(100, 300)]), drum))
        for _ in range(r.randint(0, 6)):
            s.add_control_changes(MidiControlChange(r.randint(0, 127), r.randint(0, 127), r.uniform(0, t + 1e-3), p, ti, drum))
        for _ in range(r.randint(0, 4)):
            s.add_pitch_bends(MidiPitchBend(r.choice([-8192, 8191, 0, r.randint(-8192, 8191)]), r.uniform(0, t + 1e-3), p, ti, drum))
        seqs.append(s)
    if not any(len(s.notes) for s in seqs):
        return None
    m = MidiNoteSequences(resolution=res, midi_seq=seqs)
    order = list(tempi)
    if r.random() < .3:
        r.shuffle(order)
    for a, q in order:
        m.add_tempo_signature(MidiTempoSignature(midi_time=a, qpm=q, resolution=res))
    end = max(n.end_time for s in seqs for n in s.notes)
    for kind in ("ts", "ks"):
        t = r.choice([0.0, r.uniform(step, 2)])
        for _ in range(r.randint(0, 5)):
            if kind == "ts":
                m.add_time_signatures(MidiTimeSignature(t, r.choice([r.randint(1, 15), r.randint(1, 15), r.randint(1, 255)]),
                                                        2 ** (r.randint(0, 5) if r.random() < .9 else r.randint(6, 8))))
            else:
                m.add_key_signatures(MidiKeySignature(t, r.randint(0, 11), r.randint(0, 1)))
            t += step + r.uniform(0, end / 3 + .1)
    return m


def case(ctx):
    r = ctx.rng
    R = reader()
    out = os.path.join(ctx.scratch, "out.mid")
    if ctx.case % 2:
        sc = smf.gen(r, cc=r.random() < .6, max_notes=r.choice([6, 25]))
        ctx.note(file=sc.text())
        m = R.read(smf.encode(sc))
        if not any(len(m[k].notes) for k in m):
            return
        exact = True
        ctx.ev("rewritten_files")
    else:
        m = built(ctx, r.random() < .08)
        if m is None:
            return
        exact = False
        ctx.note(score=container_state(m))
        ctx.ev("built_scores")
    want = score_of(m)
    before = container_state(m)
    R.write(m, out)
    ctx.eq(container_state(m), before, "writing leaves the score as it was")
    got_m = R.read(out)
    got = score_of(got_m)
    clock = build.Clock(want["tempi"], want["res"])
    # microsecond quantisation of the tempo accumulates with time
    fastest = max(b for _, b in want["tempi"])

    def tol(t):
        if exact:
            return 1e-6 + t * fastest / 6e7
        return .5 * clock.local(t) + t * fastest / 6e7 + 1e-6
    compare(ctx, want, got, tol)
    ctx.seen(repr(want))
    ctx.show(repr(want))
    if r.random() < .3:
        out2 = os.path.join(ctx.scratch, "out2.mid")
        R.write(got_m, out2)
        compare(ctx, got, score_of(R.read(out2)), lambda t: 1e-6 + t * fastest * 1.01 / 6e7)
        ctx.ev("second_generation_files")
