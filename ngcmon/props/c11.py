import math
import warnings
from ..common import note_full
from ..build import MidiNote

CASES = {"quick": 75300, "thorough": 1617000}
RULE = ("one note per case, from arguments in and out of range (pitch, velocity, program, instrument, meter, times), then up to 15 setter calls and "
        "in-place moves, legal and illegal; every field is compared with a model after each step. Also names, frequencies and durations of "
        "the note. Non-trivial: a note was built; distinct by arguments and steps.")
REQUIRED_EVENTS = ["clamped_pitch", "clamped_velocity", "clamped_program", "clamped_instrument", "refused_construction", "refused_setter",
                   "accepted_setter", "pitch_changes", "moves", "from_name", "flat_names", "copies", "refusals_seen"]
ASSUMPTIONS = ["durations of beats and measures are claimed for positive tempi only"]
PCS = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]


def name_of(p):
    return PCS[p % 12].replace("#", "\u266f") + str(p // 12 - 1)


def compare(ctx, n, m, hist):
    got = (n.pitch, n.pitch_name, n.velocity, n.start_time, n.end_time, n.program, n.instrument, n.voice, n.numerator, n.denominator,
           n.is_drum, n.quantized_start_step, n.quantized_end_step)
    want = (m["pitch"], name_of(m["pitch"]), m["velocity"], m["s"], m["e"], m["program"], m["instrument"], m["voice"], m["num"], m["den"],
            m["drum"], m["qs"], m["qe"])
    ctx.eq(got, want, "fields of the note", history=hist)
    ctx.check(0 <= n.pitch <= 127 and 0 <= n.velocity <= 127 and 0 <= n.instrument <= 127 and 0 <= n.program <= 255 and
              n.end_time > n.start_time, "ranges of the note", history=hist)
    ctx.close(n.duration(), m["e"] - m["s"], "duration of the note", tol=1e-12)
    ctx.eq((n.event_start_time, n.event_end_time), (m["s"], m["e"]), "event times of the note")
    ctx.eq(n.is_quantized(), m["qs"] >= 0 and m["qe"] >= 0, "quantized state of the note", history=hist)


def clamp(x, a, b):
    return max(a, min(b, x))


def case(ctx):
    r = ctx.rng
    warnings.simplefilter("ignore")
    wild = r.random() < .5

    def pick(lo, hi, out):
        return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)] + ([lo - 1, hi + 1, lo - out, hi + out] if wild else []))
    a = dict(pitch=pick(0, 127, 300), velocity=pick(0, 127, 300), program=pick(0, 255, 300), instrument=pick(0, 127, 200),
             numerator=r.randint(1, 300), denominator=2 ** r.randint(0, 7), voice=r.choice([r.randint(0, 9), r.randint(0, 400)]), is_drum=r.random() < .5)
    a["start_time"] = r.choice([0.0, r.uniform(0, 50), r.randint(0, 9)])
    a["end_time"] = a["start_time"] + r.choice([1e-6, 1, r.uniform(.001, 9)])
    q = r.random() < .3
    if q:
        a["quantized_start_step"] = r.randint(0, 9)
        a["quantized_end_step"] = r.randint(10, 30)
    # illegal constructions
    for bad in ({"end_time": a["start_time"]}, {"end_time": a["start_time"] - r.uniform(1e-6, 9)}, {"numerator": r.choice([0, -1, -4])},
                {"denominator": r.choice([0, -2, 3, 6, 12, 5])}, {"numerator": r.choice([2.5, 4.0])}, {"denominator": 4.0}):
        if r.random() < .3:
            ctx.raises((AssertionError, ValueError, TypeError), lambda: MidiNote(**{**a, **bad}), "an illegal note is refused",
                       args=a, bad=bad)
            ctx.ev("refused_construction")
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        n = MidiNote(**a)
    outside = not 0 <= a["pitch"] <= 127 or not 0 <= a["velocity"] <= 127
    ctx.check(bool(ws) or not outside, "a clamped value is reported by a warning", args=a)
    m = dict(pitch=clamp(a["pitch"], 0, 127), velocity=clamp(a["velocity"], 0, 127), program=clamp(a["program"], 0, 255),
             instrument=clamp(a["instrument"], 0, 127), num=min(a["numerator"], 255), den=a["denominator"], voice=a["voice"],
             drum=a["is_drum"], s=a["start_time"], e=a["end_time"], qs=a.get("quantized_start_step", -1),
             qe=a.get("quantized_end_step", -1))
    for k in ("pitch", "velocity", "program", "instrument"):
        if m[k] != a[k]:
            ctx.ev("clamped_" + k)
    hist = [repr(a)]
    ctx.note(history=hist)
    compare(ctx, n, m, hist)
    for _ in range(r.randint(3, 15)):
        op = r.choice(["start", "end", "pitch", "program", "qs", "qe", "shift", "stretch", "voice", "bad"])
        if op == "start":
            v = r.choice([-1.0, -1e-9, 0.0, m["s"], m["e"], m["e"] - 1e-4, m["e"] + 1, r.uniform(0, 60)])
            hist.append((op, v))
            if v < 0 or v >= m["e"]:
                ctx.raises(ValueError, lambda: setattr(n, "start_time", v), "a start at or after the end is refused", history=hist)
                ctx.ev("refused_setter")
            else:
                n.start_time = v
                m["s"] = v
                ctx.ev("accepted_setter")
        elif op == "end":
            v = r.choice([-1.0, 0.0, m["s"], m["e"], m["s"] + 1e-4, m["s"] - 1, r.uniform(0, 60)])
            hist.append((op, v))
            if v < 0 or v <= m["s"]:
                ctx.raises(ValueError, lambda: setattr(n, "end_time", v), "an end at or before the start is refused", history=hist)
                ctx.ev("refused_setter")
            else:
                n.end_time = v
                m["e"] = v
                ctx.ev("accepted_setter")
        elif op == "pitch":
            v = r.choice([-1, 128, 0, 127, r.randint(0, 127), r.randint(0, 127), 500])
            hist.append((op, v))
            if not 0 <= v <= 127:
                ctx.raises((AssertionError, ValueError), lambda: setattr(n, "pitch", v), "a pitch out of range is refused", history=hist)
                ctx.ev("refused_setter")
            else:
                n.pitch = v
                m["pitch"] = v
                ctx.ev("pitch_changes")
        elif op == "program":
            v = r.choice([-1, 256, 0, 255, r.randint(0, 255)])
            hist.append((op, v))
            if not 0 <= v <= 255:
                ctx.raises((AssertionError, ValueError), lambda: setattr(n, "program", v), "a program out of range is refused", history=hist)
                ctx.ev("refused_setter")
            else:
                n.program = v
                m["program"] = v
        elif op in ("qs", "qe"):
            v = r.choice([-1, -5, r.randint(0, 9) if op == "qs" else r.randint(10, 30)])
            hist.append((op, v))
            f = "quantized_start_step" if op == "qs" else "quantized_end_step"
            if v < 0:
                ctx.raises(ValueError, lambda: setattr(n, f, v), "a negative step is refused", history=hist)
                ctx.ev("refused_setter")
            else:
                setattr(n, f, v)
                m[op] = v
        elif op == "shift":
            v = r.choice([0.0, 1, r.uniform(0, 9)])
            if m["e"] + v <= m["s"] + v:
                continue
            hist.append((op, v))
            n.shift_time(v)
            m["s"] += v
            m["e"] += v
            ctx.ev("moves")
        elif op == "stretch":
            v = r.choice([1.0, 2, .5, r.uniform(.1, 5)])
            if m["e"] * v <= m["s"] * v:
                continue
            hist.append((op, v))
            n.stretch(v)
            m["s"] *= v
            m["e"] *= v
            ctx.ev("moves")
        elif op == "voice":
            n.voice = m["voice"] = r.choice([r.randint(0, 9), r.randint(0, 400)])
        else:
            f = r.choice(["velocity", "instrument", "is_drum"])
            hist.append((op, f))
            ctx.raises(AttributeError, lambda: setattr(n, f, 5), "%s of a note cannot be set" % f)
        compare(ctx, n, m, hist)
        if r.random() < .2:
            compare(ctx, n.make_copy(), m, hist + ["copied"])
            ctx.ev("copies")
    # names and frequencies
    p = r.randint(0, 127)
    nm = PCS[p % 12] + str(p // 12 - 1)
    x = MidiNote.from_name(nm, m["s"], m["e"], velocity=m["velocity"], program=m["program"], instrument=m["instrument"], is_drum=m["drum"])
    ctx.eq((x.pitch, x.start_time, x.end_time, x.velocity, x.program, x.instrument, x.is_drum),
           (p, m["s"], m["e"], m["velocity"], m["program"], m["instrument"], m["drum"]), "note made from a name", name=nm)
    ctx.ev("from_name")
    l, acc = r.choice("CDEFGAB"), r.choice(["", "#", "b", "\u266f", "\u266d", "##", "bb"])
    up = PCS.index(l) + {"": 0, "#": 1, "b": -1}.get(acc.replace("\u266f", "#").replace("\u266d", "b")[:1], 0) * len(acc)
    o = r.randint(-1, 9)
    if 0 <= up + 12 * (o + 1) <= 127:
        nm = r.choice([l, l.lower()]) + acc + str(o)
        ctx.eq(MidiNote.from_name(nm, 0, 1).pitch, up + 12 * (o + 1), "pitch of a name with flats or sharps", name=nm)
        ctx.ev("flat_names")
    ctx.eq(MidiNote.from_name(n.pitch_name, 0, 1).pitch, n.pitch, "the name of a note leads back to its pitch")
    ctx.close(MidiNote.pitch_to_freq(PCS[p % 12], p // 12 - 1), 440.0 * 2 ** ((p - 69) / 12), "frequency of a pitch class in an octave", pitch=p)
    ctx.close(MidiNote.note_to_freq(p), 440.0 * 2 ** ((p - 69) / 12), "frequency of a pitch", pitch=p)
    t = r.uniform(20, 300)
    ctx.close(n.duration_in_seconds(t), 60 * (m["e"] - m["s"]) / t, "duration in seconds of beats at a tempo")
    ctx.close(n.beat_duration(t), 60.0 / t * m["num"] / m["den"], "beat duration under the meter")
    ctx.seen(hist)
    ctx.show(repr(hist))
