import math
import operator
import pickle
import copy
from ..common import cc_full, bend_full
from ..build import MidiControlChange, MidiPitchBend, MidiInstrumentInfo, MidiTempoSignature, MidiTimeSignature, MidiKeySignature
from neural_graph_composer.midi.midi_control_change import MidiBaseControlChange
from neural_graph_composer.midi.midi_key_signature import KeySignatureType

CASES = {"quick": 27700, "thorough": 595000}
RULE = ("groups of control changes, pitch bends, instruments and signatures with values in, at and outside the MIDI ranges, near duplicates "
        "differing in one field, copies by pickling and dictionaries; values, refusals, equality, hashes, ordering and tempo arithmetic are "
        "compared with the MIDI rules. Non-trivial: every case; distinct by the values.")
REQUIRED_EVENTS = ["ccs", "ccs_clamped", "bends", "bends_at_limits", "instruments", "families", "equal_pairs", "different_pairs", "tempi", "meters", "keys",
                   "sorted_lists", "same_time", "refusals_seen", "setters"]
ASSUMPTIONS = ["times from 0 on; equal times or times apart by ten microseconds when sorting"]

FAMILY = ["Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed", "Pipe", "Synth Lead", "Synth Pad",
          "Synth Effects", "Ethnic", "Percussive", "Sound Effects"]


def clamp(x, lo, hi):
    return min(max(x, lo), hi)


def num(r, lo, hi):
    """in range, at the ends, or outside"""
    return r.choice([lo, hi, lo - 1, hi + 1, 0, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi), r.randint(lo - 300, hi + 300)])


def inside(r, lo, hi):
    return r.choice([lo, hi, max(lo, 0), r.randint(lo, hi), r.randint(lo, hi)])


def another(r, t):
    """a time after t, near or far"""
    return r.choice([t + 1, t + 1e-3, t + 1e-6, math.nextafter(t, 1e9)])


def ccs(ctx):
    r = ctx.rng
    out = []
    for _ in range(r.randint(1, 4)):
        a = dict(cc_number=num(r, 0, 127), cc_value=num(r, 0, 127), cc_time=r.choice([0.0, r.uniform(0, 50), -r.uniform(0, 5), r.uniform(0, 1e6)]), program=num(r, 0, 127),
                 instrument=num(r, 0, 127), is_drum=r.random() < .5, quantized_step=num(r, 1, 32))
        c = MidiControlChange(**a)
        want = (clamp(a["cc_number"], 0, 255), clamp(a["cc_value"], 0, 255), max(a["cc_time"], 0.0), clamp(a["program"], 0, 255),
                clamp(a["instrument"], 0, 255), a["is_drum"])
        ctx.eq((c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, c.is_drum), want, "values of a control change, out of range ones clamped", args=a)
        ctx.eq((c.quantized_step, c.is_quantized(), c.quantized_start_step, c.quantized_end_step), (clamp(a["quantized_step"], 1, 32), False, -1, -1),
               "a new control change is not quantized", args=a)
        q = c.quantized_step
        v = num(r, 1, 32)
        if 1 <= v <= 32:
            c.quantized_step = v
            ctx.eq(c.quantized_step, v, "step set")
            c.quantized_step = q
        else:
            ctx.raises(ValueError, lambda: setattr(c, "quantized_step", v), "step outside 1..32 is refused", value=v)
            ctx.eq(c.quantized_step, q, "a refused step changes nothing")
        b = r.randint(1, 60)
        c2 = MidiControlChange(**a, quantized_start_step=b - 1, quantized_end_step=b)
        ctx.check(c2.is_quantized() and c2 != c and not (c2 == c), "steps given make it quantized", args=a)
        for f, x in (("quantized_start_step", -1), ("quantized_start_step", b), ("quantized_end_step", -2), ("quantized_end_step", b - 1)):
            ctx.raises(ValueError, lambda: setattr(c2, f, x), "steps out of order are refused", field=f, value=x)
        ctx.eq((c2.quantized_start_step, c2.quantized_end_step), (b - 1, b), "refused steps change nothing")
        c2.quantized_end_step = b + 5
        c2.quantized_start_step = b + 4
        ctx.eq((c2.quantized_start_step, c2.quantized_end_step), (b + 4, b + 5), "steps set in order")
        for k in ((-1, b), (b, -1)):
            ctx.check(not MidiControlChange(**a, quantized_start_step=k[0], quantized_end_step=k[1]).is_quantized(), "one step alone does not make it quantized", steps=k)
        c3 = MidiControlChange(**a)
        c3.quantized_end_step = b
        c3.quantized_start_step = b - 1
        ctx.check(c3.is_quantized() and c3 == MidiControlChange(**a, quantized_start_step=b - 1, quantized_end_step=b), "steps set make it quantized", args=a)
        dt = r.choice([0.0, 1.5, r.uniform(0, 9), -c.cc_time / 2])
        c3 = MidiControlChange(**a)
        c3.shift_time(dt)
        ctx.eq(cc_full(c3), cc_full(c)[:2] + (c.cc_time + dt,) + cc_full(c)[3:], "a shift moves the time and nothing else", args=a, shift=dt)
        out += [MidiControlChange(**a, quantized_start_step=x, quantized_end_step=y) for x, y in ((b, b + 1), (b, b + 2), (b - 1, b + 1))]
        ctx.ev("setters")
        ctx.ev("ccs")
        if want[0] != a["cc_number"] or want[1] != a["cc_value"] or want[3] != a["program"] or want[4] != a["instrument"]:
            ctx.ev("ccs_clamped")
        out.append(c)
        d = dict(a)
        f = r.choice(sorted(d))
        d[f] = (not d[f]) if f == "is_drum" else another(r, d[f]) if f == "cc_time" else d[f] + 1
        out.append(MidiControlChange(**d))
    pairs(ctx, out, lambda c: cc_full(c)[:6] + (c.quantized_step, c.quantized_start_step, c.quantized_end_step))
    n = r.randint(0, 127)
    x, y = MidiBaseControlChange(n, "a"), MidiBaseControlChange(r.choice([n, (n + 1) % 128]), r.choice(["a", "b"]))
    same = (x.cc_number, x.description) == (y.cc_number, y.description)
    ctx.eq((x == y, x != y), (same, not same), "controllers are either equal or different", a=x, b=y)
    ctx.eq(x < y, x.cc_number < y.cc_number, "controllers in order of number", a=x, b=y)
    t = MidiControlChange.MIDI_CC_NAME_TO_CC
    ctx.check(set(t) | set(range(19, 31)) | {88, 89, 90} == set(range(128)) and all(v.cc_number == k for k, v in t.items()), "table of controllers by number")
    ctx.raises(TypeError, lambda: operator.setitem(t, 7, 1), "the table of controllers is frozen")
    return [cc_full(c) for c in out]


def pairs(ctx, xs, key):
    for a in xs:
        ctx.check(not (a == None) and a != None and not (a == (1, 2)), "an event equals events only")
        for b in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a))):
            ctx.check(a == b and not (a != b), "a copy is equal", a=key(a))
        for b in xs:
            want = key(a) == key(b)
            ctx.eq((a == b, b == a, a != b), (want, want, not want), "equal when all fields are", a=key(a), b=key(b))
            ctx.ev("equal_pairs" if want and a is not b else "different_pairs" if not want else "self")


def bends(ctx):
    r = ctx.rng
    out = []
    for _ in range(r.randint(1, 4)):
        a = dict(amount=num(r, -8192, 8191), midi_time=r.choice([0.0, 0, r.uniform(0, 50), -r.uniform(.001, 5), r.uniform(0, 1e6)]), program=num(r, 0, 127),
                 instrument=num(r, 0, 127), is_drum=r.random() < .5)
        ok = -8192 <= a["amount"] <= 8191 and a["midi_time"] >= 0 and 0 <= a["program"] <= 127 and 0 <= a["instrument"] <= 127
        if not ok:
            ctx.raises(ValueError, lambda: MidiPitchBend(**a), "a pitch bend out of range is refused", args=a)
            a.update(amount=inside(r, -8192, 8191), midi_time=abs(a["midi_time"]), program=inside(r, 0, 127), instrument=inside(r, 0, 127))
        b = MidiPitchBend(**a)
        if a["amount"] in (-8192, 8191):
            ctx.ev("bends_at_limits")
        ctx.eq((b.amount, float(b.midi_time), b.program, b.instrument, b.is_drum), (a["amount"], float(a["midi_time"]), a["program"], a["instrument"],
                                                                                    a["is_drum"]), "values of a pitch bend", args=a)
        ctx.eq((b.event_start_time, b.event_end_time), (b.midi_time, b.midi_time), "a pitch bend starts and ends at its time")
        before = bend_full(b)
        for f, x in (("midi_time", -.5), ("program", 128), ("program", -1), ("instrument", 128), ("instrument", -1)):
            ctx.raises(ValueError, lambda: setattr(b, f, x), "a value out of range is refused", field=f, value=x)
        ctx.eq(bend_full(b), before, "a refused value changes nothing")
        for f, x in (("midi_time", r.uniform(0, 9)), ("program", inside(r, 0, 127)), ("instrument", inside(r, 0, 127))):
            old = getattr(b, f)
            setattr(b, f, x)
            ctx.eq(getattr(b, f), x, "value set", field=f)
            setattr(b, f, old)
        ctx.eq(bend_full(b), before, "values set and set back")
        out.append(b)
        d = dict(a)
        f = r.choice(sorted(d))
        d[f] = (not d[f]) if f == "is_drum" else another(r, d[f]) if f == "midi_time" else d[f] + (1 if d[f] < 127 else -1)
        out.append(MidiPitchBend(**d))
        ctx.ev("bends")
    for a in out:
        for b in out:
            ctx.eq(a < b, a.amount < b.amount, "pitch bends in order of amount")
    pairs(ctx, out, lambda b: (b.amount, float(b.midi_time), b.program, b.instrument, b.is_drum))
    return [bend_full(b) for b in out]


def instruments(ctx):
    r = ctx.rng
    out = []
    for _ in range(r.randint(1, 4)):
        n, name, drum = num(r, 0, 255), r.choice(["", "", "x", "Piano", "\xe9\u4e2d", " "]), r.random() < .5
        if not 0 <= n <= 255:
            ctx.raises(ValueError, lambda: MidiInstrumentInfo(n, name, drum), "an instrument number outside 0..255 is refused", n=n)
            n = inside(r, 0, 255)
        i = MidiInstrumentInfo(n, name, drum)
        ctx.eq((i.instrument_num, i.is_drum), (n, drum), "number and drum flag")
        if name:
            ctx.eq(i.name, name, "name")
        elif 1 <= n <= 128:
            ctx.eq(i.name, FAMILY[(n - 1) // 8], "an empty name becomes the family of the instrument", n=n)
            ctx.ev("families")
        else:
            ctx.check(isinstance(i.name, str) and i.name, "an empty name is replaced", n=n)
        d = i.to_dict()
        ctx.eq(d, {"instrument_num": n, "name": i.name, "is_drum": drum}, "as a dictionary")
        j = MidiInstrumentInfo.from_dict(d)
        ctx.check(j == i and hash(j) == hash(i) and j is not i, "back from a dictionary")
        ctx.eq(MidiInstrumentInfo.from_dict({"instrument_num": n, "is_drum": drum}), MidiInstrumentInfo(n, "", drum), "a dictionary without a name")
        ctx.eq(MidiInstrumentInfo.from_dict({"instrument_num": n}), MidiInstrumentInfo(n), "defaults of a dictionary")
        out.append(i)
        out.append(MidiInstrumentInfo(*r.choice([((n + 1) % 256, i.name, drum), (n, i.name + "2", drum), (n, i.name.swapcase(), drum), (n, i.name + " ", drum), (n, i.name, not drum), (n, i.name, drum)])))
        ctx.ev("instruments")
    pairs(ctx, out, lambda i: (i.instrument_num, i.name, i.is_drum))
    for a in out:
        for b in out:
            ctx.eq(a < b, a.instrument_num < b.instrument_num, "instruments in order of number")
            ctx.check(a != b or hash(a) == hash(b), "equal instruments have one hash", a=a, b=b)
    ctx.eq(len(set(out)), len({(i.instrument_num, i.name, i.is_drum) for i in out}), "a set of instruments")
    for args in (("1",), (None,), (1.5,), (1, None), (1, 5), (1, "x", 1), (1, "x", None)):
        ctx.raises(TypeError, lambda: MidiInstrumentInfo(*args), "an instrument of other types is refused", args=args)
    return [repr(i) for i in out]


def signatures(ctx):
    r = ctx.rng
    q, res, t = r.choice([r.uniform(4, 400), r.randint(20, 300)]), r.choice([1, 24, 96, 220, 480, 960, 32767]), r.uniform(0, 90)
    s = MidiTempoSignature(t, q, res)
    w = dict(qpm=q, resolution=res)
    ctx.eq((s.midi_time, s.qpm, s.resolution), (t, float(q), res), "values of a tempo", **w)
    ctx.close(s.seconds_per_tick, 60.0 / (q * res), "length of a tick", tol=0, **w)
    ctx.close(s.seconds_per_quarter, 60.0 / q, "length of a quarter", tol=0, **w)
    ctx.close(s.bpm, q / 4, "bpm", tol=0, **w)
    b = r.uniform(5, 100)
    s.bpm = b
    ctx.close(s.qpm, b * 4, "qpm follows bpm", tol=0)
    ctx.close(s.seconds_per_tick, 60.0 / (b * 4 * res), "length of a tick follows the tempo", tol=0)
    s.qpm = q
    ctx.close(s.seconds_per_quarter, 60.0 / q, "length of a quarter follows the tempo", tol=0)
    us = r.choice([r.randint(1, 2 ** 24 - 1), r.randint(1, 2 ** 24 - 1), r.randint(1, 3000)])
    ctx.close(MidiTempoSignature.tempo_to_qpm(us), 6e7 / us, "tempo of microseconds per quarter", tol=0, us=us)
    d = MidiTempoSignature()
    ctx.eq((d.midi_time, d.qpm, d.resolution), (0.0, 120.0, 480), "default tempo")
    d = MidiTempoSignature(None, None, None)
    ctx.eq((d.midi_time, d.qpm, d.resolution), (0.0, 120.0, 480), "default tempo for None")
    for a in ((0, 0), (0, -q), (0, "1"), (0, 120, 0), (0, 120, -res), (0, 120, 2.5), ("x",)):
        ctx.raises((AssertionError, TypeError, ValueError), lambda: MidiTempoSignature(*a), "a tempo that cannot be is refused", args=a)
    ctx.ev("tempi")
    n, e = r.randint(1, 255), r.randint(0, 8)
    m = MidiTimeSignature(t, n, 2 ** e)
    ctx.eq((m.midi_time, m.numerator, m.denominator), (t, n, 2 ** e), "values of a meter")
    for a in ((0, 0), (0, -n), (0, 4), (-n, 4), (-4, 4), (4, 0), (4, -4), (4, 3), (4, 6), (4, 12), (4, 2 ** e * 3)):
        ctx.raises(ValueError, lambda: MidiTimeSignature(t, *a), "a meter that cannot be is refused", args=a)
    for a in ((4.0, 4), (4, 4.0), ("4", 4), (4, None)):
        ctx.raises(TypeError, lambda: MidiTimeSignature(t, *a), "a meter of other types is refused", args=a)
    ctx.ev("meters")
    k, mode = r.randint(-7, 24), r.randint(0, 1)
    z = MidiKeySignature(t, k, mode)
    ctx.eq((z.midi_time, z.midi_key, z.mode), (t, k, [KeySignatureType.MAJOR, KeySignatureType.MINOR][mode]), "values of a key")
    for x in (2, -1, 7, None, "0"):
        ctx.raises(ValueError, lambda: MidiKeySignature(t, k, x), "a mode is 0 or 1", mode=x)
    ctx.ev("keys")
    # in time order, ties by sequence number
    unit = r.choice([.25, 1e-3, 1e-5, 60.])
    base = r.choice([0, 0, 50, 700, 3000])
    pool = [base + r.randint(0, 9) * unit for _ in range(5)]
    for cls in (MidiTempoSignature, MidiTimeSignature, MidiKeySignature, lambda x: MidiControlChange(1, 2, x)):
        xs = [cls(r.choice(pool)) for _ in range(r.randint(2, 6))]
        for i, x in enumerate(xs):
            x.seq = r.choice([i, r.randint(0, 5)])
        tm = (lambda x: x.cc_time) if isinstance(xs[0], MidiControlChange) else (lambda x: x.midi_time)
        ctx.eq([(tm(x), x.seq) for x in sorted(xs)], sorted((tm(x), x.seq) for x in xs), "in order of time, then sequence number")
        ctx.check(not any(x < x for x in xs), "nothing comes before itself")
        ctx.ev("sorted_lists")
        if len({tm(x) for x in xs}) < len(xs):
            ctx.ev("same_time")
    return (q, res, us, n, e, k)


def case(ctx):
    a = [f(ctx) for f in (ccs, bends, instruments, signatures)]
    ctx.seen(a)
    ctx.show(a)
