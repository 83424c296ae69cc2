import contextlib
import io
import math
import sys
import types
try:
    import attr  # noqa: F401
except ImportError:      # midi_scales takes only a class decorator from it
    m = types.ModuleType("attr")
    m.frozen = lambda c: c
    sys.modules["attr"] = m
from neural_graph_composer.midi.midi_scales import MusicTheory, ScaleType, Interval
from ..build import MidiNote

CASES = {"quick": 30000, "thorough": 1000000}
RULE = ("random scales, roots (by number, by name, by lower case name), chords by interval lists and names, step lists, semitone sums and pitches are "
        "asked for in random order in one process, returned lists are changed by the caller, and every answer is compared with arithmetic on "
        "pitch classes. Every scale, root and chord is visited. Non-trivial: every case; distinct by the questions.")
REQUIRED_EVENTS = ["scale_questions", "triads", "chords_from_intervals", "chord_names", "chords_from_scale", "compound", "frequencies", "names",
                   "refusals_seen", "lists_changed", "tables_read", "inverses"]
ASSUMPTIONS = ["sharps only, as in the package's note names"]

NAMES = "C C# D D# E F F# G G# A A# B".split()
MAJOR = [0, 2, 4, 5, 7, 9, 11]


def mode(i):
    return sorted((x - MAJOR[i]) % 12 for x in MAJOR)


SCALES = {"major": mode(0), "dorian": mode(1), "phrygian": mode(2), "lydian": mode(3), "mixolydian": mode(4), "aeolian": mode(5), "minor": mode(5),
          "locrian": mode(6), "harmonic_minor": [0, 2, 3, 5, 7, 8, 11], "melodic_minor": [0, 2, 3, 5, 7, 9, 11]}
TRIAD = {(4, 7): "maj", (3, 7): "min", (3, 6): "dim", (4, 8): "aug"}
SEMI = {"P1": 0, "m2": 1, "M2": 2, "m3": 3, "M3": 4, "P4": 5, "A4": 6, "d5": 6, "Tritone": 6, "P5": 7, "A5": 8, "m6": 8, "M6": 9, "m7": 10, "M7": 11, "P8": 12}
STEPS = {"M": [4, 3], "m": [3, 4], "7": [4, 3, 3], "M7": [4, 3, 4], "m7": [3, 4, 3], "m7b5": [3, 3, 4], "dim7": [3, 3, 3], "aug7": [4, 4, 2],
         "6": [4, 3, 2], "m6": [3, 4, 2], "9": [4, 3, 3, 4], "M9": [4, 3, 4, 3], "m9": [3, 4, 3, 4], "11": [4, 3, 3, 4, 3], "M11": [4, 3, 4, 3, 3],
         "m11": [3, 4, 3, 4, 3], "13": [4, 3, 3, 4, 3, 4], "M13": [4, 3, 4, 3, 3, 4], "m13": [3, 4, 3, 4, 3, 4], "add9": [4, 3, 7], "sus2": [2, 5],
         "sus4": [5, 2], "7sus4": [5, 2, 3]}
T = MusicTheory
# what the notes of a chord are, in semitones above the root
CHORD = {"major": "047", "minor": "037", "augmented": "048", "diminished": "036", "sus2": "027", "sus4": "057", "seventh": "047a", "major_seventh": "047b",
         "minor_seventh": "037a", "dominant_seventh": "047a", "augmented_seventh": "048a", "diminished_seventh": "0369", "half_diminished_seventh": "036a",
         "minor_major_seventh": "037b", "dominant_ninth": "047ae", "major_ninth": "047be", "minor_ninth": "037ae", "dominant_sharp_ninth": "047af",
         "dominant_flat_ninth": "047ad", "dominant_thirteenth": "047ael", "major_sixth": "0479", "minor_sixth": "0379"}
BY_CLASS = {"maj": "047", "min": "037", "maj7": "047b", "m7": "037a", "7": "047a", "dim": "036", "aug": "048", "sus4": "057", "sus2": "027", "dim7": "0369",
            "6": "0479", "9": "047ae"}
SHORT = {"maj_seventh": "maj7", "min_seventh": "m7", "dominant_seventh": "7", "augmented_seventh": "aug7", "diminished_seventh": "dim7",
         "half_diminished_seventh": "m7(b5)", "minor_major_seventh": "m(maj7)", "eleventh": "11", "major_eleventh": "maj11", "minor_eleventh": "m11",
         "thirteenth": "13", "major_thirteenth": "maj13", "minor_thirteenth": "m13"}


def semis(s):
    return [int(c, 36) for c in s]


def tables(ctx):
    """chords looked up in the public tables"""
    r = ctx.rng
    from neural_graph_composer.midi.midi_scales import ChordType
    k = r.choice(sorted(CHORD))
    ctx.eq(list(T.chords_types[ChordType(k)]), semis(CHORD[k]), "notes of a kind of chord", kind=k)
    k = r.choice(sorted(BY_CLASS))
    ctx.eq(T.chord_mapping[frozenset(semis(BY_CLASS[k]))], k, "kind of a chord of these notes", notes=semis(BY_CLASS[k]))
    k = r.choice(sorted(SHORT))
    ctx.eq(T.chord_name_mapping_extended[k], SHORT[k], "sign of a kind of chord", kind=k)
    k = r.choice(sorted(STEPS))
    cum = [0]
    for x in STEPS[k]:
        cum.append(cum[-1] + x)
    got = [i.value for i in T.chord_intervals_mapping[k]]
    if "13" in k:
        ctx.eq(got, cum[:5] + cum[6:], "intervals of a chord", chord=k)         # written without the eleventh
    else:
        ctx.eq(got, cum, "intervals of a chord", chord=k)
    k = r.choice(sorted(T.rhythm_signatures))
    ctx.eq("%d/%d" % tuple(T.rhythm_signatures[k]), k, "meter of a signature")
    ctx.ev("tables_read")
    # parts of a compound interval and its inverse
    i = r.choice(list(Interval))
    b = T.bases(i)
    ctx.eq(sum(b), i.value, "parts of an interval make it up", interval=i, parts=b)
    ctx.eq(tuple(i.bases()), tuple(b), "parts of an interval", interval=i)
    with contextlib.redirect_stdout(io.StringIO()):
        v = T.inverse_compound_interval(i)
    ctx.eq((v + i.value) % 12, 0, "an interval and its inverse make up octaves", interval=i, inverse=v)
    ctx.ev("inverses")
    return (k, i.name)


def root_forms(r, root):
    return r.choice([root, NAMES[root], NAMES[root].lower()])


def scale(ctx):
    r = ctx.rng
    s, root = r.choice(sorted(SCALES)), r.randrange(12)
    w = dict(scale=s, root=root)
    form = r.choice([s, ScaleType(s)])
    want = [NAMES[(root + x) % 12] for x in SCALES[s]]
    got = T.notes_from_scale(root_forms(r, root), form)
    ctx.eq(got, want, "notes of a scale", **w)
    iv = T.intervals_from_scale(form)
    ctx.eq(sorted(i.value for i in iv), SCALES[s], "intervals of a scale", **w)
    ctx.eq(list(T.scales[ScaleType(s)]), SCALES[s], "table of scales", **w)
    tri = [[want[i], want[(i + 2) % 7], want[(i + 4) % 7]] for i in range(7)]
    kinds = []
    for t in tri:
        p = [NAMES.index(n) for n in t]
        kinds.append(TRIAD[(p[1] - p[0]) % 12, (p[2] - p[0]) % 12])
    g = T.triads_from_scale_tuple(root_forms(r, root), form)
    ctx.eq([(list(a), b) for a, b in g], list(zip(tri, kinds)), "triads of a scale and their kinds", **w)
    ctx.eq(T.triads_from_scale(root_forms(r, root), form), ["".join(t) for t in tri], "triads of a scale", **w)
    ctx.ev("scale_questions")
    ctx.ev("triads", 7)
    if r.random() < .3:
        got.append("x")
        g.clear()
        ctx.ev("lists_changed")
    for bad in (12, -1, "H", "Cb"):
        ctx.raises(Exception, lambda: T.notes_from_scale(bad, form), "a root that does not exist is refused", bad=bad)
        ctx.raises(Exception, lambda: T.triads_from_scale(bad, form), "a root that does not exist is refused", bad=bad)
        ctx.raises(Exception, lambda: T.triads_from_scale_tuple(bad, form), "a root that does not exist is refused", bad=bad)
    ctx.raises(Exception, lambda: T.notes_from_scale(root, "no scale"), "a scale that does not exist is refused")
    return w


def chord(ctx):
    r = ctx.rng
    root = r.randrange(12)
    names = [r.choice(sorted(SEMI)) for _ in range(r.randint(1, 6))]
    loose = [n.lower() if n[0] == "P" and r.random() < .3 else n for n in names]
    form = loose if r.random() < .5 else [Interval[n] for n in names]
    w = dict(root=root, intervals=names)
    ctx.eq(T.chord_pitch_from_interval(root_forms(r, root), form), [(root + SEMI[n]) % 12 for n in names], "pitches of a chord from its intervals", **w)
    fs = frozenset(form)
    ctx.eq(sorted(T.chord_pitch_from_interval(root_forms(r, root), fs)), sorted((root + SEMI[n]) % 12 for n in ([x if x in SEMI else x.upper() for x in fs] if form is loose else [f.name for f in fs])),
           "pitches of a chord from a set of intervals", **w)
    ctx.ev("chords_from_intervals", 2)
    ctx.raises(TypeError, lambda: T.chord_pitch_from_interval(root, tuple(form)), "intervals come as a list or frozenset")
    ctx.raises(TypeError, lambda: T.chord_pitch_from_interval(root, ["P1", Interval.M3]), "intervals are all names or all members")
    for bad in (12, -1, "H", "Cb"):
        ctx.raises(ValueError, lambda: T.chord_pitch_from_interval(bad, form), "a root that does not exist is refused", bad=bad)
    n, kind = r.randrange(12), r.choice(["M", "m", "7", "6"])
    ctx.eq(T.chord_from_scale(NAMES[n] + kind, ["C", "D"]), [NAMES[(n + x) % 12] for x in {"M": (0, 4, 7), "m": (0, 3, 7), "7": (0, 4, 7, 10), "6": (0, 4, 7, 9)}[kind]],
           "notes of a named chord", chord=NAMES[n] + kind)
    ctx.ev("chords_from_scale")
    return w


def names(ctx):
    r = ctx.rng
    k = r.choice(sorted(STEPS))
    got = T.get_chord_intervals(k)
    ctx.eq(list(got), STEPS[k], "steps of a chord", chord=k)
    if r.random() < .5 and isinstance(got, list):
        got.append(1)
        ctx.ev("lists_changed")
        ctx.eq(list(T.get_chord_intervals(k)), STEPS[k], "steps of a chord after the caller changed a returned list", chord=k)
    st = list(STEPS[k]) if r.random() < .6 else [r.randint(1, 5) for _ in range(r.randint(1, 6))]
    want = [c for c in STEPS if STEPS[c] == st]
    for f in (lambda: T.get_chord_name(list(st)), lambda: T.get_chord_name_from_intervals(list(st)), lambda: T.get_chord_name_from_intervals(tuple(st))):
        g = f()
        ctx.check(g in want if want else g is None, "name of a chord from its steps", steps=st, name=g)
        ctx.ev("chord_names")
    ctx.check(len(want) <= 1, "one chord for each list of steps")
    for bad in ("4,3", [4, "3"], [4.0, 3], None):
        ctx.raises(TypeError, lambda: T.get_chord_name(bad), "steps that are not a list of numbers are refused", bad=bad)
        ctx.raises(TypeError, lambda: T.get_chord_name_from_intervals(bad), "steps that are not a list of numbers are refused", bad=bad)
    return (k, st)


def compound(ctx):
    r = ctx.rng
    n = r.randint(0, 23)
    if n < 23:
        ctx.eq(T.from_semitones(n).value, n, "interval of so many semitones", n=n)
    else:
        for b in (23, -1, 24, 500):
            ctx.raises(ValueError, lambda: T.from_semitones(b), "no such interval", n=b)
    a, b = r.choice(list(Interval)), r.choice(list(Interval))
    s = a.value + b.value
    if s <= 22:
        ctx.eq(T.compound_interval_from_bases(a, b).value, s, "sum of two intervals", a=a, b=b)
    else:
        ctx.raises(ValueError, lambda: T.compound_interval_from_bases(a, b), "no interval is that wide")
    x = r.randint(0, 500)
    z = T.compound_interval_to_base(x)
    ctx.eq(z, (x % 12, x // 12), "base and octaves of a compound interval", x=x)
    ctx.eq(T.base_to_compound_interval(*z), x, "base and octaves give the compound interval back", x=x)
    ctx.raises(ValueError, lambda: T.compound_interval_to_base(-1 - x), "negative interval")
    ctx.raises(ValueError, lambda: T.base_to_compound_interval(12 + x, 1), "a base is below 12")
    ctx.raises(ValueError, lambda: T.base_to_compound_interval(-1, 1), "a base is not negative")
    ctx.raises(ValueError, lambda: T.base_to_compound_interval(3, -1 - x), "octaves are not negative")
    ctx.ev("compound")
    o, y = ctx.rng.choice([0, 1, 100, ctx.rng.randint(0, 10 ** 6)]), ctx.rng.randint(0, 11)
    ctx.eq(T.base_to_compound_interval(y, o), 12 * o + y, "octaves above a base")
    ctx.eq(tuple(T.compound_interval_to_base(12 * o + y)), (y, o), "any compound interval comes apart")
    return (n, a.name, b.name, x)


def pitch(ctx):
    r = ctx.rng
    p = r.randint(0, 127)
    ctx.eq(T.pitch_to_note(p), "%s%d" % (NAMES[p % 12], p // 12), "name of a pitch", pitch=p)
    f = 440.0 * math.pow(2, (p - 69) / 12)
    ctx.close(MidiNote.note_to_freq(p), f, "frequency of a pitch", rel=1e-12, pitch=p)
    ctx.close(MidiNote.pitch_to_freq(NAMES[p % 12], p // 12 - 1), f, "frequency of a named pitch, A4 is 440", rel=1e-12, pitch=p)
    ctx.ev("frequencies")
    s = r.uniform(0, 9)
    try:
        n = MidiNote.from_name(NAMES[p % 12] + str(p // 12 - 1), s, s + 1, velocity=p, program=p, instrument=3, is_drum=bool(p % 2))
    except ImportError:
        n = None
    if n is not None:
        ctx.eq((n.pitch, n.start_time, n.end_time, n.velocity, n.program, n.instrument, n.is_drum), (p, s, s + 1, p, p, 3, bool(p % 2)),
               "a note made from its name", pitch=p)
    ctx.ev("names")
    return p


def case(ctx):
    qs = [ctx.rng.choice([scale, chord, names, compound, pitch, tables]) for _ in range(6)]
    hist = []
    for q in qs:
        hist.append((q.__name__, q(ctx)))
    ctx.seen(hist)
    ctx.show(hist)
