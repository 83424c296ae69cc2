import functools
import json
from ..common import note_full
from ..build import MidiNote
from neural_graph_composer.midi.midi_note import MidiNoteJSONDecoder

CASES = {"quick": 34900, "thorough": 750000}
RULE = ("sets of 3..8 notes on a coarse grid (so that ties in start, end and pitch are common) plus variants that differ in a single field; all "
        "pairs and triples go through equality, order and overlap, all notes through JSON. Non-trivial: every case; distinct by the notes.")
REQUIRED_EVENTS = ["pairs", "equal_pairs", "single_field_variants", "overlapping", "disjoint", "touching", "contained", "sorted_lists",
                   "json_round_trips", "json_minimal", "json_nested"]
ASSUMPTIONS = ["times on the grid are either the same or at least 20 microseconds apart; the order and equality tolerate 1e-6 and 1e-9 seconds"]
FIELDS = ["pitch", "velocity", "program", "instrument", "start_time", "end_time", "quantized_start_step", "quantized_end_step", "voice",
          "numerator", "denominator", "is_drum"]


def args(r):
    g = r.choice([250000, 1000, 20])         # microseconds
    s = 1000 + r.randint(0, 4) * g + r.choice([0, 0, 0, 0, 60000000, 7200000000])
    d = dict(pitch=r.choice([0, 60, 61, 62, 127]), start_time=s / 1000000, end_time=(s + r.randint(1, 4) * g * r.choice([1, 1, 1, 1, 100])) / 1000000, velocity=r.choice([1, 64, 127]),
             program=r.choice([0, 1, 2, 0, 1, 2, 0, 1, 2, 120, 127]), instrument=r.choice([0, 1] * 5 + [9, 127]), voice=r.choice([0, 1, 1, 16, 17, 257]), numerator=r.choice([3, 4]), denominator=r.choice([4, 8]),
             is_drum=r.random() < .2, quantized_start_step=-1, quantized_end_step=-1)
    if r.random() < .2:
        d["quantized_start_step"], d["quantized_end_step"] = r.choice([1, 1, 0]), r.randint(2, 4)
    return d


def vary(r, d, f):
    d = dict(d)
    if f in ("start_time", "end_time"):
        x = r.choice([.0005, .0005, 2e-6 * d[f], max(1e-8, 2e-8 * d[f])])
        d[f] += x if f == "end_time" else -x
    elif f == "is_drum":
        d[f] = not d[f]
    elif f == "denominator":
        d[f] = 2 if d[f] != 2 else 4
    else:
        d[f] = d[f] + 1 if d[f] < 127 else d[f] - 1
    return d


def k(n):
    return (n.start_time, n.end_time, n.pitch)


def case(ctx):
    r = ctx.rng
    ds = [args(r) for _ in range(r.randint(2, 5))]
    ds += [dict(r.choice(ds)) for _ in range(r.randint(1, 2))]
    ns = [MidiNote(**d) for d in ds]
    ctx.note(notes=ds)
    for a, da in zip(ns, ds):
        for f in r.sample(FIELDS, 5):
            v = MidiNote(**vary(r, da, f))
            ctx.check(not (a == v) and a != v and not (v == a), "notes that differ in one field are different", field=f, note=da)
            ctx.ev("single_field_variants")
        e = MidiNote(**{**da, "start_time": da["start_time"] + 1e-11, "end_time": da["end_time"] - 1e-11})
        ctx.check(a == e and e == a, "rounding does not make a note different", note=da)
        ctx.check(not (a == None) and a != 5 and a != "x" and not (a == (1, 2)), "a note equals notes only")
        for b, db in zip(ns, ds):
            ctx.ev("pairs")
            same = da == db
            ctx.eq((a == b, b == a, a != b), (same, same, not same), "equality means the same fields", a=da, b=db)
            if same:
                ctx.ev("equal_pairs")
            ctx.eq(a < b, k(a) < k(b), "order by start, end and pitch", a=da, b=db)
            ctx.eq(b > a, k(a) < k(b), "order by start, end and pitch (reflected)", a=da, b=db)
            ctx.eq(a <= b, k(a)[:2] <= k(b)[:2], "weak order by start and end", a=da, b=db)
            o = a.start_time < b.end_time and b.start_time < a.end_time
            ctx.eq((a.overlaps(b), b.overlaps(a)), (o, o), "two notes overlap when some instant belongs to both", a=da, b=db)
            ctx.ev("overlapping" if o else "disjoint")
            if not o and (a.end_time == b.start_time or b.end_time == a.start_time):
                ctx.ev("touching")
            if o and a.start_time < b.start_time and b.end_time < a.end_time:
                ctx.ev("contained")
        ctx.check(a.overlaps(a), "a note overlaps itself")
    sh = list(ns)
    r.shuffle(sh)
    ctx.eq([k(x) for x in sorted(sh)], sorted(k(x) for x in ns), "sorting puts notes in order")
    ctx.eq(k(min(sh)), min(k(x) for x in ns), "the first note is the least")
    ctx.ev("sorted_lists")
    # JSON
    d = r.choice(ds)
    ref = note_full(MidiNote(**d))
    text = json.dumps({"__MidiNote__": True, "data": d})
    for src in (text, text.encode("utf-8")):
        ctx.eq(note_full(MidiNoteJSONDecoder().decode(src)), ref, "a note decoded from JSON has the fields of the text")
    ctx.eq(note_full(MidiNote.from_json(json.loads(json.dumps(d)))), ref, "a note made from a dictionary has its fields")
    ctx.ev("json_round_trips")
    mini = {x: d[x] for x in ("pitch", "start_time", "end_time", "velocity", "program", "instrument")}
    for x in FIELDS[6:]:
        if r.random() < .4:
            mini[x] = d[x]
    for pair in (("quantized_start_step", "quantized_end_step"),):
        if (pair[0] in mini) != (pair[1] in mini):
            mini.pop(pair[0], None)
            mini.pop(pair[1], None)
    want = MidiNote(**mini)
    ctx.eq(note_full(MidiNote.from_json(dict(mini))), note_full(want), "left out fields get the defaults", data=mini)
    ctx.eq(note_full(MidiNoteJSONDecoder().decode(json.dumps({"__MidiNote__": 1, "data": mini}))), note_full(want),
           "left out fields get the defaults when decoding", data=mini)
    ctx.ev("json_minimal")
    doc = {"a": [{"__MidiNote__": True, "data": x} for x in ds], "b": {"c": 5, "d": [1, None, "x"]}}
    doc["b"]["t"] = r.choice(["", "\xe9", "\u266b 3", "x"])
    if r.random() < .5:
        got = json.loads(json.dumps(doc), cls=MidiNoteJSONDecoder)
    else:
        got = MidiNoteJSONDecoder().decode(json.dumps(doc, ensure_ascii=False).encode("utf-8"))
    ctx.eq([note_full(x) for x in got["a"]], [note_full(x) for x in ns], "notes inside a document are decoded")
    ctx.eq(got["b"], doc["b"], "the rest of a document stays")
    ctx.ev("json_nested")
    more = json.dumps({"id": 7, "__MidiNote__": True, "data": d, "comment": "x"})
    ctx.eq(note_full(MidiNoteJSONDecoder().decode(more)), ref, "a note is known by its mark, whatever else stands there")
    ctx.seen(repr(ds))
    ctx.show(repr(ds[0]))
