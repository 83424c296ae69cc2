from .. import smf, rd
from ..common import reader

CASES = {"quick": 20900, "thorough": 450000}
RULE = ("random MIDI files with up to 6 time and 6 key signature changes (also two at one tick) under random tempo maps; the returned "
        "signature lists and the meter stored in every note are compared with the file. Non-trivial: a note starts after a second "
        "meter took effect; distinct by the signature lists.")
REQUIRED_EVENTS = ["note_meters_compared", "notes_under_a_later_meter", "notes_exactly_on_a_meter_change",
                   "time_signatures_compared", "key_signatures_compared", "minor_keys"]
ASSUMPTIONS = ["tempo, time and key events stand on the first track, as the format demands"]


def case(ctx):
    r = ctx.rng
    sc = smf.gen(r, max_notes=r.choice([20, 40]), noise=False, tempo=r.choice([None, None, "few"]))
    # move some meter changes exactly onto note onsets
    onsets = sorted({e[0] for t in sc.tracks for e in t if e[1] == "on" and e[0] > 0})
    if onsets:
        moved = []
        for e in sc.tracks[0]:
            if e[1] == "ts" and e[0] > 0 and r.random() < .6:
                e = (r.choice(onsets),) + e[1:]
            moved.append(e)
        order = {"name": 0, "tempo": 1, "ts": 2, "ks": 3}
        if not any(e[1] in ("on", "off", "prog") for e in sc.tracks[0]):
            moved.sort(key=lambda e: (e[0], order.get(e[1], 4)))
            sc.tracks[0] = moved
            sc.eot[0] = max(sc.eot[0], moved[-1][0] if moved else 0)
    model = smf.Model(sc)
    path = rd.write_file(ctx, sc)
    ctx.note(file=sc.text())
    m = reader().read(path)
    rd.compare_sigs(ctx, m, model)
    rd.compare_meter(ctx, m, model)
    ctx.ev("minor_keys", sum(1 for k in model.key_sigs if k[2]))
    later = [t for t in model.time_sigs if t[0] > 0]
    k = sum(1 for rec in model.instruments.values() for x in rec["notes"] for t in later[:1] if x[2] >= t[0])
    ctx.ev("notes_under_a_later_meter", k)
    ctx.ev("notes_exactly_on_a_meter_change",
           sum(1 for rec in model.instruments.values() for x in rec["notes"] for t in later if x[2] == t[0]))
    for s in m.time_signatures:
        ctx.eq(m.time_signature(float(s.midi_time)),
               [(x.numerator, x.denominator) for x in m.time_signatures if x.midi_time == s.midi_time][-1],
               "meter looked up at the time of a change")
    for s in m.key_signatures:
        ctx.eq(m.key_signature(float(s.midi_time)),
               [(x.mode, x.midi_key) for x in m.key_signatures if x.midi_time == s.midi_time][-1],
               "key looked up at the time of a change")
    if k:
        ctx.seen(model.time_sigs, model.key_sigs, sc.resolution)
        ctx.show(sc.text())
