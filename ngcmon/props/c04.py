from .. import smf, rd
from ..common import reader

CASES = {"quick": 21800, "thorough": 469000}
RULE = ("random MIDI files whose sounding channels carry up to 12 control changes and pitch bends before, between and after their "
        "notes; the events returned per track are compared as a multiset with the file. Non-trivial: at least one event; distinct by "
        "the event lists.")
REQUIRED_EVENTS = ["control_changes_compared", "pitch_bends_compared", "events_before_first_note", "events_after_last_note",
                   "events_of_channels_with_several_programs"]
ASSUMPTIONS = []


def case(ctx):
    r = ctx.rng
    sc = smf.gen(r, cc=True, max_notes=r.choice([4, 15, 30]))
    model = smf.Model(sc)
    path = rd.write_file(ctx, sc)
    ctx.note(file=sc.text())
    m = reader().read(path)
    key = []
    ctx.ev("events_of_channels_with_several_programs", model.shared_events)
    for g, e in rd.match(ctx, m, model):
        s = g["seq"]
        where = "file track %d channel %d" % (e["track"], e["channel"])
        # those of one moment in the order of the file: parameter numbers and their data depend on it
        got = sorted(((c.cc_time, c.cc_number, c.cc_value) for c in s.control_changes), key=lambda x: x[0])
        want = sorted(e["ccs"], key=lambda x: x[0])
        ctx.eq([x[1:] for x in got], [x[1:] for x in want], "control changes of the channel", where=where,
               got_list=got, want_list=want)
        for a, b in zip(got, want):
            ctx.close(a[0], model.time(b[0]), "time of a control change", tol=rd.TOL, where=where)
        gb = sorted(((float(b.midi_time), b.amount) for b in s.pitch_bends), key=lambda x: x[0])
        wb = sorted(e["bends"], key=lambda x: x[0])
        ctx.eq([x[1:] for x in gb], [x[1:] for x in wb], "pitch bends of the channel", where=where, got_list=gb, want_list=wb)
        for a, b in zip(gb, wb):
            ctx.close(a[0], model.time(b[0]), "time of a pitch bend", tol=rd.TOL, where=where)
        for c in s.control_changes:
            ctx.eq((c.program, c.instrument, c.is_drum), (e["program"], g["idx"], e["drum"]),
                   "program, track and drum flag of a control change", where=where)
        for b in s.pitch_bends:
            ctx.eq((b.program, b.instrument, b.is_drum), (e["program"], g["idx"], e["drum"]),
                   "program, track and drum flag of a pitch bend", where=where)
        ctx.ev("control_changes_compared", len(want))
        ctx.ev("pitch_bends_compared", len(wb))
        on = [n[0] for n in e["notes"]]
        off = [n[2] for n in e["notes"]]
        ctx.ev("events_before_first_note", sum(x[0] < min(on) for x in want + wb))
        ctx.ev("events_after_last_note", sum(x[0] > max(off) for x in want + wb))
        if want or wb:
            key.append((want, wb))
    if key:
        ctx.seen(key)
        ctx.show(sc.text())
