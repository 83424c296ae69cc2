"""comparison of what the reader returned with the model of the file"""
import os
from . import smf
from .core import Violation

TOL = 2e-9


def write_file(ctx, score, name="in.mid", **kw):
    p = os.path.join(ctx.tmpdir(), name)
    with open(p, "wb") as f:
        f.write(smf.encode(score, running=ctx.rng.random() < .7, **kw))
    return p


def got_tracks(m):
    res = []
    for k in m:
        s = m[k]
        notes = sorted(((n.start_time, n.pitch, n.end_time, n.velocity, n) for n in s.notes), key=lambda x: x[:4])
        res.append({"idx": k, "prog": s.instrument.instrument_num, "drum": s.instrument.is_drum,
                    "name": s.instrument.name, "notes": notes, "seq": s})
    return res


def exp_tracks(model):
    recs = sorted(model.instruments.values(), key=lambda r: (r["track"], r["first_close"]))
    res = []
    for r in recs:
        notes = sorted(((s, p, e, v, why) for p, v, s, e, why in r["notes"]))
        res.append(dict(r, notes=notes))
    return res


def match(ctx, m, model):
    """pair each returned track with the channel of the file it must stand for"""
    got, exp = got_tracks(m), exp_tracks(model)
    ctx.eq([g["idx"] for g in got], list(range(len(got))), "tracks are numbered 0..n-1")
    ctx.eq(len(got), len(exp), "one track per (file track, channel, program) that has notes",
           returned=[(g["prog"], g["drum"], g["name"], len(g["notes"])) for g in got],
           in_file=[(e["track"], e["channel"], e["program"], e["name"], len(e["notes"])) for e in exp])

    def kg(g):
        return (g["prog"], g["drum"], len(g["notes"]), tuple((x[1], x[3]) for x in g["notes"]))

    def ke(e):
        return (e["program"], e["drum"], len(e["notes"]), tuple((x[1], x[3]) for x in e["notes"]))
    gs, es = sorted(got, key=kg), sorted(exp, key=ke)
    for g, e in zip(gs, es):
        if kg(g) != ke(e):
            raise Violation("a track does not hold the notes (pitch, velocity) of its channel in the file",
                            got=repr(kg(g))[:1500], want=repr(ke(e))[:1500],
                            where="file track %d channel %d" % (e["track"], e["channel"]))
    return list(zip(gs, es))


def compare_notes(ctx, m, model):
    pairs = match(ctx, m, model)
    total = 0.0
    for g, e in pairs:
        where = "file track %d channel %d program %d" % (e["track"], e["channel"], e["program"])
        if e["name"]:
            ctx.eq(g["name"], e["name"], "the track keeps its name", where=where)
        last = 0.0
        for x, y in zip(g["notes"], e["notes"]):
            st, en = model.time(y[0]), model.time(y[2])
            ctx.close(x[0], st, "note onset time", tol=TOL, where=where, note=y)
            ctx.close(x[2], en, "note end time (closed by %s)" % y[4], tol=TOL, where=where, note=y)
            n = x[4]
            ctx.eq((n.program, n.instrument, n.is_drum), (e["program"], e["program"], e["drum"]),
                   "program and drum flag of a note", where=where, note=y)
            ctx.ev("note_closed_by_" + y[4])
            last = max(last, en)
        total = max(total, last)
        ctx.close(g["seq"].total_time, last, "track total time is the end of its last note", tol=TOL, where=where)
        ctx.ev("tracks_compared")
        ctx.ev("notes_compared", len(e["notes"]))
        if e["drum"]:
            ctx.ev("drum_tracks")
    ctx.close(m.total_time, total, "total time is the end of the last note", tol=TOL)
    order = [e["track"] for g, e in sorted(pairs, key=lambda p: p[0]["idx"])]
    ctx.eq(order, sorted(order), "tracks come in file order")
    return pairs


def compare_meter(ctx, m, model):
    n = 0
    for g, e in match(ctx, m, model):
        for x, y in zip(g["notes"], e["notes"]):
            note = x[4]
            ctx.eq((note.numerator, note.denominator), model.meter_at(y[0]), "meter recorded in the note at tick %d" % y[0],
                   signatures=model.time_sigs)
            n += 1
    ctx.ev("note_meters_compared", n)


def compare_tempi(ctx, m, model):
    want = model.tempi()
    got = [(t.midi_time, t.qpm) for t in m.tempo_signatures]
    ctx.eq(len(got), len(want), "number of tempo changes", got_list=got, want_list=want)
    for (a, b), (c, d) in zip(got, want):
        ctx.close(a, c, "time of a tempo change", tol=TOL, want_list=want)
        ctx.close(b, d, "value of a tempo change (quarters per minute)", tol=1e-6, rel=1e-9, want_list=want)
    for t in m.tempo_signatures:
        ctx.eq(t.resolution, model.score.resolution, "tempo entry resolution")
    ctx.eq(m.resolution, model.score.resolution, "resolution of the container")
    ctx.ev("tempo_changes_compared", len(want))


def merged_sigs(model, sigs, default):
    """time sorted list with the default entry at 0, replaced by an entry given at 0"""
    res = [(0.0,) + default]
    for s in sigs:
        t = model.time(s[0])
        if t < 1e-6:
            res[0] = (t,) + tuple(s[1:])
        else:
            res.append((t,) + tuple(s[1:]))
    return res


def key_of(sf, mi):
    return ((7 * sf) % 12, "MAJOR") if mi == 0 else ((7 * sf + 9) % 12, "MINOR")


def compare_sigs(ctx, m, model):
    want = merged_sigs(model, model.time_sigs, (4, 4))
    got = [(t.midi_time, t.numerator, t.denominator) for t in m.time_signatures]
    ctx.eq([g[1:] for g in got], [w[1:] for w in want], "time signatures in time order", got_list=got, want_list=want)
    for g, w in zip(got, want):
        ctx.close(g[0], w[0], "time of a time signature", tol=TOL)
    ctx.ev("time_signatures_compared", len(want))
    want = merged_sigs(model, [(k[0],) + key_of(k[1], k[2]) for k in model.key_sigs], (0, "MAJOR"))
    got = [(t.midi_time, t.midi_key, t.mode.name) for t in m.key_signatures]
    ctx.eq([g[1:] for g in got], [w[1:] for w in want], "key signatures in time order", got_list=got, want_list=want)
    for g, w in zip(got, want):
        ctx.close(g[0], w[0], "time of a key signature", tol=TOL)
    ctx.ev("key_signatures_compared", len(want))
