from .. import smf, rd
from ..common import reader

CASES = {"quick": 15400, "thorough": 332000}
RULE = ("random MIDI files with none, one, several or up to 30 tempo changes (also equal repeats and several at tick 0) and random "
        "resolutions; every time returned by the reader (notes, signatures, tempo entries) is compared with the exact rational "
        "integral of the tempo map. Non-trivial: at least one timed item after a tempo change; distinct by tempo map and resolution.")
REQUIRED_EVENTS = ["tempo_changes_compared", "notes_after_a_change", "files_with_many_changes", "files_without_tempo"]
ASSUMPTIONS = ["tempo, time and key events stand on the first track, as the format demands"]


def case(ctx):
    r = ctx.rng
    sc = smf.gen(r, tempo=r.choice([None, "few", "many", "many"]), max_notes=r.choice([6, 20, 40]), long=r.random() < .2)
    model = smf.Model(sc)
    path = rd.write_file(ctx, sc)
    ctx.note(file=sc.text())
    m = reader().read(path)
    rd.compare_tempi(ctx, m, model)
    rd.compare_notes(ctx, m, model)
    rd.compare_sigs(ctx, m, model)
    # clock lookups through the container
    for i, (t, q) in enumerate(model.tempi()):
        got = m.tempo_signature(float(m.tempo_signatures[i].midi_time))
        last = [x for x in m.tempo_signatures if x.midi_time == m.tempo_signatures[i].midi_time][-1]
        ctx.eq(got, (int(last.qpm), sc.resolution), "tempo in force at the time of a tempo change")
    ctx.close(m.initial_tempo(), model.tempi()[0][1], "initial tempo", tol=1e-6)
    n = len(model.tempo_map)
    if n > 1:
        first = model.tempo_map[1][0]
        k = sum(1 for rec in model.instruments.values() for x in rec["notes"] if x[3] > first)
        ctx.ev("notes_after_a_change", k)
        if k:
            ctx.seen(sc.resolution, model.tempo_map)
            ctx.show(sc.text())
    if n > 5:
        ctx.ev("files_with_many_changes")
    if not any(e[1] == "tempo" for e in sc.tracks[0]):
        ctx.ev("files_without_tempo")
