from .. import smf, rd
from ..common import reader

CASES = {"quick": 18300, "thorough": 392000}
RULE = ("random standard MIDI files (format 0 and 1, 1..5 tracks, 1..5 channels per track, mono/chord/polyphonic/retriggered "
        "textures, both note-off spellings, running status, missing and orphan note-offs, mid-track program changes, drums, "
        "noise events) are encoded by an independent writer and read; every returned note is compared with the file's event "
        "list. Non-trivial: at least one note returned; distinct by the whole event list.")
REQUIRED_EVENTS = ["notes_compared", "note_closed_by_off", "note_closed_by_on", "note_closed_by_eot", "drum_tracks",
                   "files_format0", "files_format1", "channels_with_program_changes"]
ASSUMPTIONS = ["no two onsets of one pitch on one channel at the same tick; a program change comes while its channel is silent; "
               "the track end lies after the last onset"]


def case(ctx):
    r = ctx.rng
    sc = smf.gen(r, max_notes=r.choice([6, 20, 60]), long=r.random() < .1)
    model = smf.Model(sc)
    path = rd.write_file(ctx, sc)
    ctx.note(file=sc.text())
    m = reader().read(path)
    rd.compare_notes(ctx, m, model)
    ctx.ev("files_format%d" % (0 if len(sc.tracks) == 1 else 1))
    by = {}
    for (t, c, p) in model.instruments:
        by.setdefault((t, c), set()).add(p)
    ctx.ev("channels_with_program_changes", sum(len(v) > 1 for v in by.values()))
    if model.instruments:
        ctx.seen(sc.text())
        ctx.show(sc.text())
