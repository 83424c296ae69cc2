import collections
import io
import os
from fractions import Fraction

import mido
import pretty_midi

from .. import smf, build
from ..common import seq_state
from ..core import Skip, many

CASES = {"quick": 17600, "thorough": 378000}
RULE = ("MIDI objects read from generated files (tempo maps, meters, keys, lyrics, controllers, drums, many tracks) or built event by event are turned into "
        "a mido file, and tracks are saved to files; every message is compared with the events of the object. Non-trivial: at least one note; "
        "distinct by the events.")
REQUIRED_EVENTS = ["notes_serialized", "controls_serialized", "tempi_serialized", "meters_serialized", "keys_serialized", "lyrics_serialized", "drum_tracks",
                   "default_meter", "given_files", "more_than_15_tracks", "repeated_notes", "tracks_saved", "notes_saved", "callbacks", "refusals_seen",
                   "reread"]
ASSUMPTIONS = ["notes of an object last at least a tick and are inside the MIDI ranges; names are text; tempi of built objects are positive"]

KEYS = ["C", "Db", "D", "Eb", "E", "F", "Gb", "G", "Ab", "A", "Bb", "B"]
NUM = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}


def key_number(name):
    minor = name.endswith("m")
    b = name[:-1] if minor else name
    n = NUM[b[0]] + b.count("#") - b[1:].count("b")
    return n % 12 + (12 if minor else 0)


def make(ctx):
    """-> object, tempo map [(tick, microseconds as a fraction)]"""
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    r = ctx.rng
    if r.random() < .5:
        sc = smf.gen(r, cc=r.random() < .6, max_notes=r.choice([5, 25]), max_tracks=r.choice([2, 4]))
        model = smf.Model(sc)
        ctx.note(file=sc.text())
        return CustomPrettyMIDI(io.BytesIO(smf.encode(sc))), [(t, Fraction(u)) for t, u in model.tempo_map], True
    res, bpm = r.choice(smf.RES), r.choice([120.0, 60.0, 90.5, round(r.uniform(20, 300), 3)])
    drum = r.choice([9, 9, 9, 15, 0])
    pm = CustomPrettyMIDI(None, resolution=res, initial_tempo=bpm, drum_channel=drum)
    tick = 60.0 / bpm / res
    ctx.note(resolution=res, tempo=bpm, drum_channel=drum)
    for k in range(r.choice([0, 1, 2, 4, 4, 20])):
        ins = pretty_midi.Instrument(r.choice([0, 127, r.randint(0, 127)]), r.random() < .25, r.choice(["", "Piano", "Str\xe9ngs", "x" * 60]))
        for _ in range((many(r, 0, 6, 60) if r.random() < .998 else r.randint(500, 3000)) if k < 5 else r.randint(0, 1)):
            s = r.choice([r.uniform(0, 9), r.randint(0, 40) * tick * max(1, res // 4)])
            e = s + r.choice([r.uniform(2 * tick, 3 + 2 * tick), max(2, r.randint(1, 8) * res // 4) * tick])
            ins.notes.append(pretty_midi.Note(r.choice([1, 127, r.randint(1, 127)]), r.choice([0, 127, r.randint(0, 127)]), s, e))
            if r.random() < .2:       # the same key again just when the note ends
                e2 = e + 3 * tick
                ins.notes.append(pretty_midi.Note(r.randint(1, 127), ins.notes[-1].pitch, e, e2))
        for _ in range(many(r, 0, 4, 60) if r.random() < .996 else r.randint(300, 1500)):
            ins.pitch_bends.append(pretty_midi.PitchBend(r.choice([0, -8192, 8191, r.randint(-8192, 8191)]), r.choice([0.0, r.uniform(0, 9)])))
            ins.control_changes.append(pretty_midi.ControlChange(r.randint(0, 127), r.randint(0, 127), r.choice([0.0, r.uniform(0, 9)])))
        pm.instruments.append(ins)
    for _ in range(r.choice([0, 0, 1, 3, 3, 12]) if r.random() < .98 else r.randint(30, 150)):
        pm.time_signature_changes.append(pretty_midi.TimeSignature(r.randint(1, 12), 2 ** r.randint(0, 5), r.choice([0.0, r.uniform(0, 9)])))
        pm.key_signature_changes.append(pretty_midi.KeySignature(r.randint(0, 23), r.choice([0.0, r.uniform(0, 9)])))
        pm.lyrics.append(pretty_midi.Lyric(r.choice(["la", "m\xe9", "", "la la la " * r.randint(1, 40)]), r.uniform(0, 9)))
    return pm, [(0, Fraction(60000000) / Fraction(bpm))], False


def state(pm):
    return (pm.resolution, [(i.program, i.is_drum, i.name, [(n.pitch, n.velocity, float(n.start), float(n.end)) for n in i.notes],
                             [(b.pitch, float(b.time)) for b in i.pitch_bends], [(c.number, c.value, float(c.time)) for c in i.control_changes])
                            for i in pm.instruments],
            [(t.numerator, t.denominator, float(t.time)) for t in pm.time_signature_changes], [(k.key_number, float(k.time)) for k in pm.key_signature_changes],
            [(x.text, float(x.time)) for x in pm.lyrics], [[float(x) for x in a] for a in pm.get_tempo_changes()])


def absolute(track):
    t, out = 0, []
    for m in track:
        t += m.time
        out.append((t, m))
    return out


def common(ctx, track, what):
    ctx.check(all(isinstance(m.time, int) and m.time >= 0 for m in track), "delta times are whole and not negative", track=what)
    ends = [i for i, m in enumerate(track) if m.type == "end_of_track"]
    ctx.eq(ends, [len(track) - 1], "a track ends once, at its end", track=what)


class Ticks:
    """ticks of seconds, exactly; both neighbours where the time is half way"""

    def __init__(self, res, tm):
        self.at, self.tm, self.res = [Fraction(0)], tm, res
        for (a, us), (b, _) in zip(tm, tm[1:]):
            self.at.append(self.at[-1] + (b - a) * us / (res * 1000000))

    def of(self, t):
        i = max(k for k, x in enumerate(self.at) if float(x) <= t + 1e-12) if t >= 0 else 0
        x = self.tm[i][0] + (Fraction(t) - self.at[i]) * self.res * 1000000 / self.tm[i][1]
        lo = int(x)
        return lo, lo + 1, x


def match(ctx, tk, want, got, what, **w):
    """want: [(seconds, key)], got: [(tick, key)], one to one within half a tick"""
    g, e = collections.defaultdict(list), collections.defaultdict(list)
    for t, k in got:
        g[k].append(t)
    for t, k in want:
        e[k].append(t)
    ctx.eq(sorted((k, len(v)) for k, v in g.items()), sorted((k, len(v)) for k, v in e.items()), "%s of the file" % what, **w)
    for k in e:
        for a, b in zip(sorted(e[k]), sorted(g[k])):
            lo, hi, x = tk.of(a)
            lim = Fraction(1, 2) + Fraction(1, 10 ** 6)
            # next to a tempo change the nearer tick may be counted at the other tempo
            ok = b in (lo, hi) and (abs(b - x) <= lim or any(abs(x - c) <= 1 for c, _ in tk.tm[1:]))
            ctx.check(ok, "place of %s" % what, event=k, seconds=a, ticks=float(x), returned=b, **w)
    return len(want)


def serialized(ctx):
    r = ctx.rng
    pm, tm, exact = make(ctx)
    before = state(pm)
    arg = ()
    given = None
    if r.random() < .4:
        given = mido.MidiFile(ticks_per_beat=r.choice([1, 96, 999]))
        arg = (given,)
    f = pm.serialize(*arg)
    if given is not None:
        ctx.check(f is given, "the given file is filled and returned")
        ctx.ev("given_files")
    ctx.eq(state(pm), before, "the object stays as it was")
    ctx.eq(f.ticks_per_beat, pm.resolution, "resolution of the file")
    ctx.eq(len(f.tracks), 1 + len(pm.instruments), "one track for the clock and one for each instrument")
    for i, t in enumerate(f.tracks):
        common(ctx, t, i)
    tk = Ticks(pm.resolution, tm)
    t0 = absolute(f.tracks[0])
    ctx.check(all(m.is_meta for _, m in t0), "the clock track has no notes")
    tempi = [(t, m.tempo) for t, m in t0 if m.type == "set_tempo"]
    ctx.eq([t for t, _ in tempi], [t for t, _ in tm], "places of the tempi")
    for (t, us), (_, w) in zip(tempi, tm):
        # a tempo read from a file is a whole number of microseconds and comes back as it was
        ctx.check(us == w if exact else abs(us - w) <= Fraction(1, 2) + Fraction(1, 1000), "tempo in microseconds per quarter", tick=t, returned=us, expected=float(w))
        ctx.ev("tempi_serialized")
    want = [(float(s.time), (s.numerator, s.denominator)) for s in pm.time_signature_changes]
    if not any(t == 0 for t, _ in want):
        want.append((0.0, (4, 4)))
        ctx.ev("default_meter")
    ctx.ev("meters_serialized", match(ctx, tk, want, [(t, (m.numerator, m.denominator)) for t, m in t0 if m.type == "time_signature"], "meters"))
    ctx.ev("keys_serialized", match(ctx, tk, [(float(k.time), k.key_number) for k in pm.key_signature_changes],
                                    [(t, key_number(m.key)) for t, m in t0 if m.type == "key_signature"], "keys"))
    ctx.ev("lyrics_serialized", match(ctx, tk, [(float(x.time), x.text) for x in pm.lyrics], [(t, m.text) for t, m in t0 if m.type == "lyrics"], "lyrics"))
    ctx.check(not [m.type for _, m in t0 if m.type not in ("set_tempo", "time_signature", "key_signature", "lyrics", "end_of_track")], "nothing else on the clock track")
    total = 0
    for i, tr in zip(pm.instruments, f.tracks[1:]):
        a = absolute(tr)
        w = dict(instrument=(i.program, i.is_drum, i.name))
        ctx.eq([(t, m.name) for t, m in a if m.type == "track_name"], [(0, i.name)] if i.name else [], "name of the track", **w)
        ctx.eq([(t, m.program) for t, m in a if m.type == "program_change"], [(0, i.program)], "program of the track", **w)
        ch = {m.channel for _, m in a if not m.is_meta}
        ctx.check(len(ch) == 1 and (ch == {pm.drum_channel}) == bool(i.is_drum), "drums and only drums are on the drum channel", channels=ch, **w)
        ctx.ev("drum_tracks", int(bool(i.is_drum)))
        on = [(t, (m.note, m.velocity)) for t, m in a if m.type == "note_on" and m.velocity]
        off = [(t, m.note) for t, m in a if m.type == "note_off" or m.type == "note_on" and not m.velocity]
        match(ctx, tk, [(float(n.start), (n.pitch, n.velocity)) for n in i.notes], on, "note ons", **w)
        match(ctx, tk, [(float(n.end), n.pitch) for n in i.notes], off, "note offs", **w)
        # a key struck again at the tick its note ends: the end comes first
        seen = {}
        for j, (t, m) in enumerate(a):
            if m.type == "note_on" and m.velocity:
                seen[m.note] = t
            elif m.type in ("note_on", "note_off"):
                ctx.check(seen.get(m.note) != t, "a note does not end at the tick it starts", tick=t, pitch=m.note, **w)
        if set(off) & {(t, k[0]) for t, k in on}:
            ctx.ev("repeated_notes")
        k = match(ctx, tk, [(float(b.time), b.pitch) for b in i.pitch_bends], [(t, m.pitch) for t, m in a if m.type == "pitchwheel"], "pitch bends", **w)
        k += match(ctx, tk, [(float(c.time), (c.number, c.value)) for c in i.control_changes],
                   [(t, (m.control, m.value)) for t, m in a if m.type == "control_change"], "control changes", **w)
        ctx.ev("controls_serialized", k)
        first = [m.type for _, m in a if m.type in ("program_change", "note_on", "note_off", "pitchwheel", "control_change")][0]
        ctx.eq(first, "program_change", "the program comes first", **w)
        total += len(i.notes)
    used = [next(m.channel for m in t if not m.is_meta) for t in f.tracks[1:]]
    mel = [c for c, i in zip(used, pm.instruments) if not i.is_drum]
    if len(pm.instruments) <= 15:
        ctx.eq(len(set(mel)), len(mel), "tracks have a channel each as long as there are enough", channels=used)
    else:
        ctx.ev("more_than_15_tracks")
    ctx.ev("notes_serialized", total)
    # the file can be saved and read
    buf = io.BytesIO()
    f.save(file=buf)
    g = mido.MidiFile(file=io.BytesIO(buf.getvalue()), clip=False)
    ctx.eq([[(t, str(m.copy(time=0))) for t, m in absolute(x)] for x in g.tracks], [[(t, str(m.copy(time=0))) for t, m in absolute(x)] for x in f.tracks],
           "the file is a sound MIDI file")
    ctx.ev("reread")
    if total:
        ctx.seen(before)
        ctx.show("%d instruments, %d notes, %d tempi" % (len(pm.instruments), total, len(tm)))


def saved(ctx):
    r = ctx.rng
    s = build.seq(r, n=r.choice([0, 1, 3, 12, 40]), hi=r.choice([3.0, 20.0, 200.0]), name=r.choice(["Piano", "B", "Str\xe9ngs", "\u4e2d\u6587", "a\u20acb"]),
                  grid=r.choice([None, .25, 1 / 440]))
    if r.random() < .2 and len(s.notes):
        s.notes.sort(key=lambda n: (-n.start_time, n.pitch))
    before = seq_state(s)
    path = os.path.join(ctx.tmpdir(), "o.mid")
    calls = []
    s.to_midi_file(path, callback=lambda *a, **k: calls.append((a, k)))
    ctx.eq(len(calls), 1, "the callback is called once")
    a = calls[0][0] + tuple(calls[0][1].values())
    ctx.eq((a[0], a[1] is s.instrument, a[3]), (path, True, s.total_time), "the callback gets the path, the instrument and the length")
    ctx.check(sorted(map(id, a[2])) == sorted(id(n) for n in s.notes) and all(x.start_time <= y.start_time for x, y in zip(a[2], a[2][1:])),
              "the callback gets the notes in order of time", returned=a[2])
    ctx.ev("callbacks")
    ctx.raises(ValueError, lambda: s.to_midi_file(path, callback=None), "no callback is refused")
    if not len(s.notes):
        ctx.raises(ValueError, lambda: s.to_midi_file(path), "a track without notes is refused")
        ctx.eq(os.listdir(os.path.dirname(path)), [], "a refused save leaves no file")
        ctx.eq(seq_state(s), before, "the track stays as it was")
        return
    from neural_graph_composer.midi.callbacks import save_midi_callback
    tempo, res = 120.0, 220
    if r.random() < .5:
        s.to_midi_file(path)
    else:
        tempo, res = r.choice([120.0, 60.0, 93.0]), r.choice([96, 220, 480])
        save_midi_callback(path, s.instrument, list(s.notes), s.total_time, tempo=tempo, resolution=res)
        for x in ([], None):
            ctx.raises(ValueError, lambda: save_midi_callback(path + "2", s.instrument, x, 1.0), "no notes to save")
        ctx.raises(ValueError, lambda: save_midi_callback(path + "2", None, list(s.notes), 1.0), "no instrument to save")
        ctx.check(not os.path.exists(path + "2"), "a refused save leaves no file")
    ctx.eq(seq_state(s), before, "the track stays as it was")
    f = mido.MidiFile(path, clip=False)
    w = dict(track=before[0], tempo=tempo, resolution=res)
    ctx.eq(f.ticks_per_beat, res, "resolution of the saved file")
    tempi = [m.tempo for m in f.tracks[0] if m.type == "set_tempo"]
    ctx.check(len(tempi) == 1 and abs(tempi[0] - 6e7 / tempo) <= 1, "tempo of the saved file", returned=tempi)
    tk = Ticks(res, [(0, Fraction(60000000) / Fraction(tempo))])
    sounding = [t for t in f.tracks if any(m.type == "note_on" for m in t)]
    ctx.eq(len(sounding), 1, "one track sounds")
    a = absolute(sounding[0])
    inst = s.instrument
    ctx.eq([m.program for _, m in a if m.type == "program_change"], [inst.instrument_num], "program of the saved track", **w)
    ctx.eq([m.name for _, m in a if m.type == "track_name"], [inst.name.encode("latin1", "replace").decode("latin1")], "name of the saved track", **w)
    ctx.eq({m.channel == 9 for _, m in a if not m.is_meta}, {inst.is_drum}, "drums and only drums are on channel 10", **w)
    on = [(t, (m.note, m.velocity)) for t, m in a if m.type == "note_on" and m.velocity]
    off = [(t, m.note) for t, m in a if m.type == "note_off" or m.type == "note_on" and not m.velocity]
    match(ctx, tk, [(n.start_time, (n.pitch, n.velocity)) for n in s.notes], on, "note ons", **w)
    match(ctx, tk, [(n.end_time, n.pitch) for n in s.notes], off, "note offs", **w)
    ctx.ev("tracks_saved")
    ctx.ev("notes_saved", len(on))
    ctx.seen(before, tempo, res)


def case(ctx):
    (serialized, serialized, saved)[ctx.case % 3](ctx)
