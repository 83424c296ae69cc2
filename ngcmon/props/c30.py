import io
import math
import warnings

import numpy as np
import pretty_midi

from .. import smf
from ..core import Skip, many

CASES = {"quick": 25400, "thorough": 546000}
RULE = ("MIDI objects read from generated files or built event by event are asked for their onsets, end, piano roll, chroma, pitch class histogram and transition "
        "matrix, for their tempo estimates and their sound; every number is recomputed note by note. Non-trivial: at least one note; distinct by the notes.")
REQUIRED_EVENTS = ["onsets", "ends", "rolls", "roll_cells", "chromas", "histograms", "transitions_counted", "normalized_transitions", "drums_left_out",
                   "empty_objects", "invalid_removed", "given_times", "tempi_estimated", "several_tempi", "beat_starts", "clear_first_beats", "waves", "silent_waves", "no_notes_refused", "pedals"]
ASSUMPTIONS = ["notes have times and pitches inside the MIDI ranges; sustain pedals and bends are not part of the piano rolls compared"]


def make(ctx, bends=False):
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    r = ctx.rng
    if r.random() < .35:
        sc = smf.gen(r, max_notes=r.choice([4, 16]), max_tracks=3)
        pm = CustomPrettyMIDI(io.BytesIO(smf.encode(sc)))
        if pm.get_end_time() < 400:
            ctx.note(file=sc.text())
            return pm
    pm = CustomPrettyMIDI(None, initial_tempo=r.choice([120.0, 77.0]))
    step = r.choice([.25, .5, .125, .3])
    for _ in range(r.choice([0, 1, 1, 2, 3, 1, 2, 3, 1, 2, 16])):
        ins = pretty_midi.Instrument(r.randint(0, 127), r.random() < .25)
        for _ in range(r.choice([0, 1, 2, 5, 9, 1, 2, 5, 9, 40]) if r.random() < .998 else r.randint(200, 1500)):
            s = r.choice([r.randint(0, 20) * step, r.uniform(0, 6), 0.0])
            d = r.choice([step, step, 2 * step, r.uniform(.001, 3), .0021])
            ins.notes.append(pretty_midi.Note(r.choice([1, 127, r.randint(1, 127)]), r.choice([0, 127, 60, 72, r.randint(0, 127)]), s, s + d))
        if r.random() < .3:
            ins.control_changes.append(pretty_midi.ControlChange(r.choice([7, 1, 127]), r.randint(0, 127), r.uniform(0, 12)))
        if bends and r.random() < .3:
            ins.pitch_bends.append(pretty_midi.PitchBend(r.randint(-8192, 8191), r.uniform(0, 9)))
        pm.instruments.append(ins)
    if r.random() < .3:
        pm.lyrics.append(pretty_midi.Lyric("x", r.uniform(0, 15)))
    if r.random() < .3:
        pm.key_signature_changes.append(pretty_midi.KeySignature(3, r.uniform(0, 15)))
    if r.random() < .3:
        pm.time_signature_changes.append(pretty_midi.TimeSignature(3, 4, r.uniform(0, 15)))
    ctx.note(instruments=[(i.is_drum, i.notes, i.control_changes) for i in pm.instruments])
    return pm


def state(pm):
    return [(i.program, i.is_drum, [(n.pitch, n.velocity, float(n.start), float(n.end)) for n in i.notes]) for i in pm.instruments]


def col(t, fs):
    """the column of a time, and whether it is too near a border to tell"""
    x = t * fs
    return int(x)


def views(ctx):
    r = ctx.rng
    pm = make(ctx)
    for i in pm.instruments:
        i.control_changes = [c for c in i.control_changes if c.number != 64]
        i.pitch_bends = [b for b in i.pitch_bends if b.pitch == 0]
    st = state(pm)
    notes = [(k, i.is_drum, n) for k, i in enumerate(pm.instruments) for n in i.notes]
    ons = pm.get_onsets()
    ctx.eq([float(x) for x in ons], sorted(float(n.start) for _, _, n in notes), "onsets are those of all notes, in order")
    ctx.ev("onsets", len(ons))
    ends = [float(n.end) for _, _, n in notes] + [float(c.time) for i in pm.instruments for c in list(i.control_changes) + list(i.pitch_bends)] \
        + [float(e.time) for x in (pm.time_signature_changes, pm.key_signature_changes, pm.lyrics) for e in x] + [float(x) for x in pm.get_tempo_changes()[0]]
    ctx.eq(float(pm.get_end_time()), max(ends), "the object ends with its last event")
    ctx.ev("ends")
    # the piano roll
    fs = r.choice([100, 10, 7, 50, 1])
    roll = pm.get_piano_roll(fs=fs)
    ctx.eq(roll.shape[0], 128, "a row for each key")
    cols = 0
    for i in pm.instruments:
        if i.notes:
            cols = max([cols] + [col(float(e), fs) for e in [n.end for n in i.notes] + [c.time for c in list(i.control_changes) + list(i.pitch_bends)]])
    ctx.check(abs(roll.shape[1] - cols) <= 1, "columns of the roll reach to the last event of the instruments", returned=roll.shape[1], expected=cols, fs=fs)
    want = np.zeros((128, roll.shape[1]))
    fuzzy = np.zeros((128, roll.shape[1]), bool)      # a border so near a column edge that rounding decides
    for _, drum, n in notes:
        if drum:
            ctx.ev("drums_left_out")
            continue
        a, b = float(n.start) * fs, float(n.end) * fs
        want[n.pitch, int(a):int(b)] += n.velocity
        for x in (a, b):
            if abs(x - round(x)) < 1e-6:
                fuzzy[n.pitch, max(0, round(x) - 1):round(x) + 1] = True
    bad = (np.abs(want - roll) > 1e-9) & ~fuzzy
    ctx.check(not bad.any(), "a cell of the roll has the velocities sounding there", fs=fs, cells=[(int(p), int(c), float(roll[p, c]), float(want[p, c]))
                                                                                             for p, c in zip(*np.nonzero(bad))][:5])
    # on a border either side may be meant, but nothing else
    ctx.check((roll >= 0).all() and np.isfinite(roll).all(), "cells are velocities", fs=fs)
    ctx.ev("rolls")
    ctx.ev("roll_cells", int((want > 0).sum()))
    ch = pm.get_chroma(fs=fs)
    ctx.eq(ch.shape, (12, roll.shape[1]), "shape of the chroma")
    fold = np.zeros((12, roll.shape[1]))
    for p in range(128):
        fold[p % 12] += roll[p]
    ctx.check(np.allclose(ch, fold), "the chroma folds the roll into one octave", fs=fs)
    ctx.ev("chromas")
    if notes and r.random() < .4 and roll.shape[1] > 3:
        k = r.choice([2, 3, 5])
        times = np.arange(0, roll.shape[1] + 1, k) / fs
        if len(times) > 1 and len({int(round(t * fs)) for t in times}) == len(times):
            got = pm.get_piano_roll(fs=fs, times=times)
            ctx.eq(got.shape, (128, len(times)), "a column for each time asked for", fs=fs, times=times)
            for n, (a, b) in enumerate(zip(times[:-1], times[1:])):
                a, b = int(round(a * fs)), int(round(b * fs))
                if b <= roll.shape[1] and not _short(pm, fs, b):
                    ctx.check(np.allclose(got[:, n], roll[:, a:b].mean(axis=1)), "a column is the mean over its time", fs=fs, times=times, column=n)
            ctx.ev("given_times")
    # the pedal
    if pm.instruments and r.random() < .3:
        for i in pm.instruments:
            last = max([float(n.end) for n in i.notes] + [0])
            for _ in range(r.choice([0, 1, 4])):
                i.control_changes.append(pretty_midi.ControlChange(64, r.choice([0, 127, r.randint(0, 127)]), r.uniform(0, last)))
        got = pm.get_piano_roll(fs=fs, pedal_threshold=None)
        ctx.check(got.shape == roll.shape and np.allclose(got, roll), "without a threshold the pedal is not heard", fs=fs)
        ctx.check(np.allclose(pm.get_chroma(fs=fs, pedal_threshold=None), ch), "without a threshold the pedal is not heard in the chroma", fs=fs)
        p = r.choice([0, 1, 64, 127, r.randint(1, 127)])
        parts = [i.get_piano_roll(fs=fs, pedal_threshold=p) for i in pm.instruments]
        w = np.zeros((128, max(x.shape[1] for x in parts)))
        for x in parts:
            w[:, :x.shape[1]] += x
        for got in (pm.get_piano_roll(fs=fs, pedal_threshold=p),) + ((pm.get_piano_roll(fs=fs),) if p == 64 else ()):
            ctx.check(got.shape == w.shape and np.allclose(got, w), "the pedal counts from the threshold given", fs=fs, threshold=p)
        ctx.ev("pedals")
        for i in pm.instruments:
            i.control_changes = [c for c in i.control_changes if c.number != 64]
    # pitch classes
    for dur in (False, True):
        for vel in (False, True):
            h = [0.0] * 12
            for _, drum, n in notes:
                if not drum:
                    h[n.pitch % 12] += (float(n.end) - float(n.start) if dur else 1) * (n.velocity if vel else 1)
            got = pm.get_pitch_class_histogram(use_duration=dur, use_velocity=vel, normalize=False)
            ctx.check(np.allclose(got, h), "pitch class histogram", duration=dur, velocity=vel, returned=got, expected=h)
            tot = sum(h)
            got = pm.get_pitch_class_histogram(use_duration=dur, use_velocity=vel)
            ctx.check(np.allclose(got, [x / tot if tot else 0 for x in h]), "normalized pitch class histogram", duration=dur, velocity=vel, returned=got)
            ctx.ev("histograms")
    thr = r.choice([.05, .05, .2, .001])
    m = np.zeros((12, 12))
    close = np.zeros((12, 12))
    for i in pm.instruments:
        if i.is_drum or len(i.notes) < 2:
            continue
        for a in i.notes:
            for b in i.notes:
                d = abs(float(a.end) - float(b.start))
                if abs(d - thr) < 1e-9:
                    close[a.pitch % 12, b.pitch % 12] += 1
                elif d < thr:
                    m[a.pitch % 12, b.pitch % 12] += 1
    got = pm.get_pitch_class_transition_matrix(time_thresh=thr)
    ctx.check(((got >= m - 1e-9) & (got <= m + close + 1e-9)).all(), "pitch class transitions", thresh=thr, returned=got.tolist(), expected=m.tolist())
    ctx.ev("transitions_counted", int(m.sum()))
    nm = pm.get_pitch_class_transition_matrix(normalize=True, time_thresh=thr)
    ctx.check(np.isfinite(nm).all(), "normalized transitions are numbers", thresh=thr)
    ctx.check(((nm > 0) == (got > 0)).all() and (abs(nm.sum() - 1) < 1e-9 if got.sum() else not nm.any()), "normalized transitions sum to one", thresh=thr)
    ctx.ev("normalized_transitions", int(got.sum() > 0))
    if sum(1 for i in pm.instruments if not i.is_drum and len(i.notes) > 1) == 1 and got.sum():
        ctx.check(np.allclose(nm, got / got.sum()), "normalized transitions of one instrument", thresh=thr)
    ctx.eq(state(pm), st, "asking changes nothing")
    if not notes:
        ctx.ev("empty_objects")
    # invalid notes
    if r.random() < .4 and pm.instruments:
        for _ in range(r.randint(1, 4)):
            s = r.uniform(0, 5)
            i = r.choice(pm.instruments)
            n = pretty_midi.Note(9, 60, s, s + 1)
            n.end = r.choice([s, s - .1, s - 1e-9])
            i.notes.insert(r.randint(0, len(i.notes)), n)
            ctx.ev("invalid_removed")
        pm.remove_invalid_notes()
        ctx.eq(state(pm), st, "notes that end before they start are removed, and no others")
    if notes:
        ctx.seen(st)
        ctx.show("%d instruments, %d notes, roll %s at %d" % (len(pm.instruments), len(notes), roll.shape, fs))


def _short(pm, fs, b):
    """an instrument whose own roll ends before column b takes the mean over fewer columns"""
    for i in pm.instruments:
        if i.notes and int(float(max([n.end for n in i.notes] + [c.time for c in list(i.control_changes) + list(i.pitch_bends)])) * fs) < b + 1:
            return True
    return False


def tempi(ctx):
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    r = ctx.rng
    k = r.choice([1, 1, 2, 3, 4])
    cent = []
    for _ in range(40):
        c = r.uniform(.06, 1.9)
        n = c
        while n < .2:
            n *= 2
        if all(abs(n - o) > .09 for _, o in cent) and abs(c - .1) > .01 and abs(c - .2) > .01 and len(cent) < k:
            cent.append((c, n))
    jit = r.choice([0, .001, .002])
    gaps = []
    for c, n in cent:
        gaps += [(c + r.uniform(-jit, jit), n) for _ in range(r.randint(1, 8))]
    noise = [(r.choice([.001, .03, 2.5, 7.0, 0.0]), None) for _ in range(r.choice([0, 0, 2]))]
    seq = gaps + noise
    r.shuffle(seq)
    t = r.choice([r.uniform(0, 3), 0.0, r.randint(0, 30) / 1000, r.uniform(0, .03)])
    onsets = [t]
    for g, _ in seq:
        t += g
        onsets.append(t)
    pm = CustomPrettyMIDI(None)
    pm.instruments = [pretty_midi.Instrument(0), pretty_midi.Instrument(0, r.random() < .5), pretty_midi.Instrument(4)]
    order = list(onsets)
    r.shuffle(order)
    for o in order:
        r.choice(pm.instruments).notes.append(pretty_midi.Note(64, r.randint(0, 127), o, o + .1))
    groups = {}
    for g, n in gaps:
        x = g
        while x < .2:
            x *= 2
        groups.setdefault(n, []).append(x)
    ctx.note(gaps=[g for g, _ in seq])
    bpm, prob = pm.estimate_tempi()
    want = sorted((sum(v) / len(v), len(v) / len(gaps)) for v in groups.values())
    got = sorted((60 / b, p) for b, p in zip(bpm, prob))
    ctx.eq(len(got), len(want), "a tempo for each cluster of intervals", returned=got, expected=want)
    for (a, p), (b, q) in zip(got, want):
        ctx.check(abs(a - b) < 1e-6 and abs(p - q) < 1e-9, "interval and share of each cluster", returned=got, expected=want)
    ctx.check(all(x >= y - 1e-12 for x, y in zip(prob, prob[1:])) and abs(sum(prob) - 1) < 1e-9, "the likeliest first, shares sum to one", returned=prob)
    best = pm.estimate_tempo()
    ctx.check(best == bpm[0] and 30 <= best <= 300.0001, "the best estimate is the likeliest", returned=best)
    ctx.ev("tempi_estimated", len(want))
    ctx.ev("several_tempi", int(len(want) > 1))
    b = pm.estimate_beat_start()
    ctx.check(any(b == o for o in onsets), "the first beat is an onset", returned=b)
    if len({round(g, 9) for g, _ in gaps}) == 1 and not noise:
        c = gaps[0][0]
        if len(gaps) > 1:
            ctx.check(abs(60 / best - [n for _, n in cent][0]) < 1e-6, "tempo of a steady pulse", period=c, returned=best)
    ctx.ev("beat_starts")
    beat_start(ctx)
    ctx.seen(tuple(onsets))
    e = CustomPrettyMIDI(None)
    if r.random() < .5:
        e.instruments.append(pretty_midi.Instrument(0))
    ctx.raises(ValueError, e.estimate_beat_start, "no first beat without notes")
    if r.random() < .5 and e.instruments:
        e.instruments[0].notes.append(pretty_midi.Note(64, 60, 1.0, 2.0))
    ctx.raises(ValueError, e.estimate_tempo, "no tempo with fewer than two notes")
    ctx.ev("no_notes_refused", 2)


def beat_start(ctx):
    """the first beat is the one of the first onsets whose beats gather the most velocity for each beat"""
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    r = ctx.rng
    bpm = r.choice([120.0, 90.0, 60.0])
    p = 60 / bpm
    pm = CustomPrettyMIDI(None, initial_tempo=bpm)
    pm.instruments = [pretty_midi.Instrument(0), pretty_midi.Instrument(5)]
    off = r.choice([0.0, .1, r.uniform(0, 1)])
    notes = [(off + k * p + r.uniform(-.01, .01), r.randint(60, 127)) for k in range(1, r.randint(4, 16))]
    notes += [(r.uniform(0, off + p), r.randint(1, 90)) for _ in range(r.randint(0, 6))] + [(r.uniform(0, 9), r.randint(1, 60)) for _ in range(r.randint(0, 8))]
    if r.random() < .4:
        notes += [(t, r.randint(1, 127)) for t, _ in r.sample(notes, min(3, len(notes)))]
    for t, v in notes:
        r.choice(pm.instruments).notes.append(pretty_midi.Note(v, 60, t, t + r.uniform(.05, .3)))
    if r.random() < .3:
        pm.time_signature_changes.append(pretty_midi.TimeSignature(3, 4, 0.0))
    cand = r.choice([10, 10, 3, 1])
    tol = r.choice([.025, .025, .05])
    got = pm.estimate_beat_start(candidates=cand, tolerance=tol)
    ctx.note(bpm=bpm, notes=sorted(notes), candidates=cand, tolerance=tol)
    starts = sorted(t for t, _ in notes)
    uniq = [t for a, t in zip([-1] + starts, starts) if t - a > .001]
    if any(abs(t - a - .001) < 1e-6 for a, t in zip(starts, starts[1:])):
        return
    end = float(pm.get_end_time())
    lim = []
    for c in uniq:
        beats = [c + k * p for k in range(int((end - c) / p) + 1)]
        n = len(beats)
        lo = hi = 0
        for t, v in notes:
            d = min(abs(t - b) for b in beats + [0.0])
            lo += v * (d < tol - .003)
            hi += v * (d < tol + .003)
        lim.append((c, lo / (n + 1), hi / max(1, n - 1)))
    tried = lim[:cand]             # one more may be tried
    hi = {c: h for c, _, h in lim[:cand + 1]}
    ctx.check(got in hi, "the first beat is one of the first onsets", returned=got, first=sorted(hi))
    ctx.check(hi[got] >= max(lo for _, lo, _ in tried) - 1e-9, "the first beat is the onset whose beats gather the most", returned=got, scores=lim[:cand + 1])
    ctx.ev("clear_first_beats", int(len(tried) > 1 and max(l for _, l, _ in tried) > sorted(hi.values())[0]))


def sound(ctx):
    r = ctx.rng
    pm = make(ctx, bends=True)
    st = state(pm)
    if pm.get_end_time() > 60:
        raise Skip()
    fs = r.choice([500, 1000, 2205])
    w = pm.synthesize(fs=fs)
    ctx.eq(state(pm), st, "asking changes nothing")
    if not pm.instruments:
        ctx.eq(w.shape, (0,), "no instruments, no sound")
        ctx.ev("silent_waves")
        return
    ends = [float(i.get_end_time()) for i in pm.instruments]
    ctx.check(abs(len(w) - fs * (max(ends) + 1)) <= 1, "the sound lasts a second longer than the notes", returned=len(w), fs=fs)
    ctx.check(np.isfinite(w).all(), "samples are numbers", fs=fs)
    ctx.check(np.abs(w).max() <= 1 + 1e-9, "samples are at most one", fs=fs)
    on = np.zeros(len(w), bool)
    loud = False
    for i in pm.instruments:
        for n in i.notes:
            if not i.is_drum:
                a, b = int(float(n.start) * fs), int(float(n.end) * fs)
                on[max(0, a - 1):b + 1] = True
                loud = loud or b - a > 8
    ctx.check(not w[~on].any(), "silence where nothing sounds", fs=fs)
    if loud:
        ctx.check(abs(np.abs(w).max() - 1) < 1e-9, "the loudest sample is one", fs=fs)
        ctx.ev("waves")
        ctx.seen(st, fs)
    elif not on.any():
        ctx.check(not w.any(), "drums are left out", fs=fs)
        ctx.ev("silent_waves")


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            (views, views, tempi, sound)[ctx.case % 4](ctx)
