import bisect
import copy
import io
import os
import warnings
from fractions import Fraction

from .. import smf
from ..core import many, Skip

CASES = {"quick": 18400, "thorough": 395000}
RULE = ("objects read from generated MIDI files (up to 30 tempo changes) or created with a resolution and tempo: tick and time look-ups inside and beyond "
        "the known range, beats and bars under generated meters and tempi, and moves of all events onto other times are compared with exact "
        "arithmetic on the file. Non-trivial: at least two tempi, two meters or a changed event; distinct by tempo map, meters and moved times.")
REQUIRED_EVENTS = ["ticks_compared", "ticks_beyond_the_file", "times_compared", "round_trips", "refusals_seen", "beats_compared", "bars_compared",
                   "meter_changes", "first_meter_later", "meter_where_all_ends", "tempo_inside_a_bar", "compound_meters", "starts_later", "notes_moved", "notes_dropped", "controls_moved", "meters_moved",
                   "tick_map_compared", "events_out_of_order", "new_times_out_of_order"]
ASSUMPTIONS = ["times are not negative; meters change at bar lines; moves keep at least two different times"]


class Map:
    def __init__(self, res, tm):
        self.res, self.tm = res, tm
        self.at = [Fraction(0)]
        for (a, us), (b, _) in zip(tm, tm[1:]):
            self.at.append(self.at[-1] + Fraction((b - a) * us, res * 1000000))
        self.ticks = [a for a, _ in tm]
        self.fat = [float(x) for x in self.at]

    def time(self, tick):
        i = bisect.bisect_right(self.ticks, tick) - 1
        a, us = self.tm[i]
        return float(self.at[i] + Fraction((tick - a) * us) / (self.res * 1000000))

    def us(self, tick):
        return self.tm[bisect.bisect_right(self.ticks, tick) - 1][1]

    def exact_tick(self, t):
        i = max(0, bisect.bisect_right(self.fat, t) - 1)
        a, us = self.tm[i]
        return a + (t - self.fat[i]) * self.res * 1e6 / us


def load(ctx, sc, name="in.mid"):
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    data = smf.encode(sc)
    if ctx.rng.random() < .5:
        return CustomPrettyMIDI(io.BytesIO(data))
    p = os.path.join(ctx.tmpdir(), name)
    with open(p, "wb") as f:
        f.write(data)
    return CustomPrettyMIDI(p)


def clock(ctx):
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI
    r = ctx.rng
    if r.random() < .7:
        sc = smf.gen(r, tempo=r.choice([None, "few", "many", "many"]), max_notes=r.choice([4, 15]), max_tracks=2, long=r.random() < .1)
        model = smf.Model(sc)
        m = Map(sc.resolution, model.tempo_map)
        last = max([e for e in sc.eot] + [t for t, _ in m.tm])
        ctx.note(file=sc.text())
        pm = load(ctx, sc)
        ctx.eq(pm.resolution, sc.resolution, "resolution of the file")
    else:
        res = r.choice(smf.RES + [r.randint(1, 2000)])
        bpm = r.choice([120.0, 60.0, 200.0, round(r.uniform(20, 300), 2)])
        m = Map(res, [(0, Fraction(60000000) / Fraction(bpm))])
        last = 0
        ctx.note(resolution=res, tempo=bpm)
        pm = CustomPrettyMIDI(None, resolution=res, initial_tempo=bpm)
        ctx.eq((pm.instruments, pm.time_signature_changes, pm.key_signature_changes), ([], [], []), "a new object is empty")
    if len(m.tm) > 1:
        ctx.seen(m.res, tuple(m.tm))
    times, tempi = pm.get_tempo_changes()
    ctx.eq((len(times), len(tempi)), (len(m.tm), len(m.tm)), "number of tempi")
    for i, (tick, us) in enumerate(m.tm):
        ctx.close(times[i], m.fat[i], "time of a tempo change", tol=1e-6)
        ctx.close(tempi[i], float(60000000 / Fraction(us)), "tempo", tol=1e-6, rel=1e-7)

    def one_tick(k):
        t = pm.tick_to_time(k)
        ctx.close(t, m.time(k), "time of a tick", tol=1e-6, tick=k, tempi=m.tm[:40], resolution=m.res)
        ctx.ev("ticks_compared")
        b = pm.time_to_tick(t)
        ctx.eq((b, isinstance(b, int)), (k, True), "the tick of the time of a tick is that tick", tempi=m.tm[:40], resolution=m.res)
        ctx.ev("round_trips")

    def one_time(t):
        b = pm.time_to_tick(t)
        x = m.exact_tick(t)
        # half way between two ticks either one will do; where the tempo changes between them, nearness is measured in seconds
        best = min((abs(m.time(k) - t), k) for k in range(max(0, int(x) - 1), int(x) + 3))
        ctx.check(isinstance(b, int) and b >= 0 and abs(m.time(b) - t) <= best[0] + 1e-7, "the tick of a time is the nearest one", time=t, returned=b, nearest=best[1],
                  tempi=m.tm[:40], resolution=m.res)
        ctx.ev("times_compared")

    near = sorted({max(0, t + d) for t, _ in m.tm for d in (-1, 0, 1)} | {0, last, max(0, last - 1)})
    for k in r.sample(near, min(len(near), 20)):
        if k <= last:
            one_tick(k)
    for _ in range(15):
        one_tick(r.randint(0, last))
        one_time(r.uniform(0, m.time(last)))
    a = r.randint(0, last)
    span = [pm.tick_to_time(k) for k in range(a, min(last, a + 60) + 1)]
    ctx.check(all(x < y for x, y in zip(span, span[1:])), "a later tick has a later time", ticks=(a, a + 60), times=[float(x) for x in span])
    # beyond what the file needed: times first (nothing is extended yet), then ticks
    for _ in range(4):
        one_time(m.time(last) + r.choice([r.uniform(0, 5), r.uniform(0, 200)]))
    grow = r.choice([1, 2, r.randint(1, 50), r.randint(1, 200000), r.randint(1, 2000)])
    for k in (last + 1, last + 2, last + 2 + grow, last + 1 + grow, r.randint(0, last + grow)):
        one_tick(k)
        ctx.ev("ticks_beyond_the_file")
    for _ in range(4):
        one_time(r.uniform(0, m.time(last + grow) * 1.3))
    from neural_graph_composer import custom_pretty_midi
    for k in (custom_pretty_midi.MAX_TICK, custom_pretty_midi.MAX_TICK + 1, 10 ** 12):
        ctx.raises(IndexError, lambda: pm.tick_to_time(k), "a tick beyond the largest one is refused", tick=k)
        ctx.ev("refusals_seen")
    for k in (0, r.randint(0, last)):
        one_tick(k)
    ctx.show("resolution %d, %d tempi, last tick %d" % (m.res, len(m.tm), last))


def bars_score(ctx, easy=False):
    """a file whose meters change on bar lines: -> score, map, end tick, beats, bars, meters"""
    r = ctx.rng
    res = r.choice([24, 48, 96, 120, 192, 220, 240, 480, 960])
    metered = r.random() < .85
    tick, beats, bars, sigs = 0, [], [], []
    for s in range(r.choice([1, 1, 2, 3, 5]) if metered else 1):
        num, den = (r.randint(1, 13), r.choice([1, 2, 4, 8, 16] if res % 4 == 0 else [1, 2, 4, 8])) if metered else (4, 4)
        if r.random() < .4 and metered:
            num, den = r.choice([(6, 8), (9, 8), (12, 8), (3, 4), (3, 8), (6, 4), (15, 16), (4, 4), (18, 8), (21, 8), (24, 16), (30, 8), (27, 4), (r.randint(14, 60), 4)])
        if easy and s == 0 and r.random() < .2:
            num, den = 4, 4
        if res * 4 % den or (sigs and sigs[-1][1:] == (num, den) and r.random() < .5):
            num, den = 4, 4
        sigs.append((tick, num, den))
        unit = res * 4 // den * (3 if num % 3 == 0 and num != 3 else 1)
        per = num // 3 if num % 3 == 0 and num != 3 else num
        for _ in range(r.randint(1, 4) if not easy or r.random() < .99 else r.randint(100, 500)):
            bars.append(tick)
            for _ in range(per):
                beats.append(tick)
                tick += unit
    last = tick
    late = 0                    # a meter after the last note: the piece reaches to it
    if easy and metered and r.random() < .25:
        for _ in range(r.choice([0, 0, 1, 3])):
            bars.append(tick)
            for _ in range(per):
                beats.append(tick)
                tick += unit
        late = tick
        sigs.append((tick, r.randint(1, 13), r.choice([1, 2, 4])))
    bars.append(tick)           # not within the piece unless rounding says so
    beats.append(tick)
    end = last if r.random() < .6 else r.randint(max(max(t for t, _, _ in sigs if t < last) + 1, 1), last)
    tm = [(0, r.choice([500000, 400000, 600000, 1000000, r.randint(250000, 1200000)]))] if r.random() < .8 else []
    if r.random() < .7:
        for _ in range(r.choice([1, 2, 6])):
            tm.append((r.choice([r.choice(beats), r.randint(1, max(1, end - 1)), r.randint(1, max(1, end - 1))]), r.randint(250000, 1200000)))
    tm = sorted((t, us) for t, us in tm if t < end)
    cond = [(t, -5, (t, "tempo", us)) for t, us in tm]
    if metered:
        if easy and len(sigs) > 1 and sigs[0][1:] == (4, 4) and sigs[1][2] == 4 and (sigs[1][1] % 3 or sigs[1][1] == 3) and r.random() < .7:
            sigs = sigs[1:]     # four quarters until the first meter given
        cond += [(t, -3, (t, "ts", n, d)) for t, n, d in sigs]
    cond.sort(key=lambda x: x[:2])
    cond = [x[2] for x in cond]
    tr = []
    n = many(r, 0, 8, 80)
    at = sorted(r.sample(range(0, end), min(end, n)))
    ch = r.choice([0, 3, 9])
    for t, u in zip(at, at[1:] + [end - 1]):
        if u > t:
            tr += [(t, "on", ch, r.randint(0, 127), r.randint(1, 127))]
            tr += [(u, "off", ch, tr[-1][3], 0)]
    t = max([e[0] for e in tr] + [0])
    tr += [(max(t, min(end - 1, t)), "on", ch, 60, 90), (end, "off", ch, 60, 0)]
    more = []
    if not easy:
        for _ in range(many(r, 0, 10, 60)):
            t = r.choice([0, r.randint(0, end), r.randint(0, end)])
            more.append((t, r.choice([2, 6]), (t, "cc", ch, r.randint(0, 127), r.randint(0, 127)) if r.random() < .5 else (t, "bend", ch, r.randint(-8192, 8191))))
        for _ in range(r.randint(0, 3)):
            t = r.randint(0, end)
            cond.append((t, "ks", r.randint(-7, 7), r.randint(0, 1)))
            cond.append((t, "lyric", "la%d" % t))
        cond.sort(key=lambda e: e[0])
    tr = [x[2] for x in sorted([(e[0], 1 if e[1] == "off" else 3, e) for e in tr] + more, key=lambda x: x[:2])]
    sc = smf.Score(res, [cond, tr], [max(end, late), end])
    return sc, Map(res, smf.Model(sc).tempo_map), max(end, late), beats, bars, sigs if metered else []


def beats(ctx):
    r = ctx.rng
    sc, m, end, bt, br, sigs = bars_score(ctx, easy=True)
    ctx.note(file=sc.text())
    pm = load(ctx, sc)
    stop = m.time(end)
    ctx.close(pm.get_end_time(), stop, "end of the piece", tol=1e-6)

    def compare(want, got, what, **kw):
        got = [float(x) for x in got]
        want = [m.time(k) for k in want]
        # at the very end rounding decides
        must = [t for t in want if t < stop - 1e-6]
        may = [t for t in want if t < stop + 1e-6]
        ctx.check(len(must) <= len(got) <= len(may), "number of " + what, returned=got[:60], expected=may[:60], meters=sigs, tempi=m.tm, resolution=m.res, **kw)
        for a, b in zip(got, may):
            ctx.close(a, b, "place of " + what, tol=2e-6, meters=sigs, tempi=m.tm, resolution=m.res, returned=got[:60], expected=may[:60], **kw)
        return len(got)

    mixed = r.random() < .3
    if mixed:
        r.shuffle(pm.time_signature_changes)
    # with sampled meters two distinct bar lines are never as near as the library's idea of "close"
    bar_ticks = br
    starts = [0] + ([r.choice([k for k in bar_ticks if k < end])] if r.random() < .7 else [])
    for k in starts:
        arg = () if k == 0 and r.random() < .5 else (pm.tick_to_time(k),)
        w = [x for x in bt if x >= k]
        ctx.ev("beats_compared", compare(w, pm.get_beats(*arg), "beats", start_tick=k))
        w = [x for x in br if x >= k]
        ctx.ev("bars_compared", compare(w, pm.get_downbeats(*arg), "bar lines", start_tick=k))
        if k:
            ctx.ev("starts_later")
    ctx.eq([(s.numerator, s.denominator) for s in pm.time_signature_changes], [(n, d) for _, n, d in sigs], "looking at beats leaves the meters alone")
    if sigs and sigs[0][0]:
        ctx.ev("first_meter_later")
    if sigs and sigs[-1][0] == end:
        ctx.ev("meter_where_all_ends")
    if len(sigs) > 1:
        ctx.ev("meter_changes", len(sigs) - 1)
    if any(n % 3 == 0 and n != 3 for _, n, _ in sigs):
        ctx.ev("compound_meters")
    k = sum(1 for t, _ in m.tm if t not in set(bt))
    if k:
        ctx.ev("tempo_inside_a_bar", k)
    if len(sigs) > 1 or len(m.tm) > 1:
        ctx.seen(m.res, tuple(m.tm), tuple(sigs), end)
    ctx.show("resolution %d, meters %s, tempi %s" % (m.res, sigs, m.tm[:6]))


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = bisect.bisect_right(xs, x) - 1
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def moves(ctx):
    import numpy as np
    r = ctx.rng
    sc, m, end, bt, br, sigs = bars_score(ctx)
    ctx.note(file=sc.text())
    pm = load(ctx, sc)
    stop = m.time(end)
    n = r.choice([2, 3, 5, 12])
    pool = [float(pm.tick_to_time(k)) for k in bt + br if k <= end] if r.random() < .5 else []
    if pool and len(m.tm) > 1 and r.random() < .3:
        pool = [float(pm.tick_to_time(e[0])) for e in m.tm if e[0] <= end]
    xs = sorted({r.choice(pool) if pool and r.random() < .7 else r.uniform(0, stop) for _ in range(n)})
    if r.random() < .6:
        xs = sorted(set([0.0] + xs))
    if r.random() < .6:
        xs = sorted(set(xs + [stop + r.choice([0.0, 1e-3, r.uniform(0, 2)])]))
    # at least a tick apart from each other on the grid
    keep = []
    for x in xs:
        if not keep or x - keep[-1] > 4 * m.us(m.exact_tick(x)) / 1e6 / m.res + 1e-6 and x - keep[-1] > .01:
            keep.append(x)
    xs = keep
    if len(xs) < 2:
        xs = [0.0, stop + 1.0]
    ys = [0.0 if r.random() < .7 else r.uniform(0, 3)]
    for a, b in zip(xs, xs[1:]):
        ys.append(ys[-1] + (b - a) * r.choice([1.0, r.uniform(.4, 2.5), r.uniform(.4, 2.5)]) if r.random() < .9 or len(xs) == 2 else ys[-1])
    if ys[-1] == ys[0]:
        ys[-1] += 1.0
    mixed = r.random() < .25
    if mixed:           # events that do not stand in order of time
        for l in [i.control_changes for i in pm.instruments] + [i.pitch_bends for i in pm.instruments] + [pm.key_signature_changes, pm.lyrics,
                                                                                                         pm.time_signature_changes]:
            r.shuffle(l)
        ctx.ev("events_out_of_order")
    state = [(list((x.pitch, x.velocity, x.start, x.end) for x in i.notes), [(c.number, c.value, c.time) for c in i.control_changes],
              [(b.pitch, b.time) for b in i.pitch_bends]) for i in pm.instruments]
    keys = [(k.key_number, k.time) for k in pm.key_signature_changes]
    words = [(k.text, k.time) for k in pm.lyrics]
    sigs0 = sorted([((k.numerator, k.denominator), k.time) for k in pm.time_signature_changes], key=lambda e: e[1])
    down = [float(x) for x in pm.get_downbeats()]
    a_xs, a_ys = (list(xs), list(ys)) if r.random() < .5 else (np.array(xs), np.array(ys))
    if r.random() < .1:         # given out of order, or twice
        idx = list(range(len(xs)))
        r.shuffle(idx)
        a_xs, a_ys = [xs[i] for i in idx], [ys[i] for i in idx]
        if r.random() < .5:
            a_xs.append(a_xs[0])
            a_ys.append(a_ys[0] + 5)
    elif r.random() < .1 and len(xs) > 2:     # a new time before the one it follows counts as that one
        k = r.randrange(1, len(xs))
        if ys[k] > ys[0]:
            a_ys[k] = ys[k] = r.uniform(ys[0] - .5, ys[k])
            for j in range(1, len(ys)):
                ys[j] = max(ys[j], ys[j - 1])
            ctx.ev("new_times_out_of_order")
            if ys[-1] == ys[0]:
                raise Skip("all at one time")
    given = (list(a_xs), list(a_ys))
    flat = any(a == b for a, b in zip(ys, ys[1:]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pm.adjust_times(a_xs, a_ys)
    w = dict(original=xs, new=ys, file=sc.text()[:1500])
    ctx.eq((list(a_xs), list(a_ys)), given, "the given times are not changed")
    ctx.eq(len(pm.instruments), len(state), "instruments stay", **w)

    def moved(ev, what, got):
        """events: at most one at the first new time (the last of them), the others strictly inside"""
        if any(xs[0] < t < xs[-1] and min(abs(interp(t, xs, ys) - y) for y in (ys[0], ys[-1])) < 1e-9 for _, t in ev):
            return []           # rounding decides whether it is inside
        ev = sorted(((interp(t, xs, ys), i, v) for i, (v, t) in enumerate(ev)), key=lambda e: e[:2])
        # the order of equal times before the move is kept (the library sorts by time first)
        head = [e for e in ev if e[0] == ys[0]][-1:]
        want = [(e[2], e[0]) for e in head + [e for e in ev if ys[0] < e[0] < ys[-1]]]
        ctx.check([v for v, _ in got] == [v for v, _ in want] and all(abs(a[1] - b[1]) < 1e-6 for a, b in zip(got, want)),
                  "%s after the move" % what, returned=got, expected=want, before=ev, **w)
        return want

    total = 0
    for i, (notes, ccs, bends) in zip(pm.instruments, state):
        inside = [x for x in notes if x[2] >= xs[0] and x[3] <= xs[-1]]
        want = [(p, v, interp(s, xs, ys), interp(e, xs, ys)) for p, v, s, e in inside]
        near = [x for x in want if x[3] - x[2] <= 1e-9]
        want = [x for x in want if x[3] - x[2] > 1e-9]
        got = [(x.pitch, x.velocity, float(x.start), float(x.end)) for x in i.notes if not near or x.end - x.start > 1e-9]
        ctx.check([x[:2] for x in got] == [x[:2] for x in want] and all(abs(a[2] - b[2]) < 1e-6 and abs(a[3] - b[3]) < 1e-6 for a, b in zip(got, want)),
                  "notes after the move", returned=got, expected=want, **w)
        ctx.check(all(x.end > x.start for x in i.notes), "no empty notes remain", **w)
        ctx.ev("notes_moved", sum(1 for a, b in zip(inside, want) if a[2] != b[2]))
        ctx.ev("notes_dropped", len(notes) - len(want))
        k = moved([((a, b), t) for a, b, t in sorted(ccs, key=lambda c: c[2])], "control changes", [((c.number, c.value), c.time) for c in i.control_changes])
        k += moved(sorted(bends, key=lambda c: c[1]), "pitch bends", [(c.pitch, c.time) for c in i.pitch_bends])
        ctx.ev("controls_moved", len(k))
        total += len(want)
    moved(sorted(keys, key=lambda c: c[1]), "key signatures", [(k.key_number, k.time) for k in pm.key_signature_changes])
    moved(sorted(words, key=lambda c: c[1]), "lyrics", [(k.text, k.time) for k in pm.lyrics])
    # meters: as the other events, except that the one in force at the first bar line inside starts there
    first = [t for t in down if t >= xs[0]]
    unclear = any(xs[0] < t < xs[-1] and min(abs(interp(t, xs, ys) - y) for y in (ys[0], ys[-1])) < 1e-9 for _, t in sigs0)
    ev = [(interp(t, xs, ys), v) for v, t in sigs0]
    ev = [e for e in ev if e[0] == ys[0]][-1:] + [e for e in ev if ys[0] < e[0] < ys[-1]]
    if first:
        d = interp(first[0], xs, ys)
        before = [e for e in ev if e[0] <= d + 1e-9]
        ev = [(d, before[-1][1] if before else (4, 4))] + [e for e in ev if e[0] > d + 1e-9]
    # of several meters at one place the last one counts
    ev = [e for e, f in zip(ev, ev[1:] + [(1e9,)]) if f[0] - e[0] > 1e-9]
    got = [((k.numerator, k.denominator), k.time) for k in pm.time_signature_changes]
    ctx.check(all(a[1] <= b[1] for a, b in zip(got, got[1:])), "meters stand in order", returned=got)
    got = [e for e, f in zip(got, got[1:] + [(0, 1e9)]) if f[1] - e[1] > 1e-9]
    ctx.check(unclear or [g[0] for g in got] == [e[1] for e in ev] and all(abs(g[1] - e[0]) < 1e-6 for g, e in zip(got, ev)), "meters after the move",
              returned=got, expected=ev, before=sigs0, bar_lines=down[:20], **w)
    ctx.check(unclear or not first or len(pm.time_signature_changes) <= len(sigs0) + (not before), "no meter is added where one stands",
              returned=got, before=sigs0, **w)
    ctx.ev("meters_moved", len(ev))
    # the clock follows: ticks that stood at old times stand at the new ones, counted from the first of them
    if not flat:
        scale = max(60.0 / (q * m.res) for q in pm.get_tempo_changes()[1])
        lim = (len(xs) + len(m.tm) + 4) * scale
        zero = xs[0] == 0 and ys[0] == 0
        first = 0 if zero else pm.time_to_tick(ys[0]) - round(m.exact_tick(xs[0]))
        top = int(m.exact_tick(min(xs[-1], stop + 2)))
        for k in sorted({r.randint(0, max(end, top)) for _ in range(12)} | {round(m.exact_tick(r.choice(xs)))}):
            t = m.time(k)
            if not xs[0] <= t <= xs[-1]:
                continue
            want = interp(t, xs, ys)
            ctx.close(pm.tick_to_time(max(first + k, 0)), want, "time of a tick after the move", tol=lim, rel=0, tick=k, **w)
            ctx.ev("tick_map_compared" if zero else "tick_map_compared_from_elsewhere")
    ctx.seen(m.res, tuple(m.tm), tuple(sigs), tuple(xs), tuple(ys))
    ctx.show("%d times moved, %d notes remain" % (len(xs), total))


def case(ctx):
    k = ctx.case % 3
    (clock, beats, moves)[k](ctx)
