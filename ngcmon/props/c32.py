import copy
import math
import numpy as np
from .. import build
from ..common import seq_state, note_full
from ..build import MidiNote, MidiNoteSequence, MidiInstrumentInfo
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder as B
from neural_graph_composer.midi_dataset import NodeHashIndexMapper
from neural_graph_composer.utils import np_onehot

CASES = {"quick": 69600, "thorough": 1495000}
RULE = ("lists of velocities, tracks of 0..30 notes with repeated, near and spread onsets (drums and silent notes among them), indices and hashes; "
        "velocities are recomputed, gaps and percentiles computed from the onsets, groups checked to be a partition by onset in play order, "
        "hash mappers against an ordered list over histories of additions and merges. Non-trivial: every case; distinct by the inputs.")
REQUIRED_EVENTS = ["rescaled", "rescaled_single", "rescaled_flat", "relative", "clipped", "tolerances", "short_tracks", "drum_tracks", "groups", "groups_with_tolerance",
                   "groups_auto", "groups_filtered", "left_out_notes", "one_hot_rows", "mapper_merges", "mapper_known", "mapper_many", "long_tracks"]
ASSUMPTIONS = ["velocities are not all zero when scaled by their mean; a truncation may take away one unit of a scaled velocity that is a whole number"]


def velocities(ctx):
    r = ctx.rng
    v = [r.choice([0, 1, 127, r.randint(0, 127), r.randint(40, 60)]) for _ in range(r.choice([1, 1, 2, r.randint(2, 40)]) if r.random() < .97 else r.randint(100, 400))]
    if r.random() < .2:
        v = [v[0]] * len(v)
    lo = r.randint(0, 126)
    hi = r.randint(lo, 127)
    a, b = r.choice([(lo, hi), (32, 127)])
    src = list(v)
    got = B.rescale_velocities(v) if (a, b) == (32, 127) and r.random() < .5 else B.rescale_velocities(v, a, b)
    w = dict(velocities=src, low=a, high=b)
    ctx.eq(v, src, "the velocities given stay")
    ctx.eq(len(got), len(v), "one velocity each", **w)
    ctx.check(all(a <= x <= b for x in got), "rescaled velocities lie in the range asked for", got=got, **w)
    for x, i in zip(got, v):
        ctx.check(float(x).is_integer(), "velocities are whole numbers", got=got, **w)
    if len(v) == 1:
        ctx.check(abs(got[0] - min(max(v[0] * (b - a) / 127 + a, a), b)) <= .5 + 1e-9, "a single velocity is placed in the range", got=got, **w)
        ctx.ev("rescaled_single")
    elif min(v) == max(v):
        ctx.eq(got, [a] * len(v), "equal velocities become the lowest one", **w)
        ctx.ev("rescaled_flat")
    else:
        m, k = min(v), max(v) - min(v)
        for x, i in zip(got, v):
            y = a + (i - m) * (b - a) / k
            ctx.check(y - 1 - 1e-9 <= x <= y + 1e-9, "velocities are rescaled evenly", got=got, velocity=i, exact=y, **w)
        ctx.check(got[v.index(min(v))] == a and got[v.index(max(v))] == b, "softest and loudest take the ends of the range", got=got, **w)
        ctx.ev("rescaled")
    if any(src):
        f = r.choice([1.0, .5, 2.0, r.uniform(0, 4)])
        got = B.scale_relative_velocities(v, f)
        ctx.eq(v, src, "the velocities given stay")
        ctx.eq(len(got), len(v), "one velocity each")
        for x, i in zip(got, v):
            y = min(max(i * f, 0), 127)
            ctx.check(isinstance(x, int) and y - 1 - 1e-9 <= x <= y + 1e-9, "a velocity is scaled and stays in the range of MIDI", got=x, velocity=i, factor=f)
            if i * f > 127:
                ctx.check(x == 127, "too loud becomes loudest", got=x)
                ctx.ev("clipped")
        ctx.check(all(abs(x - i) <= 1 for x, i in zip(B.scale_relative_velocities(v), v)), "a factor of one keeps velocities", velocities=v)
        ctx.ev("relative")
    return src, a, b


def percentile(xs, p):
    xs = sorted(xs)
    k = (len(xs) - 1) * p / 100
    f = math.floor(k)
    c = min(f + 1, len(xs) - 1)
    return xs[f] + (xs[c] - xs[f]) * (k - f)


def track(r):
    inst, drum = r.randint(0, 127), r.random() < .15
    unit = r.choice([None, .25, .01, 1 / 3])
    t, out = r.choice([0.0] * 9 + [r.uniform(0, 9000)]), []
    crowd = r.random() < .01                 # very many notes struck together
    for _ in range(r.choice([0, 1, 2, 3, r.randint(0, 30)]) if r.random() < .98 else r.randint(100, 900)):
        if r.random() < .02:
            t += r.uniform(60, 900)
        t = t if crowd and r.random() < .99 else t + r.choice([0, 0, 1, 2, 5]) * unit if unit else r.choice([t, t + r.uniform(0, 3), r.uniform(0, 20), t + 1e-3, t + 1e-6])
        out.append(MidiNote(r.randint(0, 127), t, t + r.uniform(.1, 3), velocity=r.choice([0, 1, 64, 127]) if r.random() < .3 else r.randint(1, 127),
                            program=inst, instrument=inst, is_drum=drum))
    if r.random() < .5:
        r.shuffle(out)
    return MidiNoteSequence(notes=out, instrument=MidiInstrumentInfo(inst, "x", drum))


def tolerances(ctx):
    r = ctx.rng
    s = track(r)
    st = seq_state(s)
    on = [] if s.instrument.is_drum else sorted(n.start_time for n in s.notes)
    gaps = [b - a for a, b in zip(on, on[1:])]
    w = dict(onsets=on)
    ctx.eq(len(B.instrument_time_differences(s)), len(gaps), "one gap between each two successive onsets", **w)
    for g, x in zip(B.instrument_time_differences(s), gaps):
        ctx.close(g, x, "gap between successive onsets", tol=1e-12, **w)
    p = r.choice([95, 50, 0, 100, r.randint(0, 100)])
    got = B.compute_tolerance(s) if p == 95 and r.random() < .5 else B.compute_tolerance(s, p)
    want = percentile(gaps, p) if len(gaps) >= 2 else 0.0
    ctx.close(got, want, "tolerance is the percentile of the gaps", tol=1e-9, percentile=p, **w)
    ctx.ev("tolerances" if len(gaps) >= 2 else "drum_tracks" if s.instrument.is_drum else "short_tracks")
    # groups
    live = [n for n in s.notes if not n.is_drum and n.velocity > 0]
    if len(live) < len(s.notes):
        ctx.ev("left_out_notes")
    auto, single = r.random() < .4, r.random() < .4
    tol = r.choice([0.0, 0.5, .01, r.uniform(1e-3, 2)])
    data, longest = B.compute_data(s, tol, False, tolerance_auto=auto) if not single else B.compute_data(s, tolerance=tol, filter_single_notes=True, tolerance_auto=auto)
    w = dict(notes=[(n.start_time, n.pitch, n.velocity) for n in s.notes], tolerance=tol, auto=auto, filtered=single, drums=s.instrument.is_drum)
    eff = B.compute_tolerance(s) if auto else tol
    groups = list(data.values())
    flat = [id(n) for g in groups for n in g]
    ctx.eq(len(flat), len(set(flat)), "a note is in one group", **w)
    if not single:
        ctx.eq(sorted(flat), sorted(id(n) for n in live), "every sounding melodic note is in a group", **w)
        ctx.eq(longest, max([len(g) for g in groups], default=0), "size of the largest group", **w)
    else:
        ctx.check(set(flat) <= {id(n) for n in live} and all(len(g) > 1 for g in groups), "groups of one note are left out", **w)
        if groups:
            ctx.eq(longest, max(len(g) for g in groups), "size of the largest group", **w)
        by = {}
        for n in live:
            by.setdefault(n.start_time, []).append(n)
        for g in by.values():
            if len(g) > 1:
                ctx.check(all(id(n) in set(flat) for n in g), "notes struck together are kept", **w)
        ctx.ev("groups_filtered")
    where = {id(n): k for k, g in data.items() for n in g}
    pairs = ((a, b) for a in live for b in live)
    if len(live) > 60:
        o = sorted(live, key=lambda n: n.start_time)
        pairs = list(zip(o, o[1:])) + [(r.choice(o), r.choice(o)) for _ in range(400)]
        ctx.ev("long_tracks")
    for a, b in pairs:
        if True:
            if id(a) in where and id(b) in where:
                ka, kb = where[id(a)], where[id(b)]
                if a.start_time == b.start_time:
                    ctx.check(ka == kb, "notes struck together are in one group", **w)
                elif a.start_time < b.start_time:
                    ctx.check(ka <= kb, "groups are in the order of play", **w)
                    if eff == 0 or b.start_time - a.start_time > eff + (.011 if auto else 1e-9):
                        ctx.check(ka < kb, "onsets farther apart than the tolerance are in different groups", a=a.start_time, b=b.start_time, effective=eff, **w)
    ctx.ev("groups")
    if eff:
        ctx.ev("groups_auto" if auto else "groups_with_tolerance")
    ctx.eq(seq_state(s), st, "the track stays")
    return st


def rows(ctx):
    r = ctx.rng
    d = r.randint(1, 130)
    ix = [r.choice([0, d - 1, r.randrange(d)]) for _ in range(r.randint(0, 30))]
    t = r.choice([bool, bool, np.float32, np.int64])
    arg = np.array(ix, dtype=int) if r.random() < .5 else list(ix)
    m = np_onehot(arg, d, t) if t is not bool else np_onehot(arg, d) if ix or isinstance(arg, np.ndarray) else np_onehot(np.array([], dtype=int), d)
    ctx.eq((m.shape, m.dtype), ((len(ix), d), np.dtype(t)), "one row of the given depth per index")
    for i, row in zip(ix, m):
        ctx.check(row[i] == 1 and row.sum() == 1, "a row has a one at its index only", index=i, row=row.tolist())
        ctx.ev("one_hot_rows")
    ctx.eq(list(arg), ix, "the indices given stay")
    return d, ix


def mapper(ctx):
    r = ctx.rng
    pool = [r.choice([r.randint(-5, 12), hash((r.randint(0, 3), r.randint(0, 3))), "h%d" % r.randint(0, 5), 0]) for _ in range(10)]
    ms = [NodeHashIndexMapper() for _ in range(r.randint(1, 3))]
    model = [[] for _ in ms]
    hist = []
    for _ in range(r.randint(1, 25)):
        i = r.randrange(len(ms))
        if r.random() < .2:
            j = r.randrange(len(ms))
            hist.append(("merge", i, j))
            ms[i].merge_with(ms[j])
            model[i] += [h for h in model[j] if h not in model[i]]
            ctx.ev("mapper_merges")
        else:
            h = r.choice(pool)
            hist.append(("add", i, h))
            if h in model[i]:
                ctx.ev("mapper_known")
            else:
                model[i].append(h)
            ms[i].add_node_hash(h)
        for m, w in zip(ms, model):
            ctx.eq((dict(m.hash_to_index), dict(m.index_to_hash)), ({h: k for k, h in enumerate(w)}, dict(enumerate(w))), "hashes are numbered in order of arrival",
                   history=hist)
            ctx.eq(([m.get_index(h) for h in w], [m.get_node_hash(k) for k in range(len(w))]), (list(range(len(w))), w), "numbers and hashes of each other", history=hist)
            ctx.raises(KeyError, lambda: m.get_index("nowhere"), "an unknown hash has no number")
            ctx.raises(KeyError, lambda: m.get_node_hash(len(w)), "an unknown number has no hash")
    if r.random() < .01:            # many hashes
        m, n = NodeHashIndexMapper(), r.choice([130, 260, 700, 1100])
        w = list(range(-5, n - 5))
        r.shuffle(w)
        for k, h in enumerate(w):
            m.add_node_hash(h)
            if r.random() < .1:
                m.add_node_hash(r.choice(w[:k + 1]))
        o = NodeHashIndexMapper()
        o.merge_with(m)
        if r.random() < .5:
            m = o
        ctx.eq((dict(m.hash_to_index), dict(m.index_to_hash)), ({h: k for k, h in enumerate(w)}, dict(enumerate(w))), "many hashes are numbered in order of arrival")
        ctx.eq([m.get_node_hash(m.get_index(h)) for h in w], w, "numbers and hashes of each other")
        ctx.ev("mapper_many")
    return hist


def case(ctx):
    a = [f(ctx) for f in (velocities, tolerances, rows, mapper)]
    ctx.seen(a)
    ctx.show(repr(a))
