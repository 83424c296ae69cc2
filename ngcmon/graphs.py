"""chord graph oracle, written from the documentation of the builder: it sees plain note fields only"""
import collections
import math
import numpy as np
from . import build
from .core import many
from .build import MidiNote, MidiNoteSequence, MidiNoteSequences, MidiInstrumentInfo

SHARP = ["C", "C\u266f", "D", "D\u266f", "E", "F", "F\u266f", "G", "G\u266f", "A", "A\u266f", "B"]


def name(p):
    return SHARP[p % 12] + str(p // 12 - 1)


def percentile(values, q):
    v = sorted(values)
    k = (len(v) - 1) * q / 100.0
    a = math.floor(k)
    b = min(a + 1, len(v) - 1)
    return v[a] + (v[b] - v[a]) * (k - a)


def tolerance(notes):
    """notes: (start, pitch, velocity, is_drum) of a melodic track"""
    st = sorted(n[0] for n in notes)
    d = [b - a for a, b in zip(st, st[1:])]
    return percentile(d, 95) if len(d) >= 2 else 0.0


def near_half(x):
    return abs((x - math.floor(x)) - .5) < 1e-6


def groups(notes, single_out):
    """-> (list of (key, [notes]) in time order, fragile)"""
    tol = tolerance(notes)
    res = collections.defaultdict(list)
    fragile = False
    for n in notes:
        if n[3] or n[2] == 0:
            continue
        if tol == 0.0:
            k = n[0]
        elif tol < 1e-9:
            k, fragile = n[0], True
        else:
            x = n[0] / tol
            s = round(x)
            fragile |= near_half(x) or near_half(s * tol * 100)
            k = round(s * tol, 2)
        res[k].append(n)
    out = [(k, res[k]) for k in sorted(res)]
    if single_out:
        out = [x for x in out if len(x[1]) > 1]
    return out, fragile


def rescale(v):
    if len(v) == 1:
        return [float(min(127, max(32, round(v[0] * 95 / 127 + 32))))]
    lo, hi = min(v), max(v)
    if lo == hi:
        return [32.0] * len(v)
    return [float(int(min(127, max(0, (x - lo) * 95 / (hi - lo) + 32)))) for x in v]


def chord_velocity(pitches, notes):
    """{pitch: rescaled velocity} of one occurrence of a chord"""
    ps = sorted(pitches)
    raw = [max(n[2] for n in notes if n[1] == p) for p in ps]
    return dict(zip(ps, rescale(raw)))


class Walk:
    """edges of the transitions between successive chords"""

    def __init__(self):
        self.nodes = []
        self.edges = {}
        self.last = None

    def step(self, c):
        if self.last is None:
            self.nodes.append(c)
            self.edges[(c, c)] = 1.0
        elif (c, self.last) in self.edges:
            self.edges[(c, self.last)] += 1
        elif (self.last, c) in self.edges:
            self.edges[(self.last, c)] += 1
        else:
            if c not in self.nodes:
                self.nodes.append(c)
            self.edges[(self.last, c)] = 1.0
        self.last = c


def plain(seq):
    return [(float(n.start_time), int(n.pitch), int(n.velocity), bool(n.is_drum)) for n in seq.notes]


def track(r, inst, drum=False, n_groups=None, max_chord=4, vocab=None, texture=None, zero_vel=False):
    """a track with recurring chords"""
    if vocab is None:
        base = r.randint(20, 80)
        vocab = []
        for _ in range(many(r, 1, 6, 40)):
            vocab.append(frozenset(r.sample(range(base, base + r.choice([6, 14, 40])), r.randint(1, min(5, max_chord)))))
        if r.random() < .2:
            vocab.append(frozenset(r.sample(range(128), r.randint(1, max_chord))))
    texture = texture or r.choice(["chords", "strum", "free", "ties"])
    n_groups = r.randint(0, 14) if n_groups is None else n_groups
    if n_groups and (len(vocab) > 12 or r.random() < .03):
        n_groups = r.randint(20, 110)
    notes = []
    t = r.choice([0.0, 0.0, r.uniform(0, 4)] * 6 + [r.uniform(600, 9000)])
    gap = r.choice([.25, .5, 1.0, r.uniform(.05, 2)])
    for _ in range(n_groups):
        c = r.choice(vocab)
        for p in c:
            d = 0.0
            if texture == "strum":
                d = r.uniform(0, gap * r.choice([.05, .3]))
            elif texture == "free":
                d = r.uniform(0, gap)
            for _ in range(1 if r.random() < .93 else 2):
                v = r.randint(1, 127) if not (zero_vel and r.random() < .1) else 0
                notes.append(MidiNote(p, t + d, t + d + (r.uniform(.05, 2) if r.random() < .9 else r.choice([.001, .01, .04, 12.0])), velocity=v, program=inst, instrument=inst, is_drum=drum))
        t += gap * (r.choice([1, 1, 1, 2, 4]) if texture != "free" else r.uniform(.2, 3))
    if r.random() < .4:
        r.shuffle(notes)
    return MidiNoteSequence(notes=notes, instrument=MidiInstrumentInfo(inst, r.choice(["t%d" % inst, "t%d" % inst, "Drums", "Percussion", "", "Steel Drums"]), drum))


def score(r, n=None, drums=.15, **kw):
    n = r.randint(1, 4) if n is None else n
    shared = None
    if r.random() < .4:
        base = r.randint(20, 80)
        shared = [frozenset(r.sample(range(base, base + 14), r.randint(1, 4))) for _ in range(r.randint(2, 5))]
    return MidiNoteSequences(midi_seq=[track(r, p, r.random() < drums, vocab=shared, **kw) for p in sorted(r.sample(range(128), n))])


def text(m):
    return [(k, m[k].instrument.is_drum, sorted(plain(m[k]))) for k in m]


def playing(m):
    """tracks that take part in a build, in track order"""
    return [m[k] for k in m if not m[k].instrument.is_drum and len(m[k].notes) != 1]


def edges_of(g):
    return {(u, v): d for u, v, d in g.edges(data=True)}
