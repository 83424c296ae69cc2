"""datasets over small generated MIDI files"""
import contextlib
import os
import sys
import numpy as np
import torch
from . import smf
from .common import reader
from .core import many
from neural_graph_composer.midi_dataset import MidiDataset
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder


def song(r, kind=None):
    """bytes of a MIDI file with recurring chords; kind: None, drums, single, empty"""
    res = r.choice([96, 220, 480])
    tracks = [[(0, "tempo", r.choice([500000, 400000, 666667]))]]
    for ti in range(many(r, 1, 3, 16)):
        ev = []
        long = r.random() < .015
        if r.random() < .3:
            ev.append((0, "name", r.choice(smf.NAMES)))
        ch = 9 if kind == "drums" or r.random() < .12 else r.choice([0, 1, 2, 3, 10])
        ev.append((0, "prog", ch, r.randint(0, 127)))
        base = r.choice([r.randint(30, 80), r.randint(30, 80), r.randint(0, 113)])
        vocab = [r.sample(range(base, base + 14), r.randint(1, 4)) for _ in range(80 if long else many(r, 1, 12, 60))]
        n = {"single": 1, "empty": 0}.get(kind, r.randint(90, 150) if long else many(r, 2, 20, 90))
        t = 0
        for _ in range(n):
            c = r.choice(vocab)[:1] if kind == "single" else r.choice(vocab)
            for p in c:
                ev.append((t, "on", ch, p, r.randint(1, 127)))
            t += res // 2
            for p in c:
                ev.append((t, "off", ch, p, 64))
            t += r.choice([0, res // 2])
        tracks.append(ev)
    if r.random() < .02:
        tracks[0].insert(0, (0, "text", "long text " * r.randint(2000, 8000)))
    return smf.encode(smf.Score(res, tracks, [max([e[0] for e in t], default=0) + 1 for t in tracks]))


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def expected(paths, F, vel, single_out, remove_label, tol=.2, buckets=8):
    """-> (per track graphs, merged graphs, mappings)"""
    b = MidiGraphBuilder(None)
    per, whole = [], []
    kw = dict(feature_vec_size=F, filter_single_notes=single_out, is_include_velocity=vel, tolerance=tol, velocity_num_buckets=buckets)
    for p in paths:
        b.build(reader().read(p), is_per_instrument=True, **kw)
        if b.pyg_data:
            per += list(b.graphs(skip_label=remove_label))
    mid = maps(b)
    for p in paths:
        b.build(reader().read(p), is_per_instrument=False, **kw)
        if b.pyg_data:
            whole += list(b.graphs())
    return per, whole, mid, maps(b)


def maps(b):
    return [dict(b.hash_to_notes), dict(b.notes_to_hash), dict(b.hash_to_index), dict(b.index_to_hash)]


def view(d):
    res = {}
    for k, v in d.to_dict().items():
        if torch.is_tensor(v):
            res[k] = (str(v.dtype), tuple(v.shape), v.tolist())
        elif v is not None:
            res[k] = v
    return res


MASKS = ("train_mask", "val_mask", "test_mask")


def base_view(d):
    return {k: v for k, v in view(d).items() if k not in MASKS}
