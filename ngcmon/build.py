"""random scores and tracks built through the repository's public interface"""
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature

NAMES = ["Piano", "lead 2", "Str\xe9ngs", "B", "x" * 60, "a,b;c", "Bass", "Drum Kit", "Steel Drums", "Synth Pad (warm)", "", "Instrument"]


def note(r, inst=0, drum=False, lo=0.0, hi=20.0, grid=None, silent=False):
    if grid:
        s = r.randint(int(lo / grid), int(hi / grid)) * grid
        e = s + r.randint(1, 12) * grid
    else:
        s = r.uniform(lo, hi)
        e = s + r.choice([1e-3, .1, .25, r.uniform(0.01, 5)])
    kw = {}
    if r.random() < .4:
        kw = dict(voice=r.choice([0, 1, 2, 7, 31, r.randint(0, 300)]), numerator=r.choice([1, 2, 3, 4, 7, 12]), denominator=r.choice([1, 2, 4, 8, 16]))
    return MidiNote(r.choice([0, 127, r.randint(0, 127), r.randint(0, 127), r.randint(0, 127)]), s, e,
                    velocity=r.choice([1, 127, r.randint(1, 127), r.randint(1, 127), r.randint(1, 127)]) if not silent or r.random() < .8 else 0,
                    program=inst, instrument=inst, is_drum=drum, **kw)


def seq(r, inst=None, drum=None, n=None, grid=None, cc=True, hi=20.0, name=None, resolution=220, sort=False):
    inst = r.randint(0, 127) if inst is None else inst
    drum = r.random() < .2 if drum is None else drum
    n = r.randint(0, 15) if n is None else n
    notes = [note(r, inst, drum, hi=hi, grid=grid) for _ in range(n)]
    if sort:
        notes.sort(key=lambda x: (x.start_time, x.end_time, x.pitch))
    s = MidiNoteSequence(notes=notes, resolution=resolution,
                         instrument=MidiInstrumentInfo(inst, name if name is not None else r.choice(NAMES), drum))
    if cc:
        many = r.random() < .04
        for _ in range((r.randint(13, 80) if r.random() < .7 else r.randint(100, 300)) if many else r.randint(0, 4)):
            s.add_control_changes(MidiControlChange(r.randint(0, 127), r.randint(0, 127), r.uniform(0, hi), inst, 0, drum))
        for _ in range((r.randint(13, 80) if r.random() < .7 else r.randint(100, 300)) if many else r.randint(0, 3)):
            s.add_pitch_bends(MidiPitchBend(r.randint(-8192, 8191), r.uniform(0, hi), inst, 0, drum))
    return s


class Clock:
    """seconds for one tick at a time, from a list of (time, qpm)"""

    def __init__(self, tempi, res):
        self.t, self.res = tempi, res

    def tick(self, t):
        q = self.t[0][1]
        for a, b in self.t:
            if a <= t + 1e-9:
                q = b
        return 60.0 / (q * self.res)

    def local(self, t):
        """longest tick in force near t"""
        w = self.slowest()
        return max([self.tick(t - w), self.tick(t)] +
                   [60.0 / (b * self.res) for a, b in self.t if t - w <= a <= t + w])

    def slowest(self):
        return max(60.0 / (b * self.res) for _, b in self.t)
