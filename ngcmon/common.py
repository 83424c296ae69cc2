"""helpers shared by the property modules: reading repository objects through their public interface"""
import os
import logging
import warnings


def reader():
    from neural_graph_composer.midi_reader import MidiReader
    return MidiReader


def note_tuple(n):
    return (n.pitch, n.velocity, n.start_time, n.end_time)


def seq_state(s):
    """observable state of one track"""
    return (
        (s.instrument.instrument_num, s.instrument.name, s.instrument.is_drum),
        tuple(note_full(n) for n in s.notes),
        tuple(cc_full(c) for c in s.control_changes),
        tuple(bend_full(b) for b in s.pitch_bends),
        float(s.total_time),
    )


def note_full(n):
    return (n.pitch, n.pitch_name, n.velocity, float(n.start_time), float(n.end_time), n.program, n.instrument, n.voice,
            n.numerator, n.denominator, n.is_drum, n.quantized_start_step, n.quantized_end_step)


def cc_full(c):
    return (c.cc_number, c.cc_value, float(c.cc_time), c.program, c.instrument, c.is_drum, c.quantized_step,
            c.quantized_start_step, c.quantized_end_step)


def bend_full(b):
    return (b.amount, float(b.midi_time), b.program, b.instrument, b.is_drum)


def sigs_state(m):
    return (
        tuple((float(t.midi_time), t.numerator, t.denominator) for t in m.time_signatures),
        tuple((float(k.midi_time), k.midi_key, k.mode.name) for k in m.key_signatures),
        tuple((float(t.midi_time), float(t.qpm), t.resolution) for t in m.tempo_signatures),
    )


def container_state(m):
    return (m.resolution, float(m.total_time), sigs_state(m), tuple((k, seq_state(m[k])) for k in m))


def near(a, b, tol):
    return abs(a - b) <= tol
