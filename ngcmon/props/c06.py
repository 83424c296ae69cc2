import io
import os
import mido
import resource
import math
from .. import smf, rd
from ..common import reader, container_state

CASES = {"quick": 19100, "thorough": 411000}
JOBS = 6
RULE = ("valid MIDI files are damaged (byte flips, deletions, insertions, truncation, spliced chunks, wrong lengths, hostile headers and "
        "signatures) and read; the read must raise an ordinary exception or return a well-formed score, and a good file read afterwards "
        "must give what it gave before. Non-trivial: distinct damaged byte strings that differ from the original.")
REQUIRED_EVENTS = ["refused", "accepted_wellformed", "good_file_reread", "from_file_refused", "parser_agrees", "no_midi_refused", "too_far"]
ASSUMPTIONS = ["each worker may use 2 GB above its start size; running out of it while reading a damaged file counts as a refusal"]
_lim = []


def _limit():
    if not _lim:
        with open("/proc/self/statm") as f:
            pages = int(f.read().split()[0])
        lim = pages * 4096 + (2 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        _lim.append(lim)


def damage(r, b):
    b = bytearray(b)
    k = r.randint(0, 9)
    if len(b) < 20 or (k == 5 and not 0 <= b.find(b"MTrk") < len(b) - 8):
        k = r.choice([0, 1, 2])
    if not b:
        return bytes([r.randint(0, 255)])
    if k == 0:
        for _ in range(r.randint(1, 4)):
            b[r.randrange(len(b))] = r.randint(0, 255)
    elif k == 1:
        i = r.randrange(len(b))
        del b[i:i + r.randint(1, 6)]
    elif k == 2:
        i = r.randrange(len(b))
        b[i:i] = bytes(r.randint(0, 255) for _ in range(r.randint(1, 5)))
    elif k == 3:
        del b[r.randrange(len(b)):]
    elif k == 4:
        b[r.randrange(8, 14)] = r.choice([0, 1, 2, 255, 128])
    elif k == 5:
        i = b.find(b"MTrk")
        b[i + 4:i + 8] = r.choice([0, 1, 3, len(b) * 2, 2 ** 31]).to_bytes(4, "big")
    elif k == 6:
        i = b.find(b"\xff\x58\x04")
        if 0 < i < len(b) - 6:
            b[i + 3] = r.choice([0, 0, 5])
            b[i + 4] = r.choice([0, 7, 8, 60, 255])
        else:
            b[-1] ^= 1
    elif k == 7:
        i = b.find(b"\xff\x51\x03")
        if 0 < i < len(b) - 6:
            b[i + 3:i + 6] = r.choice([b"\0\0\0", b"\0\0\1", b"\xff\xff\xff"])
        else:
            b[0] ^= 1
    elif k == 8:
        i, j = r.randrange(len(b)), r.randrange(len(b))
        b[i:i] = b[j:j + r.randint(1, 12)]
    else:
        i = b.find(b"\xff\x59\x02")
        if 0 < i < len(b) - 6:
            b[i + 3] = r.choice([8, 9, 0x80, 200])
        else:
            b[r.randrange(len(b))] ^= 1 << r.randint(0, 7)
    return bytes(b)


def wellformed(ctx, m):
    keys = [k for k in m]
    ctx.eq(keys, list(range(len(keys))), "tracks are numbered 0..n-1")
    for name, lst in (("time", m.time_signatures), ("key", m.key_signatures), ("tempo", m.tempo_signatures)):
        ts = [x.midi_time for x in lst]
        ctx.check(ts == sorted(ts), "%s signatures are in time order" % name, times=ts)
    for t in m.time_signatures:
        ctx.check(t.numerator > 0 and t.denominator > 0 and (t.denominator & (t.denominator - 1)) == 0, "a time signature is a meter",
                  value=(t.numerator, t.denominator))
    for t in m.key_signatures:
        ctx.check(0 <= t.midi_key < 12, "a key is a pitch class", value=t.midi_key)
    for t in m.tempo_signatures:
        ctx.check(t.qpm > 0, "a tempo is positive", value=t.qpm)
    for k in keys:
        s = m[k]
        for n in s.notes:
            ctx.check(0 <= n.pitch <= 127 and 0 < n.velocity <= 127, "pitch and velocity of a note are MIDI values", note=repr(n))
            ctx.check(0 <= n.start_time < n.end_time, "a note ends after it starts", note=repr(n))
            ctx.check(n.end_time <= s.total_time + 1e-9 and n.end_time <= m.total_time + 1e-9, "total times cover every note", note=repr(n))
            ctx.eq(n.is_drum, s.instrument.is_drum, "the drum flag agrees with the track")
        for c in s.control_changes:
            ctx.check(0 <= c.cc_number <= 127 and 0 <= c.cc_value <= 127 and c.cc_time >= 0, "a control change holds MIDI values")
        for p in s.pitch_bends:
            ctx.check(-8192 <= p.amount <= 8191 and p.midi_time >= 0, "a pitch bend holds MIDI values")
    ctx.ev("accepted_wellformed")


def case(ctx):
    r = ctx.rng
    _limit()
    R = reader()
    sc = smf.gen(r, cc=r.random() < .5, max_notes=r.choice([3, 8]), max_tracks=2)
    good = smf.encode(sc)
    ref = container_state(R.read(good))
    for _ in range(3):
        bad = good
        for _ in range(r.choice([1, 1, 2, 3])):
            bad = damage(r, bad) or b"M"
        if bad == good:
            continue
        ctx.note(damaged_hex=bad.hex())
        ctx.seen(bad)
        ctx.ev("evaluations")
        try:
            m = R.read(bad)
        except (MemoryError, Exception):
            ctx.ev("refused")
            m = None
        if m is not None:
            wellformed(ctx, m)
            try:
                f = mido.MidiFile(file=io.BytesIO(bad))
                ctx.ev("parser_agrees")
            except Exception as e:
                ctx.check(False, "input the MIDI parser cannot parse is refused", parser=repr(e))
            ctx.check(not any(x.type == "time_signature" and x.numerator == 0 for x in f.tracks[0]), "a meter of no beats is refused")
        if r.random() < .2:
            p = os.path.join(ctx.scratch, "bad.mid")
            with open(p, "wb") as f:
                f.write(bad)
            try:
                m2 = R.from_file(p)
                ctx.check(m is not None, "from_file and read agree on what is refused")
                # nan times (tempo 0) cannot be compared
                ctx.check(repr(container_state(m2)) == repr(container_state(m)), "from_file and read give the same score")
            except ValueError:
                ctx.ev("from_file_refused")
                ctx.check(m is None, "from_file and read agree on what is refused")
            except MemoryError:
                pass
    junk = r.choice([b"", b"M", b"RIFF" + good, good[1:], good[4:], b"MTrk" + good[4:], bytes(r.randint(0, 255) for _ in range(r.randint(1, 200))).replace(b"MThd", b"")])
    ctx.raises(Exception, lambda: R.read(junk), "bytes without a MIDI header are refused", junk=junk.hex())
    ctx.raises((OSError, ValueError), lambda: R.read(os.path.join(ctx.scratch, r.choice(["none.mid", "no/where.mid", ""]))), "a file that is not there is refused")
    ctx.raises(ValueError, lambda: R.from_file(os.path.join(ctx.scratch, r.choice(["none.mid", "no/where.mid", "", "."]))), "from_file says which file it could not load")
    ctx.ev("no_midi_refused")
    if r.random() < .02:        # further along than any piece of music
        step = 2 ** 28 - 1
        far = smf.Score(480, [[(0, "on", 0, 60, 64), (step, "off", 0, 60, 64)] + [(k * step, "text", "x") for k in (2, 3)]],
                        [4 * step - r.choice([0, 1, 5 * 10 ** 7])])
        if r.random() < .5:     # or in a file whose first track is short
            far = smf.Score(480, [[(0, "on", 0, 60, 64), (96, "off", 0, 60, 64)]] + far.tracks, [96] + far.eot)
        ctx.raises(ValueError, lambda: R.read(smf.encode(far)), "a file of more than a billion ticks is called corrupt")
        ctx.ev("too_far")
    ctx.eq(container_state(R.read(good)), ref, "a good file read after damaged ones gives what it gave before")
    ctx.ev("good_file_reread")
    ctx.show(sc.text())
