"""Standard MIDI files: a random generator, an independent byte encoder and an
independent reading of what the file says (no code of the repository, no mido)."""
from fractions import Fraction


class Score:
    def __init__(self, resolution, tracks, eot):
        self.resolution = resolution      # ticks per quarter
        self.tracks = tracks              # [[(tick, kind, args...)...]] in file order
        self.eot = eot                    # end-of-track tick per track

    def text(self):
        out = ["res=%d" % self.resolution]
        for i, t in enumerate(self.tracks):
            out.append("track%d eot=%d: %s" % (i, self.eot[i], " ".join(
                "%d:%s%s" % (e[0], e[1], e[2:]) for e in t)))
        return "\n".join(out)


def varlen(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7F))
        n >>= 7
    return bytes(reversed(out))


def _event_bytes(e):
    """-> (status or None for meta/sysex, bytes)"""
    k = e[1]
    if k == "on":
        return 0x90 | e[2], bytes([e[3], e[4]])
    if k == "off":
        if e[4] == 0:                       # note-on with velocity 0
            return 0x90 | e[2], bytes([e[3], 0])
        return 0x80 | e[2], bytes([e[3], e[4] & 0x7F])
    if k == "prog":
        return 0xC0 | e[2], bytes([e[3]])
    if k == "cc":
        return 0xB0 | e[2], bytes([e[3], e[4]])
    if k == "bend":
        v = e[3] + 8192
        return 0xE0 | e[2], bytes([v & 0x7F, v >> 7])
    if k == "chpress":
        return 0xD0 | e[2], bytes([e[3]])
    if k == "polypress":
        return 0xA0 | e[2], bytes([e[3], e[4]])
    if k == "tempo":
        return None, b"\xff\x51\x03" + e[2].to_bytes(3, "big")
    if k == "ts":
        return None, b"\xff\x58\x04" + bytes([e[2], e[3].bit_length() - 1, 24, 8])
    if k == "ks":
        return None, b"\xff\x59\x02" + bytes([e[2] & 0xFF, e[3]])
    if k == "name":
        d = e[2].encode("latin1")
        return None, b"\xff\x03" + varlen(len(d)) + d
    if k == "text":
        d = e[2].encode("latin1")
        return None, b"\xff\x01" + varlen(len(d)) + d
    if k == "lyric":
        d = e[2].encode("latin1")
        return None, b"\xff\x05" + varlen(len(d)) + d
    if k == "marker":
        d = e[2].encode("latin1")
        return None, b"\xff\x06" + varlen(len(d)) + d
    if k == "sysex":
        return None, b"\xf0" + varlen(len(e[2]) + 1) + bytes(e[2]) + b"\xf7"
    raise ValueError(k)


def encode(score, running=True, fmt=None):
    ntr = len(score.tracks)
    fmt = fmt if fmt is not None else (0 if ntr == 1 else 1)
    out = b"MThd" + (6).to_bytes(4, "big") + fmt.to_bytes(2, "big") + ntr.to_bytes(2, "big") \
        + score.resolution.to_bytes(2, "big")
    for t, eot in zip(score.tracks, score.eot):
        body = bytearray()
        last = 0
        status = None
        for e in t:
            body += varlen(e[0] - last)
            last = e[0]
            st, data = _event_bytes(e)
            if st is None:
                body += data
                status = None
            else:
                if not (running and st == status):
                    body.append(st)
                body += data
                status = st
        body += varlen(eot - last) + b"\xff\x2f\x00"
        out += b"MTrk" + len(body).to_bytes(4, "big") + bytes(body)
    return out


# ------------------------------------------------------------------ model

class Model:
    """What the file says, computed from the event lists with exact arithmetic."""

    def __init__(self, score):
        self.score = score
        res = score.resolution
        # tempo map: (tick, microseconds per quarter)
        tm = [(0, 500000)]
        for e in score.tracks[0]:
            if e[1] == "tempo":
                if e[0] == 0:
                    tm = [(0, e[2])]
                elif e[2] != tm[-1][1]:
                    tm.append((e[0], e[2]))
        self.tempo_map = tm
        self._starts = []
        t = Fraction(0)
        for i, (tick, us) in enumerate(tm):
            if i:
                t += Fraction((tick - tm[i - 1][0]) * tm[i - 1][1], res * 1000000)
            self._starts.append(t)
        self.shared_events = 0      # control events of channels that play several programs
        self.instruments = self._notes()
        self.time_sigs = self._meta("ts")
        self.key_sigs = self._meta("ks")

    def time(self, tick):
        i = 0
        for j, (tk, _) in enumerate(self.tempo_map):
            if tk <= tick:
                i = j
        tk, us = self.tempo_map[i]
        return float(self._starts[i] + Fraction((tick - tk) * us, self.score.resolution * 1000000))

    def tempi(self):
        return [(float(s), 6e7 / us) for s, (_, us) in zip(self._starts, self.tempo_map)]

    def _meta(self, kind):
        return [(e[0],) + e[2:] for e in self.score.tracks[0] if e[1] == kind]

    def meter_at(self, tick):
        num, den = 4, 4
        for tk, n, d in self.time_sigs:
            if tk <= tick:
                num, den = n, d
        return num, den

    def _notes(self):
        """each note-on at tick s ends at the first later event of its track that is
        a note-on at a tick > s, its own note-off at a tick > s, or the end of the track"""
        insts = {}
        for ti, tr in enumerate(self.score.tracks):
            prog = [0] * 16
            name = ""
            progs_at = []
            for e in tr:
                if e[1] == "prog":
                    prog[e[2]] = e[3]
                progs_at.append(list(prog))
            names = [e[2] for e in tr if e[1] == "name"]
            name = names[0] if names else ""
            for i, e in enumerate(tr):
                if e[1] != "on":
                    continue
                s, ch, pitch, vel = e[0], e[2], e[3], e[4]
                end, closer, why = self.score.eot[ti], len(tr), "eot"
                for j in range(i + 1, len(tr)):
                    f = tr[j]
                    if f[0] > s and (f[1] == "on" or (f[1] == "off" and f[2] == ch and f[3] == pitch)):
                        end, closer, why = f[0], j, f[1]
                        break
                p = progs_at[i][ch]
                key = (ti, ch, p)
                rec = insts.setdefault(key, {"track": ti, "channel": ch, "program": p, "drum": ch == 9,
                                             "name": name, "notes": [], "first_close": None, "ccs": [], "bends": []})
                rec["notes"].append((pitch, vel, s, end, why))
                fc = (closer, i)
                if rec["first_close"] is None or fc < rec["first_close"]:
                    rec["first_close"] = fc
        # a control event goes to the instrument of the program in force; where that has not sounded yet, to the
        # channel's next new instrument, or, if there is none, to the last one
        for ti, tr in enumerate(self.score.tracks):
            prog = [0] * 16
            for i, e in enumerate(tr):
                if e[1] == "prog":
                    prog[e[2]] = e[3]
                if e[1] not in ("cc", "bend"):
                    continue
                here = sorted((r for k, r in insts.items() if k[:2] == (ti, e[2])), key=lambda r: r["first_close"])
                if not here:
                    continue
                made = {r["program"]: r for r in here if r["first_close"][0] < i}
                later = [r for r in here if r["first_close"][0] > i]
                rec = made.get(prog[e[2]]) or (later[0] if later else here[-1])
                if len(here) > 1:
                    self.shared_events += 1
                rec["ccs" if e[1] == "cc" else "bends"].append((e[0],) + e[3:])
        return insts


# -------------------------------------------------------------- generator

RES = [24, 48, 96, 100, 120, 192, 220, 240, 384, 480, 960]
NAMES = ["Piano", "Lead Synth", "bass", "Str\xe9ngs", "A", "Kick & Snare", "Drums", "Steel Drums", "Percussion", "track 01", "M\xfcller", "x" * 40, " Lead ", "a\tb", "n" * 200]


def gen(rng, tempo=None, sigs=True, cc=False, progs=True, noise=True, max_tracks=4, max_notes=40, drums=True,
        long=False, type0=None):
    res = rng.choice(RES) if rng.random() < .9 else rng.randint(1, 1200)
    if type0 is None:
        type0 = rng.random() < .25
    ntr = 1 if type0 else rng.randint(1, max_tracks) + 1
    if not type0 and max_tracks > 2 and rng.random() < .015:         # many tracks of few notes
        ntr, max_notes = rng.randint(16, 45), 4
    if max_notes >= 20 and rng.random() < .004:                      # a long piece
        max_notes = rng.choice([300, 700, 2500])
    tracks, eots = [], []
    span = 0
    taken_names = rng.random() < .8
    for ti in range(ntr):
        ev = []          # (tick, order, event)
        conductor = ti == 0
        if taken_names and rng.random() < .8:
            ev.append((0, -9, (0, "name", rng.choice(NAMES))))
        if not conductor or type0 or rng.random() < .2:
            nch = rng.choice([1, 1, 1, 2, 3]) if not type0 else rng.randint(1, 5) if rng.random() < .95 else rng.randint(8, 16)
            pool = [c for c in range(16) if drums or c != 9]
            chans = rng.sample(pool, min(nch, len(pool)))
            if drums and rng.random() < .25 and 9 not in chans:
                chans[0] = 9
            for ch in chans:
                _channel(rng, ev, ch, res, cc, progs, max_notes // nch + 1, long)
        if noise:
            for _ in range(rng.randint(0, 4)):
                t = rng.randint(0, 8 * res)
                k = rng.randint(0, 5)
                ch = rng.randint(0, 15)
                e = [(t, "text", "hello"), (t, "chpress", ch, rng.randint(0, 127)),
                     (t, "polypress", ch, rng.randint(0, 127), rng.randint(0, 127)),
                     (t, "lyric", "la"), (t, "marker", "verse"),
                     (t, "sysex", [rng.randint(0, 127) for _ in range(rng.randint(0, 6))])][k]
                ev.append((t, 5, e))
        tracks.append(ev)
        span = max([span] + [x[0] for x in ev])
    # conductor events over the whole span
    ev = tracks[0]
    hi = max(span, 4 * res)
    mode = tempo if tempo is not None else rng.choice(["none", "zero", "few", "many"])
    used = set()

    def put(t, order, e):
        ev.append((t, order, e))
    if mode in ("zero", "few", "many") and rng.random() < .8:
        put(0, -5, (0, "tempo", _tempo(rng)))
        if rng.random() < .1:
            put(0, -4, (0, "tempo", _tempo(rng)))
    if mode in ("few", "many"):
        n = rng.randint(1, 4) if mode == "few" else rng.randint(5, 30) if rng.random() < .95 else rng.randint(60, 300)
        ticks = sorted(rng.randint(1, hi + res) for _ in range(n))
        last = None
        for t in ticks:
            us = _tempo(rng)
            if last is not None and rng.random() < .2:
                us = last
            put(t, -5 + len(used) * 1e-4, (t, "tempo", us))
            used.add(len(used))
            last = us
    if sigs:
        for kind in ("ts", "ks"):
            if rng.random() < .7:
                n = rng.randint(1, 6)
                ticks = sorted({rng.choice([0, rng.randint(1, hi + res), rng.randint(1, hi + res)])
                                for _ in range(n)})
                for t in ticks:
                    if kind == "ts":
                        e = (t, "ts", rng.randint(1, 13) if rng.random() < .9 else rng.randint(14, 255),
                             2 ** (rng.randint(0, 5) if rng.random() < .93 else rng.randint(6, 7)))
                    else:
                        e = (t, "ks", rng.randint(-7, 7), rng.randint(0, 1))
                    put(t, -3, e)
                    if rng.random() < .08:      # a second one at the same tick: the last one counts
                        e2 = (t, "ts", rng.randint(1, 9), 2 ** rng.randint(0, 4)) if kind == "ts" else \
                            (t, "ks", rng.randint(-7, 7), rng.randint(0, 1))
                        put(t, -2.9, e2)
    out = []
    for ti, ev in enumerate(tracks):
        ev.sort(key=lambda x: (x[0], x[1]))
        tr = [x[2] for x in ev]
        last = tr[-1][0] if tr else 0
        eots.append(last + (rng.choice([1, res // 2 + 1, res, 4 * res]) if rng.random() < .8 or not tr or
                            any(e[1] == "on" and e[0] == last for e in tr) else 0))
        out.append(tr)
    return Score(res, out, eots)


def _tempo(rng):
    r = rng.random()
    if r < .3:
        return rng.choice([500000, 400000, 600000, 1000000, 250000, 545455, 461538])
    if r < .9:
        return rng.randint(200000, 1500000)
    return rng.randint(20000, 8000000) if r < .99 else rng.choice([2 ** 24 - 1, rng.randint(8000000, 2 ** 24 - 1), rng.randint(5000, 20000)])


def _channel(rng, ev, ch, res, cc, progs, max_notes, long):
    far = True
    segs = 1
    late = cc and progs and rng.random() < .15      # a program no note follows, and events after it
    if progs:
        segs = rng.choice([1, 1, 1, 2, 3])
    if cc and rng.random() < .7:
        segs = 1
    t = rng.choice([0, 0, rng.randint(0, 2 * res)])
    grid = rng.choice([1, max(1, res // 4), max(1, res // 2), res])
    seen = set()
    n_total = rng.randint(0, max_notes) if rng.random() < .95 else 0
    last_seg_end = t
    used = []
    style = rng.choice(["mono", "chord", "poly", "dense", "retrig"])
    for s in range(segs):
        p = None
        if progs and (s > 0 or rng.random() < .8):
            cand = [x for x in range(128) if x not in used]
            p = rng.choice(cand) if rng.random() < .7 else cand[rng.choice([0, -1])]
            used.append(p)
            ev.append((last_seg_end, 1.5 if s else -1, (last_seg_end, "prog", ch, p)))
        elif s == 0:
            used.append(0)
        t = max(t, last_seg_end)
        seg_end = t
        n = n_total // segs
        if n == 0:
            continue
        lastseg = s == segs - 1
        first = True
        while n > 0:
            k = 1
            if style == "chord":
                k = rng.randint(1, 5)
            elif style == "dense":
                k = rng.randint(1, 9)
            elif style == "poly":
                k = rng.choice([1, 1, 2])
            k = min(k, n)
            lo = rng.randint(0, 115)
            for _ in range(k):
                pitch = rng.randint(lo, min(127, lo + (3 if style == "retrig" else 24)))
                if rng.random() < .03:
                    pitch = rng.choice([0, 127])
                if (t, pitch) in seen and rng.random() < .7:
                    continue
                seen.add((t, pitch))
                if rng.random() < .01:          # struck again and again at one tick
                    ev += [(t, 2, (t, "on", ch, pitch, rng.randint(1, 127))) for _ in range(rng.randint(2, 7))]
                vel = rng.choice([1, 127, 64]) if rng.random() < .2 else rng.randint(1, 127)
                if style == "mono":
                    dur = max(1, rng.choice([grid, grid - 1, grid // 2, grid]))
                else:
                    dur = rng.choice([1, grid, 2 * grid, rng.randint(1, 4 * res), 4 * grid + 1])
                ev.append((t, 2, (t, "on", ch, pitch, vel)))
                e = t + max(1, dur)
                seg_end = max(seg_end, e)
                if lastseg and not late and rng.random() < .04:
                    continue            # never switched off: ends at the next onset or with the track
                order = 1 if rng.random() < .8 else 3
                ev.append((e, order if lastseg else 1, (e, "off", ch, pitch, rng.choice([0, 0, 64, 1]))))
            n -= k
            first = False
            step = rng.choice([0, 1, grid, grid, grid, 2 * grid, rng.randint(1, 3 * res)])
            if long and rng.random() < .1:
                step += rng.randint(50, 200) * res
                if far and rng.random() < .2:
                    step += rng.choice([70000, 300000, 2500000])
                    far = False
            t += max(1, step) if step else 1
            if rng.random() < .04:
                ev.append((t, rng.choice([1, 3]), (t, "off", ch, rng.randint(0, 127), rng.choice([0, 64]))))
        last_seg_end = max(seg_end, t)
    if cc:
        end = last_seg_end + res
        n = rng.randint(0, 12) if rng.random() < .9 else rng.randint(12, 50) if rng.random() < .9 else rng.randint(50, 900)
        if late:
            ev.append((end - res, 4.5, (end - res, "prog", ch, rng.randint(0, 127))))
        for _ in range(n):
            tt = rng.choice([0, rng.randint(0, end), rng.randint(0, end)]) if not late or rng.random() < .3 else rng.randint(end - res + 1, end + res)
            o = rng.choice([0, 2.5, 4])
            if rng.random() < .6:
                ev.append((tt, o, (tt, "cc", ch, rng.choice([1, 7, 10, 11, 64, 0, 127, rng.randint(0, 127)]),
                                   rng.randint(0, 127))))
            else:
                ev.append((tt, o, (tt, "bend", ch, rng.choice([0, -8192, 8191, rng.randint(-8192, 8191)]))))
