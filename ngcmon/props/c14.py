from ..core import many
from ..build import MidiNoteSequences, MidiTempoSignature, MidiTimeSignature, MidiKeySignature

CASES = {"quick": 66100, "thorough": 1420000}
RULE = ("2..3 scores alive at once, started empty or with lists; random histories of adding time, key and tempo signatures in any time order "
        "(replacing the entry at the first time included), interleaved with lookups at, just before and after each change, listings up to "
        "a bound, and the initial tempo; all compared with a list model. Non-trivial: at least 4 additions and 6 lookups; distinct by "
        "the history.")
REQUIRED_EVENTS = ["added_in_order", "added_out_of_order", "replaced_first", "ties", "ties_before_the_last", "long_lists", "lookup_on_change", "lookup_before_first", "lookup_between",
                   "lookup_repeated_after_add", "listings", "given_lists", "given_no_list"]
ASSUMPTIONS = ["entries are at one time or at least 20 microseconds apart; of entries at one time the last added counts"]
KINDS = ["time", "key", "tempo"]


class Score:
    def __init__(self, ctx, r):
        self.l = {k: [] for k in KINDS}
        self.asked = {}
        kw = {}
        for k in KINDS:
            if r.random() < .04:
                kw[k + ("_signatures")] = []
                ctx.ev("given_no_list")
            elif r.random() < .3:
                t = r.choice([0.0, r.randint(1, 50) / 10, r.randint(1, 50) / 10 + 100])
                objs = []
                for _ in range(r.randint(1, 4)):
                    o, row = make(r, k, t)
                    objs.append(o)
                    self.l[k].append(row)
                    t += r.randint(1, 40) / 10
                for i, o in enumerate(objs):
                    o.seq = i
                kw[k + ("_signatures")] = objs
                ctx.ev("given_lists")
            else:
                self.l[k].append({"time": (0.0, 4, 4), "key": (0.0, 0, "MAJOR"), "tempo": (0.0, 120.0, 480)}[k])
        self.m = MidiNoteSequences(**kw)


def make(r, k, t):
    if k == "time":
        n, d = r.choice([r.randint(1, 15), r.randint(1, 15), r.randint(1, 255)]), 2 ** r.choice([0, 1, 2, 3, 4, 5, 2, 3, 6, 7])
        return MidiTimeSignature(t, n, d), (t, n, d)
    if k == "key":
        n, d = r.randint(0, 11), r.randint(0, 1)
        return MidiKeySignature(t, n, d), (t, n, "MINOR" if d else "MAJOR")
    q, res = r.choice([120.0, 60.0, r.uniform(20, 300), r.uniform(3, 900)]), r.choice([96, 220, 480, 960])
    return MidiTempoSignature(midi_time=t, qpm=q, resolution=res), (t, q, res)


def rows(m, k):
    if k == "time":
        return [(x.midi_time, x.numerator, x.denominator) for x in m.time_signatures]
    if k == "key":
        return [(x.midi_time, x.midi_key, x.mode.name) for x in m.key_signatures]
    return [(x.midi_time, x.qpm, x.resolution) for x in m.tempo_signatures]


def lookup(ctx, sc, k, t, hist):
    hit = [x for x in sc.l[k] if x[0] <= t]
    m = sc.m
    if k == "time":
        got, want = m.time_signature(t), (hit[-1][1:] if hit else (4, 4))
    elif k == "key":
        g = m.key_signature(t)
        got, want = (getattr(g[0], "name", "MAJOR" if g[0] == 0 else g[0]), g[1]), ((hit[-1][2], hit[-1][1]) if hit else ("MAJOR", 0))
    else:
        got, want = m.tempo_signature(t), ((int(hit[-1][1]), hit[-1][2]) if hit else (120, 480))
        if not sc.l[k]:     # a score without any tempo has none to tell
            return
    ctx.eq(tuple(got), tuple(want), "%s signature in force at %.4f" % (k, t), history=hist[-14:], entries=sc.l[k])
    if any(x[0] == t for x in sc.l[k]):
        ctx.ev("lookup_on_change")
    elif not hit:
        ctx.ev("lookup_before_first")
    else:
        ctx.ev("lookup_between")
    sc.asked.setdefault(k, []).append(t)


def add(m, k, o):
    getattr(m, {"time": "add_time_signatures", "key": "add_key_signatures", "tempo": "add_tempo_signature"}[k])(o)


def case(ctx):
    r = ctx.rng
    scores = [Score(ctx, r) for _ in range(r.randint(2, 3))]
    hist = []
    ctx.note(history=hist)
    na = nl = 0
    for sc in scores:
        for k in KINDS:
            if not sc.l[k]:
                for _ in range(2):
                    lookup(ctx, sc, k, r.choice([0.0, r.uniform(0, 50)]), hist)
                t = r.choice([0.0, r.uniform(0, 5)])
                o, row = make(r, k, t)
                add(sc.m, k, o)
                sc.l[k].append(row)
                hist.append(("first", scores.index(sc), row))
    if r.random() < .02:
        # a long piece
        sc, k = r.choice(scores), r.choice(KINDS)
        t = sc.l[k][-1][0]
        for _ in range(r.randint(65, 300)):
            t += r.choice([.25, .5, 2.0])
            o, row = make(r, k, t)
            add(sc.m, k, o)
            sc.l[k].append(row)
        hist.append(("long", k, t))
        ctx.ev("long_lists")
    for _ in range(many(r, 12, 40, 160, .02)):
        i = r.randrange(len(scores))
        sc = scores[i]
        k = r.choice(KINDS)
        rowsk = sc.l[k]
        if r.random() < .45:
            c = r.random()
            last = rowsk[-1][0]
            if c < .5:
                t = last + r.randint(1, 30) / 10
                ctx.ev("added_in_order")
            elif c < .75:
                t = r.randint(0, int(last * 1000) + 1000) / 1000
                if any(abs(t - x[0]) < 5e-4 for x in rowsk[1:]):
                    continue
                ctx.ev("added_out_of_order")
            elif c < .9:
                t = rowsk[0][0] + r.choice([0.0, 5e-7, 5e-7, 2e-5])
                if len(rowsk) > 1 and rowsk[1][0] - rowsk[0][0] < 1e-3:
                    continue
            else:
                if len(rowsk) < 2:
                    continue
                t = r.choice(rowsk[1:])[0]
                ctx.ev("ties")
                if t < last:
                    ctx.ev("ties_before_the_last")
            o, row = make(r, k, t)
            hist.append(("add", i, row))
            add(sc.m, k, o)
            if abs(rowsk[0][0] - t) < 1e-6:
                rowsk[0] = row
                ctx.ev("replaced_first")
            else:
                rowsk.append(row)
                rowsk.sort(key=lambda x: x[0])
            na += 1
            for t in sc.asked.get(k, [])[-3:]:
                lookup(ctx, sc, k, t, hist)
                ctx.ev("lookup_repeated_after_add")
        else:
            t = r.choice([0.0, r.uniform(0, 30), r.choice([1e4, 1e7, 1e12])] + [x[0] for x in rowsk] + [x[0] + 1e-4 for x in rowsk] + [max(0, x[0] - 1e-4) for x in rowsk])
            hist.append(("at", i, k, t))
            lookup(ctx, sc, k, t, hist)
            nl += 1
        if r.random() < .2:
            j = r.randrange(len(scores))
            hist.append(("list", j))
            s2 = scores[j]
            for k in KINDS:
                ctx.eq(rows(s2.m, k), s2.l[k], "list of %s signatures in time order" % k, history=hist[-14:])
                b = r.choice([None, 0.0, r.uniform(0, 20)] + [x[0] for x in s2.l[k]])
                want = [x for x in s2.l[k] if b is None or x[0] <= b]
                it = {"time": s2.m.slice_time_signatures, "key": s2.m.slice_key_signatures, "tempo": s2.m.slice_tempo_signature}[k](b)
                class O:
                    pass
                o = O()
                o.time_signatures = o.key_signatures = o.tempo_signatures = list(it)
                ctx.eq(rows(o, k), want, "%s signatures up to a bound" % k, bound=b, history=hist[-14:])
                ctx.ev("listings")
            z = [x for x in s2.l["tempo"] if x[0] == 0.0]
            ctx.eq(s2.m.initial_tempo(), (z or s2.l["tempo"])[0][1], "initial tempo", entries=s2.l["tempo"])
    if na >= 4 and nl >= 6:
        ctx.seen(hist)
        ctx.show(repr(hist))
