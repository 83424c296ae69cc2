import copy
from ..core import many
import pickle
from neural_graph_composer.midi.Interval import Interval
from neural_graph_composer.midi.sorted_interval_dict import SortedIntervalDict

CASES = {"quick": 61500, "thorough": 1322000}
RULE = ("sets of up to 6 intervals on a coarse grid (ties, points, touching and nested ones) go through comparison, hashing, containment, overlap, "
        "intersection and union by the dozen; two interval dictionaries go through random histories of assignment, deletion (by interval "
        "and by position), range lookup and mapping calls, compared with a list model. Non-trivial: at least 4 changes; distinct by history.")
OPS = ["set", "del", "del_slice", "range", "pop", "popitem", "clear", "update", "setdefault", "bad", "copy"]
REQUIRED_EVENTS = ["op_" + o for o in OPS] + ["pairs", "touching", "nested", "disjoint", "points", "open_ranges", "large_dictionaries", "refusals_seen", "far_intervals"]
ASSUMPTIONS = ["intervals with start <= end"]


def pairs(ctx, iv):
    for a in iv:
        s, e = a.start, a.end
        for x in {s, e, s - .5, e + .5, (s + e) / 2}:
            ctx.eq(x in a, s <= x <= e, "a closed interval contains both ends and all between", interval=a, x=x)
        ctx.check(not (a == (s, e)) and a != None, "an interval equals intervals only")
        for c in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a))):
            ctx.check(c == a and hash(c) == hash(a), "a copy of an interval equals it")
        if s == e:
            ctx.ev("points")
        for b in iv:
            t, f = b.start, b.end
            w = {"a": repr(a), "b": repr(b)}
            ctx.eq((a == b, a != b), ((s, e) == (t, f), (s, e) != (t, f)), "equality of intervals", **w)
            ctx.check(a != b or hash(a) == hash(b), "equal intervals have one hash", **w)
            ctx.eq((a < b, a <= b, a > b, a >= b), ((s, e) < (t, f), (s, e) <= (t, f), (s, e) > (t, f), (s, e) >= (t, f)),
                   "order by start, then end", **w)
            o = max(s, t) <= min(e, f)
            ctx.eq((a.overlaps(b), b.overlaps(a)), (o, o), "closed intervals overlap when they share a point", **w)
            ctx.eq(a.intersection(b), Interval(max(s, t), min(e, f)) if o else None, "intersection", **w)
            ctx.eq(a.union(b), Interval(min(s, t), max(e, f)), "union", **w)
            ctx.ev("pairs")
            ctx.ev("disjoint" if not o else "touching" if max(s, t) == min(e, f) else "nested" if (s <= t and f <= e) else "crossing")
    for f in ("start", "end"):
        ctx.raises(AttributeError, lambda: setattr(iv[0], f, 1), "an interval cannot be changed")
    sh = list(iv)
    ctx.rng.shuffle(sh)
    ctx.eq([(x.start, x.end) for x in sorted(sh)], sorted((x.start, x.end) for x in iv), "sorting intervals")


def same(ctx, d, m, hist):
    k = sorted(m)
    w = {"history": hist[-10:]}
    ctx.eq([(x.start, x.end) for x in d], k, "intervals in order", **w)
    ctx.eq([((x.start, x.end), v) for x, v in d.items()], [(x, m[x]) for x in k], "items in order", **w)
    ctx.eq((list(d.values()), [(x.start, x.end) for x in d.keys()], len(d)), ([m[x] for x in k], k, len(m)), "values and keys in order", **w)
    for x in k:
        ctx.check(Interval(*x) in d and d[Interval(*x)] == m[x], "lookup by an equal interval", interval=x, **w)


def case(ctx):
    r = ctx.rng

    wide = r.random() < .04       # some dictionaries are large
    span, most = (80, 160) if wide else (8, 3)

    base = 0 if r.random() < .85 else r.choice([-20, 2000, 10 ** 6, 2 ** 31 - 4, 2 ** 40])
    if base:
        ctx.ev("far_intervals")
    wide_iv = r.random() < .1

    def iv():
        s = base + r.choice([r.randint(0, span), r.randint(0, 2 * span) / 2])
        return (s, s + r.choice([0, .5, 1, 2, 3, 7] if not wide_iv else [0, 1, 5000, 10 ** 7]))
    pairs(ctx, [Interval(*iv()) for _ in range(r.randint(1, 6))])
    first = dict((iv(), r.randint(0, 9)) for _ in range(many(r, 0, most + 1, 6 * most + 2)))
    ds = [[SortedIntervalDict(), {}], [SortedIntervalDict({Interval(*k): v for k, v in first.items()}), dict(first)]]
    hist = [first]
    changes = 0
    for _ in range(many(r, 3, 20, 100)):
        i = r.randrange(2)
        d, m = ds[i]
        op = r.choice(["set", "set", "set"] + OPS)
        k = r.choice(list(m)) if m and r.random() < .5 else iv()
        K = Interval(*k)
        v = r.randint(0, 99)
        hist.append((op, i, k, v))
        if op == "set":
            d[K] = v
            m[k] = v
        elif op == "del":
            if k in m:
                del d[K]
                del m[k]
            else:
                ctx.raises(KeyError, lambda: d.__delitem__(K), "a missing interval cannot be deleted", history=hist[-8:])
        elif op == "del_slice":
            a = r.choice([None, r.randint(-3, 4)])
            b = r.choice([None, r.randint(-3, 6)])
            c = r.choice([None, None, 2, -1])
            hist[-1] += ((a, b, c),)
            for x in sorted(m)[a:b:c]:
                del m[x]
            del d[a:b:c]
        elif op == "range":
            a = r.choice([None, base + r.randint(0, 2 * span) / 2])
            b = r.choice([None, (base if a is None else a) + r.randint(0, 8) / 2])
            e = d[a:b]
            lo, hi = float("-inf") if a is None else a, float("inf") if b is None else b
            want = {x: m[x] for x in m if x[0] <= hi and lo <= x[1]}
            ctx.check(isinstance(e, SortedIntervalDict), "a range is an interval dictionary")
            same(ctx, e, want, hist)
            e[Interval(-5, -4)] = 1          # independent of its source
            if a is None or b is None:
                ctx.ev("open_ranges")
        elif op == "pop":
            ctx.eq(d.pop(K, None), m.pop(k, None), "popped value or default", history=hist[-8:])
        elif op == "popitem":
            if m:
                x, y = d.popitem()
                ctx.eq(m.pop((x.start, x.end), None), y, "popped item", history=hist[-8:])
            else:
                ctx.raises(KeyError, d.popitem, "nothing to pop")
        elif op == "clear":
            d.clear()
            m.clear()
        elif op == "update":
            it = dict((iv(), r.randint(0, 9)) for _ in range(r.randint(0, most)))
            hist[-1] += (it,)
            d.update({Interval(*x): y for x, y in it.items()})
            m.update(it)
        elif op == "setdefault":
            ctx.eq(d.setdefault(K, v), m.setdefault(k, v), "value or default set")
        elif op == "copy":
            e = r.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: SortedIntervalDict(x), lambda x: x[:]])(d)
            ctx.check(e == d, "a copy equals its source")
            e[Interval(-9, -8)] = -len(hist)
            ctx.check(e != d, "a changed copy differs")
            ds[1 - i] = [e, {**m, (-9, -8): -len(hist)}]
        elif op == "bad":
            x = r.choice([5, "a", (1, 2), None, 2.5])
            ctx.raises(KeyError, lambda: d.__setitem__(x, 1), "keys are intervals", key=x)
            ctx.raises(KeyError, lambda: type(d)({x: 1}), "keys are intervals from the start", key=x)
            ctx.raises(KeyError, lambda: d[x], "only intervals and ranges are looked up", key=x)
            ctx.raises(KeyError, lambda: d.__delitem__(x), "only intervals and ranges are deleted", key=x)
            ctx.raises(KeyError, lambda: d[Interval(777, 778)], "a missing interval has no value")
            ctx.check(x not in d and d.get(Interval(777, 778), 3) == 3, "a missing interval")
        ctx.ev("op_" + op)
        changes += op not in ("bad", "range")
        if any(len(n) > 100 for _, n in ds):
            ctx.ev("large_dictionaries")
        for e, n in ds:
            same(ctx, e, n, hist)
    if changes >= 4:
        ctx.seen(hist)
        ctx.show(hist)
