import copy
from ..core import many
import pickle
from neural_graph_composer.midi.sorted_dict import SortedDict

CASES = {"quick": 38500, "thorough": 827000}
RULE = ("2..4 dictionaries alive at once, random histories of item assignment, deletion, pop, popitem, clear, update, setdefault, copies (shallow, "
        "deep, pickled), unions and failing calls on all of them; keys, values, items, iteration both ways, lengths, lookups and equality are "
        "compared with a plain dictionary after every step. Non-trivial: at least 5 changes; distinct by the history.")
OPS = ["set", "overwrite", "del", "pop", "pop_default", "popitem", "popfirst", "clear", "update", "setdefault", "copy", "pickle", "deepcopy", "union",
       "ior", "missing", "fromkeys"]
REQUIRED_EVENTS = ["op_" + o for o in OPS] + ["equal_dicts", "different_dicts", "large_dictionaries", "refusals_seen"]
ASSUMPTIONS = ["the list given by keys() is not changed by the caller"]


def same(ctx, d, m, hist):
    k = sorted(m)
    w = {"history": hist[-12:]}
    ctx.eq(list(d.keys()), k, "keys in ascending order", **w)
    ctx.eq(list(d), k, "iteration in ascending order", **w)
    ctx.eq(list(d.values()), [m[x] for x in k], "values in the order of the keys", **w)
    ctx.eq(list(d.items()), [(x, m[x]) for x in k], "items in the order of the keys", **w)
    ctx.eq(list(reversed(d)), k[::-1], "reversed iteration", **w)
    ctx.eq((len(d), bool(d)), (len(m), bool(m)), "length", **w)
    for x in k:
        ctx.check(x in d and d[x] == m[x] and d.get(x) == m[x], "lookup", key=x, **w)


def case(ctx):
    r = ctx.rng
    kind = r.choice(["int", "int", "float", "str", "tuple"])
    wide = r.random() < .04       # some dictionaries are large
    lo, hi, most = (-300, 900, 300) if wide else (-6, 12, 5)

    def key():
        i = r.randint(lo, hi)
        return {"int": i, "float": i / 4, "str": "k%04d" % i, "tuple": (i, r.randint(0, 1))}[kind]

    def items(n=None):
        return [(key(), r.randint(0, 99)) for _ in range(many(r, 0, most, 5 * most) if n is None else n)]
    ds = []
    hist = []
    for _ in range(r.randint(1, 2)):
        it = items()
        ds.append([SortedDict(it) if r.random() < .5 else SortedDict(dict(it)), dict(it)])
        hist.append(("new", it))
    changes = 0
    for _ in range(many(r, 3, 25, 120)):
        i = r.randrange(len(ds))
        d, m = ds[i]
        op = r.choice(["set", "set", "set"] + OPS)
        k = r.choice(list(m)) if m and r.random() < .5 else key()
        v = None if r.random() < .05 else r.randint(0, 99)
        hist.append((op, i, k, v))
        odds = r.random() < .5
        if op in ("set", "overwrite"):
            op = "overwrite" if k in m else "set"
            d[k] = v
            m[k] = v
        elif op == "del":
            if k in m:
                del d[k]
                del m[k]
            else:
                ctx.raises(KeyError, lambda: d.__delitem__(k), "a missing key cannot be deleted", history=hist[-8:])
        elif op == "pop":
            if k in m:
                ctx.eq(d.pop(k, "x") if odds else d.pop(k), m.pop(k), "popped value", history=hist[-8:])
            else:
                ctx.raises(KeyError, lambda: d.pop(k), "a missing key cannot be popped", history=hist[-8:])
        elif op == "pop_default":
            ctx.eq(d.pop(k, None), m.pop(k, None), "popped value or default", history=hist[-8:])
        elif op in ("popitem", "popfirst"):
            if m:
                x = max(m) if op == "popitem" else min(m)
                ctx.eq(d.popitem() if op == "popitem" else d.popitem(last=False), (x, m.pop(x)), "popped item", history=hist[-8:])
            else:
                ctx.raises(KeyError, d.popitem, "nothing to pop", history=hist[-8:])
        elif op == "clear":
            d.clear()
            m.clear()
        elif op == "update":
            it = items()
            hist[-1] += (it,)
            d.update(it if odds else dict(it))
            m.update(it)
        elif op == "setdefault":
            ctx.eq(d.setdefault(k, v), m.setdefault(k, v), "value or default set", history=hist[-8:])
        elif op in ("copy", "pickle", "deepcopy"):
            f = {"copy": r.choice([lambda x: x.copy(), copy.copy]), "pickle": lambda x: pickle.loads(pickle.dumps(x)), "deepcopy": copy.deepcopy}[op]
            e = f(d)
            ctx.check(isinstance(e, SortedDict), "a copy is sorted, too")
            (ds.append if len(ds) < 4 else lambda x: ds.__setitem__((i + 1) % len(ds), x))([e, dict(m)])
        elif op == "union":
            it = dict(items())
            hist[-1] += (it,)
            ds[i] = [d | it, {**m, **it}]
            ctx.check(isinstance(ds[i][0], SortedDict), "a union is sorted, too")
        elif op == "ior":
            it = dict(items())
            d |= it
            m.update(it)
            ctx.check(d is ds[i][0], "updating keeps the object")
        elif op == "missing":
            x = "zz" if kind == "str" else (9999, 9) if kind == "tuple" else 9999
            ctx.raises(KeyError, lambda: d[x], "a missing key has no value")
            ctx.check(d.get(x) is None and d.get(x, 5) == 5 and x not in d, "a missing key")
            # a key that cannot be placed among the others is refused without a trace
            if m:
                odd = 5 if kind in ("str", "tuple") else "odd"
                ctx.raises(TypeError, lambda: d.__setitem__(odd, v), "a key that cannot be compared is refused", history=hist[-8:])
        elif op == "fromkeys":
            ks = [x for x, _ in items()]
            ds[i] = [SortedDict.fromkeys(ks, v), dict.fromkeys(ks, v)]
        ctx.ev("op_" + op)
        changes += op != "missing"
        if any(len(n) > 100 for _, n in ds):
            ctx.ev("large_dictionaries")
        for e, n in ds:
            same(ctx, e, n, hist)
        for e, n in ds:
            a, b = r.choice(ds)
            ctx.eq((e == a, e != a), (n == b, n != b), "equal when keys and values are", history=hist[-12:])
            sh = list(n.items())
            r.shuffle(sh)
            ctx.check(e == SortedDict(sh) and e == dict(sh) and not (e != SortedDict(sh)), "equal whatever the order of insertion", items=sh)
            ctx.ev("equal_dicts" if n == b else "different_dicts")
    if changes >= 5:
        ctx.seen(hist)
        ctx.show(hist)
