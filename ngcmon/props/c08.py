import os
from .. import build
from ..common import reader, container_state
from ..build import MidiNoteSequences, MidiNoteSequence
from .c07 import built

CASES = {"quick": 6400, "thorough": 138000}
RULE = ("random histories of writes: valid ones to new and existing names (with and without permission to overwrite, with and without a "
        "time window), and refused ones (no score, empty score, score without notes, bad name, existing file, negative or reversed or "
        "non numeric window). After every step the whole directory and the score are compared with a model. Non-trivial: at least one "
        "refusal and one success; distinct by the history.")
REQUIRED_EVENTS = ["refused_existing", "refused_score", "refused_name", "refused_window", "refused_no_notes", "written_new", "overwritten",
                   "written_window", "failed_io", "refused_foreign_file", "written_through_link", "identical_rewrites"]


def listing(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f != "sub.mid"}


def case(ctx):
    r = ctx.rng
    R = reader()
    d = os.path.join(ctx.scratch, "d")
    os.mkdir(d)
    pool = []
    for _ in range(2):
        m = None
        while m is None:
            m = built(ctx)
        pool.append(m)
    states = [container_state(m) + (m.filename,) for m in pool]
    files = {}
    fresh = {}
    hist = []
    ok = bad = 0
    with open(os.path.join(d, "other.txt"), "wb") as f:
        f.write(b"not midi")
    files["other.txt"] = b"not midi"
    # what the directory may hold already: an empty file, a file of another kind, a link, a directory
    if r.random() < .5:
        open(os.path.join(d, "a.mid"), "wb").close()
        files["a.mid"] = b""
    if r.random() < .3:
        files["b.mid"] = r.choice([b"MThd", b"\0", bytes(200)])
        with open(os.path.join(d, "b.mid"), "wb") as f:
            f.write(files["b.mid"])
    link = r.random() < .3
    if link:
        os.symlink("other.txt", os.path.join(d, "c.mid"))
        files["c.mid"] = files["other.txt"]
    present = set(files)
    os.mkdir(os.path.join(d, "sub.mid"))
    for _ in range(r.randint(5, 12)):
        i = r.randrange(2)
        m = pool[i]
        name = r.choice(["a.mid", "b.mid", "c.mid", "a", " b.x "])
        path = os.path.join(d, name)
        k = r.randint(0, 11)
        kw = {}
        if k in (0, 1, 2, 3, 4, 5):
            ow = r.choice(["default", False, False, None, 0, True, True])
            if ow != "default":
                kw["do_overwrite"] = ow
            if r.random() < .25:
                end = max(n.end_time for t in m for n in m[t].notes)
                kw["to_end"] = end if r.random() < .5 else end * 1.5
                if r.random() < .5:
                    kw["from_start"] = r.choice([0, 0.0])
            hist.append(("write", i, name, sorted(kw.items())))
            if name in files and ow is not True:
                ctx.raises(FileExistsError, lambda: R.write(m, path, **kw), "writing over an existing file needs permission",
                           history=hist)
                ctx.ev("refused_existing")
                if name in present:
                    ctx.ev("refused_foreign_file")
                bad += 1
            else:
                R.write(m, path, **kw)
                data = open(path, "rb").read()
                ctx.check(data[:4] == b"MThd", "a MIDI file is written", history=hist)
                ctx.ev("overwritten" if name in files else "written_new")
                files[name] = data
                if link and name == "c.mid":
                    files["other.txt"] = data
                    ctx.ev("written_through_link")
                ok += 1
                key = (i, repr(sorted((a, b) for a, b in kw.items() if a != "do_overwrite")))
                if key in fresh:
                    ctx.check(fresh[key] == data, "writing the same score again gives the same bytes", history=hist)
                    ctx.ev("identical_rewrites")
                fresh[key] = data
                if "to_end" in kw:
                    ctx.ev("written_window")
        else:
            bad += 1
            path2 = path
            ow = r.random() < .7
            if k == 6:
                what = r.choice([None, 3, "x", [m], MidiNoteSequences(), m[next(iter(m))]])
                hist.append(("bad score", type(what).__name__))
                ctx.raises(ValueError, lambda: R.write(what, path2, do_overwrite=ow), "something that is no score is refused")
                ctx.ev("refused_score")
            elif k == 7:
                what = r.choice(["", None, 5, b"x.mid", ["x.mid"]])
                hist.append(("bad name", repr(what)))
                ctx.raises(ValueError, lambda: R.write(m, what, do_overwrite=ow), "a bad file name is refused")
                ctx.ev("refused_name")
            elif k in (8, 9):
                u = r.uniform(.001, 9)
                kw = r.choice([{"from_start": u, "to_end": u - r.choice([1e-9, 1e-4, 9e-4])}, {"from_start": u, "to_end": r.choice([0, 0.0])}, {"from_start": -1}, {"from_start": -0.001}, {"to_end": -1.0}, {"to_end": "3"}, {"from_start": "0"},
                               {"from_start": 3.0, "to_end": 2.0}, {"from_start": [1]}, {"to_end": (2,)}, {"from_start": ""}, {"to_end": []}, {"from_start": (), "to_end": 3.0},
                               {"from_start": r.uniform(1, 9), "to_end": r.uniform(0, 1)}])
                hist.append(("bad window", repr(kw), name))
                if name in files and not ow:
                    ow = True
                ctx.raises(ValueError, lambda: R.write(m, path2, do_overwrite=ow, **kw), "a bad time window is refused", window=kw)
                ctx.ev("refused_window")
            elif k == 10:
                e = MidiNoteSequences(midi_seq=[MidiNoteSequence(instrument=r.randint(0, 127))])
                hist.append(("no notes", name))
                ctx.raises(ValueError, lambda: R.write(e, path2, do_overwrite=True), "a score without any note is refused")
                ctx.ev("refused_no_notes")
            else:
                p3 = os.path.join(d, r.choice(["missing/x.mid", "sub.mid"]))
                ow = r.random() < .5
                hist.append(("impossible path", os.path.basename(p3), ow))
                taken = p3.endswith("sub.mid") and not ow
                ctx.raises(FileExistsError if taken else OSError, lambda: R.write(m, p3, do_overwrite=ow), "an impossible path is reported")
                ctx.eq(os.listdir(os.path.join(d, "sub.mid")), [], "nothing is written into a directory of that name")
                ctx.ev("failed_io")
        now = listing(d)
        ctx.eq(sorted(now), sorted(files), "only the named file appears", history=hist)
        for f in files:
            ctx.check(now[f] == files[f], "no other file, and no file of a refused write, changes", file=f, history=hist)
        for j in range(2):
            ctx.check(container_state(pool[j]) + (pool[j].filename,) == states[j], "writing or refusing leaves the score as it was", history=hist)
        ctx.ev("steps_checked")
    if ok and bad:
        ctx.seen(hist)
        ctx.show(repr(hist))
