import os
import tempfile
from .. import smf, rd
from ..common import reader, container_state

CASES = {"quick": 5200, "thorough": 112000}
RULE = ("random MIDI files (all generator profiles, control events included) are read as a path, as bytes, as a parsed file object and "
        "through from_file, in random order, repeatedly and interleaved with reads of other files; all results must be equal and must "
        "leave the file, the parsed object and the temporary directory as they were. Non-trivial: the file has notes; distinct by content.")
REQUIRED_EVENTS = ["reads_path", "reads_bytes", "reads_object", "reads_from_file", "refusals_seen", "unreadable_objects", "odd_file_names"]

ODD = [" f 0 ", "m\xfc%s.MID"]
BAD = [None, 5, 3.5, [], {}, ("a",), bytearray(b"MThd"), object]


def objstate(mf):
    return (mf.ticks_per_beat, mf.type, [[(m.type, m.time, repr(m)) for m in t] for t in mf.tracks])


def case(ctx):
    import mido
    r = ctx.rng
    R = reader()
    tmp = os.path.join(ctx.scratch, "tmp")
    os.makedirs(tmp, exist_ok=True)
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        scs = [smf.gen(r, cc=r.random() < .5, max_notes=r.choice([5, 20])) for _ in range(2)]
        if r.random() < .008:
            # a file of some hundred kilobytes
            scs[0].tracks[0][:0] = [(0, "text", r.choice("abc\xe9") * r.randint(1000, 16000)) for _ in range(r.randint(5, 40))]
            ctx.ev("big_files")
        ctx.note(files="\n--\n".join(s.text() for s in scs))
        paths = []
        odd = r.random() < .3
        ctx.ev("odd_file_names", odd)
        for i, s in enumerate(scs):
            p = os.path.join(ctx.scratch, ODD[i] if odd else "f%d.mid" % i)
            with open(p, "wb") as f:
                f.write(smf.encode(s))
            paths.append(p)
        raw = [open(p, "rb").read() for p in paths]
        obj = [mido.MidiFile(p) for p in paths]
        st0 = [objstate(o) for o in obj]
        ref = [None, None]
        live = [None, None]
        plan = [(i, w) for i in (0, 1) for w in ("path", "bytes", "object", "from_file", "path")]
        r.shuffle(plan)
        for i, w in plan[:r.randint(5, 10)]:
            if w == "path":
                m = R.read(paths[i])
                ctx.eq(m.filename, paths[i], "the container records the file it was read from")
            elif w == "bytes":
                m = R.read(raw[i])
            elif w == "object":
                m = R.read(obj[i])
            else:
                m = R.from_file(paths[i])
            ctx.ev("reads_" + w)
            s = container_state(m)
            if ref[i] is None:
                ref[i], live[i] = s, m
            ctx.eq(s, ref[i], "the same file read again (%s) gives the same score" % w)
            ctx.ev("states_compared")
        for i in (0, 1):
            if live[i] is not None:
                ctx.eq(container_state(live[i]), ref[i], "an earlier result is not changed by later reads")
            ctx.eq(open(paths[i], "rb").read(), raw[i], "the file on disk is left as it was")
            ctx.check(objstate(obj[i]) == st0[i], "the parsed object passed in is left as it was")
        ctx.eq(os.listdir(tmp), [], "no temporary file is left behind")
        ctx.raises(ValueError, lambda: R.read(r.choice(BAD)), "a source that is no path, bytes or parsed file is refused")
        odd = mido.MidiFile()
        for t in r.choice([[], [[]], [[mido.Message("note_on", note=60, time=-5)]], [[mido.MetaMessage("text", text="\u4e2d", time=0)]],
                           [[mido.Message("note_on", note=60, time=3)], []]]):
            odd.tracks.append(mido.MidiTrack(t))
        try:
            R.read(odd)
        except Exception:
            ctx.ev("unreadable_objects")
        ctx.eq(os.listdir(tmp), [], "no temporary file is left behind by an object that cannot be read", tracks=repr(odd.tracks))
        missing = os.path.join(ctx.scratch, "nope.mid")
        ctx.raises(ValueError, lambda: R.from_file(missing), "from_file reports a missing file as ValueError")
        if any(e[1] == "on" for t in scs[0].tracks for e in t):
            ctx.seen(scs[0].text())
            ctx.show(scs[0].text())
    finally:
        tempfile.tempdir = old
