import functools
import http.server
import os
import subprocess
import sys
import threading
import torch
from .. import ds
from ..ds import MidiDataset, view, base_view
from ..core import Skip, many, HERE

CASES = {"quick": 620, "thorough": 26000}
CHILDREN = {"quick": 4, "thorough": 40}
RULE = ("one folder, several constructions in a row: per track or merged, with and without velocity, feature sizes, single-note filter, labels, filter "
        "and transform callables, files without chords, reloading from another working directory or process, and builds interrupted while "
        "saving; each dataset is compared graph by graph with what the builder gives for the files. Non-trivial: at least 2 graphs and "
        "2 constructions; distinct by files and history.")
REQUIRED_EVENTS = ["built", "reloaded", "merged_view", "per_track_view", "second_configuration", "filtered", "transformed", "transform_on_access",
                   "files_without_graph", "relative_paths", "folder_as_source", "interrupted", "rebuilt_after_interrupt", "graphs_compared",
                   "labels_kept", "targets_lead_to_pitches", "other_process", "same_names_in_different_folders", "refusals_seen", "fetched_files", "missing_files",
                   "file_listed_twice", "made_up_names", "statistics"]
ASSUMPTIONS = ["a dataset folder is used with one setting per velocity, feature size and tolerance, as the file name of the saved data says"]


def compare(ctx, s, want, mp, what, **w):
    ctx.eq(len(s), len(want), "number of graphs: " + what, **w)
    for i, (got, e) in enumerate(zip(s, want)):
        ctx.eq(base_view(got), base_view(e), "graph %d of the dataset: %s" % (i, what), **w)
        for y, h in zip(got.y.tolist(), got.node_hash):
            ctx.eq(s.index_to_hash[y], h, "a target leads to its hash")
        row = got.x if got.x.dim() == 2 else got.x[:, 0]
        for i, h in enumerate(got.node_hash):
            ps = s.hash_to_notes[h]
            ctx.eq(sorted(row[i].tolist()[:len(ps)]), sorted(map(float, ps)), "a hash leads to the pitches of its node")
            ctx.ev("targets_lead_to_pitches")
        ctx.ev("graphs_compared")
    ctx.eq([dict(s.hash_to_notes), dict(s.notes_to_hash), dict(s.hash_to_index), dict(s.index_to_hash)], mp, "the mappings of the dataset: " + what)
    ctx.eq(s.total_num_classes, len(mp[3]), "number of classes over all graphs")
    if want:
        sums = {"num_nodes": sum(e.x.shape[0] for e in want), "num_edges": sum(e.edge_index.shape[1] for e in want), "num_labels": sum(len(set(e.y.tolist())) for e in want)}
        ctx.eq(s.compute_statistics(), sums, "the statistics count every graph")
        ctx.ev("statistics")
    for d in (s.hash_to_notes, s.notes_to_hash, s.hash_to_index, s.index_to_hash):
        d.clear()
    ctx.eq(len(s.hash_to_index), len(mp[2]), "the mappings handed out are copies")


def in_other_process(ctx, root, paths, d, kw, s):
    code = ("import sys, json, pickle\nimport logging; logging.disable(50)\nfrom ngcmon import ds\n"
            "a = pickle.load(open(sys.argv[1], 'rb'))\nso = sys.stdout; sys.stdout = open('/dev/null', 'w')\n"
            "s = ds.MidiDataset(*a[0], **a[1])\npickle.dump([[ds.view(x) for x in s], s.hash_to_index], open(sys.argv[2], 'wb'))\n")
    import pickle
    a, b = os.path.join(d, "args.pkl"), os.path.join(d, "out.pkl")
    with open(a, "wb") as f:
        pickle.dump([[root], kw], f)
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.rng.randint(1, 4294967295)))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, a, b], env=env, capture_output=True, timeout=200, cwd=HERE)
    ctx.check(p.returncode == 0, "another process reads the dataset", stderr=p.stderr.decode()[-2000:])
    with open(b, "rb") as f:
        ctx.eq(pickle.load(f), [[view(x) for x in s], s.hash_to_index], "another process reads the same dataset")
    ctx.ev("other_process")


class Quiet(http.server.SimpleHTTPRequestHandler):
    served = []

    def log_message(self, *a):
        pass

    def do_GET(self):
        self.served.append(self.path)
        super().do_GET()


def online(ctx, d, src, names, kw, per, conf):
    """the files of a folder are fetched from a web server (that of this process, on loopback)"""
    other = os.path.join(d, "listing%d" % len(os.listdir(d)))
    os.mkdir(other)
    for n in names:
        # the listing says which files, the server says what is in them
        open(os.path.join(other, n), "wb").close()
    open(os.path.join(other, "readme.txt"), "w").close()
    os.mkdir(os.path.join(other, "folder.mid"))
    order = [n for n in os.listdir(other) if n in names]
    pe, we, mid, end = ds.expected([os.path.join(src, n) for n in order], *conf)
    if not pe:
        raise Skip("no graph")
    served = []
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(type("H", (Quiet,), {"served": served}), directory=src))
    t = threading.Thread(target=srv.serve_forever, kwargs={"poll_interval": .01}, daemon=True)
    t.start()
    root = os.path.join(other, "root")
    kw = dict(kw, midi_files=None, default_midi_loc=other, default_webserver="http://127.0.0.1:%d" % srv.server_address[1])
    try:
        s = MidiDataset(root, **kw)
        ctx.eq(sorted(served), sorted("/" + n for n in names), "each listed file is fetched once")
        compare(ctx, s, pe if per else we, end, "files from a server")
        for n in names:
            with open(os.path.join(root, "raw", n), "rb") as a, open(os.path.join(src, n), "rb") as b:
                ctx.eq(a.read(), b.read(), "the file fetched")
        again = MidiDataset(root, **kw)
        ctx.eq([view(x) for x in again], [view(x) for x in s], "the dataset of fetched files read again")
        ctx.eq(len(served), len(names), "nothing is fetched twice")
    finally:
        srv.shutdown()
        srv.server_close()
        t.join()
    ctx.ev("fetched_files", len(names))


def refusals(ctx, d, src):
    r = ctx.rng
    f = os.path.join(d, "a_file")
    open(f, "w").close()
    te = [dict(root=3), dict(transform=3), dict(pre_transform="f"), dict(pre_filter=1), dict(default_node_attr=None), dict(midi_files="a.mid"), dict(midi_files=("a.mid",)),
          dict(default_webserver=80), dict(train_ratio="0.5"), dict(val_ratio=None), dict(per_instrument_graph=1), dict(per_graph_slit="no"), dict(default_midi_loc=None),
          dict(feature_vec_size=12.0), dict(feature_vec_size="12"), dict(velocity_num_buckets=8.0), dict(tolerance=1), dict(tolerance="0.2"), dict(filter_single_notes=0),
          dict(include_velocity="yes")]
    ve = [dict(midi_files=["a.mid", 3]), dict(midi_files=[None]), dict(train_ratio=-.01), dict(train_ratio=1.01, val_ratio=0), dict(val_ratio=-1), dict(val_ratio=1.5, train_ratio=0),
          dict(train_ratio=.6, val_ratio=.5), dict(feature_vec_size=0), dict(feature_vec_size=129), dict(feature_vec_size=-3), dict(velocity_num_buckets=0),
          dict(velocity_num_buckets=-2), dict(default_midi_loc=os.path.join(d, "none")), dict(default_midi_loc=f)]
    root = os.path.join(d, "refused")
    for exc, l in (TypeError, te), (ValueError, ve):
        for kw in r.sample(l, 5):
            a = dict(dict(root=root, default_midi_loc=src), **kw)
            ctx.raises(exc, lambda: MidiDataset(**a), "refusal of %r" % (kw,))
            ctx.check(not os.path.exists(root), "a refused dataset leaves no folder")
            ctx.ev("refusals_seen")


def case(ctx):
    r = ctx.rng
    d = ctx.tmpdir()
    src = os.path.join(d, "src")
    os.mkdir(src)
    paths = []
    for i in range(many(r, 1, 4, 14, .03)):
        sub = os.path.join(src, r.choice(["", "", "", "s%d" % i]))
        os.makedirs(sub, exist_ok=True)
        p = os.path.join(sub, "%s%d.mid" % (r.choice(["a", "b", "z", "a", "b", "z", "a", "b", ".h", "%d_a" % r.randint(0, 3)]), r.choice([i, 0])))
        if p in paths:
            p = os.path.join(src, "q%d.mid" % i)
        kind = r.choice(["drums", "single", "single", None, None, None, None, None])
        with open(p, "wb") as f:
            f.write(ds.song(r, kind))
        paths.append(p)
    crowd = r.random() < .02
    kept_order = False
    if crowd:
        # more files of one name than a digit counts
        paths = []
        for i in range(r.randint(10, 13)):
            os.mkdir(os.path.join(src, "c%d" % i))
            paths.append(os.path.join(src, "c%d" % i, "same.mid"))
            with open(paths[-1], "wb") as f:
                f.write(ds.song(r))
    elif r.random() < .05:
        # a name that looks like one made up for a second file of that name
        n = r.choice([2, 2, 3])
        paths = [os.path.join(src, x) for x in ["%d_t.mid" % n] + ["e%d/t.mid" % i for i in range(n)]]
        for i, p in enumerate(paths):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(ds.song(r))
        ctx.ev("made_up_names")
        kept_order = True
    elif r.random() < .1:
        paths.append(r.choice(paths))
        ctx.ev("file_listed_twice")
    if not kept_order:
        r.shuffle(paths)
    if r.random() < .3:
        refusals(ctx, d, src)
    raw = [open(p, "rb").read() for p in paths]
    root = os.path.join(d, "root")
    hist = []
    graphs = 0
    confs = set()
    keep_label = r.random() < .3
    single_out = r.random() < .2
    buckets = r.choice([8, 8, 3, 20])
    for step in range(r.randint(1, 4)):
        vel = r.random() < .3
        F = r.choice([12, 12, 12, 5, 40, 127, 128])
        per = r.random() < .55
        tol = r.choice([.2, .2, .2, .5, .03, .125, .3333])
        conf = (vel, F, tol)
        key = dict(tol=tol, buckets=buckets, per_track=per, velocity=vel, F=F, single_out=single_out, keep_label=keep_label)
        ctx.note(history=hist, now=key)
        try:
            pe, we, mid, end = ds.expected(paths, F, vel, single_out, not keep_label, tol, buckets)
        except Exception as e:
            raise Skip("no score: %s" % e)
        if not pe:
            raise Skip("no graph")
        if keep_label:
            ctx.ev("labels_kept")
        files = list(paths)
        kw = dict(midi_files=files, default_midi_loc=src, per_instrument_graph=per, feature_vec_size=F, include_velocity=vel,
                  filter_single_notes=single_out, remove_label=not keep_label, do_split_mask=r.random() < .6,
                  tolerance=tol, velocity_num_buckets=buckets, do_sanity_check=r.random() < .2)
        if step == 0 and r.random() < .1:
            ctx.ev("missing_files")
            ctx.raises(RuntimeError, lambda: MidiDataset(root, **dict(kw, midi_files=files + [os.path.join(src, "no.mid")])),
                       "a missing file is refused")
        special = .35 if crowd and not confs else r.random()
        if conf not in confs and special < .15:
            # the run is cut off while the results are saved
            real = torch.save
            n_calls = [0]
            cut_at = r.choice([1, 2])
            half = r.random() < .5

            def save(obj, path, *a, **k):
                if "processed" in str(path) and str(path).endswith(".pt") and ("per_instrument_" in str(path) or "data_vel" in str(path)):
                    n_calls[0] += 1
                    if n_calls[0] == cut_at:
                        if half:
                            real(obj, path, *a, **k)
                            size = os.path.getsize(path)
                            os.truncate(path, r.randint(0, size - 1))
                        raise OSError(5, "cut off")
                return real(obj, path, *a, **k)
            torch.save = save
            try:
                ctx.raises(OSError, lambda: MidiDataset(root, **kw), "an interrupted build does not pass for a dataset")
            finally:
                torch.save = real
            ctx.ev("interrupted")
            if half and cut_at == 2:
                try:
                    s = MidiDataset(root, **dict(kw, per_instrument_graph=False))
                except Exception:
                    ctx.ev("broken_file_refused")
                    return
                compare(ctx, s, we, end, "after an interrupted build", **key)
                return
            s = MidiDataset(root, **kw)
            ctx.ev("rebuilt_after_interrupt")
        elif conf not in confs and special < .3:
            # callables
            drop = r.choice([lambda x: x.x.shape[0] >= 3, lambda x: True, lambda x: x.edge_attr.sum() >= 4])
            pe2, we2 = [x for x in pe if drop(x)], [x for x in we if drop(x)]
            if not pe2 or not we2:
                raise Skip("everything filtered")
            off = r.choice([0.0, 1.0])

            fresh = r.random() < .5

            def pre(x):
                # in place, or a new graph
                if fresh:
                    x = x.clone()
                x.marked = torch.ones(x.x.shape[0]) * off
                return x
            calls = []

            def tr(x):
                calls.append(1)
                x = x.clone()
                x.x = x.x + 1000.0
                return x
            use_tr = r.random() < .5
            own = os.path.join(d, "own%d" % step)
            s = MidiDataset(own, pre_filter=drop, pre_transform=pre, transform=tr if use_tr else None, **kw)
            ctx.eq(len(s), len(pe2 if per else we2), "filtered graphs are left out, the others stay", **key)
            for i, e in enumerate(pe2 if per else we2):
                v, w = base_view(s[i]), base_view(e)
                ctx.eq(v.pop("marked")[2], [off] * e.x.shape[0], "the transform is applied before saving")
                if use_tr:
                    x = v.pop("x")
                    ctx.eq(x, view({} if False else tr(e))["x"], "the access transform is applied on access")
                    w.pop("x")
                    ctx.ev("transform_on_access")
                ctx.eq(v, w, "a graph that passed the filter", **key)
                ctx.eq(s.get_graph_id(), i, "the graph last taken")
            ctx.check(s.total_num_classes == len(s.index_to_hash) >= max(max(x.y.tolist()) for x in s), "classes of graphs left out count too")
            ctx.ev("filtered", len(pe) - len(pe2))
            ctx.ev("transformed", len(pe2))
            if use_tr:
                s2 = MidiDataset(own, **kw)
                ctx.eq([base_view(x)["x"] for x in s2], [base_view(e)["x"] for e in (pe2 if per else we2)], "the access transform is not saved")
            continue
        elif special < .4 and not confs:
            # paths relative to the working directory, the files are copied
            with ds.inside(src):
                kw["midi_files"] = [os.path.relpath(p, src) for p in paths]
                files = kw["midi_files"]
                kept = list(files)
                s = MidiDataset(root, **kw)
                ctx.eq(files, kept, "the list of files given stays as it was")
            ctx.ev("relative_paths")
            if len({os.path.basename(p) for p in paths}) < len(paths):
                ctx.ev("same_names_in_different_folders")
        elif special < .5 and not confs:
            names = [n for n in os.listdir(src) if n.endswith(".mid") and os.path.isfile(os.path.join(src, n))]
            online(ctx, d, src, names, kw, per, (F, vel, single_out, not keep_label, tol, buckets))
            continue
        else:
            s = MidiDataset(root, **kw)
        if kw["midi_files"] is files and len(files) == len(paths) and files and os.path.isabs(files[0]):
            ctx.eq(files, paths, "the list of files given stays as it was")
        ctx.ev("reloaded" if conf in confs else "built")
        if confs and conf not in confs:
            ctx.ev("second_configuration")
        confs.add(conf)
        compare(ctx, s, pe if per else we, end, "reloaded" if conf in [h[0] for h in hist] else "built", **key)
        hist.append((conf, per))
        ctx.ev("per_track_view" if per else "merged_view")
        graphs += len(s)
        ctx.eq([open(p, "rb").read() for p in paths], raw, "the MIDI files stay as they were")
        first = [view(x) for x in s]
        # once more, from the same folder
        how = r.random()
        if ctx.case < CHILDREN[ctx.tier] and os.path.isabs(kw["midi_files"][0]):
            in_other_process(ctx, root, paths, d, kw, s)
        elif how < .25:
            with ds.inside(d):
                again = MidiDataset("root", **dict(kw, midi_files=list(paths)))
        elif how < .5:
            rawdir = os.path.join(root, "raw")
            if os.path.isdir(rawdir) and os.listdir(rawdir):
                again = MidiDataset(root, **dict(kw, midi_files=None, default_midi_loc=rawdir))
                ctx.ev("folder_as_source")
            else:
                again = MidiDataset(root, **dict(kw, midi_files=list(paths)))
        else:
            again = MidiDataset(root, **dict(kw, midi_files=list(paths)))
        if ctx.case >= CHILDREN[ctx.tier] or not os.path.isabs(kw["midi_files"][0]):
            ctx.eq([view(x) for x in again], first, "reading the dataset again gives the same, masks included", **key)
            ctx.eq([again.hash_to_index, again.hash_to_notes], [s.hash_to_index, s.hash_to_notes], "the mappings read again")
            ctx.ev("reloaded")
        # the other view made in the same build
        o = MidiDataset(root, **dict(kw, midi_files=list(paths), per_instrument_graph=not per))
        compare(ctx, o, we if per else pe, end, "other view", **key)
        ctx.ev("per_track_view" if not per else "merged_view")
        if len(we) < len(paths):
            ctx.ev("files_without_graph")
    if graphs >= 2 and len(hist) >= 2:
        ctx.seen(raw, hist)
        ctx.show("%d files, history %s" % (len(paths), hist))
