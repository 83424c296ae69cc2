import contextlib
import copy
import io
import os
import sys
import types

from ..core import many

CASES = {"quick": 3800, "thorough": 82000}
RULE = ("Experiments over small data sets run generated histories: metrics reported epoch by epoch at generated saving rates, checkpoints of several models saved in "
        "any order and loaded into fresh experiments, splits, removal of nodes, plots. Non-trivial: every history; distinct by its events.")
REQUIRED_EVENTS = ["metrics_reported", "metric_files_read", "metrics_restored", "checkpoints_saved", "checkpoints_restored", "other_models", "no_checkpoint",
                   "models_saved", "splits", "nodes_removed", "edges_kept", "edges_dropped", "plots", "curves", "cleared", "refusals_seen", "unsaved_metrics", "loaded_over_a_used_one", "older_optimizer_states", "long_runs"]
ASSUMPTIONS = ["scikit-learn is not installed here and is replaced by a stand-in, as only the plot of embeddings uses it"]

TRAIN = ["losses", "f1s", "accs", "recalls", "precisions"]
VAL = ["accs", "f1s", "precisions", "recalls"]
TEST = ["accs", "f1s", "precisions", "recalls", "aps", "aucs"]
ALL = ["train_" + x for x in TRAIN] + ["val_" + x for x in VAL] + ["test_" + x for x in TEST]


def shared():
    if "sklearn" not in sys.modules:
        try:
            import sklearn.manifold
        except ImportError:
            m = types.ModuleType("sklearn.manifold")
            m.TSNE = object
            p = types.ModuleType("sklearn")
            p.manifold = m
            sys.modules["sklearn"], sys.modules["sklearn.manifold"] = p, m
    import matplotlib
    matplotlib.use("Agg")
    if os.environ.get("NGC_REPO", "/repo") not in sys.path:
        sys.path.insert(0, os.environ.get("NGC_REPO", "/repo"))
    import ngc_shared
    return ngc_shared


def prepare(tier):
    shared()


class Set(list):
    num_classes = 3

    def __init__(self, items, rng=None):
        list.__init__(self, items)
        self.rng = rng

    def shuffle(self):
        x = list(self)
        self.rng.shuffle(x)
        return Set(x, self.rng)


def lists(e):
    return {k: list(getattr(e, k)) for k in ALL}


def new(ctx, **kw):
    import random
    e = shared().Experiments(Set(range(5), random.Random(1)), **kw)
    return e


def report(ctx, e, model, where):
    """one reported set of metrics; model: name -> list"""
    r = ctx.rng

    def val():
        return r.choice([round(r.random(), 6), r.random(), r.random() * 1e-7, 0.0, 1.0])

    if where == "train":
        full = r.random() < .6
        v = {"loss_avg": val()}
        for k, a in (("train_f1", "f1s"), ("train_acc", "accs"), ("train_recall", "recalls"), ("train_precision", "precisions")):
            if full or r.random() < .5:
                v[k] = val()
                model["train_" + a].append(v[k])
        model["train_losses"].append(v["loss_avg"])
        if full and r.random() < .5:
            e.update_metrics(v["loss_avg"], v["train_f1"], v["train_acc"], v["train_recall"], v["train_precision"])
        else:
            e.update_metrics(**v)
    elif where == "val":
        v = [val() for _ in range(4)]
        for k, x in zip(VAL, v):
            model["val_" + k].append(x)
        e.update_val_metric(*v)
    else:
        names = [("test_acc", "accs"), ("test_f1", "f1s"), ("test_precision", "precisions"), ("test_recall", "recalls"), ("test_ap", "aps"), ("test_auc", "aucs")]
        k = r.choice([4, 6, 0])
        if k:
            v = [val() for _ in range(k)]
            for (_, a), x in zip(names, v):
                model["test_" + a].append(x)
            e.update_test_metric(*v)
        else:
            v = {n: val() for n, _ in r.sample(names, r.randint(0, 6))}
            for n, a in names:
                if n in v:
                    model["test_" + a].append(v[n])
            e.update_test_metric(**v)
    ctx.ev("metrics_reported")


KEYS = {"train": ["train_" + x for x in TRAIN], "val": ["val_" + x for x in VAL], "test": ["test_" + x for x in TEST]}
FILE = {"train": "train", "val": "validation", "test": "test"}


def metrics(ctx, base, e):
    """reports metrics over some epochs; -> lists now, lists as last saved"""
    import torch
    r = ctx.rng
    model = {k: [] for k in ALL}
    saved = {k: None for k in KEYS}
    hist = []
    rate = r.choice([1, 1, 2, 3, 100])
    on = r.random() < .85
    e.metrics_dir = os.path.join(base, *r.choice([("metric",), ("a", "b")]))
    e.metrics_rate, e.save_metrics = rate, on
    if r.random() < .3:
        os.makedirs(e.metrics_dir)
    first = r.choice([0, 0, 1, 7])
    ctx.note(model=e.model_type, rate=rate, save=on)
    n = r.choice([1, 3, 8]) if r.random() < .98 else r.randint(100, 2500)
    first = first if r.random() < .9 else r.choice([99, 999, 12000])
    ctx.ev("long_runs", int(n > 500))
    for ep in range(first, first + n):
        e.current_epoch = ep
        for where in r.sample(["train", "val", "test"], r.randint(1, 3)):
            report(ctx, e, model, where)
            if on and ep % rate == 0:
                saved[where] = {k: list(model[k]) for k in KEYS[where]}
            hist.append((ep, where))
        if n < 10 or r.random() < .02 or ep == first + n - 1:
            ctx.eq(lists(e), model, "every reported value is kept, in order", epoch=ep)
    for where, want in saved.items():
        path = os.path.join(e.metrics_dir, "%s_%s_metrics.pt" % (e.model_type, FILE[where]))
        ctx.eq(os.path.exists(path), want is not None, "%s metrics are saved at the epochs of the saving rate" % where)
        if want is None:
            ctx.ev("unsaved_metrics")
        else:
            got = torch.load(path, weights_only=False)
            ctx.eq({k: list(got.get(k, [None])) for k in want}, want, "the saved %s metrics are those reported until then" % where)
            ctx.ev("metric_files_read")
    ctx.seen(tuple(hist), rate, on, tuple(model["train_losses"]))
    return model, saved


ADAM = [True]


def net(ctx, torch, seed):
    torch.manual_seed(seed)
    m = torch.nn.Sequential(torch.nn.Linear(3, 4), torch.nn.BatchNorm1d(4), torch.nn.Linear(4, 2))
    lr = (.01, .02, .1)[seed % 3]
    o = torch.optim.Adam(m.parameters(), lr=lr) if ADAM[0] else torch.optim.SGD(m.parameters(), lr=lr, momentum=.9)
    return m, o


def step(torch, m, o, seed):
    torch.manual_seed(seed)
    o.zero_grad()
    m(torch.randn(6, 3)).square().sum().backward()
    o.step()


def flat(x):
    import torch
    if isinstance(x, torch.Tensor):
        return ("t", tuple(x.shape), tuple(map(repr, x.reshape(-1).tolist())))
    if isinstance(x, dict):
        return tuple((str(k), flat(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (list, tuple)):
        return tuple(flat(v) for v in x)
    return x


def checkpoints(ctx):
    import torch
    r = ctx.rng
    base = ctx.tmpdir()
    ADAM[0] = r.random() < .5
    out = os.path.join(base, *r.choice([("ck",), ("x", "ck")]))
    name = r.choice(["GCN3", "GAE_GCNEncoder", "m", "GAT[8]", "gcn*", "a?b", "with space", "v1.0", "\u00e9t\u00e9"])
    e = new(ctx, model_type=name)
    e.model, e.optimizer = net(ctx, torch, ctx.case)
    model, saved = {k: [] for k in ALL}, {k: None for k in KEYS}
    with_metrics = r.random() < .7
    if with_metrics:
        model, saved = metrics(ctx, base, e)
    else:
        e.metrics_dir = os.path.join(base, "none")
    others = [n for n in ("GCN", "GCN33", "GAE_GCNEncoder_2") if r.random() < .4]
    if r.random() < .15:   # many variants of one model
        others += [name + x for x in r.sample(["-%d" % i for i in range(20)] + [" 2", "!", "1", "8", "_train", "_test"], r.randint(8, 22))]
    for o in others:           # another model's files next to these
        ctx.ev("other_models")
        step(torch, e.model, e.optimizer, r.randint(0, 999))
        e.save_checkpoint(r.choice([500, 3]), e.optimizer.state_dict(), output_dir=out, model_name=o)
        if r.random() < .5:
            os.makedirs(e.metrics_dir, exist_ok=True)
            torch.save({k: [9.0] for k in ALL}, os.path.join(e.metrics_dir, "%s_%s_metrics.pt" % (o, r.choice(["train", "validation", "test"]))))
    want = {}
    eps = r.sample([0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 1000, 9999, 10000, 10001, 65536, 999999, 1000000, 10 ** 7], r.choice([0, 1, 2, 5]) if r.random() < .95 else r.randint(6, 19))
    for ep in eps:
        for _ in range(r.randint(1, 2)):
            step(torch, e.model, e.optimizer, r.randint(0, 999))
        if r.random() < .2:    # the state handed in is the one saved
            st = copy.deepcopy(e.optimizer.state_dict())
            step(torch, e.model, e.optimizer, 7)
            e.save_checkpoint(ep, st, output_dir=out, model_name=name)
            want[ep] = (flat(e.model.state_dict()), flat(st))
            ctx.ev("older_optimizer_states")
            continue
        e.save_checkpoint(ep, e.optimizer.state_dict(), output_dir=out, model_name=name)
        want[ep] = (flat(e.model.state_dict()), flat(e.optimizer.state_dict()))
        ctx.ev("checkpoints_saved")
        if r.random() < .2:    # saved once more
            step(torch, e.model, e.optimizer, 5)
            e.save_checkpoint(ep, e.optimizer.state_dict(), output_dir=out, model_name=name)
            want[ep] = (flat(e.model.state_dict()), flat(e.optimizer.state_dict()))
    ctx.note(model=name, epochs=eps, others=others)
    f = new(ctx, model_type=name)
    f.metrics_dir, f.save_metrics = e.metrics_dir, e.save_metrics
    f.model, f.optimizer = net(ctx, torch, ctx.case + 1)
    fresh = (flat(f.model.state_dict()), flat(f.optimizer.state_dict()))
    used = bool(eps) and r.random() < .3
    if used:             # one that went on before
        f.save_metrics = False
        m2 = {k: [] for k in ALL}
        for w in r.sample(["train", "val", "test"], 2):
            report(ctx, f, m2, w)
        f.start_epoch = f.current_epoch = r.choice([2000, 50, 10 ** 8])
        f.save_metrics = e.save_metrics
        ctx.ev("loaded_over_a_used_one")
    f.load_checkpoint(name, out)
    now = (flat(f.model.state_dict()), flat(f.optimizer.state_dict()))
    if not eps:
        ctx.check(now == fresh and f.start_epoch == 0 and f.current_epoch == 0 and lists(f) == {k: [] for k in ALL}, "without a checkpoint nothing is loaded")
        ctx.ev("no_checkpoint")
    else:
        top = max(eps)
        ctx.check(now == want[top], "the latest checkpoint is loaded: model and optimizer", loaded=[k for k, v in want.items() if v == now])
        ctx.eq((f.start_epoch, f.current_epoch), (top + 1, top + 1), "training goes on at the next epoch")
        ctx.ev("checkpoints_restored")
        exp = {k: [] for k in ALL}
        for where, s in saved.items():
            if s is not None:
                exp.update(s)
                ctx.ev("metrics_restored")
        if used:
            for where, s in saved.items():
                if s is not None:
                    ctx.eq({k: lists(f)[k] for k in s}, s, "saved metrics take the place of others")
        else:
            ctx.eq(lists(f), exp, "metrics come back as last saved")
        # what was loaded can go on
        step(torch, f.model, f.optimizer, 3)
        step(torch, e.model, e.optimizer, 4)
        if with_metrics and f.save_metrics:
            model = lists(f)
            report(ctx, f, model, r.choice(["train", "val", "test"]))
            ctx.eq(lists(f), model, "reported values follow the loaded ones")
    ctx.seen(name, tuple(eps), tuple(others))
    ctx.show("%s: checkpoints %s beside %s" % (name, eps, others))
    if r.random() < .4:
        e.save_model("best.pt", output_dir=os.path.join(out, "models"))
        got = torch.load(os.path.join(out, "models", "best.pt"), weights_only=False)
        ctx.check(flat(got) == flat(e.model.state_dict()), "a saved model is the model")
        step(torch, e.model, e.optimizer, 8)
        e.save_model("best.pt", output_dir=os.path.join(out, "models"))
        got = torch.load(os.path.join(out, "models", "best.pt"), weights_only=False)
        ctx.check(flat(got) == flat(e.model.state_dict()), "saving again replaces the model saved")
        ctx.ev("models_saved")


def only_metrics(ctx):
    r = ctx.rng
    e = new(ctx, model_type=r.choice(["GCN3", "x", ""]))
    metrics(ctx, ctx.tmpdir(), e)
    if r.random() < .5:
        e.clear_metric()
        ctx.eq(lists(e), {k: [] for k in ALL}, "cleared metrics are empty")
        model = {k: [] for k in ALL}
        e.save_metrics = False
        for w in ("train", "val", "test"):
            report(ctx, e, model, w)
        ctx.eq(lists(e), model, "each list is its own")
        ctx.ev("cleared")


def splits(ctx):
    import torch
    from torch_geometric.data import Data
    r = ctx.rng
    n = many(r, 1, 100, 3000, .06)
    e = new(ctx)
    if r.random() < .5:
        e.train_ration = r.choice([.8, .5, .1, .99])
    ds = Set([("g", i) for i in range(n)], r)
    e.split(ds)
    tr, te = [e.train_dataset[i] for i in range(len(e.train_dataset))], [e.test_dataset[i] for i in range(len(e.test_dataset))]
    ctx.eq(len(tr), int(n * e.train_ration), "size of the training part", n=n, ratio=e.train_ration)
    ctx.eq(sorted(tr + te), sorted(ds), "every item is in one part, once", n=n)
    ctx.raises(ValueError, lambda: e.split(None), "nothing to split")
    ctx.ev("splits")
    # removing nodes
    n = r.choice([1, 2, 5, 12, 30, 70]) if r.random() < .95 else r.randint(100, 700)
    m = r.choice([0, 1, 8, 60]) if r.random() < .95 else r.randint(200, 2000)
    x = torch.arange(n * 2, dtype=torch.float).reshape(n, 2)
    ei = torch.tensor([[r.randrange(n) for _ in range(m)], [r.randrange(n) for _ in range(m)]], dtype=torch.long).reshape(2, m)
    d = Data(x=x.clone(), edge_index=ei.clone())
    attrs = r.random() < .5
    if attrs:
        d.edge_attr = torch.arange(m, dtype=torch.float)
        d.y = torch.arange(n) * 10
    ratio = r.choice([0.0, .2, .2, .5, .99, 1.0])
    ctx.note(nodes=n, edges=ei.tolist(), ratio=ratio)
    kw = {} if ratio == .2 else {"remove_ratio": ratio}
    import numpy as np
    np.random.seed(r.randrange(2 ** 31))
    got = shared().Experiments.remove_nodes_and_edges(d, **kw)
    k = n - int(n * ratio)
    ctx.eq(len(got.x), k, "nodes left")
    old = [int(v[0]) // 2 for v in got.x]
    ctx.check(old == sorted(set(old)) and all(got.x[i].tolist() == x[o].tolist() for i, o in enumerate(old)), "nodes left are as they were, in order", returned=got.x)
    keep = set(old)
    left = [(j, a, b) for j, (a, b) in enumerate(zip(*ei.tolist())) if a in keep and b in keep]
    e2 = got.edge_index.tolist()
    ctx.check(all(0 <= v < k for row in e2 for v in row), "edges join nodes that are there", returned=e2, nodes=k)
    ctx.eq([(old[a], old[b]) for a, b in zip(*e2)], [(a, b) for _, a, b in left], "edges left are those between nodes left", kept=old)
    if attrs:
        ctx.eq(got.edge_attr.tolist(), [float(j) for j, _, _ in left], "edges keep their values")
        ctx.eq(got.y.tolist(), [o * 10 for o in old], "nodes keep their labels")
    ctx.ev("nodes_removed", n - k)
    ctx.ev("edges_kept", len(left))
    ctx.ev("edges_dropped", m - len(left))
    ctx.seen(n, ei.tolist(), ratio)
    ctx.raises(ValueError, lambda: shared().Experiments.remove_nodes_and_edges(None), "no graph")
    for kw in ({"epochs": None}, {"batch_size": None}):
        ctx.raises(ValueError, lambda: shared().Experiments(Set([1]), **kw), "missing settings are refused")
    for bad in (None, 5):
        ctx.raises(ValueError, lambda: shared().Experiments(bad), "no data set")
    for kw in ({"epochs": 0}, {"batch_size": 0}, {"epochs": 1.5}, {"batch_size": -1}):
        ctx.raises(AssertionError, lambda: shared().Experiments(Set([1]), **kw), "settings that make no sense are refused")


def plots(ctx):
    if ctx.case // 4 % 10:
        return splits(ctx)
    from matplotlib import pyplot as plt
    r = ctx.rng
    tf, vf = r.choice([1, 2, 10]), r.choice([1, 2, 5])
    e = new(ctx, model_type=r.choice(["GCN3", ""]), test_update_freq=tf, eval_update_freq=vf)
    e.save_metrics = False
    n = r.choice([1, 5, 20])
    full = r.random() < .6
    want = {}

    def put(attr, label, xs):
        ys = [round(r.random(), 4) for _ in xs]
        setattr(e, attr, ys)
        want[label] = (list(map(float, xs)), ys)

    put("train_losses", "train_loss", range(1, n + 1))
    if full:
        for a, l in (("train_f1s", "train_f1"), ("train_accs", "train_acc"), ("train_precisions", "train_precision"), ("train_recalls", "train_recall")):
            put(a, l, range(1, n + 1))
    if n // vf and r.random() < .7:
        for a, l in (("val_accs", "val_acc"), ("val_f1s", "val_f1"), ("val_precisions", "val_precision"), ("val_recalls", "val_recall")):
            put(a, l, range(vf, n + 1, vf))
    if n // tf and r.random() < .7:
        for a, l in (("test_accs", "test_acc"), ("test_f1s", "test_f1"), ("test_precisions", "test_precision"), ("test_recalls", "test_recall")):
            put(a, l, range(tf, n + 1, tf))
        if r.random() < .6:
            put("test_aucs", "test_auc", range(tf, n + 1, tf))
            put("test_aps", "test_ap", range(tf, n + 1, tf))
    out = os.path.join(ctx.tmpdir(), "p", "q")
    before = lists(e)
    plt.close("all")
    e.plot_metrics(output_dir=out, **({} if e.model_type else {"model_type": "other"}))
    ctx.eq(lists(e), before, "plotting changes nothing")
    got = {}
    for line in plt.gcf().axes[0].lines:
        ctx.check(line.get_label() not in got, "a curve is drawn once", label=line.get_label())
        got[line.get_label()] = (list(map(float, line.get_xdata())), list(line.get_ydata()))
    ctx.eq(got, want, "curves of the plot are the metrics at their epochs", test_freq=tf, val_freq=vf)
    ctx.eq(os.listdir(out), ["%s_metrics.png" % (e.model_type or "other")], "the plot is saved")
    plt.close("all")
    ctx.ev("plots")
    ctx.ev("curves", len(want))
    ctx.seen(n, tf, vf, sorted(want))


def case(ctx):
    import warnings
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (checkpoints, only_metrics, splits, plots)[ctx.case % 4](ctx)
