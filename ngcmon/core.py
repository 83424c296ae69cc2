"""Runner: drives one property's workload over the real code in forked workers,
collects what the monitors observed, decides the verdict, writes the evidence."""
import collections
import hashlib
import importlib
import io
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NGC_REPO", "/repo")
PKG = os.path.join(REPO, "neural_graph_composer") + os.sep

CASE_CPU_LIMIT = 60        # seconds of user CPU for one case (normal: < 1 s)
WORKER_AS_LIMIT = 12 << 30


class Violation(Exception):
    def __init__(self, what, **witness):
        super().__init__(what)
        self.what = what
        self.witness = witness


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the generated case does not satisfy the precondition"""


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Ctx:
    """Handed to every case: the monitor's recorder."""

    def __init__(self, prop, tier, seed, case, scratch):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        h = hashlib.sha256(("%s/%d/%d" % (prop, seed, case)).encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.np_seed = int.from_bytes(h[8:12], "big")
        self.scratch = scratch
        self.events = collections.Counter()
        self.keys = set()
        self.sample = None
        self.notes = {}
        self.violations = []

    # ---- recording -------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] += n

    def seen(self, *key):
        """the case reached a distinct, non trivial state"""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def show(self, text):
        self.sample = short(text, 900)

    def note(self, **kw):
        """context stored with a violation"""
        for k, v in kw.items():
            self.notes[k] = short(v, 6000)

    # ---- oracle ----------------------------------------------------
    def check(self, cond, what, **witness):
        self.events["oracle_checks"] += 1
        if not cond:
            raise Violation(what, **witness)

    def eq(self, got, want, what, **witness):
        self.events["oracle_checks"] += 1
        if not (got == want):
            raise Violation(what, got=short(got, 2500), want=short(want, 2500), **witness)

    def close(self, got, want, what, tol=1e-9, rel=1e-9, **witness):
        self.events["oracle_checks"] += 1
        if not (abs(float(got) - float(want)) <= tol + rel * abs(float(want))):
            raise Violation(what, got=repr(got), want=repr(want), **witness)

    def raises(self, exc, fn, what, **witness):
        """fn must raise one of exc"""
        self.events["oracle_checks"] += 1
        try:
            r = fn()
        except exc:
            self.events["refusals_seen"] += 1
            return
        except Exception as e:
            raise Violation(what + ": raised %s instead" % type(e).__name__, error=repr(e), **witness)
        raise Violation(what + ": accepted", result=short(r, 300), **witness)

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.scratch)


def _alarm(signum, frame):
    raise CaseTimeout()


def _install_coverage():
    """line coverage of the package through sys.monitoring (each line fires once)"""
    hit = collections.defaultdict(set)
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return hit
    tid = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tid, "ngcmon")
    except ValueError:
        return hit

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(PKG):
            hit[f[len(PKG):]].add(line)
        return mon.DISABLE

    mon.register_callback(tid, mon.events.LINE, on_line)
    mon.set_events(tid, mon.events.LINE)
    return hit


def run_one(mod, prop, tier, seed, case, scratch):
    """-> (ctx, status, info); status in ok|skip|violation|timeout|infra"""
    import numpy as np
    import torch
    ctx = Ctx(prop, tier, seed, case, scratch)
    random.seed(ctx.np_seed)
    np.random.seed(ctx.np_seed)
    torch.manual_seed(ctx.np_seed)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    status, info = "ok", None
    try:
        mod.case(ctx)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Skip as s:
        status, info = "skip", str(s)
    except Violation as v:
        status, info = "violation", {"what": v.what, "witness": {k: short(x, 4000) for k, x in v.witness.items()}}
    except CaseTimeout:
        status, info = "violation", {"what": "the case used more than %d s of CPU time and did not return" % CASE_CPU_LIMIT,
                                     "witness": {}}
    except MemoryError:
        status, info = "infra", "MemoryError\n" + traceback.format_exc()[-2000:]
    except OSError as e:
        tb = traceback.format_exc()
        if e.errno in (28, 24, 12):
            status, info = "infra", tb[-2000:]
        else:
            status, info = "violation", {"what": "raised %s" % type(e).__name__, "witness": {"traceback": tb[-3000:]}}
    except Exception as e:
        tb = traceback.format_exc()
        inrepo = PKG in tb
        what = ("the code raised %s on a valid input" if inrepo else
                "the observed value could not be read: %s") % type(e).__name__
        status, info = "violation", {"what": what, "witness": {"traceback": tb[-3500:]}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if info and status == "violation":
        info["notes"] = dict(ctx.notes)
    return ctx, status, info


def _worker(mod, prop, tier, seed, cases, wfd, scratch, deadline):
    out = {"events": collections.Counter(), "keys": set(), "samples": [], "viol": [], "infra": [],
           "done": 0, "skipped": 0, "lines": {}, "stopped": False}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_AS_LIMIT, WORKER_AS_LIMIT))
    except Exception:
        pass
    hit = _install_coverage()
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    if not os.environ.get("NGC_DEBUG"):
        sys.stderr = devnull
    for c in cases:
        if time.monotonic() > deadline:
            out["stopped"] = True
            break
        if FAST and os.path.exists(os.path.join(os.path.dirname(scratch), "stop")):
            break
        d = os.path.join(scratch, "c%d" % c)
        os.mkdir(d)
        ctx, status, info = run_one(mod, prop, tier, seed, c, d)
        if status == "violation" and not FAST:      # must reproduce from a clean start of the case
            d2 = os.path.join(scratch, "c%dr" % c)
            os.mkdir(d2)
            ctx2, status2, info2 = run_one(mod, prop, tier, seed, c, d2)
            shutil.rmtree(d2, ignore_errors=True)
            if status2 != "violation" and not getattr(mod, "STATEFUL", False):
                info["not_reproduced_in_same_process"] = True
        shutil.rmtree(d, ignore_errors=True)
        out["done"] += 1
        out["events"].update(ctx.events)
        out["keys"] |= ctx.keys
        if ctx.sample and len(out["samples"]) < 3:
            out["samples"].append({"case": c, "input": ctx.sample})
        if status == "skip":
            out["skipped"] += 1
        elif status == "violation":
            out["viol"].append((c, info))
            if FAST:
                open(os.path.join(os.path.dirname(scratch), "stop"), "w").close()
                break
            if len(out["viol"]) >= 3:
                break
        elif status == "infra":
            out["infra"].append((c, info))
            if len(out["infra"]) >= 3:
                break
    out["lines"] = {k: sorted(v) for k, v in hit.items()}
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def load_known(prop):
    """open findings are JSON lines {property, match, what}; lines "fixed: ..." suppress nothing"""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r.get("property") == prop:
                    res.append(r)
    return res


FAST = os.environ.get("NGC_FAST")     # mutation runs: a share of the cases, stop at the first violation


def run_property(prop, tier, seed, only_case=None, n_override=None):
    t0 = time.monotonic()
    mod = importlib.import_module("ngcmon.props." + prop.lower())
    n = mod.CASES[tier] if n_override is None else n_override
    if FAST:
        n = int(n * float(FAST))
    budget = (getattr(mod, "BUDGET", {"quick": 240, "thorough": 780}))[tier]
    deadline = t0 + budget
    jobs = getattr(mod, "JOBS", min(8, os.cpu_count() or 4))
    cases = list(range(n)) if only_case is None else [only_case]
    jobs = max(1, min(jobs, len(cases)))
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    scratch = tempfile.mkdtemp(prefix="ngcmon-")
    agg = {"events": collections.Counter(), "keys": set(), "samples": [], "viol": [], "infra": [],
           "done": 0, "skipped": 0, "lines": collections.defaultdict(set), "stopped": False}
    try:
        import torch
        torch.set_num_threads(1)
        procs = {}
        sys.stdout.flush()
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    sc = os.path.join(scratch, "w%d" % j)
                    os.mkdir(sc)
                    _worker(mod, prop, tier, seed, cases[j::jobs], w, sc, deadline)
                except BaseException:
                    try:
                        sys.__stderr__.write(traceback.format_exc())
                    except Exception:
                        pass
                    code = 3
                os._exit(code)
            os.close(w)
            procs[r] = [pid, io.BytesIO()]
        hard = deadline + CASE_CPU_LIMIT * 2 + 30
        lost = 0
        while procs:
            rl, _, _ = select.select(list(procs), [], [], 1.0)
            for fd in rl:
                b = os.read(fd, 1 << 20)
                if b:
                    procs[fd][1].write(b)
                    continue
                pid, buf = procs.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                try:
                    o = pickle.loads(buf.getvalue())
                except Exception:
                    lost += 1
                    continue
                agg["events"].update(o["events"])
                agg["keys"] |= o["keys"]
                agg["samples"] += o["samples"]
                agg["viol"] += o["viol"]
                agg["infra"] += o["infra"]
                agg["done"] += o["done"]
                agg["skipped"] += o["skipped"]
                agg["stopped"] |= o["stopped"]
                for k, v in o["lines"].items():
                    agg["lines"][k] |= set(v)
            if time.monotonic() > hard and procs:
                for fd, (pid, _) in procs.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    lost += 1
                procs = {}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    extra_viol = []
    if hasattr(mod, "finish") and only_case is None and not agg["viol"]:
        # whole-run conditions (e.g. both classes of outcome were observed); returns reasons for "inconclusive"
        extra_viol = mod.finish(agg) or []

    known = load_known(prop)
    viol, kf = [], []
    for c, info in sorted(agg["viol"], key=lambda x: x[0]):
        m = None
        for k in known:
            if k["match"] in json.dumps(info):
                m = k
                break
        (kf if m else viol).append((c, info, m))

    need = getattr(mod, "REQUIRED_EVENTS", []) if not FAST else []
    missing = [e for e in need if not agg["events"].get(e)] if only_case is None else []
    lines = {k: len(v) for k, v in sorted(agg["lines"].items())}
    if os.environ.get("NGC_LINES"):     # for tools/uncovered.py
        with open(os.path.join(os.environ["NGC_LINES"], prop + ".json"), "w") as f:
            json.dump({k: sorted(v) for k, v in agg["lines"].items()}, f)
    cov = {
        "evaluations": agg["events"].pop("evaluations", 0) or agg["done"],
        "distinct_nontrivial": len(agg["keys"]),
        "rule": mod.RULE,
        "samples": agg["samples"][:4] or [{"none": True}],
        "oracle_checks": agg["events"].get("oracle_checks", 0),
        "events_observed": {k: v for k, v in sorted(agg["events"].items())},
        "cases_planned": len(cases),
        "cases_skipped_by_precondition": agg["skipped"],
        "stopped_by_time_budget": agg["stopped"],
        "workers": jobs,
        "repo_lines_executed_by_file": lines,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol)}
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, os.path.join(evdir, prop + ".json"))

    for c, info, m in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, m["what"]))
    if viol:
        c, info, _ = viol[0]
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-seed%d-case%d.json" % (prop, seed, c))
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": c,
                       "replay": "VERIF_SEED=%d ./check %s %s --case %d" % (seed, prop, tier, c),
                       "violation": info,
                       "others": [{"case": cc, "what": ii["what"]} for cc, ii, _ in viol[1:]]}, f, indent=1, default=str)
        print("%s: %s" % (prop, info["what"]))
        for k, v in list(info.get("witness", {}).items())[:6]:
            print("   %s = %s" % (k, short(v, 1200)))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    problems = []
    if agg["infra"]:
        problems.append("infrastructure error in case %d: %s" % (agg["infra"][0][0], agg["infra"][0][1][-600:]))
    if lost:
        problems.append("%d worker(s) gave no result" % lost)
    if missing:
        problems.append("the monitor never observed: %s" % ", ".join(missing))
    problems += extra_viol
    if only_case is None and agg["done"] < max(1, len(cases) // 20):
        problems.append("only %d of %d cases ran" % (agg["done"], len(cases)))
    if problems:
        for p in problems:
            print("INCONCLUSIVE property=%s %s" % (prop, p))
        return 2
    print("%s %s seed=%d: held on %d executions, %d distinct non-trivial, %d oracle checks, %.1f s"
          % (prop, tier, seed, agg["done"], len(agg["keys"]), agg["events"].get("oracle_checks", 0), time.monotonic() - t0))
    return 0


def many(r, lo, hi, big, p=.04):
    """a number in lo..hi, now and then up to big"""
    return r.randint(hi, big) if r.random() < p else r.randint(lo, hi)
