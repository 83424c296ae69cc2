"""Mutation runs over the repository, to find what the checks miss (development aid, registered nowhere).
usage: mutate.py REPO VERIF COV OUT [--files a.py,b.py] [--sample N] [--jobs J] [--seed S]
REPO is copied to scratch folders; COV has the lines each check executes (NGC_LINES)."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

repo, verif, cov, out = sys.argv[1:5]
opt = dict(zip(sys.argv[5::2], sys.argv[6::2]))
rng = random.Random(int(opt.get("--seed", 1)))
lines = {}
for f in sorted(os.listdir(cov)):
    for name, ls in json.load(open(os.path.join(cov, f))).items():
        for x in ls:
            lines.setdefault((name, x), []).append(f[:-5])
COST = {"C22": 40, "C21": 23, "C05": 18, "C19": 12, "C17": 12, "C01": 10, "C31": 10, "C07": 9, "C03": 9, "C04": 9}

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Div, ast.BitOr: ast.BitAnd,
       ast.BitAnd: ast.BitOr}


def mutants(src):
    """-> [(line, description, new source)]"""
    tree = ast.parse(src)
    res = []
    parent = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    L = src.split("\n")

    def seg_replace(node, text):
        l1, c1, l2, c2 = node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset
        b1 = len(L[l1].encode()[:c1].decode())
        b2 = len(L[l2].encode()[:c2].decode())
        new = L[:l1] + [L[l1][:b1] + text + L[l2][b2:]] + L[l2 + 1:]
        return "\n".join(new)

    def emit(node, new, what):
        try:
            t = seg_replace(node, new)
            ast.parse(t)
        except Exception:
            return
        res.append((node.lineno, what, t))

    def in_skip(n):
        while n in parent:
            p = parent[n]
            if isinstance(p, ast.Raise):
                return True
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and isinstance(p.func.value, ast.Name) and p.func.value.id in ("logging", "logger", "warnings"):
                return True
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "print":
                return True
            if isinstance(p, ast.FunctionDef) and (n in p.decorator_list or n is p.returns):
                return True
            if isinstance(p, (ast.arg, ast.JoinedStr, ast.AnnAssign)) and not (isinstance(p, ast.AnnAssign) and n is p.value):
                return True
            n = p
        return False

    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or in_skip(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in {CMP.get(type(n.ops[0]))} - {None}:
                m = copy.deepcopy(n)
                m.ops = [new()]
                emit(n, "(" + ast.unparse(m) + ")", "cmp %s" % new.__name__)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            emit(n, "(" + ast.unparse(m) + ")", "op %s" % type(m.op).__name__)
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            emit(n, "(" + ast.unparse(m) + ")", "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                emit(n, "(" + (ast.unparse(m) if len(m.values) > 1 else ast.unparse(m.values[0])) + ")", "drop operand %d" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, "(" + ast.unparse(n.operand) + ")", "drop not")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            emit(n, repr(n.value + 1), "const+1")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            emit(n, repr(not n.value), "flip")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n, ast.While):
            emit(n.test, "True", "if True")
            emit(n.test, "False", "if False")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            emit(n, "pass", "drop statement")
        elif isinstance(n, ast.Return) and n.value is not None:
            emit(n, "return None", "return None")
        elif isinstance(n, (ast.Break, ast.Continue)):
            emit(n, "pass", "drop jump")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "sorted", "int", "round", "abs", "float", "set", "list"):
            if n.func.id in ("min", "max"):
                m = copy.deepcopy(n)
                m.func.id = {"min": "max", "max": "min"}[n.func.id]
                emit(n, ast.unparse(m), "min/max")
            elif n.args:
                emit(n, "(" + ast.unparse(n.args[0]) + ")", "drop %s" % n.func.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "make_copy", "sort", "clone", "strip", "lower"):
            if n.func.attr == "deepcopy" and n.args:
                emit(n, "(" + ast.unparse(n.args[0]) + ")", "drop deepcopy")
            elif n.func.attr != "deepcopy":
                emit(n, "(" + ast.unparse(n.func.value) + ")", "drop .%s" % n.func.attr)
        if isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    emit(n, ast.unparse(m), "drop keyword %s" % k.arg)
    return res


todo = []
files = opt.get("--files")
files = files.split(",") if files else sorted({f for f, _ in lines})
for f in files:
    p = os.path.join(repo, "neural_graph_composer", f) if f != "ngc_shared.py" else os.path.join(repo, f)
    src = open(p).read()
    for line, what, new in mutants(src):
        checks = lines.get((f, line)) if f != "ngc_shared.py" else ["C31"]
        if checks:
            todo.append((f, line, what, new, sorted(checks, key=lambda c: COST.get(c, 4))))
rng.shuffle(todo)
print(len(todo), "mutants")
todo = todo[:int(opt.get("--sample", 100000))]
done = set()
if os.path.exists(out):
    for x in open(out):
        r = json.loads(x)
        done.add((r["file"], r["line"], r["what"], r.get("hash")))
lock = threading.Lock()
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def run_tests(d):
    t = tempfile.mkdtemp(prefix="mt")
    try:
        os.mkdir(t + "/tests")
        os.symlink(d + "/neural_graph_composer", t + "/neural_graph_composer")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d, MPLBACKEND="Agg")
        try:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + d, "--timeout=60", "--continue-on-collection-errors",
                            "--tb=no", "-W", "ignore", "--ignore=" + d + "/tests/test_midi_utils.py", "-o", "junit_family=xunit2", "--junitxml=" + t + "/j.xml", d + "/tests"],
                           cwd=t + "/tests", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            subprocess.run(["python3", "/opt/vp/results.py", t + "/o.json", "junit:" + t + "/j.xml"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ok = set(json.load(open(t + "/o.json"))["passed"])
            return not (set(base) - ok)
        except Exception:
            return False
    finally:
        shutil.rmtree(t)


def worker(k):
    d = tempfile.mkdtemp(prefix="mutant")
    r = os.path.join(d, "repo")
    shutil.copytree(repo, r, ignore=shutil.ignore_patterns(".git"))
    v = os.path.join(d, "verif")
    shutil.copytree(verif, v, ignore=shutil.ignore_patterns(".git", "seeded"))
    while True:
        with lock:
            if not todo or os.path.exists("/tmp/mutate.stop"):
                break
            f, line, what, new, checks = todo.pop()
        h = hash(new) & 0xffffffff
        import zlib
        h = zlib.crc32(new.encode())
        if (f, line, what, h) in done:
            continue
        p = os.path.join(r, "neural_graph_composer", f) if f != "ngc_shared.py" else os.path.join(r, f)
        old = open(p).read()
        open(p, "w").write(new)
        res = "survived"
        try:
            for c in checks:
                try:
                    q = subprocess.run(["./check", c, "quick"], cwd=v, env=dict(os.environ, NGC_REPO=r, NGC_FAST="0.08"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    if q.returncode != 0:
                        res = "%s rc%d" % (c, q.returncode)
                        break
                except subprocess.TimeoutExpired:
                    res = c + " timeout"
                    break
            if res == "survived" and not run_tests(r):
                res = "tests fail"
        finally:
            open(p, "w").write(old)
        a, b = old.split("\n"), new.split("\n")
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), line - 1)
        with lock:
            with open(out, "a") as o:
                o.write(json.dumps({"file": f, "line": line, "what": what, "hash": h, "res": res, "old": a[i].strip(), "new": b[i].strip(), "checks": checks}) + "\n")
    shutil.rmtree(d)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(opt.get("--jobs", 3)))]
[t.start() for t in ts]
[t.join() for t in ts]
