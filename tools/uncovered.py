"""lines of the package no check has executed: NGC_LINES=DIR ./check ... (each), then tools/uncovered.py DIR REPO"""
import ast
import glob
import json
import os
import sys
d, repo = sys.argv[1:3]
pkg = os.path.join(repo, "neural_graph_composer")
hit = {}
for f in glob.glob(d + "/*.json"):
    for k, v in json.load(open(f)).items():
        hit.setdefault(k.lstrip("/"), set()).update(v)


def code_lines(co):
    yield from ((co, ln) for _, _, ln in co.co_lines() if ln)
    for c in co.co_consts:
        if hasattr(c, "co_code"):
            yield from code_lines(c)


for root, _, fs in sorted(os.walk(pkg)):
    for f in sorted(fs):
        if not f.endswith(".py") or "test" in root:
            continue
        p = os.path.join(root, f)
        rel = os.path.relpath(p, pkg)
        by = {}
        co = compile(open(p).read(), p, "exec")
        for c, ln in code_lines(co):
            if c.co_name == "<module>" or ln == c.co_firstlineno:
                continue
            by.setdefault((c.co_firstlineno, c.co_qualname), set()).add(ln)
        print("==", rel)
        for (l0, q), lns in sorted(by.items()):
            miss = lns - hit.get(rel, set())
            if "<genexpr>" in q or "<listcomp>" in q or "<lambda>" in q:
                continue
            if miss == lns:
                print("  %s:%d none of %d" % (q, l0, len(lns)))
            elif miss:
                print("  %s:%d misses %s" % (q, l0, sorted(miss)))
