"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(V + "/seeded"):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s |" % (m["property"], i, m["needs"].replace("|", "/").replace("\n", " ")))
s = open(V + "/DESIGN.md").read()
head = "| property | planted change | needs |\n|---|---|---|\n"
a = s.index(head) + len(head)
b = a
while s[b] == "|":
    b = s.index("\n", b) + 1
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(sorted(rows)) + "\n" + s[b:])
