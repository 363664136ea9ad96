"""Rewrites the generated parts of DESIGN.md: clause counts and costs (from evidence/) and the table of planted changes (from seeded/)."""
import json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()


def between(name, text):
    global s
    a, b = f"<!-- {name} -->", f"<!-- end {name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + text + "\n" + s[j:]


rows = ["| change | what it breaks | needs | reported by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
between("planted", "\n".join(rows))

rows = ["| check | clauses | functions analysed | seconds (quick, when last regenerated) |", "|---|---|---|---|"]
for k in range(1, 32):
    f = os.path.join(ROOT, "evidence", f"C{k:02d}.json")
    if os.path.exists(f):
        e = json.load(open(f))
        c = e["coverage"]
        rows.append(f"| C{k:02d} | {c['clauses_checked']} | {c['functions_analysed']} | {e['wall_s']:.0f} |")
between("costs", "\n".join(rows))
open(p, "w").write(s)
