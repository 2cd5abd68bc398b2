#!/usr/bin/env python3
"""Refreshes the two generated tables of DESIGN.md (repairs, planted changes)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()

fixed = ["| property | commit | what failed |", "|---|---|---|"]
for line in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        fixed.append("| %s | %s | %s |" % m.groups())
caught = {}
c = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(c):
    caught = json.load(open(c))
seeds = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
    seeds.append("| %s | %s: %s | %s | %s |" % (i, m["property"], esc(m["what_it_breaks"]), esc(m["needs"]), caught.get(i, m["property"])))

def put(t, name, rows):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + "\n".join(rows) + "\n" + t[j:]

t = put(t, "fixed", fixed)
t = put(t, "seeds", seeds)
open(p, "w").write(t)
