#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property + findings + planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
exec(open(os.path.join(V, "tools", "props.txt")).read())
ORACLE = {}
exec(open(os.path.join(V, "tools", "oracles.txt")).read())
o = open(os.path.join(V, "tools", "design_head.md")).read()
o += "## The properties\n\n"
for p in P:
    s = open(os.path.join(V, "harness/src/%s.rs" % p["id"].lower())).read()
    o += "### %s %s\n\n" % (p["id"], p["title"])
    o += ORACLE.get(p["id"], p["note"]) + "\n\nQuantified over %s. Anchored in %s. Tests: %s.\n\n" % (p["all"], ", ".join("`%s`" % f for f in p["files"]), p["tests"])
    body = s[s.index("harnesses! {"):]
    for doc, name in re.findall(r"((?:^ *///.*\n)+) *fn (\w+)\(\)", body, re.M):
        t = [l.strip()[3:].strip() for l in doc.strip().split("\n")]
        text = " ".join(x for x in t if not x.startswith("@"))
        tag = [x for x in t if x.startswith(("@tier", "@known"))]
        o += "* `%s`%s: %s\n" % (name, " (%s)" % ", ".join(x[1:] for x in tag) if tag else "", text or "-")
    o += "\n"
o += open(os.path.join(V, "tools", "design_tail.md")).read()
o += "\n## Planted bugs (`seeded/`)\n\nEach compiles, passes the existing tests, and has a demonstration that fails with it only.\n\n"
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    o += "* `%s` (%s): %s Needs: %s Caught by: %s.\n" % (i, m["property"], m["what_it_breaks"], m["needs"], CAUGHT.get(i, m["property"]))
open(os.path.join(V, "DESIGN.md"), "w").write(o)
