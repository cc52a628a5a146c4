#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
L = "lib/go/src/thrift/"
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=[x if "/" in x else L + x for x in p["files"]],
                              mechanism=[dict(name=n, where=(w if "/" in w else L + w)) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        if p.get("state"):
            d["anchors"]["state"] = [dict(name=n, meaning=m, where=(w if "/" in w else L + w)) for n, m, w in p["state"]]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="./check.sh " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
                           level="other", level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="One analyzer (analyzer/, Go, vendored x/tools) loads /repo's current source, type-checks it, builds SSA and decides every property by abstract interpretation or structural rules; nothing of /repo is executed. known_findings.txt lists recorded defects and repaired ones.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

from how import HOW
import glob
out = open(os.path.join(root, "tools/design_head.md")).read()
out += "## Properties\n\n"
kf = [l.strip() for l in open(os.path.join(root, "known_findings.txt")) if l.strip() and not l.startswith("#")]
seeds = {}
for mf in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    meta = json.load(open(mf)); seeds.setdefault(meta["property"], []).append((os.path.basename(os.path.dirname(mf)), meta))
for p in PROPS:
    out += "### %s %s\n\n" % (p["id"], p["title"])
    if p.get("na"):
        out += "Not applicable: %s\n\n" % p["na"]; continue
    out += HOW[p["id"]] + "\n\n"
    x = p["note"].replace("N_AI", "")
    fx = [l.split(" ", 2)[2] for l in kf if l.startswith("fixed: property=%s " % p["id"])]
    if fx: out += "Defects repaired (commit, what failed): " + "; ".join(fx) + ".\n\n"
    fd = [l.split(" ", 2)[2] for l in kf if l.startswith("finding: property=%s " % p["id"])]
    if fd: out += "Known findings: " + "; ".join(fd) + ".\n\n"
    if seeds.get(p["id"]):
        out += "Planted bugs caught: " + "; ".join("%s (%s)" % (n, m["what_it_breaks"]) for n, m in seeds[p["id"]] if m.get("caught", True)) + ".\n\n"
        ms = [n for n, m in seeds[p["id"]] if not m.get("caught", True)]
        if ms: out += "Planted bugs not caught: " + ", ".join(ms) + ".\n\n"
tail = os.path.join(root, "tools/design_tail.md")
if os.path.exists(tail): out += open(tail).read()
open(os.path.join(root, "DESIGN.md"), "w").write(out)
