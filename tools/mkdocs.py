"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks, na = [], [], []
for p in PROPS:
    pid = p["id"]
    lines.append({"id": pid, "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    assert len(p["title"]) <= 80, pid
    cmd = "PYTHONHASHSEED=0 python3 -m qstatic.run %s" % pid
    if os.path.exists(os.path.join(V, "qstatic", "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough", "technique": p["technique"],
                       "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": pid, "reason": p.get("na") or "check not finished yet"})
for pid, title, statement, reason, files in NA:
    lines.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": ["inputs"], "text": "every signal and parameter value"},
                  "why_tests_cant": "tests sample a few seeds and tolerances; the property is numerical",
                  "anchors": {"files": files, "mechanism": []}})
    na.append({"property": pid, "reason": reason})
lines.sort(key=lambda l: l["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for l in lines:
        fh.write(json.dumps(l) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m compileall -q qstatic", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")

import ast
import re


def explanation(pid):
    t = ast.parse(open(os.path.join(V, "qstatic", "checks", pid.lower() + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "EXPLANATION":
            return re.sub(r"\s+", " ", ast.literal_eval(n.value))


H = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(H, "design_head.md")).read()]
for p in sorted(PROPS, key=lambda p: p["id"]):
    pid = p["id"]
    out.append("### %s %s\n" % (pid, p["title"]))
    if pid not in {c["property"] for c in checks}:
        out.append("Not claimed: %s.\n" % (p.get("na") or "check not finished yet"))
        continue
    out.append("*Decided by*: %s.  %s\n" % (p["technique"], explanation(pid)))
    out.append("*Quantified over*: %s.  *Why tests cannot*: %s.\n" % (p["quant"], p["tests"]))
    if p["note"] != out and not p["note"].startswith("Abstract interpretation of the current source (own"):
        out.append("*Limits*: %s\n" % p["note"])
    if p.get("cost"):
        out.append("*Cost*: %s\n" % p["cost"])
out.append("## Not applicable\n")
for pid, title, statement, reason, files in NA:
    out.append("* %s %s: %s.\n" % (pid, title, reason))
tail = open(os.path.join(H, "design_tail.md")).read()
caught = json.load(open(os.path.join(H, "caught.json"))) if os.path.exists(os.path.join(H, "caught.json")) else {}
rows = []
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    if not os.path.exists(os.path.join(S, d, "meta.json")):
        continue
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").strip(), caught.get(d, "")))
tail = tail.replace("SEEDTABLE", "| bug | property | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows))
out.append(tail)
with open(os.path.join(V, "DESIGN.md"), "w") as fh:
    fh.write("\n".join(out))
