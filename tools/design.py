#!/usr/bin/env python3
"""Fills in the generated tables of DESIGN.md: scenarios (from the evidence of the last run of
each check), planted bugs (from seeded/*/meta.json) and repaired defects (from
known_findings.json)."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def scenarios(pid):
    try:
        d = json.load(open(f"{V}/evidence/{pid}.json"))
    except OSError:
        return "(no evidence yet)"
    rows = ["| scenario | explored | executions | distinct states | s |", "|---|---|---:|---:|---:|"]
    for s in d["coverage"]["scenarios"]:
        b = "" if s["build"] == "rf" else f" [{s['build']} build]"
        rows.append(f"| `{s['name']}`{b} | {s['bound']} | {s['executions']} | {s['states']} | {s['wall_s']:.0f} |")
    return "\n".join(rows)


def seeds():
    rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
    caught = {}
    try:
        caught = json.load(open(f"{V}/tools/caught.json"))
    except OSError:
        pass
    for p in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        i = os.path.basename(os.path.dirname(p))
        m = json.load(open(p))
        c = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
        rows.append(f"| {i} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {c(caught.get(i, m['property']))} |")
    return "\n".join(rows)


def fixes():
    d = json.load(open(f"{V}/known_findings.json"))
    d = d["findings"] if isinstance(d, dict) else d
    by = {}
    for e in d:
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", e.get("entry", ""))
        if m:
            by.setdefault(m[1], []).append(f"`{m[2]}` {m[3]}")
    return "\n".join(f"* **{k}**: " + "; ".join(v) + "." for k, v in sorted(by.items()))


s = open(f"{V}/DESIGN.md").read()


def fill(m):
    k = m[1]
    body = seeds() if k == "seeds" else fixes() if k == "fixes" else scenarios(k)
    return f"<!-- begin {k} -->\n{body}\n<!-- end {k} -->"


s = re.sub(r"<!-- begin (\w+) -->.*?<!-- end \1 -->", fill, s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
