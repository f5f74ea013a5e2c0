#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

A property is claimed when a check with its id is registered in mc/*.go."""
import json, os, re, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "exhaustive bounded enumeration on the real code, compared with an executable reference model on every case"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None, tech=TECH, note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, tech, note))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

claimed = set()
for f in glob.glob(os.path.join(HERE, "mc", "*.go")):
    claimed |= set(re.findall(r'ID:\s+"([A-Z][0-9]{2,3})"', open(f).read()))

with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
    for p, _, _ in P:
        out.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
na = []
for p, tech, note in P:
    if p["id"] not in claimed:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": tech,
        "level": "model_checking",
        "level_note": note or "Holds for every case inside the stated bounds (see evidence: bounds, exhaustive). Trusts the reference model in mc/ and the Go toolchain; says nothing about cases outside the bounds.",
    })
missing = claimed - {p["id"] for p, _, _ in P}
assert not missing, missing
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
