#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (keeps both in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AS = "account_storage/src/inmemory_account_store.rs"
PROPS, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

def check(id, technique, note):
    CHECKS.append({"property": id, "quick_cmd": f"./run.sh {id}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {id}",
                   "technique": technique, "level": "exploration", "level_note": note})

def na(id, reason):
    NA.append({"property": id, "reason": reason})

exec(open(os.path.join(ROOT, "spec", "table.py")).read())

ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
covered = {c["property"] for c in CHECKS} | {n["property"] for n in NA}
assert covered == set(ids), covered ^ set(ids)
assert not ({c["property"] for c in CHECKS} & {n["property"] for n in NA})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": CHECKS, "not_applicable": NA,
     "notes": "No hooks in /repo: delays and faults are injected through trait objects the code under test accepts. "
              "Exit 2 means the monitors could not decide (workload never reached what the property needs)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
