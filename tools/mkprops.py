#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so that they stay in step."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, note=note, na=na))
exec(open(os.path.join(ROOT, "tools", "props.table.py")).read())

TECH = "explicit exhaustive enumeration of bounded executions of the real crate (stateless model checking), "
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                        "mechanism": [dict(name=n, where=w) for n, w in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
claimed = os.environ.get("CLAIM", "").split(",") if os.environ.get("CLAIM") else [p["id"] for p in P if not p["na"]]
checks, na = [], []
for p in P:
    if p["id"] in claimed:
        checks.append({"property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + p["note"][0],
            "level": "model_checking",
            "level_note": p["note"][1]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "the check is still being built"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the harness in harness/ uses only the crate's public API, through a path dependency on /repo. Every check rebuilds the crate and the harness from the working tree. Replay a counterexample with: target/release/tsmc replay <path>. Known findings and repaired defects are in known-findings.txt."},
  open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
