#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, text, why, files, mech, tech, note, over=("inputs",), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=files, mech=mech, tech=tech, note=note, observe=list(observe)))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

COMMON = ("Says nothing about inputs that were not run. Trusts the oracle (written from the definition, shares no code with the library), "
          "double rounding within the stated tolerances, and that the harness build (debug assertions and overflow checks on) behaves like the user's.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./check.sh setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["tech"], "level": "exploration",
            "level_note": p["note"] + " " + COMMON,
        } for p in P],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: every property is observed at the public API and in the files the library writes. "
                 "Known and repaired defects are in known_findings.txt, the rationale in DESIGN.md.",
    }, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties")
