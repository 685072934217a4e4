#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.

python3 tools/meta.py      (run after editing the table below)
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, quant, tests, files, mech, note, technique, level="model_checking", observe=None, state=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                  note=note, technique=technique, level=level, observe=observe or [], state=state or [], claimed=claimed, na=na))

ENUM = "stateless bounded model checking of the real parser: exhaustive enumeration of "
ORC_ST = "Trusts go/format, go/parser and go/scanner of the installed toolchain, and the 200-line reference lexer, which every program execution re-validates against go/scanner. "

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for p in P:
    if not p["claimed"]:
        na.append({"property": p["id"], "reason": p["na"] or "the check is not finished"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash run.sh %s quick" % p["id"],
        "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the explorer links the real packages through a replace directive; where a check needs control inside the code (map order, schedules) it builds a scratch copy of the current working tree through go build -overlay. `bash run.sh replay FILE` re-runs a reported violation."},
              f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json")); m = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))), m)
    print("valid;", len(P), "properties,", len(checks), "claimed")
except ImportError:
    print("written (not validated: no jsonschema)")
