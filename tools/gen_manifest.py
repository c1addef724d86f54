"""Writes MANIFEST.json from what is there: one check per harness/cxx.py."""
import json
import os
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
PY = "/opt/venv/bin/python"
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"{PY} check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough {PY} check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p evidence replays && java -version >/dev/null 2>&1",
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. Every verdict is TLC's evaluation of an operator of /verif/spec on recorded behaviour of "
              "/repo; no hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
