"""Writes MANIFEST.json from the checks that exist."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(V / "properties.jsonl")]
NOTES = json.loads((V / "tools/notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / f"harness/{i.lower()}.py").exists() and i in NOTES:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique="TLA+ specification checked with TLC; " + NOTES[i]["technique"],
                           level="model_checking", level_note=NOTES[i]["note"]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public API and user callables.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
