"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V / "lib"), str(V / "checks"), "/repo/src"]
import vf
vf.import_hypothesis()
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not (V / "checks" / f"{pid.lower()}.py").exists():
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module(pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": f"bash run.sh {pid} --tier quick",
        "thorough_cmd": f"bash run.sh {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": m.TECHNIQUE,
        "level": getattr(m, "LEVEL", "exploration"),
        "level_note": m.LEVEL_NOTE,
    })
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks were added to /repo. Known findings and fixed defects: known_findings.json."}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "claimed,", [x["property"] for x in na])
