"""Adds a "fixed" entry: fixed.py PROPERTY COMMIT-SUBJECT-PREFIX "what failed"."""
import json, subprocess, sys
prop, subject, what = sys.argv[1:4]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
h = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + subject)]
assert len(h) == 1, (subject, h)
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"property": prop, "status": "fixed", "commit": h[0], "text": f"fixed: property={prop} {h[0]} {what}"}) + "\n")
