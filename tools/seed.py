"""Planted bugs: make(...) writes one under seeded/, `seed.py test ID...` confirms it and runs its check, `seed.py all`."""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    return not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout.strip()


def make(id, prop, needs, breaks, edits, demo, files=()):
    assert clean(), "dirty /repo"
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = f"{R}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
    finally:
        sh(f"git -C {R} checkout -- .")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if not demo.startswith("#!"):
        open(d + "/demo.py", "w").write(demo)
        demo = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src/python exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in files:
        open(f"{d}/{n}", "w").write(t)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open("/tmp/seed_o.json"))
    return [t for t in b if t not in set(o["passed"])]


def test(id, full=True, check=True):
    d = f"{V}/seeded/{id}"
    m = json.load(open(d + "/meta.json"))
    assert clean(), "dirty /repo"
    res = {}
    if full:
        res["demo_clean"] = sh(f"bash {d}/demo.sh", cwd=R).returncode
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode:
        return {"apply": a.stderr}
    try:
        if full:
            sh("bash /opt/vp/build.sh")
            res["demo_bug"] = sh(f"bash {d}/demo.sh", cwd=R).returncode
            sh("bash /opt/vp/test.sh /tmp/seed_o.json")
            res["tests_lost"] = stable()
        if check:
            c = sh(f"python3 {V}/checks/{m['property']}.py quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            res["check"] = (c.returncode, [l[:200] for l in c.stdout.splitlines() if "VIOLATION" in l][:3], c.stderr[-300:] if c.returncode not in (0, 1) else "")
    finally:
        sh(f"git -C {R} checkout -- .")
        if full:
            sh("bash /opt/vp/build.sh")
    return res


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*"))
    for i in ids:
        r = test(i, full=sys.argv[1] == "test")
        good = (not r.get("tests_lost") and r.get("demo_clean", 0) == 0 and r.get("demo_bug", 1) != 0)
        print(i, "OK" if good else "BAD", "caught" if r.get("check", [0])[0] == 1 else "MISSED", r, flush=True)
