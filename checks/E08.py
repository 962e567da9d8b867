import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec

CODES = [14, 13, 4, 2, 1, 9]
POLICIES = [("0.1s", "1s", 2, 100, 1000), ("1s", "3s", 2, 1000, 3000), ("0.5s", "4s", 1.5, 500, 4000), ("2s", "60s", 3, 2000, 60000)]


def some_query(r, w, t):
    """One query of any kind that asks the servers."""
    ts = t and r.random() < 0.7
    f = r.choice([lambda: ec.topology_ops(r, w, 1, ts), lambda: ec.feature_ops(r, w, 1, t),
                  lambda: ec.sample_ops(r, w, 1, ts, kinds=("wsample", "usample") + (("lastn",) if ts else ()))])
    while True:
        q = f()[0]
        if q["op"] != "tcounts":
            return q


def run(c):
    r = c.rng
    beh = c._printed(c.model("Retry", "Retry_mc.cfg", workers=1), "BEH") + c._printed(c.model("Retry", "Retry_wide.cfg", workers=1, name="Retry wide"), "BEH")
    cases = []

    def base(n, attempts):
        t = r.random() < 0.3
        w = ec.world(r, temporal=t, nparts=n, load_all=True, parallel=False, kinds=("temporal",) if t else ("dense", "bin", "sparse"))
        w["servers"] = [[p] for p in range(n)]
        pol = r.choice(POLICIES)
        w.update(threads=r.choice([1, 2]), attempts=attempts, btext=list(pol[:3]), backoff=list(pol[3:]), steps=[], connect=[])
        return w

    # the behaviours of the model, several queries of one client after another
    for n, attempts in ((2, 3), (3, 2)):
        mine = [b for b in beh if max([s for s in b["order"]]) == n - 1]
        r.shuffle(mine)
        mine = mine[: c.pick(900, 6000)]
        for k in range(0, len(mine), 6):
            w = base(n, attempts)
            for b in mine[k:k + 6]:
                script = [[r.choice(CODES) if s in f else 0 for f in b["hist"]] for s in range(n)]
                w["steps"].append({"q": some_query(r, w, w["temporal"]), "script": script, "down": [False] * n, "order": b["order"], "many": False})
            w["kind"] = "model-failures"
            cases.append(w)
    # a failure reported while another server still has to answer
    for k in range(c.pick(80, 600)):
        n = r.choice([2, 3])
        w = base(n, 1)
        for _ in range(2):
            bad = r.randrange(n)
            w["steps"].append({"q": some_query(r, w, w["temporal"]), "script": [[r.choice(CODES)] if s == bad else [0] for s in range(n)], "down": [False] * n,
                               "order": [bad, -1], "hold": 0.12, "many": False})
            w["steps"].append({"q": some_query(r, w, w["temporal"]), "script": [[] for _ in range(n)], "down": [False] * n, "order": [], "many": False})
        w["kind"] = "late-replies"
        cases.append(w)
    # servers going away and coming back
    for k in range(c.pick(150, 1500)):
        n = r.choice([1, 2, 3])
        w = base(n, r.choice([1, 2]))
        for _ in range(5):
            w["steps"].append({"q": some_query(r, w, w["temporal"]), "script": [[] for _ in range(n)], "down": [r.random() < 0.3 for _ in range(n)], "order": [], "many": False})
        w["kind"] = "restarts"
        cases.append(w)
    # walks and page rank ask the servers several times; a failure at any of them ends the attempt
    for k in range(c.pick(150, 1500)):
        n = r.choice([1, 2, 3])
        w = base(n, 1)
        for _ in range(4):
            q = ec.walk_ops(r, w, 1, w["temporal"])[0]
            q["nodes"] = q["nodes"] or [0]
            q["ts"] = q["ts"] and [3] * len(q["nodes"])
            q["len"] = max(q.get("len", 1), 1)
            at = r.randrange(q["len"]) if q["op"] == "walk" else 0
            bad = r.choice([None] + list(range(n)))
            w["steps"].append({"q": q, "script": [[0] * at + [r.choice(CODES)] if s == bad else [] for s in range(n)], "down": [False] * n, "order": [], "many": True})
        w["kind"] = "many-calls"
        cases.append(w)
    for k in range(c.pick(60, 400)):
        n = r.choice([1, 2])
        w = base(n, r.choice([1, 3]))
        for _ in range(3):
            down = [r.random() < 0.4 for _ in range(n)]
            q = ec.walk_ops(r, w, 1, w["temporal"])[0]
            q["nodes"] = q["nodes"] or [0]
            q["ts"] = q["ts"] and [3] * len(q["nodes"])
            q["len"] = max(q.get("len", 1), 1)
            w["steps"].append({"q": q, "script": [[] for _ in range(n)], "down": down, "order": [], "many": True})
        w["kind"] = "many-calls-down"
        cases.append(w)
    # samplers of nodes and edges: made on every server, then drawn from those that have a share
    for k in range(c.pick(120, 1200)):
        n = r.choice([1, 2, 3])
        w = base(n, 1)
        for _ in range(4):
            q = ec.gmany_op(r, w, 1, calls=1)
            if q:
                w["steps"].append({"q": q[0], "script": [[r.choice([0, 0, 0, r.choice(CODES)]) for _ in range(2)] if r.random() < 0.5 else [] for s in range(n)], "down": [False] * n, "order": [], "many": True})
        w["kind"] = "samplers"
        cases.append(w)
    # connecting while servers are away
    for k in range(c.pick(40, 300)):
        n = r.choice([1, 2])
        w = base(n, 1)
        w["connect"] = [r.choice(CODES) for _ in range(r.randint(1, 2))]
        w["steps"].append({"q": some_query(r, w, w["temporal"]), "script": [[] for _ in range(n)], "down": [False] * n, "order": [], "many": False})
        w["kind"] = "connect"
        cases.append(w)
    for w in cases:  # some through the graph interface models use, or a copy of such a client
        w["copied"] = False
        if w["kind"] != "connect" and r.random() < 0.3:
            w["api"], w["copied"] = True, r.random() < 0.5
            for st in w["steps"]:
                st["q"] = dict(st["q"], api=False)
                if st["q"]["op"] == "types":
                    st["q"]["default"] = -1
    done = c.drive("faults.py", cases, lib=native_lib(), env={"MALLOC_PERTURB_": "165"})
    c.judge("J_Fault", done, chunk=20)


main("E08", run)
