import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    beh = c._printed(c.model("Walk", "Walk_mc.cfg", workers=1), "BEH")
    c.model("Push", "Push_mc.cfg")
    cases = []
    # every graph of the walk model, four of them side by side
    graphs = [b["edges"] for b in beh]
    for k in range(0, len(graphs), 4):
        part = []
        for g, es in enumerate(graphs[k:k + 4]):
            for v in range(3):
                part.append({"id": 3 * g + v, "type": 0, "w64": 64, "feats": [],
                             "edges": [{"dst": 3 * g + b, "type": 0, "w64": 64, "created": 0, "removed": -1, "feats": []} for a, b in sorted(es) if a == v]})
        w = {"ids": list(range(7, 7 + len(part) + 1)), "parts": [part], "temporal": False, "storage": 0, "servers": [], "load": [0], "tbase": 0, "tscale": 1, "kind": "model-graphs"}
        q = {"nodes": list(range(len(part))), "etypes": [0], "ts": [], "dnode": -1}
        w["ops"] = [{**q, "op": "walk", "len": 5, "p": x, "q": y, "seed": r.randint(0, 2**40)} for x, y in ((1.0, 1.0), (0.1, 4.0), (8.0, 0.2))]
        w["ops"] += [{**q, "op": "ppr", "count": n, "alphaMilli": 500, "epsMicro": e, "dmicro": 0, "loose": False} for n, e in ((3, 250000), (2, 10000))]
        cases.append(w)
    for k in range(c.pick(1500, 20000)):
        t, dist = r.random() < 0.4, r.random() < 0.4
        w = ec.world(r, temporal=t, kinds=("temporal",) if t else ("dense",), n=r.choice([None, 3, 5, 7]), maxdeg=r.choice([1, 2, 4, 6]), zero=r.random() < 0.4, load_all=dist)
        if dist:
            w["servers"] = ec.split(r, w)
        w["ops"] = ec.walk_ops(r, w, 6, t)
        ec.through_api(r, w)
        for q in w["ops"]:
            if q["op"] == "ppr":
                q["loose"] = len(w["servers"]) > 1
        cases.append(w)
    ec.run(c, cases)


main("E09", run)
