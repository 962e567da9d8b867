import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import graphgen as gg
import convcases as cc


def run(c):
    out = c.model("MC_Vose", "Vose_mc.cfg", workers=1, name="Vose")
    r = c.rng
    cases = []
    # every weight vector of the model, as nodes and as edges
    vecs = list({json.dumps(b["w"]): b["w"] for b in c._printed(out, "BEH")}.values())
    for w in r.sample(vecs, min(len(vecs), c.pick(500, 5000))):
        ids = r.sample(range(30), len(w))
        g = [{"id": i, "type": 0, "weight": x / 4, "created": None, "removed": None, "feats": [],
              "edges": [{"dst": d, "type": 1, "weight": y / 4, "created": None, "removed": None, "feats": []} for d, y in zip(ids, w)] if i == ids[0] else []}
             for i, x in zip(ids, w)]
        cases.append(cc.case(g, "json", judge=["alias"], mode=r.choice(["writer", "pipe-thread"]), kind="model-vector"))
    for k in range(c.pick(400, 4000)):
        fmt = r.choice(["json", "json", "edgelist", "tsv"])
        wts = r.choice([cc.DYADIC, [1.0], [0.0, 1.0], [0.0, 0.5, 4096.0], [0.015625, 0.015625, 0.015625, 2048.0], [3.0, 1.0, 0.25], [2049.0, 1.0, 4095.0, 3001.0]])
        W = r.choice([1, 1, 1, 2, 3])
        P = r.choice([1, 1, 2, 3, 5])
        g = gg.graph(r, kinds=("none", "dense"), n=r.choice([0, 1, 3, 6, 12, 15]), maxdeg=r.choice([2, 6, 12]), weights=wts, ntypes=r.choice([1, 2, 4, 11]), etypes=r.choice([1, 2, 4, 11]))
        if r.random() < 0.4:
            g.sort(key=lambda n: n["type"], reverse=r.random() < 0.5)
        mode = "pipe-thread" if W > 1 else r.choice(["pipe-thread", "pipe-thread", "queue-thread", "writer", "debug"])
        skips = {} if mode == "debug" or r.random() < 0.8 else {"skip_node": r.random() < 0.6, "skip_edge": r.random() < 0.6}
        cases.append(cc.case(g, fmt, judge=["alias"], mode=mode, partitions=P, workers=W, nfiles=max(W, r.choice([1, 2])), folder=True, r=r,
                             seed=r.randint(0, 999), kind="merged" if W > 1 else mode, **skips))
    cc.run(c, cases, chunk=60)
    c.assumptions = ["weights are multiples of 1/64 with a positive sum per table; shares are compared to within one part in 262144 per row"]


main("C04", run)
