import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    beh = c._printed(c.model("Merge", "Merge_mc.cfg", workers=1), "BEH")
    cases = []
    for temporal in (False, True):
        cases += ec.merge_cases(beh, temporal, r)
    for k in range(c.pick(1500, 15000)):
        t = r.random() < 0.3
        many = r.random() < 0.02
        w = ec.world(r, temporal=t, nparts=12 if many else r.choice([2, 3, 3, 4]), n=14 if many else None, load_all=True, parallel=False, kinds=("temporal",) if t else ("dense", "bin", "sparse"))
        w["servers"] = ec.split(r, w)
        n = len(w["servers"])
        w["threads"], w["cqs"] = r.choice([1, 1, 2, 4]), r.choice([1, 2])
        ts = t and r.random() < 0.7
        w["ops"] = ec.topology_ops(r, w, 4, ts) + ec.feature_ops(r, w, 4, t) + ec.sample_ops(r, w, 4, ts, kinds=("wsample", "usample", "usample") + (("lastn",) if ts else ()))
        r.shuffle(w["ops"])
        for q in w["ops"]:
            q["order"] = r.sample(range(n), n)
        if r.random() < 0.3:
            w["parallel"] = r.choice([2, 4])
        w["kind"] = "random"
        ec.through_api(r, w)
        cases.append(w)
    for k in range(c.pick(150, 1500)):  # the latest neighbours of nodes whose edges are everywhere
        w = ec.world(r, temporal=True, nparts=r.choice([2, 3]), n=r.choice([2, 3, 4]), maxdeg=9, load_all=True, parallel=False, kinds=("temporal",), spread=1.0)
        w["servers"] = ec.split(r, w)
        w["threads"], w["cqs"] = 1, 1
        w["ops"] = ec.sample_ops(r, w, 8, True, kinds=("lastn",))
        for q in w["ops"]:
            q["order"] = r.sample(range(len(w["servers"])), len(w["servers"]))
        w["kind"] = "random"
        ec.through_api(r, w)
        cases.append(w)
    ec.run(c, cases)


main("E07", run)
