import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    beh = c._printed(c.model("Quota", "Quota_mc.cfg", workers=1), "BEH")
    cases = ec.quota_cases(r, beh, c.pick(6, 60))
    for k in range(c.pick(1500, 15000)):
        t = r.random() < 0.2
        dist = r.random() < 0.4
        w = ec.world(r, temporal=t, kinds=("temporal",) if t else ("dense",), n=r.choice([None, 5, 9, 14]), maxdeg=r.choice([1, 2, 4]), load_all=dist, ntypes=r.choice([1, 3, 4]))
        if dist:
            w["servers"] = ec.split(r, w)
            w["threads"] = r.choice([1, 3])
        w["ops"] = [q for _ in range(2) for q in ec.gmany_op(r, w)]
        for q in w["ops"]:
            q["api"] = r.random() < 0.35
        if r.random() < 0.2:
            w["parallel"] = 4  # samplers are created and used by several threads
        w["apart"] = not any(q["api"] for q in w["ops"]) and r.random() < 0.4
        cases.append(w)
    ec.run(c, cases)


main("E06", run)
