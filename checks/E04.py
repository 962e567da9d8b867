import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    beh = c._printed(c.model("Lookup", "Lookup_mc.cfg", workers=1), "BEH")
    cases = []
    for rev in (False, True):
        for nparts in (1, 2):
            cases += ec.lookup_cases(r, beh, False, nparts, rev, ops=("wsample", "usample"))
    for k in range(c.pick(1200, 12000)):
        w = ec.world(r, temporal=r.random() < 0.25, kinds=("dense",))
        w["ops"] = ec.sample_ops(r, w, ts=w["temporal"] and r.random() < 0.5)
        w["kind"] = "random"
        ec.through_api(r, w)
        cases.append(w)
    ec.run(c, cases)


main("E04", run)
