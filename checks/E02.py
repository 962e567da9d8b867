import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    cases = ec.scan_cases(r, c._printed(c.model("FeatureScan", "FeatureScan_mc.cfg", workers=1), "BEH"), False)
    for k in range(c.pick(1500, 15000)):
        w = ec.world(r, parallel=False, temporal=False)
        w["ops"] = ec.feature_ops(r, w)
        w["kind"] = "random"
        ec.through_api(r, w)
        cases.append(w)
    ec.run(c, cases)


main("E02", run)
