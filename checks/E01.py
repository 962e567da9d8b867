import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    cases = []
    # every stored/requested combination of edge types of the model, in one partition, spread over two, and in two pieces
    beh = c._printed(c.model("Lookup", "Lookup_mc.cfg", workers=1), "BEH")
    for rev in (False, True):
        for temporal in (False, True):
            for nparts in (1, 2):
                cases += ec.lookup_cases(r, beh, temporal, nparts, rev)
    for k in range(c.pick(1200, 12000)):
        many = {"nparts": 12, "n": 14} if r.random() < 0.03 else {}
        w = ec.world(r, temporal=r.random() < 0.25, kinds=("dense", "bin"), ntypes=r.choice([1, 3, 3, 7]), **many)
        w["ops"] = ec.topology_ops(r, w)
        w["kind"] = "random"
        ec.through_api(r, w)
        cases.append(w)
    ec.run(c, cases)


main("E01", run)
