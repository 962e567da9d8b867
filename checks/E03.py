import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def run(c):
    r = c.rng
    cases = ec.snapshot_cases(r, c._printed(c.model("Snapshot", "Snapshot_mc.cfg", workers=1), "BEH"))
    cases += ec.scan_cases(r, c._printed(c.model("FeatureScan", "FeatureScan_temporal.cfg", workers=1, name="FeatureScan temporal"), "BEH"), True, limit=c.pick(120, None))
    for k in range(c.pick(900, 9000)):
        w = ec.world(r, temporal=True, kinds=("temporal",), parallel=False)
        w["ops"] = ec.topology_ops(r, w, 3, ts=True) + ec.feature_ops(r, w, 4, ts=True) + ec.sample_ops(r, w, 4, ts=True, kinds=("lastn", "lastn", "wsample", "usample", "usample"))
        w["kind"] = "random"
        ec.through_api(r, w)
        cases.append(w)
    # plain values in a temporal graph, which are valid during the whole life of their owner
    val = {"k": "dense", "vals": [list((v).to_bytes(4, "little")) for v in (1, 0, 0, 0, 0, 0, 0, 7)]}
    edge = {"dst": 0, "type": 0, "w64": 64, "created": 0, "removed": -1, "feats": [val]}
    for q in ({"op": "nfeat", "nodes": [0]}, {"op": "efeat", "src": [0], "dst": [0], "etype": [0]}):
        cases.append({"ids": [5], "parts": [[{"id": 0, "type": 0, "w64": 64, "feats": [val], "edges": [edge]}]], "temporal": True, "storage": 0, "servers": [], "load": [0],
                      "tbase": 0, "tscale": 1, "ops": [{**q, "ts": [3], "dtype": "int32", "feats": [[0, 8]]}], "kind": "plain-value", "sig": "plain-value-at-time"})
    ec.run(c, cases)


main("E03", run)
