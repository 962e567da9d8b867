import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def case(r, b):
    w = ec.world(r, temporal=b["temporal"], nparts=len(b["parts"]), kinds=("temporal",) if b["temporal"] else ("dense", "bin", "sparse"), n=r.choice([1, 2, 4, 6, 9]),
                 parallel=False, load_all=True)
    if not b["features"]:
        for p in w["parts"]:
            for e in p:
                e["feats"] = []
                for x in e["edges"]:
                    x["feats"] = []
        w["_nsch"], w["_esch"] = [], []
    w["at"] = {"meta": b["meta"], "parts": b["parts"]}
    wanted = sorted(b["wanted"])
    r.shuffle(wanted)
    w["load"] = wanted
    if len(wanted) == len(b["parts"]) and r.random() < 0.4:
        w["servers"] = ec.split(r, w)
    ts = b["temporal"]
    w["ops"] = ec.topology_ops(r, w, 3, ts=ts) + ec.sample_ops(r, w, 2, ts=ts)
    if b["features"]:
        w["ops"] += ec.feature_ops(r, w, 3, ts=ts)
    w["ops"] += ec.gmany_op(r, w, 2)
    for q in w["ops"]:
        if q["op"] == "gmany":
            q["api"] = False
    w["kind"] = "meta-%s parts-%s%s" % (b["meta"], "".join(sorted(set(b["parts"]))), " temporal" if ts else "")
    return w


def run(c):
    r = c.rng
    beh = c._printed(c.model("Download", "Download_mc.cfg", workers=1), "BEH")
    c.model("Download", "Download_wide.cfg", name="Download-wide", workers=8)
    for bad in ("last", "meta", "stamps"):
        c.model("Download", "Download_%s.cfg" % bad, name="Download-" + bad, expect_violation="Complete")
    cases = [case(r, b) for b in beh for _ in range(c.pick(1, 6))]
    for _ in range(c.pick(150, 3000)):  # more partitions, two digit numbers
        n = r.choice([3, 4, 5, 12])
        cases.append(case(r, {"meta": r.choice("lab"), "parts": [r.choice("lmab") for _ in range(n)], "wanted": r.sample(range(n), r.randint(1, n)) if r.random() < 0.5 else range(n),
                              "temporal": r.random() < 0.5, "features": r.random() < 0.7}))
    r.shuffle(cases)
    ec.run(c, cases, driver="download.py", module="J_Download")
    c.assumptions = ["other filesystems are fsspec's in-memory store and a second one like it", "hdfs streaming is not exercised: no libhdfs here"]


main("D01", run)
