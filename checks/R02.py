import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

SAMPLERS = {"turns": ["nodes", "edges", "edges-features", "tuples", "tuples2"], "blocks": ["range", "range-edges"], "strides": ["csv"],
            "streams": ["text"], "draws": ["draw-nodes", "draw-edges"]}
ONEFILE = ("tuples", "tuples2", "csv")


def case(r, e, sampler, kind):
    x = dict(e, sampler=sampler, kind=kind, shuffle=False, seed=r.randint(0, 9999), files=0, uneven=False, via=r.choice(["direct", "direct", "dataset", "prefetch"]), buffer=0, given=False, left=r.choice([0, 0, 1, 2]))
    st = x["style"]
    if st == "turns":
        x["shuffle"] = r.random() < 0.4
        x["files"] = 1 if sampler in ONEFILE else r.randint(x["W"], max(x["W"], min(x["n"], 5)))
        x["uneven"] = x["files"] > 1 and r.random() < 0.5
    elif st == "streams":
        x["files"] = x["W"] * x["D"] + r.choice([0, 1])
        x["shuffle"], x["buffer"], x["uneven"] = r.random() < 0.4, r.choice([0, 5, 8, 11, 17, 100]), x["n"] >= x["files"] and r.random() < 0.5
    elif st == "strides":
        x["files"] = 1
    elif st == "draws":
        x["shuffle"], x["given"] = r.random() < 0.5, r.random() < 0.5
    if sampler == "range-edges":
        x["b"] *= 2
        if x["n"] <= (x["W"] - 1) * x["b"] * x["D"]:
            return None
    if sampler == "csv" and x["via"] == "prefetch":
        x["via"] = "dataset"
    return x


def run(c):
    r = c.rng
    envs = c._printed(c.model("Shards", "Shards_mc.cfg", workers=1), "BEH")
    c.model("Shards", "Shards_wide.cfg", name="Shards-wide", workers=8)
    cases = []
    for e in envs:
        for s in SAMPLERS[e["style"]]:
            if c.thorough or e["W"] * e["D"] > 1 or r.random() < 0.5:
                cases.append(case(r, e, s, "spec-configuration"))
        if e["style"] == "turns" and (c.thorough or r.random() < 0.3):
            cases.append(case(r, dict(e, style="streams"), "text", "spec-configuration"))
    for k in range(c.pick(900, 9000)):
        st = r.choice(["turns", "turns", "turns", "blocks", "blocks", "strides", "draws", "streams"])
        e = dict(style=st, n=r.choice([1, 2, 5, 9, 16, 17, 31, 40]), b=r.choice([1, 2, 3, 4, 5, 7, 16, 50]), W=r.choice([1, 1, 2, 3, 4]), D=r.choice([1, 2, 3, 4, 5]),
                 E=r.choice([1, 1, 2, 3]) if st != "blocks" else 1, drop=st in ("turns", "streams") and r.random() < 0.4)
        if st == "strides":
            e["W"] = 1
        if (st == "turns" and e["n"] < e["W"]) or (st == "blocks" and e["n"] <= (e["W"] - 1) * e["b"] * e["D"]):
            continue
        cases.append(case(r, e, r.choice(SAMPLERS[st]), "random"))
    cases = [x for x in cases if x]
    c.judge("J_Shards", c.drive("shards.py", cases), chunk=400)
    c.assumptions = ["every worker has at least one element (the samplers assert it)", "shuffling shards of one worker start from the same random state, as forked loaders do",
                     "range edges: only the ids used are claimed"]


main("R02", run)
