import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import copy
import graphgen as gg
import convcases as cc


def spoil(r, g):
    """Make one edge live outside the life of its node; None when there is nothing to spoil."""
    g = copy.deepcopy(g)
    ok = [(n, e) for n in g for e in n["edges"] if (n["created"] or 0) > 0 or n["removed"] not in (None, -1)]
    if not ok:
        return None
    n, e = r.choice(ok)
    ways = []
    if (n["created"] or 0) > 0:
        ways += [("created", n["created"] - 1), ("created", 0)]
    if n["removed"] not in (None, -1):
        ways += [("removed", n["removed"] + 1), ("removed", -1), ("removed", n["removed"] + 2**33)]
    k, v = r.choice(ways)
    e[k] = v
    return g


def run(c):
    out = c.model("MC_Converter", "Converter_temporal.cfg", name="Converter temporal")
    r = c.rng
    behs = [b for b in c._printed(out, "BEH") if b]
    cases = []
    for h in r.sample(behs, min(len(behs), c.pick(900, 15000))):
        cases.append(cc.of_behaviour(h, r, watermark=r.choice([0, 9, 2**40])))
        # the same history with one more edge that the specification does not allow
        last = [x for x in h if x["k"] == "node"]
        if last and h[-1]["id"] == last[-1]["id"] and last[-1]["times"] != [0, -1] and len(cases) % 2:
            lo, hi = last[-1]["times"]
            bad = dict(h[-1], k="edge", dst="2", type=3, times=r.choice([[lo - 1, hi], [lo, -1], [lo, hi + 1]]), feats=[])
            x = cc.of_behaviour(h + [bad], r, watermark=9)
            # an edge between other sources makes a placeholder without a life of its own
            tail = h[h.index(last[-1]):]
            if all(t["id"] == last[-1]["id"] for t in tail):
                x.update(must_reject=True, may_reject=True, kind="behaviour/rejected")
                cases.append(x)
    cc.run(c, cases, chunk=150)
    cases = []
    for k in range(c.pick(500, 5000)):
        fmt = r.choice(["json", "json", "json", "edgelist"])
        wm = r.choice([0, 1, 99, 2**33 + 1, 2**62])
        g = gg.graph(r, kinds=("dense", "bin", "none", "sparse") if fmt == "edgelist" else ("dense", "bin", "none", "sparse", "temporal", "temporal-any"),
                     temporal=True, explicit_times=fmt == "edgelist")
        mode = r.choice(["debug", "pipe-thread", "queue-thread", "writer"])
        spoiled = spoil(r, g) if r.random() < 0.35 else None
        if spoiled is not None:
            cases.append(cc.case(spoiled, fmt, judge=["content"], mode=r.choice(["debug", "writer"]), watermark=wm, r=r, must_reject=True, may_reject=True, kind=fmt + "/rejected"))
        else:
            cases.append(cc.case(g, fmt, judge=["content"], mode=mode, partitions=r.choice([1, 1, 2, 10]), watermark=wm, r=r, seed=r.randint(0, 999), kind=fmt + "/temporal"))
    for k in range(c.pick(80, 400)):  # times without a watermark: nothing may be written for them
        g = gg.graph(r, kinds=("dense", "none"), temporal=True)
        cases.append(cc.case(g, "json", judge=["content"], mode=r.choice(["debug", "pipe-thread", "writer"]), partitions=r.choice([1, 11]), r=r, kind="json/no-watermark"))
    for k in range(c.pick(12, 40)):
        g = gg.graph(r, kinds=("dense",), temporal=True, n=3)
        cases.append(cc.case(g, "json", judge=["content"], mode="cli", partitions=r.choice([1, 2]), watermark=r.choice([None, 5]), r=r, kind="command line"))
    cc.run(c, cases, chunk=60)
    c.assumptions = ["a temporal feature's own removal time is not part of the stored format"]


main("C06", run)
