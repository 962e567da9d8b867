import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import graphgen as gg
import convcases as cc


def run(c):
    c.model("MetaMerge", "MetaMerge_mc.cfg")
    r = c.rng
    cases = []
    for k in range(c.pick(600, 6000)):
        fmt = r.choice(["json", "json", "edgelist", "tsv"])
        kinds = ("dense", "bin", "none") if fmt == "tsv" else ("dense", "bin", "sparse", "none")
        W = r.choice([1, 1, 2, 3, 4, 5, 11, 12])
        P = r.choice([1, 2, 3, 4, 5, 7]) if W < 10 else r.choice([W, W + 1, 2 * W])
        # later nodes have more types and features, so workers and partitions see different layouts
        nt, et = r.choice([1, 2, 4, 12]), r.choice([1, 2, 4, 12])
        wts = r.choice([cc.DYADIC, cc.DYADIC, [0.0, 1.0], [0.0, 1.0, 131072.0, 0.25], [262144.0, 0.015625], [1048579.0, 1.0]])
        g = gg.graph(r, kinds=kinds, n=r.choice([0, 1, 3, 5, 9, 14]), maxdeg=1 if max(wts) > 1e6 else 4, weights=wts, ntypes=nt, etypes=et)
        if r.random() < 0.5:
            g.sort(key=lambda n: n["type"], reverse=r.random() < 0.5)
        wm = r.choice([None, None, None, 7, 0]) if fmt == "json" else None
        if W > 1:
            mode = "pipe-thread"
        else:
            mode = r.choice(["pipe-thread", "pipe-thread", "queue-thread", "debug"])
        order = list(range(W))
        r.shuffle(order)
        cases.append(cc.case(g, fmt, judge=["meta"], mode=mode, partitions=P, workers=W, nfiles=max(W, r.choice([1, 2, 3])), folder=True, r=r, watermark=wm,
                             worker_order=order, seed=r.randint(0, 999), threads=r.choice([1, 2]), step=r.choice([512, 1, 3]), kind="merged" if W > 1 else mode))
    cc.run(c, cases, chunk=40)
    c.assumptions = ["weights are multiples of 1/64, so their sums are exact"]


main("C03", run)
