import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import graphgen as gg
import convcases as cc


def run(c):
    r = c.rng
    out = {}
    for name in ("pipe", "queue", "queue3"):
        out[name] = c._printed(c.model("Dispatch", f"Dispatch_{name}.cfg", workers=1, name="Dispatch " + name), "BEH")
    cases = []
    J = ["content", "placement"]
    # schedules of the model, followed by the real reader and writers
    for name, behs in out.items():
        behs = list({json.dumps(b): b for b in behs}.values())
        for b in r.sample(behs, min(len(behs), c.pick(160, 2000))):
            n = len(b["assign"])
            ids = r.sample(range(50), n)
            g = [gg.graph(r, n=1, kinds=("dense", "bin"), maxdeg=2)[0] for _ in range(n)]
            for x, i in zip(g, ids):
                x["id"] = i
            cases.append(cc.case(g, "json", judge=J, mode="pipe-thread" if name == "pipe" else "queue-thread", partitions=3 if name == "queue3" else 2,
                                 schedule=b["steps"], assign=b["assign"], kind="schedule/" + name))
    c.extra["schedules_replayed"] = len(cases)
    # free running, several workers and files, uneven splits
    for k in range(c.pick(420, 4000)):
        fmt = r.choice(["json", "json", "edgelist", "tsv"])
        kinds = ("dense", "bin", "none") if fmt == "tsv" else ("dense", "bin", "sparse", "none")
        g = gg.graph(r, kinds=kinds, n=r.choice([0, 1, 3, 5, 9, 14]), maxdeg=3)
        W = r.choice([1, 1, 2, 3, 4, 5])
        P = r.choice([1, 2, 3, 4, 5, 7, 11])
        if W > 1:
            mode = "pipe-thread"
        else:
            mode = r.choice(["pipe-thread", "queue-thread", "queue-thread"])
        cases.append(cc.case(g, fmt, judge=J, mode=mode, partitions=P, workers=W, nfiles=r.choice([W, W + 1, 2 * W, 8]), folder=True, r=r, seed=r.randint(0, 999),
                             block=r.choice([50, 0.0001]), threads=r.choice([1, 2, 3]), step=r.choice([512, 1, 3]), delay=r.choice([0, 0, 0.003]),
                             together=r.random() < 0.3, kind=f"{'workers' if W > 1 else mode}"))
    # separate processes
    for k in range(c.pick(40, 300)):
        fmt = r.choice(["json", "edgelist"])
        g = gg.graph(r, n=r.choice([0, 2, 5, 9]), maxdeg=3)
        mode = r.choice(["pipe-proc", "queue-proc"])
        cases.append(cc.case(g, fmt, judge=J, mode=mode, partitions=r.choice([1, 2, 3, 5]), r=r, seed=r.randint(0, 999), delay=r.choice([0, 0.004]),
                             step=r.choice([512, 1, 3]), kind=mode))
    cc.run(c, cases, chunk=60)
    c.assumptions = ["a writer process that raises may stall the converter, as its documentation says"]


main("C02", run)
