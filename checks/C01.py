import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import graphgen as gg
import convcases as cc


def run(c):
    out = c.model("MC_Converter", "Converter_mc.cfg", name="Converter")
    r = c.rng
    # behaviours of the model, replayed through the real writer
    behs = c._printed(out, "BEH")
    cases = [cc.of_behaviour(h, r) for h in r.sample(behs, min(len(behs), c.pick(1500, 20000)))]
    cases += [cc.random_records(r, r.choice([1, 3, 6, 10, 16])) for _ in range(c.pick(400, 4000))]
    cc.run(c, cases, chunk=200)
    cases = []
    for k in range(c.pick(500, 5000)):
        fmt = r.choice(["json", "json", "edgelist", "tsv"])
        kinds = ("dense", "bin", "none") if fmt == "tsv" else ("dense", "bin", "sparse", "none") + (("wild",) if fmt == "json" else ())
        g = gg.graph(r, kinds=kinds, ntypes=r.choice([3, 3, 12]), etypes=r.choice([3, 3, 12]))
        mode = r.choice(["debug", "pipe-thread", "pipe-thread", "queue-thread", "writer"])
        cases.append(cc.case(g, fmt, judge=["content"], mode=mode, partitions=r.choice([1, 1, 2, 3]), nfiles=1, r=r, seed=r.randint(0, 999),
                             block=r.choice([50, 0.0001, 0.00003]), threads=r.choice([1, 2, 3]), step=r.choice([512, 1, 3])))
    cc.run(c, cases)
    c.assumptions = ["ids fit in 64 unsigned bits, other than the reserved -1"]


main("C01", run)
