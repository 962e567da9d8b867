import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def run(c):
    r = c.rng
    c.model("Prefetch", "Prefetch_mc.cfg")
    c.model("Prefetch", "Prefetch_unchecked.cfg", name="Prefetch-unchecked", expect_violation="OnlyBatches")
    beh = c._printed(c.model("Prefetch", "Prefetch_gen.cfg", workers=1, name="Prefetch-schedules"), "BEH")
    beh = [json.loads(x) for x in sorted({json.dumps(b, sort_keys=True) for b in beh})]
    r.shuffle(beh)
    cases = [dict(b, closeat=-1, kind="spec-schedule") for b in beh[: c.pick(2500, 19000)]]
    for k in range(c.pick(700, 6000)):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 21, 24, 40, 70])
        bad = r.sample(range(1, n + 1), min(n, r.choice([0, 0, 0, 1, 1, 2])))
        if bad and r.random() < 0.4:
            bad = [r.choice([1, n])]
        cases.append(dict(n=n, bad=sorted(bad), samperr=r.random() < 0.2, cap=r.choice([1, 1, 2, 3, 5, 10, 30, 100]), par=r.choice([1, 1, 2, 3, 4, 10, 25]),
                          sched=[], delay=r.choice([0, 0, 0.0005, 0.003]), seed=r.randint(0, 9999), closeat=r.choice([-1, -1, 0, 1, 2, n // 2, n]), kind="free-running"))
    # the queue is full or empty for long, all results behind the end marker, and so on
    for n in (1, 2, 3, 6, 12):
        for cap in (1, 2, 30):
            for par in (1, 3, 12):
                for bad in ([], [1], [n]):
                    for order in ("fifo", "lifo"):
                        ks = list(range(1, n + 1))
                        fs = ["F%d" % k for k in (ks if order == "fifo" else ks[::-1])]
                        ss = ["S"] * (n + 1)
                        for sched in (ss + fs + ["C"], ss + ["C"] + fs, ["C"] + ss + fs, ss + ["C"] + fs[1:] + fs[:1]):
                            cases.append(dict(n=n, bad=bad, samperr=False, cap=cap, par=par, sched=sched, closeat=-1, kind="marker-first"))
    for x in cases:
        x.setdefault("delay", 0)
        x["raised"] = r.choice(["text", "text", "empty", "stop", "exit", "key"])
        x["blank"] = r.choice(["", "", "", "none", "zero", "empty"])
    c.judge("J_Prefetch", c.drive("prefetch.py", cases), chunk=600)
    c.assumptions = ["one producer per generator (the default, and what the dataset uses)", "queries return eventually; result order is not claimed",
                     "schedules are steered by gates on sampler and queries, with short pauses to let threads settle"]


main("R03", run)
