import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def early(r, b):
    """The same steps with every client asking to connect before the first server is up: allowed by Sync.tla as well."""
    s = b["sched"]
    first = [x for x in s if x[0] in ("server", "client")]
    r.shuffle(first)
    for k in [x[1] for x in s if x[0] == "connect"]:
        first.insert(r.randint(first.index(["client", k]) + 1, len(first)), ["connect", k])
    ready = [x for x in s if x[0] == "ready"]
    r.shuffle(ready)
    return dict(b, sched=first + ready + [x for x in s if x[0] not in ("server", "client", "connect", "ready")])


def run(c):
    r = c.rng
    c.model("Sync", "Sync_mc.cfg")
    c.model("Sync", "Sync_wide.cfg", name="Sync-wide", workers=8)
    c.model("Sync", "Sync_fork.cfg", name="Sync-fork", expect_violation="Outlives")
    gen = open(os.path.join(SPECS, "Sync_gen.cfg")).read()
    cases = []
    for S, C, num in ((2, 2, c.pick(500, 6000)), (1, 3, c.pick(150, 2000)), (3, 1, c.pick(150, 2000)), (1, 1, c.pick(60, 500)), (3, 3, c.pick(60, 2000)), (6, 2, c.pick(30, 600)), (1, 11, c.pick(20, 600))):
        cfg = gen.replace("Servers = {0, 1}", "Servers = {%s}" % ", ".join(map(str, range(S)))).replace("Clients = {0, 1}", "Clients = {%s}" % ", ".join(map(str, range(C))))
        beh = c.behaviours("Sync", cfg, num=num * 2, depth=60)
        beh = [json.loads(x) for x in sorted({json.dumps(b, sort_keys=True) for b in beh})]
        r.shuffle(beh)
        # waiting for missing peers takes real time: fewer of those
        calm = [b for b in beh if not b["missing"] and not b["crashed"]]
        rest = [b for b in beh if b["missing"] or b["crashed"]]
        calm = calm[:num // 2]
        calm += [early(r, b) for b in r.sample(calm, len(calm) // 4 if S < 6 else len(calm))]
        for b in calm + rest[:num // 3]:
            ranks = list(range(C)) if r.random() < 0.5 else r.sample([0, 1, 2, 7, 9, 10, 11, 12, 23, 100, 101, 1234], C)
            cases.append(dict(b, ranks=ranks, threads=r.choice([1, 1, 1, 2, 3]), slow=r.choice([0, 0, 0.03, 0.12]), noclose=r.random() < 0.5, S=S, C=C, absent=r.random() < 0.5, twice=r.random() < 0.3, pause=r.choice([0, 0, 0.05]), kind="spec-schedule-%dx%d" % (S, C)))
    r.shuffle(cases)
    c.judge("J_Sync", c.drive("sync.py", cases), chunk=100)
    c.assumptions = ["folder starts clean", "servers close once every client of the run exists", "wrapped client and server are stand-ins that record calls; polling runs 40 times faster"]


main("L01", run)
