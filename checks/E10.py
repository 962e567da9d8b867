import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec

WHY = ["again", "storage", "lookups", "threads", "arrival", "order"]
SEEDS = [0, 0, 1, -1, 2**31 - 1, 2**31, 2**32, 2**62]


def reseeded(r, q):
    """Some seeds are special numbers."""
    for x in [q] if q["op"] != "gmany" else [x for s in q["ops"] for x in s["calls"]]:
        if "seed" in x and r.random() < 0.25:
            x["seed"] = r.choice(SEEDS)


def rich(r, temporal):
    """A graph where every draw has many outcomes."""
    n, nparts = 40, r.choice([1, 2, 3])
    parts = [[] for _ in range(nparts)]
    for i in range(n):
        parts[i % nparts].append({"id": i, "type": i % 2, "w64": 64, "feats": [],
                                  "edges": [{"dst": j, "type": 0, "w64": 64, "created": 0, "removed": -1, "feats": []} for j in sorted((i + k) % n for k in range(1, 13))]})
    w = {"ids": list(range(20, 21 + n)), "parts": parts, "temporal": temporal, "storage": 0, "servers": [], "load": list(range(nparts)), "tbase": 0, "tscale": 1, "_nsch": [], "_esch": [],
         "_n": n, "_present": [0]}
    row = lambda o, **k: dict({"op": o, "nodes": [r.randrange(n) for _ in range(8)], "etypes": [0], "ts": [], "rts": False, "count": 5, "seed": r.randint(0, 2**40), "dnode": -1, "dweight": 0.0, "dw64": 0,
                               "dtype_": -1, "dts": -1}, **k)
    one = lambda elem, kind: {"op": "gmany", "ops": [{"op": "gsample", "elem": elem, "types": [0, 1] if elem == "node" else [0], "calls": [{"kind": kind, "size": 16, "seed": r.randint(0, 2**40), "turn": 0}]}]}
    w["ops"] = [row("wsample"), row("usample", wor=False), row("usample", wor=True), {"op": "walk", "nodes": [r.randrange(n) for _ in range(8)], "etypes": [0], "ts": [], "dnode": -1, "len": 9, "p": 1.0, "q": 1.0,
                                                                                     "seed": r.randint(0, 2**40)}]
    w["ops"] += [one(e, k) for e in ("node", "edge") for k in ("weighted", "uniform", "withoutreplacement")]
    return w


def run(c):
    r = c.rng
    c.model("Repro", "Repro_mc.cfg")
    c.model("Repro", "Repro_shared.cfg", name="Repro-shared-source", expect_violation="Same")
    c.model("Repro", "Repro_arrival.cfg", name="Repro-arrival", expect_violation="Same")
    beh = c.behaviours("Repro", "Repro_gen.cfg", num=c.pick(800, 9000), depth=40)
    cases = []
    for b in beh[:c.pick(700, 8000)]:
        t = r.random() < 0.3
        many = r.random() < 0.3
        dist = r.random() < 0.35
        if many:
            w = rich(r, t)
        else:
            w = ec.world(r, temporal=t, kinds=("temporal",) if t else ("dense",), n=r.choice([3, 5, 9, 14]), maxdeg=r.choice([3, 6]), load_all=dist)
            w["ops"] = ec.sample_ops(r, w, k=3, ts=t, kinds=("wsample", "usample", "usample") + (("lastn",) if t else ())) + ec.walk_ops(r, w, k=2, ts=t, kinds=("walk",)) + ec.gmany_op(r, w, k=2)
            r.shuffle(w["ops"])
        if dist:
            w["servers"] = ec.split(r, w)
            w["threads"] = r.choice([1, 3])
        ec.through_api(r, w)
        w["rich"] = many
        w["explicit"] = not w["api"] and r.random() < 0.6
        w["pyseed"] = r.randint(0, 2**32)
        for q in w["ops"]:
            reseeded(r, q)
            if q["op"] == "gmany":
                q["api"] = w["api"]
                for s in q["ops"]:
                    s.setdefault("scalar", False)
            for x in [q] if q["op"] != "gmany" else [x for s in q["ops"] for x in s["calls"]]:
                if not w["explicit"] and not w["api"] and "seed" in x:
                    x.pop("seed")
        w["lookups"] = ec.topology_ops(r, w, k=4)
        if w["api"]:
            for q in w["lookups"]:
                if q["op"] == "types":
                    q["default"] = -1
        S = len(w["servers"])
        runs = []
        for k in range(c.pick(4, 6)):
            why = WHY[0] if k < 2 else r.choice(WHY[1:])
            v = {"why": why, "world": {}, "shift": 0, "other": r.randint(0, 2**32), "parallel": 0, "noise": [], "orders": [], "shuffle": 0}
            asked, noise, orders = 0, [], []
            for e in b["runs"][k % 2]:
                if e["e"] == "lookup":
                    noise.append([asked % len(w["ops"]) if w["ops"] else 0, len(noise) % 4])
                else:
                    asked += 1
                    orders.append(e["order"])
            if why == "storage":
                v["world"] = {"storage": 1 - w["storage"]}
            if why == "lookups":
                v["noise"] = noise
            if why == "threads" and w["explicit"]:
                v["parallel"] = r.choice([2, 4])
            if why == "order" and w["explicit"]:  # the same questions one after another in another order
                v["shuffle"] = r.randint(1, 2**30)
            if S > 1:
                v["orders"] = [[x - 1 for x in orders[j % len(orders)] if x <= S] + list(range(3, S)) for j in range(len(w["ops"]))]
            runs.append(v)
        runs.append(dict(runs[0], shift=1000003, why="seed", other=runs[0]["other"]))
        w["runs"] = runs
        cases.append(w)
    ec.run(c, cases, chunk=100, driver="repro.py", module="J_Repro")


main("E10", run)
