import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec

KINDS = [(e, k) for e in ("node", "edge") for k in ("weighted", "uniform", "withoutreplacement")]


def question(r, w):
    """A lookup that has to reach every server of the graph."""
    t = w["temporal"] and r.random() < 0.6
    while True:
        q = r.choice([lambda: ec.topology_ops(r, w, 1, t), lambda: ec.feature_ops(r, w, 1, w["temporal"]), lambda: ec.sample_ops(r, w, 1, t)])()[0]
        if q["op"] != "tcounts" and q.get("nodes", q.get("src")) and q.get("count", 1) > 0:
            if q["op"] == "types":
                q["default"] = -1
            return q


def graph(r, n, ids=None):
    """A graph in which every kind of sampler has something to draw."""
    while True:
        t = r.random() < 0.3
        w = ec.world(r, temporal=t, nparts=n, n=r.choice([3, 5, 8]), load_all=True, parallel=False, zero=False, kinds=("temporal",) if t else ("dense", "bin", "sparse"))
        if ids:
            w["ids"] = (ids + w["ids"])[:len(w["ids"])] if len(set(ids + w["ids"])) == len(ids) + len(w["ids"]) else w["ids"]
        nt = sorted({e["type"] for p in w["parts"] for e in p if e["type"] >= 0})
        et = sorted({x["type"] for p in w["parts"] for e in p for x in e["edges"]})
        if nt and et:
            w["_nt"], w["_et"] = nt, et
            return w


def run(c):
    r = c.rng
    c.model("Handles", "Handles_mc.cfg", workers=8)
    c.model("Handles", "Handles_zero.cfg", name="Handles-numbers-from-zero", expect_violation="Right")
    c.model("Handles", "Handles_tidy.cfg", name="Handles-tidy-tables", expect_violation="Right")
    c.model("Handles", "Handles_bare.cfg", name="Handles-bare-samplers", expect_violation="Right")
    gen = open(os.path.join(SPECS, "Handles_gen.cfg")).read()
    cases = []
    for S, remote, num in ((2, {1, 2}, c.pick(300, 4000)), (1, {1, 2, 3}, c.pick(200, 3000)), (3, {1}, c.pick(100, 2000)), (1, set(), c.pick(100, 1500))):
        cfg = gen.replace("Servers = {1, 2}", "Servers = {%s}" % ", ".join(map(str, range(1, S + 1)))).replace("Remote = {1, 2}", "Remote = {%s}" % ", ".join(map(str, sorted(remote))))
        for b in c.behaviours("Handles", cfg, num=num, depth=40):
            h = b["h"]
            w = graph(r, max(S, r.choice([1, 2, 3])))
            w["servers"] = [list(range(k, len(w["parts"]), S)) for k in range(S)]
            w["api"] = r.random() < 0.4
            w2 = graph(r, r.choice([1, 2]), w["ids"][:3] if r.random() < 0.5 else None)
            worlds = [w, w2]
            clients = [{"world": 1 if k in remote or r.random() < 0.5 else 2, "servers": list(range(1, S + 1)) if k in remote else [], "api": r.random() < 0.4, "copied": r.random() < 0.5,
                        "threads": r.choice([1, 2])} for k in (1, 2, 3)]
            owner = {x["m"]: x["c"] for x in h if x["e"] == "make"}
            made = r.sample(KINDS, 3)
            samplers = []
            for m in (1, 2, 3):
                v = worlds[clients[owner.get(m, 1) - 1]["world"] - 1]
                have = v["_nt" if made[m - 1][0] == "node" else "_et"]
                samplers.append({"elem": made[m - 1][0], "kind": made[m - 1][1], "types": r.sample(have, r.randint(1, len(have)))})
            h = [x for x in h if x["e"] != "shut" or not clients[x["c"] - 1]["api"]]
            qs = []
            for x in h:
                q = {}
                if x["e"] == "ask":
                    q = question(r, worlds[clients[x["c"] - 1]["world"] - 1])
                elif x["e"] == "draw":
                    s = samplers[x["m"] - 1]
                    v = worlds[clients[x["c"] - 1]["world"] - 1]
                    most = len(ec.pool(v, s["elem"], s["types"]))
                    size = r.choice([1, 2, 7, 20])
                    q = {"op": "gsample", "elem": s["elem"], "types": s["types"], "calls": [{"kind": s["kind"], "size": min(size, most) if s["kind"] == "withoutreplacement" else size, "seed": r.randint(0, 2**40),
                                                                                           "turn": 0}]}
                qs.append(q)
            last = {x["c"]: k for k, x in enumerate(h) if x["e"] in ("ask", "close", "make") or x["e"] == "draw" and clients[x["c"] - 1]["api"]}
            drops = [k for k, x in enumerate(h) if x["e"] == "close" and last[x["c"]] == k and r.random() < 0.5]
            pairs = []
            for k in range(len(h) - 1):
                x, y = h[k], h[k + 1]
                free = y["e"] in ("ask", "draw") and x["e"] not in ("stop", "start") and x["c"] != y["c"] and k - 1 not in pairs
                if free and r.random() < 0.4:
                    pairs.append(k)
            cases.append({"worlds": worlds, "clients": clients, "samplers": samplers, "h": h, "qs": qs, "drops": drops, "pairs": pairs, "crowd": r.choice([0, 0, 0, 0, 3, 70, 300]), "kind": "histories-%d-servers-%d-remote" % (S, len(remote))})
    r.shuffle(cases)
    for x in cases:  # working notes of the generators
        x["worlds"] = [{k: v for k, v in w.items() if not k.startswith("_")} for w in x["worlds"]]
    c.judge("J_Handles", c.drive("handles.py", cases, lib=native_lib(), env={"MALLOC_PERTURB_": "165"}), chunk=20)
    c.assumptions = ["a client is not closed while it is being asked", "samplers made before a server was started again may report errors from then on"]


main("E11", run)
