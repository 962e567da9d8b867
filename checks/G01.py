import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec


def from_world(r, w):
    """Edges as the operators are asked about them; one feature byte each."""
    edges = []
    for p in w["parts"]:
        for e in p:
            e["feats"] = []
            for x in e["edges"]:
                f = r.randint(1, 250)
                x["feats"] = [{"k": "dense", "vals": [[f]]}]
                edges.append([e["id"], x["dst"], x["type"], x["w64"], f])
    w["edges"] = edges
    w["_types"] = sorted({e[2] for e in edges}) or [0]
    return w


def plain(r, n, pairs):
    """A graph with these pairs as edges, of a random type, some of two types."""
    parts = [[{"id": i, "type": 0, "w64": 64, "feats": [], "edges": []} for i in range(n)]]
    for a, b in pairs:
        for t in r.sample(range(2), r.choice([1, 1, 2])):
            parts[0][a]["edges"].append({"dst": b, "type": t, "w64": 64 * r.randint(1, 4), "created": 0, "removed": -1, "feats": []})
    for e in parts[0]:
        e["edges"].sort(key=lambda x: (x["type"], x["dst"]))
    r.shuffle(parts[0])
    return from_world(r, {"ids": r.sample(ec.IDS, n + 2), "parts": parts, "temporal": False, "storage": 0, "servers": [], "tbase": 0, "tscale": 1, "ops": [], "shuffle": 0})


def types(r, w):
    t = w["_types"]
    return r.choice([t, t, r.sample(t, r.randint(1, len(t))), [9]] if r.random() < 0.9 else [t + t])


def sub(r, w, src, hops):
    src = list(src) + ([r.choice(src)] if r.random() < 0.3 else [])
    r.shuffle(src)
    return {"op": "sub", "src": src, "types": types(r, w), "hops": hops, "loop": r.random() < 0.5, "undirected": r.random() < 0.5, "return_edges": r.random() < 0.5}


def gram(r, n, left, right):
    return {"op": "gram", "paths": [[r.randint(0, 6) for _ in range(n)] for _ in range(r.randint(1, 3))], "left": left, "right": right}


def ops(r, w, k=8):
    n = len(w["ids"])
    out = []
    for _ in range(k):
        nodes = [r.randrange(n) for _ in range(r.randint(1, 4))]
        o = r.choice(["sub", "sub", "layers", "layers"] + ([] if w["shuffle"] else ["fanout", "fanout", "out"]))
        if o == "sub":
            out.append(sub(r, w, nodes, r.randint(1, 4)))
        elif o == "layers":
            out.append({"op": o, "nodes": nodes, "metapath": [types(r, w) for _ in range(r.randint(1, 3))], "max": r.choice([2, 4, 8, 8, 16])})
        elif o == "fanout":
            h = r.randint(1, 3)
            out.append({"op": o, "nodes": nodes, "metapath": [types(r, w) for _ in range(h)], "fanouts": [r.randint(1, 4) for _ in range(h)], "dnode": r.choice([-1, -1, 0, n - 1]),
                        "strategy": r.choice(["byweight", "byweight", "random", "randomwithoutreplacement"]), "seed": r.randint(0, 10**6)})
        else:
            out.append({"op": o, "nodes": nodes, "types": types(r, w), "count": r.randint(1, 4), "strategy": r.choice(["byweight", "random", "randomwithoutreplacement"]),
                        "feats": r.random() < 0.6, "seed": r.randint(0, 10**6)})
    return out


def run(c):
    r = c.rng
    beh = c._printed(c.model("Ops", "Ops_mc.cfg", workers=1), "BEH")
    c.model("Ops", "Ops_one.cfg", name="Ops-one-window", expect_violation="Pairs")
    if c.thorough:
        c.model("Ops", "Ops_wide.cfg", name="Ops-wide")
    graphs = {}
    for b in beh:
        graphs.setdefault(json.dumps([b["task"], b["edges"]]), []).append(b)
    cases = []
    for k in sorted(graphs):
        bs = graphs[k]
        if bs[0]["task"] == "gram":
            for j in range(0, len(bs), 40):
                w = plain(r, 1, [])
                w["ops"] = [gram(r, b["len"], b["left"], b["right"]) for b in bs[j:j + 40]]
                w["kind"] = "model-skipgrams"
                cases.append(w)
            continue
        w = plain(r, 3, bs[0]["edges"])
        w["shuffle"] = r.choice([0, r.randint(1, 10**6)])
        w["ops"] = [sub(r, w, b["src"], b["hops"]) for b in (r.sample(bs, 6) if not c.thorough else bs)]
        w["kind"] = "model-subgraphs"
        cases.append(w)
    for k in range(c.pick(500, 6000)):
        w = from_world(r, ec.world(r, temporal=False, kinds=("dense",), zero=False, parallel=False, load_all=True, n=r.choice([1, 3, 5, 8]), maxdeg=r.choice([1, 3, 5]), big_deg=0.02))
        w["shuffle"] = r.choice([0, 0, r.randint(1, 10**6)])
        if not w["shuffle"] and r.random() < 0.4:
            w["servers"] = ec.split(r, w)
        w["ops"] = ops(r, w)
        w["kind"] = "random"
        cases.append(w)
    ec.run(c, cases, driver="ops.py", module="J_Ops")


main("G01", run)
