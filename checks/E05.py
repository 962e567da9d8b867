import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import enginecases as ec

ROWS = 20000


def edge(dst, t, w64, created=0, removed=-1):
    return {"dst": dst, "type": t, "w64": w64, "created": created, "removed": removed, "feats": []}


def base(n, parts, servers, temporal=False):
    return {"ids": [7 + 5 * i for i in range(n)], "parts": parts, "temporal": temporal, "storage": 0, "servers": [[p] for p in range(len(parts))] if servers else [],
            "load": list(range(len(parts))), "tbase": 0, "tscale": 1, "threads": 1, "ops": []}


def grouped(r, size, weights, by, temporal):
    """A node whose neighbours come in groups: edge types, partitions or servers; and as many nodes and edges grouped likewise."""
    n = sum(size) + 1
    nparts = 1 if by == "types" else len(size)
    parts = [[] for _ in range(nparts)]
    node = 1
    for g, m in enumerate(size):
        p = 0 if by == "types" else g
        t = g if by == "types" else r.choice([0, g % 2])
        es = []
        for j in range(m):
            es.append(edge(node, t, weights[g][j], 1 if temporal else 0, r.choice([-1, 9]) if temporal else -1))
            if temporal and r.random() < 0.5:
                es.append(edge(node, t, 640, *r.choice([(6, -1), (1, 3)])))
            node += 1
        if temporal and r.random() < 0.5:
            r.shuffle(es)
        own = [e for e in parts[p] if e["id"] == 0]
        if own:
            own[0]["edges"] += es
        elif es or g == 0:
            parts[p].append({"id": 0, "type": 0 if g == 0 else -1, "w64": 64 if g == 0 else 0, "feats": [], "edges": es})
    return base(n, parts, by == "servers", temporal)


def draws(r, size, weights, k, temporal, kinds, rows):
    q = {"nodes": [0], "etypes": list(range(len(size))), "ts": [4] if temporal else [], "count": k, "rows": rows, "per": 500, "dtype_": -1}
    out = []
    if "slots" in kinds:
        out.append({**q, "op": "wsample", "seed": r.getrandbits(40)})
        out.append({**q, "op": "usample", "wor": False, "seed": r.getrandbits(40)})
    if "stream" in kinds:
        out.append({**q, "op": "usample", "wor": True, "seed": r.getrandbits(40)})
    return out


def population(r, size, by, weights):
    """The groups as nodes (and an edge each) of types, partitions or servers."""
    n = sum(size)
    parts = [[] for _ in range(1 if by == "types" else len(size))]
    node = 0
    for g, m in enumerate(size):
        p, t = (0, g) if by == "types" else (g, 0)
        for j in range(m):
            parts[p].append({"id": node, "type": t, "w64": weights[g][j], "feats": [], "edges": [edge((node + 1) % n, t, weights[g][j])]})
            node += 1
    return base(n, parts, by == "servers")


def run(c):
    r = c.rng
    beh = c._printed(c.model("Reservoir", c.pick("Reservoir_mc.cfg", "Reservoir_wide.cfg")), "BEH")
    c.model("Reservoir", "Reservoir_forget.cfg", expect_violation="Right", name="Reservoir with merged groups forgotten")
    rows = c.pick(ROWS, 100000)
    by_env = {}
    for b in beh:
        by_env.setdefault((tuple(b["size"]), b["k"]), set()).add(b["kind"])
    cases = []
    for (size, k), kinds in sorted(by_env.items()):
        if sum(size) < 2:
            continue
        for by in ("types", "partitions", "servers"):
            wts = [[64 * ((g + 1 + 2 * (j + 1)) % 4) for j in range(m)] for g, m in enumerate(size)]
            t = r.random() < 0.3
            w = grouped(r, size, wts, by, t)
            w["ops"] = draws(r, size, wts, k, t, kinds, rows)
            w["kind"] = "model-groups"
            cases.append(w)
    for (size, k), kinds in sorted(by_env.items()):
        n = sum(size)
        if n < 2 or k > n or r.random() > c.pick(0.5, 1):
            continue
        for by in ("types", "partitions", "servers"):
            wts = [[64 * ((g + 2 * j) % 3) for j in range(m)] for g, m in enumerate(size)]
            for elem in ("node", "edge"):
                kind = r.choice(["weighted", "uniform", "withoutreplacement"])
                if kind == "weighted" and not sum(map(sum, wts)):
                    continue
                w = population(r, size, by, wts)
                w["ops"] = [{"op": "gfreq", "elem": elem, "kind": kind, "types": sorted({e["type"] for p in w["parts"] for e in p}), "size": k, "rows": rows // 4, "seed": r.getrandbits(40)}]
                # elements of one type in one partition are drawn by one reservoir, others are shared out first
                if kind == "withoutreplacement" and len([m for m in size if m]) > 1:
                    w["sig"] = "shared-out"
                w["kind"] = "model-population"
                cases.append(w)
    for _ in range(c.pick(60, 600)):
        cases.append(walks(r, rows))
    for _ in range(c.pick(150, 1500)):
        cases.append(mixed(r, rows))
    for w in cases:
        if w["kind"] != "model-population":
            ec.through_api(r, w, 0.15)
    cases = [x for w in cases for x in marked(w)]
    done = c.drive("freq.py", cases, lib=native_lib())
    c.judge("J_Freq", done, chunk=20)
    c.assumptions.append("draws of different rows and seeds are independent; a frequency counts as wrong when it is 7 standard deviations off")


def marked(w):
    """Queries the findings file is about become cases of their own."""
    rest = []
    for q in w["ops"]:
        s = w.get("sig") or sig(w, q)
        if s:
            yield {**w, "ops": [q], "sig": s}
        else:
            rest.append(q)
    if rest:
        yield {**w, "ops": rest}


def sig(w, q):
    if q["op"] not in ("wsample", "usample") or q["count"] == 1:
        return None
    ok = lambda x: x["type"] in q["etypes"] and (not q["ts"] or x["created"] <= q["ts"][0] and (x["removed"] == -1 or x["removed"] > q["ts"][0]))
    out = lambda p: [x for e in w["parts"][p] if e["id"] == q["nodes"][0] for x in e["edges"] if ok(x)]
    procs = w["servers"] or [w["load"]]
    if q["op"] == "usample":
        # samples of several servers are merged
        return "server-merge" if q["wor"] and len([1 for ps in procs if any(out(p) for p in ps)]) > 1 else None
    for ps in procs:
        # groups of edges drawn one after the other, in the partitions before the last one
        full = [[x for x in out(p) if x["w64"]] for p in ps]
        full = [es for es in full if es]
        if len(full) > 1 and sum(len(es) if w["temporal"] else len({x["type"] for x in es}) for es in full[:-1]) > 1:
            return "partitions-of-a-process"
    return None


def walks(r, rows):
    """Connected graphs in which every edge has an equal one back."""
    n = r.choice([3, 4, 5])
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    keep = {p: 64 * r.choice([1, 1, 2, 5]) for p in pairs if r.random() < 0.6 or p[1] == p[0] + 1}
    nparts = r.choice([1, 2, 3])
    parts = [[] for _ in range(nparts)]
    for v in range(n):
        es = [[] for _ in range(nparts)]
        home = r.randrange(nparts)
        for (a, b), x in keep.items():
            if v in (a, b):
                es[r.randrange(nparts) if r.random() < 0.4 else home].append(edge(b if v == a else a, (a + b) % 2, x))
        for p in range(nparts):
            e = sorted(es[p], key=lambda e: e["type"])
            if p == home or e:
                parts[p].append({"id": v, "type": 0 if p == home else -1, "w64": 64 if p == home else 0, "feats": [], "edges": e})
    w = base(n, parts, nparts > 1 and r.random() < 0.5)
    pn, pd = r.choice([(1, 1), (1, 4), (4, 1), (2, 1)])
    qn, qd = r.choice([(1, 1), (1, 4), (3, 1), (1, 2)])
    w["ops"] = [{"op": "walk", "nodes": [r.randrange(n)], "etypes": [0, 1], "ts": [], "len": 4, "pnum": pn, "pden": pd, "pother": qn, "qden": qd, "rows": rows, "per": 500, "seed": r.getrandbits(40)}]
    w["kind"] = "walk"
    return w


def mixed(r, rows):
    """Groups in all directions at once: several types in several partitions on several servers, equal connections twice."""
    nparts, ntypes = r.choice([1, 2, 3, 4]), r.choice([1, 2, 3])
    n = r.choice([3, 5, 8])
    t = r.random() < 0.3
    parts = [[] for _ in range(nparts)]
    total = 0
    for p in range(nparts):
        es = []
        for _ in range(r.choice([0, 1, 2, 4, 7])):
            es.append(edge(r.randrange(1, n), r.randrange(ntypes), r.choice([64, 32, 128, 192, 0, 320]), *((r.choice([(1, -1), (1, 9), (5, -1), (1, 2)])) if t else ())))
        es.sort(key=lambda e: (e["type"], e["created"]))
        if p == 0 or es:
            parts[p].append({"id": 0, "type": 0 if p == 0 else -1, "w64": 64 if p == 0 else 0, "feats": [], "edges": es})
    dist = nparts > 1 and r.random() < 0.6
    w = base(n, parts, dist, t)
    if dist:
        w["servers"] = ec.split(r, w)
    if not t and r.random() < 0.4:
        for p in range(nparts):
            for i in range(1, n):
                if r.random() < 0.5 and not any(e["id"] == i for q in parts for e in q):
                    parts[p].append({"id": i, "type": r.randrange(3), "w64": r.choice([64, 32, 192]), "feats": [], "edges": []})
        elem = r.choice(["node", "edge"])
        types = sorted({e["type"] for q in parts for e in q if e["type"] >= 0}) if elem == "node" else sorted({x["type"] for q in parts for e in q for x in e["edges"]})
        pool = ec.pool(w, elem, types)
        if pool and sum(pool.values()):
            w["ops"] = [{"op": "gfreq", "elem": elem, "kind": kind, "types": types, "size": r.choice([1, 2, 5]), "rows": rows // 4, "seed": r.getrandbits(40)} for kind in ("weighted", "uniform")]
    if not w["ops"]:
        some = r.sample(range(ntypes), r.randint(1, ntypes))
        q = {"nodes": [0], "etypes": some, "ts": [3] if t else [], "count": r.choice([1, 2, 3, 5]), "rows": rows, "per": 500, "dtype_": -1}
        w["ops"] = [{**q, "op": "wsample", "seed": r.getrandbits(40)}, {**q, "op": "usample", "wor": False, "seed": r.getrandbits(40)}, {**q, "op": "usample", "wor": True, "seed": r.getrandbits(40)}]
    w["kind"] = "mixed"
    return w


main("E05", run)
