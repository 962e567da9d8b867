"""Graphs in partitions, and queries on them, shared by the engine checks."""
import json
import graphgen as gg

IDS = [0, 1, 2, 3, 5, 7, 2**31 - 1, 2**31, 2**32 + 1, 2**40, 2**62 + 1, 2**63 - 1]
SIZE = {"float64": 8, "uint64": 8, "int64": 8, "float32": 4, "uint32": 4, "int32": 4, "float16": 2, "uint16": 2, "int16": 2, "uint8": 1, "int8": 1}


def schema(r, kinds, n=None):
    """Feature slots: every element fills slot i, if at all, with a value of this kind."""
    out = []
    for _ in range(r.choice([0, 1, 2, 3]) if n is None else n):
        k = r.choice(kinds)
        out.append({"k": k, "dtype": r.choice(gg.DT), "dim": r.choice([1, 2, 3]), "v": r.choice(["dense", "bin", "sparse"])})
    if out and r.random() < 0.35:  # slots that can all be asked for in one request
        out = [dict(out[0]) for _ in out]
    return out


def fval(r, k, s):
    if k == "dense":
        return {"k": "dense", "vals": [gg.pack(s["dtype"], gg.value(r, s["dtype"])) for _ in range(r.choice([1, 2, 3, 5]))]}
    if k == "bin":
        return {"k": "bin", "bytes": list("".join(r.choice(gg.STR) for _ in range(r.choice([1, 2]))).encode())}
    n = r.choice([1, 2, 3])
    return {"k": "sparse", "dim": s["dim"], "coords": [[str(r.choice([0, 1, 7, 2**33, r.randint(0, 50)])) for _ in range(s["dim"])] for _ in range(n)],
            "vals": [gg.pack(s["dtype"], gg.value(r, s["dtype"])) for _ in range(n)]}


def features(r, sch, lo=0, full=False):
    out = []
    for s in sch[: len(sch) if full or r.random() < 0.6 else r.randint(0, len(sch))]:
        if not full and r.random() < 0.15:
            out.append({"k": "none"})
        elif s["k"] == "temporal":
            out.append({"k": "temporal", "items": [{"start": t, "val": fval(r, s["v"], s)} for t in sorted(r.sample(range(lo, lo + 12), r.choice([1, 1, 2, 3, 4])))]})
        else:
            out.append(fval(r, s["k"], s))
    while out and out[-1]["k"] == "none" and not full:
        out.pop()
    return out


def world(r, *, temporal=False, nparts=None, n=None, maxdeg=6, etypes=4, ntypes=3, kinds=("dense", "bin", "sparse"), spread=0.4, zero=True, parallel=True,
          storage=None, servers=None, big_deg=0.05, load_all=None, dup=0.1, unsorted=True):
    n = n if n is not None else r.choice([1, 2, 3, 4, 6])
    nparts = nparts or r.choice([1, 1, 2, 3])
    extra = 2
    ids = r.sample(IDS + ([10**6 + i for i in range(n)] if n + extra > len(IDS) else []), n + extra)
    nsch, esch = schema(r, kinds), schema(r, kinds)
    parts = [[] for _ in range(nparts)]
    present = r.sample(range(5), etypes)
    for i in range(n):
        home = r.randrange(nparts)
        edges = []
        deg = r.randint(0, maxdeg) if r.random() > big_deg else r.randint(17, 24)
        mine = r.sample(present, r.randint(1, len(present)))
        seen = set()
        for _ in range(deg):
            d, t = r.randrange(n + extra), r.choice(mine)
            life = [0, -1]
            if temporal:
                c = r.randint(0, 10)
                life = [c, r.choice([-1, -1, c + 1, c + 2, c + 5, c + 9])]
            if not parallel and (d, t) in seen:
                if not temporal:
                    continue
                # the same connection again, later
                if any(x["dst"] == d and x["type"] == t and (x["removed"] == -1 or x["removed"] > life[0]) and (life[1] == -1 or life[1] > x["created"]) for x in edges):
                    continue
            seen.add((d, t))
            edges.append({"dst": d, "type": t, "w64": r.choice([64, 32, 128, 16, 192, 1, 640] + ([0] if zero else [])), "created": life[0], "removed": life[1],
                          "feats": features(r, esch, life[0])})
        split = [[] for _ in range(nparts)]
        apart = r.random() < spread
        by_type = r.random() < 0.5
        tp = {t: r.randrange(nparts) for t in range(5)}
        for x in edges:
            split[(tp[x["type"]] if by_type else r.randrange(nparts)) if apart else home].append(x)
        order = (lambda x: (x["type"], r.random())) if unsorted and r.random() < 0.3 else (lambda x: (x["type"], x["created"], x["dst"])) if temporal else (lambda x: (x["type"], x["dst"]))
        for q in range(nparts):
            es = sorted(split[q], key=order)
            if q == home:
                parts[q].append({"id": i, "type": r.randrange(ntypes), "w64": r.choice([64, 32, 128, 192, 16]), "feats": features(r, nsch), "edges": es})
            elif es and len(es) > 1 and r.random() < dup:  # the converter may store a foreign source's edges in pieces
                k = r.randint(1, len(es) - 1)
                parts[q].append({"id": i, "type": -1, "w64": 0, "feats": [], "edges": es[:k]})
                parts[q].append({"id": i, "type": -1, "w64": 0, "feats": [], "edges": es[k:]})
            elif es:
                parts[q].append({"id": i, "type": -1, "w64": 0, "feats": [], "edges": es})
    if r.random() < 0.2:  # an edge source that is declared nowhere
        q = r.randrange(nparts)
        parts[q].append({"id": n, "type": -1, "w64": 0, "feats": [], "edges": [{"dst": 0, "type": present[0], "w64": 64, "created": 0, "removed": -1, "feats": []}]})
    for p in parts:
        r.shuffle(p)
    all_ = list(range(nparts))
    load = all_ if load_all or r.random() < 0.8 else r.sample(all_, r.randint(1, nparts))
    if r.random() < 0.3:
        load = r.sample(load, len(load))
    big = temporal and r.random() < 0.4
    c = {"ids": ids, "parts": parts, "temporal": temporal, "storage": r.choice([0, 0, 1]) if storage is None else storage, "servers": servers or [],
         "load": load, "tbase": r.choice([0, 1, 1700000000, 2**33]) if big else 0, "tscale": r.choice([1, 1000, 2**31]) if big else 1, "ops": [],
         "_nsch": nsch, "_esch": esch, "_present": present, "_n": n}
    return c


def through_api(r, w, part=0.3):
    """Some worlds are asked through the graph interface models use; its servers take every n-th partition."""
    w["api"] = not w.get("apart") and r.random() < part
    if not w["api"]:
        return
    if w["servers"]:
        n = r.randint(1, len(w["parts"]) + (1 if r.random() < 0.2 else 0))
        w["servers"] = [list(range(k, len(w["parts"]), n)) for k in range(n)]
    for q in w["ops"]:
        if q.get("ts") and r.random() < 0.3:
            q["tlist"] = True
        if q["op"] == "types":
            q["default"] = -1
        if q.get("order"):
            q["order"] = r.sample(range(len(w["servers"])), len(w["servers"]))


def lookup_cases(r, beh, temporal, nparts, rev, ops=("counts", "nbrs"), per=8):
    """One node per stored set of edge types, asked for every requested set."""
    stored = sorted({tuple(b["stored"]) for b in beh})
    asked = sorted({tuple(b["asked"]) for b in beh})
    out = []
    for k in range(0, len(stored), per):
        group = stored[k:k + per]
        parts = [[] for _ in range(nparts)]
        for i, ts in enumerate(group):
            es = [{"dst": d, "type": t, "w64": 64 * (d + 1), "created": 0, "removed": -1, "feats": []} for t in ts for d in range(1 + t % 2)]
            own = [e for e in es if nparts == 1 or e["type"] % 2 == 0]
            parts[0].append({"id": i, "type": 0, "w64": 64, "feats": [], "edges": own})
            if nparts > 1 and len(own) < len(es):
                parts[1].append({"id": i, "type": -1, "w64": 0, "feats": [], "edges": [e for e in es if e["type"] % 2]})
        if rev:
            parts = [p[::-1] for p in parts]
        c = {"ids": list(range(10, 10 + per + 1)), "parts": parts, "temporal": temporal, "storage": 0, "servers": [], "load": list(range(nparts)), "tbase": 0, "tscale": 1,
             "ops": [], "kind": "model-types", "_nsch": [], "_esch": []}
        for a in asked:
            for o in ops:
                et = list(a)[::-1] if rev else list(a)
                q = {"op": o, "nodes": list(range(len(group))), "etypes": et, "ts": [3] * len(group) if temporal else [], "rts": False}
                if o in ("wsample", "usample"):
                    q.update(count=3, seed=r.randint(0, 2**40), dnode=-1, dweight=0.0, dw64=0, dtype_=-1, dts=-1)
                    if o == "usample":
                        q["wor"] = rev
                c["ops"].append(q)
        out.append(c)
    return out


def scan_cases(r, beh, temporal, per=16, limit=None):
    """The feature lists and requests of the FeatureScan model: one node per list, all requests on all nodes."""
    arr = {}
    for b in beh:
        key = tuple(x["home"] for x in b["recs"])
        arr.setdefault(key, {})[json.dumps([x["feats"] for x in b["recs"] if x["home"]][0])] = 1
    reqs = sorted({(b["fid"], b["size"]) for b in beh})
    times = sorted({b["t"] for b in beh})
    out = []
    for key, lists in sorted(arr.items()):
        lists = [json.loads(x) for x in sorted(lists)]
        if limit and len(lists) > limit:
            lists = r.sample(lists, limit)
        for k in range(0, len(lists), per):
            parts = [[] for _ in key]
            group = lists[k:k + per]
            for n, fl in enumerate(group):
                bin_ = lambda i, j, m: {"k": "bin", "bytes": [16 * i + j] * m}
                if temporal:
                    fs = [{"k": "temporal", "items": [{"start": v["start"], "val": bin_(i, j + 1, v["len"])} for j, v in enumerate(f)]} if f else {"k": "none"} for i, f in enumerate(fl)]
                else:
                    fs = [bin_(i, 1, f[0]["len"]) if f[0]["len"] else {"k": "none"} for i, f in enumerate(fl)]
                for q, home in enumerate(key):
                    parts[q].append({"id": n, "type": 0 if home else -1, "w64": 64 if home else 0, "feats": fs if home else [],
                                     "edges": [] if home else [{"dst": 0, "type": 0, "w64": 64, "created": 0, "removed": -1, "feats": []}]})
            c = {"ids": list(range(5, 6 + per)), "parts": parts, "temporal": temporal, "storage": r.choice([0, 1]), "servers": [], "load": list(range(len(key))), "tbase": 0, "tscale": 1,
                 "ops": [], "kind": "model-features"}
            nodes = [n for n in range(len(group)) for _ in times]
            ts = [t for _ in group for t in times] if temporal else []
            for f, m in reqs:
                c["ops"].append({"op": "nfeat", "nodes": nodes, "ts": ts, "dtype": "uint8", "feats": [[f, m]]})
            c["ops"].append({"op": "nfeat", "nodes": nodes, "ts": ts, "dtype": "uint8", "feats": [list(x) for x in reqs]})
            c["ops"].append({"op": "nstring", "nodes": nodes, "ts": ts, "dtype": "uint8", "feats": [0, 1, 2]})
            out.append(c)
    return out


def snapshot_cases(r, beh, per=30, limit=None, ops=("counts", "nbrs", "lastn", "wsample", "usample", "usample")):
    """Nodes with one edge group per sequence of lifetimes of the Snapshot model, queried at every time."""
    seqs = [json.loads(x) for x in sorted({json.dumps(b["edges"]) for b in beh})]
    times = sorted({b["t"] for b in beh})
    if limit and len(seqs) > limit:
        seqs = r.sample(seqs, limit)
    out = []
    for k in range(0, len(seqs), per):
        group = seqs[k:k + per]
        part = []
        for n, es in enumerate(group):
            part.append({"id": n, "type": 0, "w64": 64, "feats": [],
                         "edges": [{"dst": j, "type": 1, "w64": 64 * (j + 1), "created": e["created"], "removed": e["removed"], "feats": []} for j, e in enumerate(es)]})
        big = r.random() < 0.5
        c = {"ids": list(range(5, 6 + per)), "parts": [part], "temporal": True, "storage": 0, "servers": [], "load": [0], "tbase": r.choice([0, 2**33]) if big else 0,
             "tscale": r.choice([1, 2**31, 2**32]) if big else 1, "ops": [], "kind": "model-lifetimes"}
        nodes = [n for n in range(len(group)) for _ in times]
        ts = [t for _ in group for t in times]
        for o in ops:
            q = {"op": o, "nodes": nodes, "etypes": [1], "ts": ts, "rts": o != "counts"}
            if o not in ("counts", "nbrs"):
                q.update(count=r.choice([1, 2, 4]), seed=r.randint(0, 2**40), dnode=-1, dweight=0.0, dw64=0, dtype_=-1, dts=-1)
                if o == "usample":
                    q["wor"] = not any(x.get("wor") for x in c["ops"])
            c["ops"].append(q)
        out.append(c)
    return out


def merge_cases(beh, temporal, r):
    """The placements of the Merge model, every query in every reply order."""
    out = []
    orders = sorted({tuple(b["order"]) for b in beh})
    kinds = sorted({b["kind"] for b in beh})
    t = lambda v: {"k": "temporal", "items": [{"start": 1, "val": v}, {"start": 30, "val": {**v, "bytes": [1]} if v["k"] == "bin" else v}]} if temporal else v
    vals = lambda n: [t({"k": "dense", "vals": [[n, 0, 0, 1], [2, 0, n, 0]]}), t({"k": "bin", "bytes": [n, n + 1, n + 2]}),
                      t({"k": "sparse", "dim": 2, "coords": [["1", str(n)], ["7", "8"]], "vals": [[n, 1], [9, 9]]})]
    for home, place in sorted({(b["home"], tuple(b["place"])) for b in beh}):
        parts = [[] for _ in range(3)]
        for p in range(3):
            es = [{"dst": k + 1, "type": k % 2, "w64": 64 * (k + 1), "created": k + 1 if temporal else 0, "removed": -1, "feats": vals(20 + k)} for k in range(3) if place[k] == p]
            es.sort(key=lambda e: e["type"])
            if p == home:
                parts[p].append({"id": 0, "type": 7, "w64": 64, "feats": vals(3), "edges": es})
            elif es:
                parts[p].append({"id": 0, "type": -1, "w64": 0, "feats": [], "edges": es})
        parts[(home + 1) % 3].append({"id": 4, "type": 2, "w64": 64, "feats": vals(60)[:1], "edges": []})
        nodes = [4, 0, 5, 0]
        ts = [9] * 4 if temporal else []
        n = {"nodes": nodes, "ts": ts}
        e = {"src": [4, 0, 0, 0], "dst": [1, 1, 2, 3], "etype": [0, 0, 1, 0], "ts": ts}
        nb = {**n, "etypes": [0, 1], "rts": temporal}
        row = {**nb, "count": 2, "dnode": -1, "dweight": 0.0, "dw64": 0, "dtype_": -1, "dts": -1}
        of = {"types": [{"op": "types", "nodes": nodes, "default": -3}], "counts": [{**nb, "op": "counts"}], "nbrs": [{**nb, "op": "nbrs"}],
              "feature": [{**n, "op": "nfeat", "feats": [[0, 2], [1, 4]], "dtype": "int32"}, {**n, "op": "nstring", "feats": [1, 5], "dtype": "uint8"}, {**n, "op": "nsparse", "feats": [2], "dtype": "int16"}],
              "edge-feature": [{**e, "op": "efeat", "feats": [[0, 2], [1, 1]], "dtype": "int32"}, {**e, "op": "estring", "feats": [1], "dtype": "uint8"}, {**e, "op": "esparse", "feats": [2], "dtype": "int16"}],
              "lastn": [{**row, "op": "lastn", "ts": ts or [9] * 4}] if temporal else [], "weighted": [{**row, "op": "wsample"}], "uniform": [{**row, "op": "usample", "wor": w} for w in (False, True)]}
        c = {"ids": [100, 101, 102, 103, 2**40, 7], "parts": parts, "temporal": temporal, "storage": 0, "servers": [[0], [1], [2]], "load": [0, 1, 2], "tbase": 0, "tscale": 1, "threads": r.choice([1, 3]),
             "ops": [], "kind": "model-placements"}
        for o in orders:
            for k in kinds:
                c["ops"] += [{**q, "order": list(o), "seed": r.randint(0, 2**40)} for q in of[k]]
        out.append(c)
    return out


def split(r, w):
    """Partitions dealt to servers."""
    parts = list(range(len(w["parts"])))
    r.shuffle(parts)
    k = r.randint(1, len(parts))
    out = [[p] for p in parts[:k]]
    for p in parts[k:]:
        r.choice(out).append(p)
    if r.random() < 0.1:
        out.insert(r.randint(0, k), [])  # more servers than partitions
    return out


def some_nodes(r, c, lo=0, hi=6):
    if r.random() < 0.015:
        lo, hi = 65, 90
    return [r.randrange(len(c["ids"])) for _ in range(r.randint(lo, hi))]


def some_types(r, c, hi=6):
    ts = [r.randrange(hi) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5]))]
    if r.random() < 0.2:
        ts = list(range(5))
    return ts


def topology_ops(r, c, k=6, ts=False):
    ops = []
    for _ in range(k):
        nodes = some_nodes(r, c)
        q = {"nodes": nodes, "etypes": some_types(r, c), "ts": [r.randint(0, 14) for _ in nodes] if ts else [], "rts": False}
        o = r.choice(["counts", "nbrs", "nbrs", "counts"] if ts else ["types", "counts", "nbrs", "nbrs", "tcounts"])
        if o == "types":
            q = {"nodes": nodes, "default": r.choice([-1, 77, -5])}
        elif o == "tcounts":
            q = {"ntypes": [r.randint(-1, 7) for _ in range(r.choice([1, 2, 3, 6]))], "etypes": [r.randint(-1, 6) for _ in range(r.randint(1, 4))]}
        elif o == "nbrs" and (r.random() < 0.5 or ts):
            q["rts"] = True
        if o in ("counts", "nbrs") and len(q["etypes"]) == 1 and r.random() < 0.5:
            q["scalar"] = True
        ops.append({"op": o, **q})
    return ops


def edge_triples(r, c, k):
    es = [(e["id"], x["dst"], x["type"]) for p in c["parts"] for e in p for x in e["edges"]]
    out = []
    for _ in range(k):
        if es and r.random() < 0.75:
            out.append(r.choice(es))
        else:
            out.append((r.randrange(len(c["ids"])), r.randrange(len(c["ids"])), r.randrange(5)))
    return out


def feature_ops(r, c, k=6, ts=False):
    ops = []
    for _ in range(k):
        node = r.random() < 0.5
        sch = c["_nsch"] if node else c["_esch"]
        kind = lambda s: s["v"] if s["k"] == "temporal" else s["k"]
        want = r.choice(["dense", "bin", "sparse"] if not sch else [kind(s) for s in sch])
        dts = [s["dtype"] for s in sch if kind(s) == want] or ["float32"]
        dt = r.choice(dts) if want != "bin" else r.choice(["uint8", "int8"])
        fids = [j for j, s in enumerate(sch) if kind(s) == want and (want == "bin" or SIZE[s["dtype"]] == SIZE[dt])] + [len(sch), len(sch) + 3]
        m = r.choice([1, 1, 2, 3])
        feats = [r.choice(fids) for _ in range(m)]
        if node:
            nodes = some_nodes(r, c)
            q = {"nodes": nodes}
            n = len(nodes)
        else:
            tr = edge_triples(r, c, r.randint(0, 5))
            q = {"src": [x[0] for x in tr], "dst": [x[1] for x in tr], "etype": [x[2] for x in tr]}
            n = len(tr)
        q["ts"] = [r.randint(0, 14) for _ in range(n)] if ts else []
        q["dtype"] = dt
        if want == "dense" or (want == "bin" and r.random() < 0.3):
            q.update(op="nfeat" if node else "efeat", feats=[[f, r.choice([1, 2, 3, 5, 8, 40])] for f in feats])
        elif want == "bin":
            q.update(op="nstring" if node else "estring", feats=feats)
        else:
            # a feature listed twice in a sparse request is not answered separately by design of the interface; ask for each once
            q.update(op="nsparse" if node else "esparse", feats=list(dict.fromkeys(feats)))
        ops.append(q)
    return ops


def sample_ops(r, c, k=6, ts=False, kinds=("wsample", "usample", "usample")):
    ops = []
    for _ in range(k):
        nodes = some_nodes(r, c)
        o = r.choice(kinds)
        q = {"op": o, "nodes": nodes, "etypes": some_types(r, c), "ts": [r.randint(0, 14) for _ in nodes] if ts and (o == "lastn" or r.random() < 0.85) else [],
             "count": r.choice([1, 2, 3, 5, 9, 30]) if r.random() < 0.96 or len(nodes) > 9 else r.choice([100, 128, 150]), "seed": r.randint(0, 2**40), "dnode": r.choice([-1, -1, -9]), "dweight": 0.0, "dw64": 0, "dtype_": r.choice([-1, -4, 99]),
             "rts": bool(c["temporal"] and r.random() < 0.6), "dts": -1}
        if r.random() < 0.3:
            q["dweight"], q["dw64"] = 0.5, 32
        if o == "usample":
            q["wor"] = r.random() < 0.5
        ops.append(q)
    return ops


def walk_ops(r, c, k=6, ts=False, kinds=("walk", "ppr")):
    ops = []
    for _ in range(k):
        nodes = some_nodes(r, c)
        o = r.choice(kinds)
        q = {"op": o, "nodes": nodes, "etypes": some_types(r, c), "ts": [r.randint(0, 14) for _ in nodes] if ts and r.random() < 0.85 else [], "dnode": r.choice([-1, -1, -9])}
        if o == "walk":
            q.update(len=r.choice([0, 1, 2, 3, 5, 9]), p=r.choice([1.0, 0.1, 10.0, 0.5]), q=r.choice([1.0, 0.2, 5.0, 2.0]), seed=r.randint(0, 2**40))
        else:
            q.update(count=r.choice([1, 2, 3, 5, 12]), alphaMilli=r.choice([500, 250, 850, 100]), epsMicro=r.choice([10, 100, 1000, 10000, 100000, 300000]), dmicro=r.choice([0, 0, 250000]),
                     loose=len(c["servers"]) > 1)
        ops.append(q)
    return ops


def pool(c, elem, types):
    """What can be drawn: per element (partition, element, type) its weight."""
    out = {}
    for q in c["load"]:
        for e in c["parts"][q]:
            if elem == "node":
                if e["type"] in types:
                    out[q, e["id"], e["type"]] = e["w64"]
            else:
                for x in e["edges"]:
                    if x["type"] in types:
                        out[q, (e["id"], x["dst"]), x["type"]] = out.get((q, (e["id"], x["dst"]), x["type"]), 0) + x["w64"]
    return out


def gsample_op(r, c, elem, types, kinds=("weighted", "uniform", "withoutreplacement"), calls=3, sizes=None):
    p = pool(c, elem, types)
    if not p:
        return None
    out = []
    for _ in range(calls):
        kind = r.choice(kinds)
        if kind == "weighted" and not sum(p.values()):
            kind = "uniform"
        size = r.choice(sizes) if sizes else r.choice([1, 2, 3, 7, 20])
        if kind == "withoutreplacement":
            size = min(size, len(p)) if r.random() < 0.6 else len(p)
        out.append({"kind": kind, "size": size, "seed": r.randint(0, 2**40), "turn": r.random()})
    for t, k in enumerate(sorted(range(len(out)), key=lambda k: out[k]["turn"])):
        out[k]["turn"] = t
    return {"op": "gsample", "elem": elem, "types": types, "calls": out}


def gmany_op(r, c, k=4, **kw):
    ops = []
    nt = sorted({e["type"] for p in c["parts"] for e in p if e["type"] >= 0})
    et = sorted({x["type"] for p in c["parts"] for e in p for x in e["edges"]})
    for _ in range(k):
        elem = r.choice(["node", "edge"])
        have = nt if elem == "node" else et
        if not have:
            continue
        types = r.sample(have, r.randint(1, len(have)))
        if r.random() < 0.2:
            types += [r.choice([-3, 9, 1000])]
        if r.random() < 0.2:
            types += types[:1]
        q = gsample_op(r, c, elem, types, **kw)
        if q:
            q["scalar"] = r.random() < 0.5
            ops.append(q)
    for q in ops:
        for x in q["calls"]:
            x["turn"] = r.randint(0, 1000)
    return [{"op": "gmany", "ops": ops, "api": False}] if ops else []


def quota_cases(r, beh, seeds):
    """Every layout of elements over types and partitions of the Quota model, every wanted number, as nodes and as edges."""
    by = {}
    for b in beh:
        by.setdefault(json.dumps(b["size"]), []).append(b["want"])
    out = []
    for k, wants in sorted(by.items()):
        size = json.loads(k)
        n = sum(map(sum, size))
        parts = [[] for _ in size[0]]
        node = 0
        for t, row in enumerate(size):
            for p, m in enumerate(row):
                for _ in range(m):
                    parts[p].append({"id": node, "type": t, "w64": 64, "feats": [],
                                     "edges": [{"dst": (node + 1) % n, "type": t, "w64": 64, "created": 0, "removed": -1, "feats": []}]})
                    node += 1
        many = len(parts) > 1 and r.random() < 0.5
        w = {"ids": [5 + 3 * i for i in range(n + 1)], "parts": parts, "temporal": False, "storage": 0, "servers": [[p] for p in range(len(parts))] if many else [],
             "load": list(range(len(parts))), "tbase": 0, "tscale": 1, "kind": "model-quota"}
        ops = []
        for elem in ("node", "edge"):
            calls = [{"kind": "withoutreplacement", "size": x, "seed": r.randint(0, 2**40), "turn": 0} for x in sorted(set(wants)) for _ in range(seeds)]
            ops.append({"op": "gsample", "elem": elem, "types": [t for t, row in enumerate(size)], "calls": calls})
        w["ops"] = [{"op": "gmany", "ops": ops, "api": False}]
        out.append(w)
    return out


def run(check, cases, chunk=40, driver="engine.py", module="J_Engine", par=None):
    from vlib import native_lib
    done = check.drive(driver, cases, lib=native_lib(), par=par)
    check.judge(module, done, chunk=chunk)
    return done
