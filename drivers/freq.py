"""Counts what the real engine draws over many repetitions of a query."""
import random
import numpy as np
import dlib
from collections import Counter
from engine import World, client, types_arg


def near(w, q):
    rows, per = q["rows"], q["per"]
    r = random.Random(q["seed"])
    c = Counter()
    nodes = np.repeat(w.nid(q["nodes"]), per)
    ts = np.repeat(w.ts(q), per) if q["ts"] else None
    for _ in range(rows // per):
        seed = r.getrandbits(62)
        if q["op"] == "wsample":
            res = w.g.weighted_sample_neighbors(nodes, types_arg(q), q["count"], seed=seed, timestamps=ts, default_node=-1, default_edge_type=-1)
            ids, types = res[0], res[2]
        else:
            res = w.g.uniform_sample_neighbors(q["wor"], nodes, types_arg(q), q["count"], default_node=-1, default_type=-1, seed=seed, timestamps=ts)
            ids, types = res[0], res[1]
        pair = np.stack([ids.ravel(), types.ravel().astype(np.int64)])
        u, n = np.unique(pair, axis=1, return_counts=True)
        for k in range(len(n)):
            c[int(u[0, k]), int(u[1, k])] += int(n[k])
    return {"rows": rows // per * per, "got": [[[w.back.get(a, -2) if a != -1 else -1, t], n] for (a, t), n in sorted(c.items())]}


def everywhere(w, q):
    r = random.Random(q["seed"])
    cls = client.NodeSampler if q["elem"] == "node" else client.EdgeSampler
    s = cls(w.g, q["types"], q["kind"]) if not w.case.get("api") else None
    c = Counter()
    batch = []

    def count():
        u, n = np.unique(np.concatenate(batch, axis=1), axis=1, return_counts=True)
        for k in range(len(n)):
            c[tuple(int(x) for x in u[:, k])] += int(n[k])
        batch.clear()
    for _ in range(q["rows"]):
        seed = r.getrandbits(62)
        res = s.sample(q["size"], seed) if s else w.g.elements(q["elem"], q["types"], q["kind"], q["size"], seed)
        batch.append(np.stack([np.asarray(x).astype(np.int64) for x in res]))
        if len(batch) == 1000:
            count()
    if batch:
        count()
    return {"rows": q["rows"], "got": [[[[w.back.get(x, -2) for x in k[:-1]], k[-1]], n] for k, n in sorted(c.items())]}


def walk(w, q):
    r = random.Random(q["seed"])
    rows, per = q["rows"], q["per"]
    first, got = Counter(), Counter()
    nodes = np.repeat(w.nid(q["nodes"]), per)
    ts = np.repeat(w.ts(q), per) if q["ts"] else None
    for _ in range(rows // per):
        res = w.g.random_walk(nodes, types_arg(q), q["len"], q["pnum"] / q["pden"], q["pother"] / q["qden"], default_node=-1, seed=r.getrandbits(62), timestamps=ts)
        u, n = np.unique(res[:, 1], return_counts=True)
        for x, m in zip(u, n):
            first[w.back.get(int(x), -2)] += int(m)
        for k in range(res.shape[1] - 2):
            u, n = np.unique(res[:, k:k + 3], axis=0, return_counts=True)
            for x, m in zip(u, n):
                got[tuple(w.back.get(int(y), -2) for y in x)] += int(m)
    return {"rows": rows // per * per, "first": [[k, n] for k, n in sorted(first.items())], "got": [[list(k), n] for k, n in sorted(got.items())]}


def run(case):
    w = World(case)
    try:
        return {"ans": [walk(w, q) if q["op"] == "walk" else everywhere(w, q) if q["op"] == "gfreq" else near(w, q) for q in case["ops"]]}
    finally:
        w.close()


if __name__ == "__main__":
    dlib.serve(run, 120)
