"""Runs the graph operators on the real engine or on a stand-in that returns neighbours in any order."""
import random
import numpy as np
import dlib, engine
from deepgnn.graph_engine import graph_ops, multihop
from deepgnn.graph_engine.snark import client, distributed, local


class Shuffled:
    """Neighbours from a list of edges, in an order of its own for every call."""

    def __init__(self, w):
        self.w, self.r = w, random.Random(w.case["shuffle"])

    def neighbors(self, nodes, edge_types, *a, **k):
        types = set(np.asarray(edge_types).ravel().tolist())
        ids, ws, ts, cnt = [], [], [], []
        for v in np.asarray(nodes).ravel():
            es = [e for e in self.w.case["edges"] if e[0] == self.w.back.get(int(v)) and e[2] in types]
            self.r.shuffle(es)
            ids += [self.w.ids[e[1]] for e in es]
            ws += [e[3] / 64 for e in es]
            ts += [e[2] for e in es]
            cnt.append(len(es))
        return np.array(ids, dtype=np.int64), np.array(ws, dtype=np.float32), np.array(ts, dtype=np.int32), np.array(cnt, dtype=np.uint64)

    def reset(self):
        pass


class World(engine.World):
    def graph(self):
        if self.case["shuffle"]:
            return Shuffled(self)
        if self.servers:
            return distributed.Client(self.hosts, num_threads=1)
        return local.Client(self.dir, list(range(len(self.case["parts"]))), client.PartitionStorageType(self.case.get("storage", 0)))

    def ints(self, a):
        return [[int(x) for x in row] for row in np.asarray(a)]


def query(w, g, q):
    op = q["op"]
    random.seed(q.get("seed", 0))
    if op == "sub":
        nodes, adj, idx = graph_ops.sub_graph(g, w.nid(q["src"]), np.array(q["types"], dtype=np.int32), num_hops=q["hops"], self_loop=q["loop"], undirected=q["undirected"],
                                              return_edges=q["return_edges"])
        whole = np.array_equal(np.asarray(adj), np.asarray(adj).astype(np.int64))
        return {"nodes": w.out(nodes), "adj": w.ints(adj) if whole else [], "idx": [int(x) for x in np.asarray(idx).ravel()]}
    if op == "gram":
        paths = np.array(q["paths"], dtype=np.int64)
        return {"pairs": w.ints(graph_ops.gen_skipgrams(paths, q["left"], q["right"])), "size": int(graph_ops.get_skipgrams_size(paths.shape[1], q["left"], q["right"]))}
    if op == "fanout":
        n, ws, ts = multihop.sample_fanout(g, w.nid(q["nodes"]), [list(x) for x in q["metapath"]], q["fanouts"], w.nid([q["dnode"]])[0] if q["dnode"] >= 0 else -1, q["strategy"])
        return {"nodes": [w.out(x) for x in n], "w": [engine.w64(x) if q["strategy"] == "byweight" else [0] * len(x) for x in ws], "types": [engine.clip(x) for x in ts]}
    if op == "out":
        e, f = graph_ops.sample_out_edges(g, w.nid(q["nodes"]), np.array(q["types"], dtype=np.int32), q["count"], q["strategy"],
                                          np.array([[0, 1]], dtype=np.int32) if q["feats"] else None, np.uint8)
        return {"edges": [[w.out([x[0]])[0], w.out([x[1]])[0], int(x[2])] for x in e], "feats": [] if f is None else [int(x[0]) for x in f]}
    try:
        nodes, adj = multihop.get_neighbor(g, w.nid(q["nodes"]), [np.array(x, dtype=np.int32) for x in q["metapath"]], q["max"])
    except UserWarning:
        return {"raised": True}
    return {"raised": False, "nodes": [{"ids": w.out(x[0]), "len": int(x[1][0])} for x in nodes],
            "adj": [{"idx": w.ints(a[0]), "w": engine.w64(a[1]), "shape": [int(x) for x in a[2]], "len": int(a[3][0])} for a in adj]}


def run(case):
    w = World({**case, "skip_graph": case["shuffle"] or not case["servers"], "late_client": True})
    g = w.graph()
    try:
        return {"ans": [query(w, g, q) for q in case["ops"]]}
    finally:
        g.reset()
        w.g = None
        w.close()


if __name__ == "__main__":
    dlib.serve(run, 60)
