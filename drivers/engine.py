"""Runs queries against the real engine (local or distributed) over partitions written by storewriter."""
import ctypes, os, random, shutil, sys, tempfile, threading
import numpy as np
from concurrent.futures import ThreadPoolExecutor
import dlib, storewriter
from deepgnn.graph_engine import SamplingStrategy
from deepgnn.graph_engine.snark import client, distributed, local, server

LIB = ctypes.CDLL(os.environ["SNARK_LIB_PATH"])
DT = {"float32": np.float32, "float64": np.float64, "float16": np.float16, "uint64": np.uint64, "int64": np.int64, "uint32": np.uint32,
      "int32": np.int32, "uint16": np.uint16, "int16": np.int16, "uint8": np.uint8, "int8": np.int8, "double": np.float64}
HOSTS = [0]


def apart(root, p):
    """Moves the files of a partition into a folder of its own."""
    d = os.path.join(root, f"part{p}")
    os.mkdir(d)
    for n in os.listdir(root):
        if n.endswith(f"_{p}_0.{n.split('.')[-1]}") or n.endswith(f"_{p}.alias"):
            os.rename(os.path.join(root, n), os.path.join(d, n))
    return d


class Api:
    """The graph interface models use, asked like the engine below it."""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, name):
        return getattr(self.c.graph, name)  # what the interface does not offer

    def reset(self):
        self.c.reset()

    @staticmethod
    def of(types):
        return types if isinstance(types, int) else np.array(types, dtype=np.int32)

    def node_types(self, nodes, default):
        assert default == -1
        return self.c.node_types(nodes)

    def neighbor_counts(self, nodes, types, ts):
        return self.c.neighbor_count(nodes, self.of(types), timestamps=ts)

    def neighbors(self, nodes, types, ts, rts):
        return self.c.neighbors(nodes, self.of(types), ts, rts)

    def get_node_type_count(self, types):
        return self.c.node_count(types[0] if len(types) == 1 else self.of(types))

    def get_edge_type_count(self, types):
        return self.c.edge_count(types[0] if len(types) == 1 else self.of(types))

    def node_features(self, nodes, f, dtype, ts):
        return self.c.node_features(nodes, f, dtype, ts)

    def edge_features(self, src, dst, types, f, dtype, ts):
        return self.c.edge_features(np.stack([src, dst, types.astype(np.int64)], axis=1), f, dtype, ts)

    def drawn(self, nodes, types, count, strategy, seed, **kw):
        random.seed(seed)
        return self.c.sample_neighbors(nodes, self.of(types), count, strategy, **kw)

    def lastn_neighbors(self, nodes, types, timestamps, count, default_node, default_weight, default_edge_type, default_timestamp, return_edge_created_ts):
        assert default_timestamp == -1
        return self.drawn(nodes, types, count, "lastn", 0, default_node=default_node, default_weight=default_weight, default_edge_type=default_edge_type, timestamps=timestamps,
                          return_edge_created_ts=return_edge_created_ts)

    def weighted_sample_neighbors(self, nodes, types, count, seed, **kw):
        return self.drawn(nodes, types, count, "byweight", seed, **kw)

    def uniform_sample_neighbors(self, wor, nodes, types, count, default_type, seed, return_edge_created_ts=False, **kw):
        r = self.drawn(nodes, types, count, "randomwithoutreplacement" if wor else "random", seed, default_edge_type=default_type, return_edge_created_ts=return_edge_created_ts, **kw)
        return (r[0], r[2]) + ((r[3],) if return_edge_created_ts else ())

    def random_walk(self, nodes, types, walk_len, p, q, default_node, seed, timestamps):
        random.seed(seed)
        return self.c.random_walk(nodes, self.of(types), walk_len, p, q, default_node, timestamps)

    def ppr_neighbors(self, nodes, types, count, alpha, eps, default_node, default_weight, timestamps):
        return self.drawn(nodes, types, count, "ppr-go", 0, default_node=default_node, default_weight=default_weight, alpha=alpha, eps=eps, timestamps=timestamps)[:2]

    def elements(self, elem, types, kind, size, seed):
        random.seed(seed)
        how = {"weighted": SamplingStrategy.Weighted, "uniform": SamplingStrategy.Random, "withoutreplacement": SamplingStrategy.RandomWithoutReplacement}[kind]
        if elem == "node":
            return self.c.sample_nodes(size, self.of(types), how)
        r = self.c.sample_edges(size, self.of(types), how)
        return r[:, 0], r[:, 1], r[:, 2]


class World:
    def __init__(self, case):
        self.case = case
        self.ids = case["ids"]
        self.back = {storewriter.s64(x): i for i, x in enumerate(self.ids)}
        self.base, self.scale = case.get("tbase", 0), case.get("tscale", 1)
        self.dir = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        storewriter.write(self.dir, case, self.ids, self.time)
        kind = client.PartitionStorageType(case.get("storage", 0))
        root, home = self.place()
        self.servers = []
        if case.get("skip_graph"):
            self.g = None
        elif case["servers"]:
            self.hosts = []
            for ps in case["servers"]:
                HOSTS[0] += 1
                self.hosts.append(f"h{HOSTS[0]}:1")
                if case.get("api"):
                    self.servers.append(distributed.Server(self.hosts[-1], root, len(self.servers), len(case["servers"]), storage_type=kind))
                else:
                    self.servers.append(server.Server(root, [(home[p], p) for p in ps], self.hosts[-1], storage_type=kind))
            LIB.VShimOrder(b"")
            self.g = None
            if not case.get("late_client"):
                self.connect()
        elif case.get("api"):
            self.g = Api(local.Client(root, list(case["load"]), kind))
        else:
            self.g = client.MemoryGraph(root, [(home[p], p) for p in case.get("load", range(len(case["parts"])))], storage_type=kind)

    def place(self):
        """Where the metadata and every partition are."""
        case = self.case
        return self.dir, [apart(self.dir, p) if case.get("apart") else self.dir for p in range(len(case["parts"]))]

    def connect(self):
        case = self.case
        if case.get("api"):
            self.g = Api(distributed.Client(self.hosts, num_threads=case.get("threads", 1), num_cq_per_thread=case.get("cqs", 1), grpc_options=case.get("grpc_options")))
            return
        self.g = client.DistributedGraph(self.hosts, num_threads=case.get("threads", 1), num_cq_per_thread=case.get("cqs", 1), grpc_options=case.get("grpc_options"))

    def time(self, r):
        return self.base + r * self.scale

    def rank(self, t):
        t = int(t)
        if t == -1:
            return -1
        d = t - self.base
        return d // self.scale if d % self.scale == 0 and 0 <= d // self.scale < 10**6 else -99

    def nid(self, x):
        """Node arguments: index of a graph node, or of the unknown ids after them."""
        return np.array([storewriter.s64(self.ids[i]) for i in x], dtype=np.int64)

    def out(self, a):
        return [self.back.get(int(x), -2 if int(x) != -1 else -1) for x in np.asarray(a).ravel()]

    def ts(self, q):
        if not q.get("ts") and q["op"] != "lastn":
            return None
        t = [self.time(r) for r in q["ts"]]
        return t if q.get("tlist") else np.array(t, dtype=np.int64)

    def close(self):
        if self.g is not None:
            self.g.reset()
        for s in self.servers:
            s.reset()
        shutil.rmtree(self.dir, True)


def w64(a):
    out = []
    for x in np.asarray(a, dtype=np.float64).ravel():
        y = x * 64
        out.append(int(y) if np.isfinite(y) and y == int(y) and abs(y) < 2**30 else -77)
    return out


def chunk(a, n):
    return [a[i:i + n] for i in range(0, len(a), n)] if n else []


def by(a):
    return list(np.ascontiguousarray(a).tobytes())


def clip(x):
    """Numbers the specification can hold; anything else can only be a wrong answer."""
    return [int(v) if abs(int(v)) < 2**31 - 1 else -88 for v in np.asarray(x).ravel()]


def types_arg(q):
    return q["etypes"][0] if q.get("scalar") else list(q["etypes"])


def sparse(w, r, n, dim_of):
    ind, val, dims = r
    return {"rows": [[[str(int(x)) for x in row] for row in np.asarray(i).reshape((len(i), -1))] if len(i) else [] for i in ind],
            "vals": [by(v) for v in val], "dims": clip(dims)}


def query(w, q):
    g, op = w.g, q["op"]
    if op == "types":
        return {"types": clip(g.node_types(w.nid(q["nodes"]), q["default"]))}
    if op == "counts":
        return {"counts": clip(g.neighbor_counts(w.nid(q["nodes"]), types_arg(q), w.ts(q)))}
    if op == "nbrs":
        r = g.neighbors(w.nid(q["nodes"]), types_arg(q), w.ts(q), q["rts"])
        cnt = clip(r[3])
        return {"ids": w.out(r[0]), "w": w64(r[1]), "types": clip(r[2]), "counts": cnt, "created": [w.rank(t) for t in r[4]] if q["rts"] else []}
    if op == "tcounts":
        return {"nodes": int(g.get_node_type_count(q["ntypes"])), "edges": int(g.get_edge_type_count(q["etypes"])),
                "total": [int(g.meta.node_count), int(g.meta.edge_count)]}
    if op in ("nfeat", "efeat"):
        f = np.array(q["feats"], dtype=np.int32)
        if op == "nfeat":
            r = g.node_features(w.nid(q["nodes"]), f, DT[q["dtype"]], w.ts(q))
        else:
            r = g.edge_features(w.nid(q["src"]), w.nid(q["dst"]), np.array(q["etype"], dtype=np.int32), f, DT[q["dtype"]], w.ts(q))
        n = len(q["nodes"] if op == "nfeat" else q["src"])
        return {"shape": list(r.shape), "isize": r.itemsize, "bytes": [by(x) for x in r] if n else []}
    if op in ("nsparse", "esparse"):
        f = np.array(q["feats"], dtype=np.int32)
        if op == "nsparse":
            r = g.node_sparse_features(w.nid(q["nodes"]), f, DT[q["dtype"]], w.ts(q))
        else:
            r = g.edge_sparse_features(w.nid(q["src"]), w.nid(q["dst"]), np.array(q["etype"], dtype=np.int32), f, DT[q["dtype"]], w.ts(q))
        return sparse(w, r, 0, None)
    if op in ("nstring", "estring"):
        f = np.array(q["feats"], dtype=np.int32)
        if op == "nstring":
            v, d = g.node_string_features(w.nid(q["nodes"]), f, DT[q["dtype"]], w.ts(q))
        else:
            v, d = g.edge_string_features(w.nid(q["src"]), w.nid(q["dst"]), np.array(q["etype"], dtype=np.int32), f, DT[q["dtype"]], w.ts(q))
        isize = np.dtype(DT[q["dtype"]]).itemsize
        return {"bytes": by(v), "dims": [clip(x) for x in d * isize]}
    n = len(q.get("nodes", []))
    if op == "lastn":
        r = g.lastn_neighbors(w.nid(q["nodes"]), types_arg(q), w.ts(q), q["count"], **dflt(q, "node", "weight", "edge_type", "timestamp"), return_edge_created_ts=q["rts"])
        return table(w, q, n, r[0], r[2], r[1], r[3] if q["rts"] else None)
    if op == "wsample":
        r = g.weighted_sample_neighbors(w.nid(q["nodes"]), types_arg(q), q["count"], seed=q["seed"], timestamps=w.ts(q), **dflt(q, "node", "weight", "edge_type"),
                                        return_edge_created_ts=q["rts"])
        return table(w, q, n, r[0], r[2], r[1], r[3] if q["rts"] else None)
    if op == "usample":
        r = g.uniform_sample_neighbors(q["wor"], w.nid(q["nodes"]), types_arg(q), q["count"], default_node=q["dnode"], default_type=q["dtype_"], seed=q["seed"],
                                       timestamps=w.ts(q), return_edge_created_ts=q["rts"])
        return table(w, q, n, r[0], r[1], None, r[2] if q["rts"] else None)
    if op == "walk":
        r = g.random_walk(w.nid(q["nodes"]), types_arg(q), q["len"], q["p"], q["q"], default_node=q["dnode"], seed=q["seed"], timestamps=w.ts(q))
        return {"shape": list(r.shape), "ids": [out_d(w, q, x) for x in r]}
    if op == "ppr":
        args = dict(default_node=q["dnode"], default_weight=q["dmicro"] / 10**6, timestamps=w.ts(q))
        r = g.ppr_neighbors(w.nid(q["nodes"]), types_arg(q), q["count"], q["alphaMilli"] / 1000, q["epsMicro"] / 10**6, **args)
        f = g.ppr_neighbors(w.nid(q["nodes"]), types_arg(q), len(w.ids) + 8, q["alphaMilli"] / 1000, q["epsMicro"] / 10**6, **args)
        full = [[[i, micro(v)] for i, v, raw in zip(out_d(w, q, x), y, x) if raw != q["dnode"]] for x, y in zip(f[0], f[1])]
        return {"shape": list(r[0].shape), "ids": [out_d(w, q, x) for x in r[0]], "w": [[micro(v) for v in x] for x in r[1]], "full": full}
    if op == "gmany":
        return gmany(w, q)
    raise AssertionError(op)


def gmany(w, q):
    """Several samplers of one graph, created first and then called in the order given by the calls' turns."""
    if q["api"]:
        return facade(w, q)
    made = {}
    for k, s in enumerate(q["ops"]):
        cls = client.NodeSampler if s["elem"] == "node" else client.EdgeSampler
        for kind in sorted({x["kind"] for x in s["calls"]}):
            made[k, kind] = cls(w.g, s["types"] if len(s["types"]) > 1 or not s.get("scalar") else s["types"][0], kind)
    turns = sorted((x["turn"], k, j) for k, s in enumerate(q["ops"]) for j, x in enumerate(s["calls"]))
    out = [[None] * len(s["calls"]) for s in q["ops"]]
    for _, k, j in turns:
        x = q["ops"][k]["calls"][j]
        out[k][j] = drawn(w, made[k, x["kind"]].sample(x["size"], x["seed"]))
    return out


def drawn(w, r):
    els = [[w.back.get(int(v), -2) for v in x] for x in zip(*r[:-1])]
    return {"els": els, "types": clip(r[-1])}


def facade(w, q):
    """The same through the graph interface models use, which keeps samplers for later calls."""
    if w.servers:
        g = Api(distributed.Client(w.hosts, num_threads=1))
    else:
        g = Api(local.Client(w.dir, list(w.case["load"]), client.PartitionStorageType(w.case.get("storage", 0))))
    try:
        turns = sorted((x["turn"], k, j) for k, s in enumerate(q["ops"]) for j, x in enumerate(s["calls"]))
        out = [[None] * len(s["calls"]) for s in q["ops"]]
        for _, k, j in turns:
            s, x = q["ops"][k], q["ops"][k]["calls"][j]
            if s.get("scalar") and s["elem"] == "edge" and len(s["types"]) == 1:
                out[k][j] = drawn(w, g.elements("edge", s["types"][0], x["kind"], x["size"], x["seed"]))
            else:
                out[k][j] = drawn(w, g.elements(s["elem"], s["types"], x["kind"], x["size"], x["seed"]))
        return out
    finally:
        g.reset()


def micro(v):
    v = float(v)
    return round(v * 10**6) if v == v and abs(v) < 2000 else -88


def dflt(q, *names):
    m = {"node": "dnode", "weight": "dweight", "edge_type": "dtype_", "timestamp": "dts"}
    return {"default_" + k: q[m[k]] for k in names}


def out_d(w, q, a):
    """Node results: index; -1 for the default node."""
    return [-1 if int(x) == q["dnode"] else w.back.get(int(x), -2) for x in np.asarray(a).ravel()]


def table(w, q, n, nodes, types, weights, ts):
    c = q["count"]
    return {"shape": list(nodes.shape), "ids": [out_d(w, q, nodes[i]) for i in range(n)], "types": [clip(types[i]) for i in range(n)],
            "w": [w64(weights[i]) for i in range(n)] if weights is not None else [],
            "created": [[-1 if int(t) == q.get("dts", -1) else w.rank(t) for t in ts[i]] for i in range(n)] if ts is not None else []}


def ordered(w, order, fn, after=2):
    """Replies of the servers reach the client in this order; a query that does not ask them all is let through after a while."""
    if not order:
        return fn()
    LIB.VShimOrder("|".join(w.hosts[i] for i in order).encode())
    free = threading.Timer(after, lambda: LIB.VShimOrder(b""))
    free.daemon = True
    free.start()
    try:
        return fn()
    finally:
        free.cancel()
        LIB.VShimOrder(b"")


def run(case):
    w = World(case)
    try:
        ans = []
        if case.get("parallel"):
            with ThreadPoolExecutor(case["parallel"]) as ex:
                return {"ans": list(ex.map(lambda q: query(w, q), case["ops"]))}
        for q in case["ops"]:
            ans.append(ordered(w, q.get("order", case.get("order")), lambda: query(w, q)) if w.servers else query(w, q))
        return {"ans": ans}
    finally:
        w.close()


if __name__ == "__main__":
    dlib.serve(run, 60)
