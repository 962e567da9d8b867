"""Iterates the samplers of every worker and data-parallel shard and records the batches."""
import os, random, shutil, tempfile
import numpy as np
from dlib import serve
from deepgnn.graph_engine import samplers as S
from deepgnn.graph_engine._base import Graph, SamplingStrategy
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset

BASE, FAR = 5000, 70000


class Draws(Graph):
    """A graph that hands out ids and notes how it was asked."""

    def __init__(self, n):
        self.n, self.asked = n, []

    def sample_nodes(self, size, node_types, strategy=None):
        self.asked.append((size, strategy))
        ids = np.full(size, BASE, dtype=np.int64)
        return (ids, np.zeros(size, np.int32)) if isinstance(node_types, np.ndarray) else ids

    def sample_edges(self, size, edge_types, strategy=None):
        self.asked.append((size, strategy))
        return np.full((size, 3), BASE, dtype=np.int64)

    def node_count(self, types):
        return self.n

    edge_count = node_count


Draws.__abstractmethods__ = frozenset()


class Backend:
    def __init__(self, graph):
        self.graph = graph


def write(case, d):
    """The dataset on disk: element k of 0..n-1, spread over the files of the case."""
    kind, n, f = case["sampler"], case["n"], case["files"]
    rows = {
        "nodes": lambda k: "%d" % (BASE + k),
        "edges": lambda k: "%d\t%d" % (BASE + k, FAR + k),
        "edges-features": lambda k: "%d\t%d\t%d\t%d.5" % (BASE + k, FAR + k, k, k),
        "tuples": lambda k: "%d\t%d" % (BASE + k, k),
        "tuples2": lambda k: "%d\t%d.0\t%d %d.5" % (BASE + k, k, k, k),
        "csv": lambda k: "%d,%d" % (BASE + k, k),
        "text": lambda k: "line %d" % k,
    }[kind]
    owner = [k % f for k in range(n)]
    if case["uneven"]:
        r = random.Random(case["seed"])
        owner = [k if k < f else r.randrange(f) for k in range(n)]
    for j in range(f):
        with open(os.path.join(d, "part_%02d.txt" % j), "w") as out:
            out.write("".join(rows(k) + "\n" for k in range(n) if owner[k] == j))


def element(kind, row):
    """Which element a row of a batch is: its number, -1 for padding, -2 for anything else."""
    def known(k, ok):
        return k if ok else -2
    if kind == "text":
        return -1 if row == "" else int(row[5:]) if row.startswith("line ") else -2
    if kind in ("nodes", "range", "draw-nodes"):
        return -1 if row == -1 else int(row) - BASE
    if kind == "edges":
        k = int(row[0]) - BASE
        return -1 if list(row[:2]) == [-1, -1] and row[2] == 7 else known(k, row[1] == FAR + k and row[2] == 7)
    if kind == "edges-features":
        e, f = row
        k = int(e[0]) - BASE
        if list(e) == [-1, -1, 7] and not np.any(f):
            return -1
        return known(k, e[1] == FAR + k and e[2] == 7 and f[0] == k and f[1] == k + 0.5)
    if kind == "tuples":
        k = int(row[0]) - BASE
        return -1 if list(row) == [-1, -1] else known(k, row[1] == k)
    if kind == "tuples2":
        k = int(row[0]) - BASE
        if row[0] == -1 and row[1] == -1 and list(row[2]) == [-1, -1]:
            return -1
        return known(k, row[1] == k and row[2][0] == k and row[2][1] == k + 0.5)
    if kind == "csv":
        k = int(row[0]) - BASE
        return known(k, row[1] == k)
    raise KeyError(kind)


def flat(kind, batch):
    if kind == "range-edges":
        out = []
        for row in batch:
            ok = row[2] == 7 and len(row) == 3
            out += [(-1 if v == -1 else int(v) - BASE) if ok else -2 for v in row[:2]]
        return out
    if kind == "draw-edges":
        return [0 if len(row) == 3 and row[0] == BASE else -2 for row in batch]
    if kind in ("edges-features", "tuples2"):
        if len({len(x) for x in batch}) != 1:
            return [-2]
        return [element(kind, row) for row in zip(*batch)]
    return [element(kind, row) for row in batch]


def make(case, d, x, y, graph):
    kind, b, D = case["sampler"], case["b"], case["D"]
    par = dict(data_parallel_num=D, data_parallel_index=y)
    spread = dict(worker_index=x, num_workers=case["W"])
    common = dict(batch_size=b, epochs=case["E"], shuffle=case["shuffle"], drop_last=case["drop"])
    pattern, single = os.path.join(d, "part_*.txt"), os.path.join(d, "part_00.txt")
    if kind == "nodes":
        cls, kw = S.FileNodeSampler, dict(sample_files=pattern, **common, **spread, **par)
    elif kind == "edges":
        cls, kw = S.FileEdgeSampler, dict(edge_type=7, sample_files=pattern, **common, **spread, **par)
    elif kind == "edges-features":
        cls, kw = S.FileEdgeSampler, dict(edge_type=7, sample_files=pattern, feature_dim=2, **common, **spread, **par)
    elif kind == "tuples":
        cls, kw = S.FileTupleSampler, dict(filename=single, **common, **spread, **par)
    elif kind == "tuples2":
        cls, kw = S.FileTupleSamplerV2, dict(filename=single, **common, **spread, **par)
    elif kind == "csv":
        cls, kw = S.CSVNodeSampler, dict(sample_file=single, batch_size=b, epoch=case["E"], **par)
    elif kind == "range":
        cls, kw = S.RangeNodeSampler, dict(first=BASE, last=BASE + case["n"], batch_size=b, backfill_id=-1, **spread, **par)
    elif kind == "range-edges":
        cls, kw = S.RangeEdgeSampler, dict(edge_type=7, first=BASE, last=BASE + case["n"], batch_size=b // 2, backfill_id=-1, **spread, **par)
    elif kind == "text":
        cls, kw = S.TextFileSampler, dict(store_name="", filename=d, buffer_size=case["buffer"], **common, **spread, **par)
    elif kind in ("draw-nodes", "draw-edges"):
        cls = S.GENodeSampler if kind == "draw-nodes" else S.GEEdgeSampler
        types = np.array([0, 1], np.int32) if case["shuffle"] else 0
        kw = dict(batch_size=b, epochs=case["E"], num_workers=case["W"], strategy=SamplingStrategy.Random, **par)
        kw["node_types" if kind == "draw-nodes" else "edge_types"] = types
        if case["given"]:
            kw["sample_num"] = case["n"]
    if case["via"] == "direct":
        if kind.startswith("draw"):
            kw["graph"] = graph
        return cls(**kw), False
    kw.setdefault("num_workers", 1)
    kw.setdefault("worker_index", 0)
    ds = DeepGNNDataset(cls, lambda g, batch: ("asked", batch), backend=Backend(graph), enable_prefetch=case["via"] == "prefetch", **kw)
    return ds, True


def walk(src, wrapped, kind, limit, over=True):
    out = []
    it = iter(src)
    while len(out) < limit:
        try:
            batch = next(it)
        except StopIteration:
            break
        if wrapped:
            assert batch[0] == "asked"
            batch = batch[1]
        out.append(flat(kind, batch))
    try:
        if over:
            next(it)
            out.append([-3])
    except StopIteration:
        pass
    if hasattr(it, "join"):
        it.join()
    return out


def run(case):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    kind = case["sampler"]
    try:
        if case["files"]:
            write(case, d)
        graph = Draws(case["n"])
        limit = 3 + 3 * case["E"] * case["n"]
        res = []
        for x in range(case["W"]):
            for y in range(case["D"]):
                src, wrapped = make(case, d, x, y, graph)
                np.random.seed(case["seed"])
                random.seed(case["seed"])
                told = -1
                if kind != "text":
                    told = len(src)
                first = walk(src, wrapped, kind, limit)
                if case["left"]:
                    walk(src, wrapped, kind, case["left"], False)
                np.random.seed(case["seed"] + 1)
                again = walk(src, wrapped, kind, limit)
                res.append({"w": x, "i": y, "len": told, "batches": first, "again": again})
                del src
        asked = all(s == case["b"] and st == SamplingStrategy.Random for s, st in graph.asked)
        return {"shards": res, "asked": asked}
    finally:
        shutil.rmtree(d, ignore_errors=True)


serve(run, timeout=60)
