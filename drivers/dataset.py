"""Builds the bundled kinds of datasets from made-up raw files and records the graph a client then sees."""
import functools, http.server, json, os, shutil, tempfile, threading, warnings, zipfile
import dlib
import numpy as np

warnings.simplefilter("ignore")
os.environ["no_proxy"] = "*"
from deepgnn.graph_engine.data.cora import CoraFull  # noqa
from deepgnn.graph_engine.data.citeseer import CiteseerFull  # noqa
from deepgnn.graph_engine.data.ppi import PPI  # noqa
from deepgnn.graph_engine.data.reddit import Reddit  # noqa

DIMS = {"cora": 1433, "citeseer": 3703}
PLACE = {"cora": "cora/cora", "citeseer": "citeseer-doc-classification/citeseer"}


class Quiet(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *a):
        pass


def papers(case, at):
    """Raw files of the citation graphs."""
    dim = DIMS[case["kind"]]
    content, cites = "", ""
    for n in case["nodes"]:
        row = ["0"] * dim
        for k, v in n["feats"]:
            row[k] = str(v // 2) if v % 2 == 0 else str(v / 2)
        content += n["_name"] + "\t" + "\t".join(row) + "\t" + n["_label"] + "\n"
    name = {n["id"]: n["_name"] for n in case["nodes"]}
    for a, b in case["_lines"]:
        cites += "%s\t%s\n" % (name.get(a, "nobody%d" % a), name.get(b, "nobody%d" % b))
    with zipfile.ZipFile(at, "w") as z:
        z.writestr(PLACE[case["kind"]] + ".content", content)
        z.writestr(PLACE[case["kind"]] + ".cites", cites)


def proteins(case, at):
    kind = case["kind"]
    nodes = case["nodes"]
    inner = {n["id"]: n["_raw"] for n in nodes}
    feats = np.zeros((len(nodes), case["dim"]))
    for n in nodes:
        feats[n["id"]] = n["_x"]
    g = {"nodes": [{"id": n["_raw"], "test": n["split"] == 2, "val": n["split"] == 1 or n["_both"]} for n in nodes],
         "links": [{"source": inner[a] if kind == "ppi" else a, "target": inner[b] if kind == "ppi" else b} for a, b in case["_lines"]]}
    tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    np.save(os.path.join(tmp, "f.npy"), feats)
    with zipfile.ZipFile(at, "w") as z:
        z.writestr("%s/%s-G.json" % (kind, kind), json.dumps(g))
        z.writestr("%s/%s-id_map.json" % (kind, kind), json.dumps({str(n["_raw"]): n["id"] for n in nodes}))
        z.writestr("%s/%s-class_map.json" % (kind, kind), json.dumps({str(n["_raw"]): n["_class"] for n in nodes}))
        z.write(os.path.join(tmp, "f.npy"), "%s/%s-feats.npy" % (kind, kind))
    shutil.rmtree(tmp)


def build(case, top):
    out = os.path.join(top, "out")
    os.makedirs(out)
    if case["kind"] in DIMS:
        at = os.path.join(top, "raw.zip")
        papers(case, at)
        k = {}
        if case["kind"] == "cora":
            k["num_partitions"] = case["parts"]
        server = None
        url = at
        if case["_web"]:
            server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(Quiet, directory=top))
            threading.Thread(target=server.serve_forever, daemon=True).start()
            url = "http://127.0.0.1:%d/raw.zip" % server.server_port
        try:
            g = (CoraFull if case["kind"] == "cora" else CiteseerFull)(out, case["ratio"] / 8, case["random"], url=url, **k)
        finally:
            if server:
                server.shutdown()
                server.server_close()
    else:
        os.makedirs(os.path.join(out, "raw"))
        proteins(case, os.path.join(out, "raw", case["kind"] + ".zip"))
        if case["kind"] == "ppi":
            g = PPI(out, num_partitions=case["parts"])
        else:
            g = Reddit(out, edge_downsample_pct=case["share"] / 8, num_partitions=case["parts"])
    return g, out


def values(row):
    return [[int(k), round(float(row[k]) * 2)] for k in np.nonzero(np.abs(row) > 1e-6)[0]]


def look(case, g):
    ids = np.array([n["id"] for n in case["nodes"]], dtype=np.int64)
    f, lab = (0, 1) if case["kind"] in DIMS else (1, 0)
    dim = DIMS.get(case["kind"], case["dim"])
    types = g.node_types(ids)
    feats = g.node_features(ids, np.array([[f, dim]], dtype=np.int32), np.float32)
    label = g.node_features(ids, np.array([[lab, case["classes"]]], dtype=np.int32), np.float32)
    return [{"type": int(types[k]), "feats": values(feats[k]), "label": [round(float(v) * 2) for v in label[k]]} for k in range(len(ids))]


def run(case):
    top = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    os.chdir(top)
    blank = {"seen": [], "again": [], "edges": [], "weights": True, "ncount": [0] * 3, "ecount": [0] * 2, "lists": [], "attrs": True}
    try:
        try:
            g, out = build(case, top)
        except Exception as e:
            return dict(blank, raised=type(e).__name__, text=str(e)[:200])
        seen = look(case, g)
        ids = np.array([n["id"] for n in case["nodes"]], dtype=np.int64)
        edges, weights = [], True
        for k in (0, 1):
            nbs, ws, ts, counts = g.neighbors(ids, k)
            pos = 0
            for x, n in zip(ids, counts):
                for j in range(pos, pos + int(n)):
                    edges.append([int(x), int(ts[j]) if int(ts[j]) != k else k, int(nbs[j])])
                    weights = weights and float(ws[j]) == 1.0 and int(ts[j]) == k
                pos += int(n)
        lists = []
        names = [("train", 0), ("test", 1)] if case["kind"] in DIMS else [("train", 0), ("val", 1), ("test", 2)]
        for n, k in names:
            with open(os.path.join(out, n + ".nodes")) as f:
                lists.append({"name": n, "kind": k, "ids": [int(x) for x in f.read().split()]})
        with open(os.path.join(out, "meta.json")) as f:
            m = json.load(f)
        have = lambda k, what: k < m[what]  # noqa
        ncount = [int(g.node_count(k)) if have(k, "node_type_count") else 0 for k in range(3)]
        ecount = [int(g.edge_count(k)) if have(k, "edge_type_count") else 0 for k in range(2)]
        attrs = case["kind"] in DIMS or (g.NUM_NODES == len(ids) and g.FEATURE_DIM == case["dim"] and g.NUM_CLASSES == case["classes"])
        g.reset()
        again = seen
        if case["twice"]:
            os.chdir("/")
            shutil.rmtree(top)
            os.makedirs(top)
            os.chdir(top)
            g, out = build(case, top)
            again = look(case, g)
            g.reset()
        return {"raised": "", "seen": seen, "again": again, "edges": edges, "weights": weights, "ncount": ncount, "ecount": ecount, "lists": lists, "attrs": bool(attrs)}
    finally:
        os.chdir("/")
        shutil.rmtree(top, ignore_errors=True)


dlib.serve(run, timeout=120)
