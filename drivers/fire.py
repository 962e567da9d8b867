"""Forest fire samples and metrics of networkx graphs."""
import math, random
import networkx as nx
import numpy as np
import dlib
from deepgnn.graph_engine.snark.preprocess.sampler import forest_fire as ff, metric


def build(case):
    names = case["names"]
    g = nx.MultiDiGraph() if case["multi"] else nx.DiGraph()
    g.add_nodes_from(names[v] for v in case["order"])
    g.add_edges_from((names[a], names[b]) for a, b in case["edges"])
    return g, {x: i for i, x in enumerate(names)}


def fire(case):
    g, back = build(case)
    before = sorted((back[a], back[b]) for a, b in g.edges())
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    try:
        s = ff.forest_fire(g, case["size"])
    except Exception:  # noqa
        return {"got": {"raised": True}}
    same = before == sorted((back[a], back[b]) for a, b in g.edges()) and len(g) == case["n"]
    return {"got": {"raised": False, "nodes": [back.get(x, -1) for x in s.nodes()], "edges": [[back.get(x[0], -1), back.get(x[1], -1)] for x in s.edges()], "same": same}}


def metrics(case):
    g, back = build(case)
    random.seed(case["seed"])
    out, raised = {}, []
    n, m = case["n"], len(case["edges"])

    def take(name, fn):
        try:
            out[name] = fn()
        except Exception:  # noqa
            raised.append(name)

    def dens():
        d = float(metric.densification(g))
        q = max(1, int(math.log(2**31) / math.log(max(n, m, 2))) - 2)
        return {"zero": d == 0.0, "q": q, "lo": max(0, math.floor(q * d - 1e-7)), "hi": math.ceil(q * d + 1e-7)}

    def comp():
        x = float(metric.largest_connected_component(g)) * n
        return [round(x) if abs(x - round(x)) < 1e-6 else -1, n]

    def eig():
        x = complex(metric.max_adjacency(g))
        scale = {1: 1000, 2: 1000, 3: 100}.get(n, 20)
        return {"scale": scale, "lo": math.floor(scale * (x.real - 2e-3)), "hi": math.ceil(scale * (x.real + 2e-3)) + 1}

    take("dens", dens)
    take("comp", comp)
    take("diam", lambda: int(metric.diameter(g)))
    take("eig", eig)
    take("clus", lambda: round(1000 * float(metric.average_clustering(g, case["trials"]))))
    return {"got": dict(out, raised=raised)}


def run(case):
    return fire(case) if case["op"] == "fire" else metrics(case)


dlib.serve(run, 8)
