import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

TRIALS, TOL = 4000, 40  # five standard deviations


def graph(r, n, edges, multi):
    names = r.choice([list(range(n)), list(range(1, n + 1)), r.sample(range(10**6), n), ["n%d" % k for k in range(n)]])
    order = list(range(n))
    r.shuffle(order)
    return {"n": n, "edges": [list(e) for e in edges], "multi": multi, "names": names, "order": order, "seed": r.randint(0, 2**31)}


def random_edges(r, n, multi, loops=True):
    p = r.choice([0.05, 0.2, 0.5, 0.9])
    es = [(a, b) for a in range(n) for b in range(n) if r.random() < p and (loops or a != b)]
    if multi:
        es += [r.choice(es) for _ in range(r.randint(0, 3))] if es else []
    r.shuffle(es)
    return es


def run(c):
    r = c.rng
    c.model("Fire", "Fire_mc.cfg")
    c.model("Fire", "Fire_pairs.cfg", name="Fire-pairs", expect_violation="NotMore")
    c.model("Fire", "Fire_alone.cfg", name="Fire-alone", expect_violation="Ends")
    graphs = c._printed(c.model("Fire", "Fire_wide.cfg", name="Fire-wide"), "BEH")
    cases = []
    for es in sorted(graphs):
        for size in (1, 2, 3, 4):
            for _ in range(c.pick(1, 8)):
                cases.append(dict(graph(r, 3, es, False), op="fire", size=size, kind="model-fire"))
        cases.append(dict(graph(r, 3, es, False), op="metric", trials=TRIALS, tol=TOL, kind="model-metric"))
    for _ in range(c.pick(1500, 20000)):
        n = r.choice([1, 2, 4, 6, 9, 15, 30])
        multi = r.random() < 0.3
        cases.append(dict(graph(r, n, random_edges(r, n, multi), multi), op="fire", size=r.choice([r.randint(1, n), n, n - 1 or 1, n + 1]), kind="random-fire"))
    for _ in range(c.pick(400, 4000)):
        n = r.choice([1, 2, 4, 4, 5, 6])
        multi = r.random() < 0.3
        cases.append(dict(graph(r, n, random_edges(r, n, multi, r.random() < 0.3), multi), op="metric", trials=TRIALS, tol=TOL, kind="random-metric"))
    for _ in range(c.pick(60, 600)):  # few trials are enough where all nodes agree
        n = r.choice([3, 4, 5, 6])
        es = [(a, b) for a in range(n) for b in range(n) if a != b] if r.random() < 0.7 else [(0, b) for b in range(1, n)]
        cases.append(dict(graph(r, n, es, False), op="metric", trials=r.choice([1, 2, 3, n, 10]), tol=1000, kind="few-trials"))
    r.shuffle(cases)
    c.judge("J_Fire", c.drive("fire.py", cases), chunk=300)
    c.assumptions = ["graphs have a node", "clustering of graphs without self loops, estimated with %d trials to %d thousandths" % (TRIALS, TOL), "eigenvalues of up to 4 nodes"]


main("P01", run)
