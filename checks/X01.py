import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def links(r, ids, kind):
    m = r.choice([0, 1, 2, 4, 8, 15])
    some = r.sample(ids, r.randint(1, len(ids)))
    out = []
    for _ in range(m):
        a, b = r.choice(some), r.choice(ids)
        if r.random() < 0.5:
            a, b = b, a
        out.append([a, b])
        if out and r.random() < 0.25:
            x = r.choice(out)
            out.append(r.choice([x, x[::-1]]))
    return out


def papers(r, kind):
    n = r.choice([1, 2, 3, 5, 8, 9, 12, 25])
    dim = {"cora": 1433, "citeseer": 3703}[kind]
    labels = ["L%d" % k for k in r.sample(range(20), r.choice([1, 2, 3, 7]))]
    names = r.sample(range(1, 99999), n)
    order, nodes = [], []
    for k in range(n):
        lb = r.choice(labels)
        if lb not in order:
            order.append(lb)
        where = sorted(set([r.choice([0, 1, 2, dim - 1, dim - 2, r.randrange(dim)]) for _ in range(r.choice([0, 1, 3, 10]))]))
        nodes.append(dict(id=k + 1, feats=[[w, r.choice([2, 2, 2, 1, 5, -2])] for w in where], label=[2 * order.index(lb)], split=-1,
                          _name=r.choice(["%d", "p%d"]) % names[k], _label=lb))
    ids = list(range(1, n + 1))
    ls = links(r, ids, kind)
    lines = list(ls)
    if kind == "citeseer":  # papers nobody knows
        for _ in range(r.choice([0, 0, 1, 3])):
            lines.insert(r.randint(0, len(lines)), r.choice([[900 + r.randint(0, 9), r.choice(ids)], [r.choice(ids), 900], [901, 902]]))
    ratio = r.choice([8, 8, 4, 6, 2, 7, 1, 0])
    rnd = r.random() < 0.4
    return dict(kind=kind, nodes=nodes, links=ls, _lines=lines, ratio=ratio, random=rnd, trainers=n * ratio // 8, first=not rnd, bags=False, some=False,
                parts=r.choice([1, 1, 2, 3]) if kind == "cora" else 1, dim=dim, classes=1, twice=rnd and r.random() < 0.5, share=8,
                _web=r.random() < 0.15)


def proteins(r, kind):
    half = r.choice([1, 1, 2, 3])
    others = r.choice([0, 1, 2, 5])
    n = 2 * half + others
    dim, classes = r.choice([1, 2, 5]), 50 if kind == "reddit" else r.choice([1, 2, 5])
    ids = list(range(n))
    r.shuffle(ids)
    split = [0] * (2 * half) + [r.choice([1, 2]) for _ in range(others)]
    r.shuffle(split)
    train = [k for k in range(n) if split[k] == 0]
    cols = []  # values in units of the deviation, so that scaling gives whole numbers
    for _ in range(dim):
        z = [r.randint(-6, 6) for _ in range(n)]
        signs = [1, -1] * half
        r.shuffle(signs)
        for k, s in zip(train, signs):
            z[k] = s
        cols.append((z, r.randint(-9, 9), r.choice([1, 2, 5, 16])))
    raws = r.sample(range(1000), n)
    if kind == "reddit":
        ids.sort()
    nodes = []
    for k in range(n):
        cls = r.randrange(50) if kind == "reddit" else [r.choice([0, 1]) for _ in range(classes)]
        nodes.append(dict(id=ids[k], feats=[[j, 2 * cols[j][0][k]] for j in range(dim) if cols[j][0][k]],
                          label=[2 * int(j == cls) for j in range(50)] if kind == "reddit" else [2 * v for v in cls], split=split[k],
                          _raw=raws[k] if kind == "ppi" else "t%d" % raws[k], _class=cls, _x=[c[1] + c[0][k] * c[2] for c in cols],
                          _both=split[k] == 2 and r.random() < 0.3))
    ls = links(r, sorted(ids), kind)
    share = r.choice([8, 8, 4, 0]) if kind == "reddit" else 8
    return dict(kind=kind, nodes=nodes, links=ls, _lines=ls, ratio=8, random=False, trainers=2 * half, first=False, bags=True, some=share < 8,
                parts=r.choice([1, 1, 2, 3]), dim=dim, classes=classes, twice=r.random() < 0.2, share=share, _web=False)


def strip(x):
    x["nodes"] = [{k: v for k, v in n.items() if k[0] != "_"} for n in x["nodes"]]
    return x


def run(c):
    r = c.rng
    c.model("Dataset", "Dataset_wide.cfg" if c.thorough else "Dataset_mc.cfg")
    c.model("Dataset", "Dataset_either.cfg", name="Dataset-either-end", expect_violation="NoLeak")
    c.model("Dataset", "Dataset_oneway.cfg", name="Dataset-one-way", expect_violation="BothWays")
    cases = []
    for _ in range(c.pick(150, 1500)):
        cases += [papers(r, "cora"), papers(r, "citeseer"), proteins(r, "ppi"), proteins(r, "reddit")]
    done = [strip(x) for x in c.drive("dataset.py", cases, lib=native_lib())]
    c.judge("J_Dataset", done, chunk=20)
    c.assumptions = ["raw files are made up in the layout of the originals, which are not in the repository except for the citation graphs",
                     "posts of the reddit graph are numbered in the order they are listed"]


main("X01", run)
