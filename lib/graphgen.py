"""Random graphs, their renderings in the input formats, and the records they declare (for the specification)."""
import json, struct

FMT = {"float64": "d", "float32": "f", "float16": "e", "double": "d", "float": "f", "uint64": "Q", "int64": "q", "uint32": "I", "int32": "i",
       "uint16": "H", "int16": "h", "uint8": "B", "int8": "b", "bool": "?"}
DT = ["float32", "float64", "float16", "uint64", "int64", "uint32", "int32", "uint16", "int16", "uint8", "int8"]


def pack(dt, v):
    return list(struct.pack("<" + FMT[dt], v))


def f32(w):
    return struct.pack("<f", w).hex()


def value(r, dt):
    if dt.startswith("float") or dt == "double":
        return r.choice([0.0, 1.0, -1.5, 0.25, 100.0, -0.03, 3.14159, 65504.0])
    if dt == "bool":
        return r.choice([True, False])
    bits = int(dt.replace("uint", "").replace("int", ""))
    lo, hi = (0, 2**bits - 1) if dt[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    return r.choice([0, 1, hi, lo, hi // 3, min(hi, 100), max(lo, -7)])


STR = ["a", "hello", "x y", "naïve", "漢字", "zz", "0", "-", "q" * 30, " p", "t ", "1.0"]
WILD = STR + ["\x00", "a\x00", "\t", "\n", "\\", "\"", "\\n", ",", ";", "|", ":", "\u2028", "\r\n", "😀"]  # where the format can hold any string


def dense(r, dts=DT):
    dt = r.choice(dts)
    return {"k": "dense", "dtype": dt, "vals": [value(r, dt) for _ in range(r.choice([1, 1, 2, 3, 5]))]}


def binary(r, pool=STR):
    return {"k": "bin", "s": "".join(r.choice(pool) for _ in range(r.choice([1, 1, 2])))}


def sparse(r):
    dt = r.choice(DT)
    n = r.choice([1, 2, 3])
    dim = r.choice([1, 2, 3])
    flat = r.random() < 0.4
    if flat:
        dim = 1  # flat coordinates: one per value
    return {"k": "sparse", "dtype": dt, "dim": dim, "flat": flat, "coords": [[r.randint(0, 2**33 if r.random() < 0.2 else 50) for _ in range(dim)] for _ in range(n)],
            "vals": [value(r, dt) for _ in range(n)]}


def temporal(r, lo, kinds=("dense",)):
    n = r.choice([1, 2, 3, 3, 6])
    starts = r.sample(range(lo, lo + 40), n)
    kind = r.choice(kinds)
    dt = r.choice(DT)
    items = []
    for s in starts:
        if kind == "dense":
            f = {"k": "dense", "dtype": dt, "vals": [value(r, dt) for _ in range(r.choice([1, 2, 3]))]}
        elif kind == "bin":
            f = binary(r)
        else:
            f = sparse(r)
            f["dtype"] = dt
            f["vals"] = [value(r, dt) for _ in f["vals"]]
        items.append({"created": s, "val": f})
    if r.random() < 0.3:
        items[starts.index(min(starts))]["created"] = None  # starts with its owner
    return {"k": "temporal", "dtype": dt, "items": items}


def feats(r, kinds, lo=0, maxn=4):
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, maxn])):
        k = r.choice(kinds)
        out.append(None if k == "none" else dense(r) if k == "dense" else dense(r, ["float32", "uint64"]) if k == "dense2" else binary(r) if k == "bin" else binary(r, WILD) if k == "wild"
                   else sparse(r) if k == "sparse" else temporal(r, lo, ("dense",)) if k == "temporal" else temporal(r, lo, ("dense", "bin", "sparse")))
    while out and out[-1] is None:
        out.pop()
    return out


def graph(r, n=None, kinds=("dense", "bin", "sparse", "none"), ntypes=3, etypes=3, big=True, temporal=False, weights=None, maxdeg=5, edge_kinds=None,
          explicit_times=False, parallel=True):
    """A random graph; times None means not declared."""
    n = n if n is not None else r.choice([0, 1, 2, 3, 4, 6, 9])
    pool = list(range(12)) + ([2**33 + 5, 2**40, 2**62 + 1] if big else [])
    ids = r.sample(pool, min(n, len(pool)))
    wts = weights or [0.5, 1.0, 2.0, 0.25, 3.0, 0.1, 0.7]
    dsts = ids + r.sample(pool, 3)
    nodes = []
    for i in ids:
        lo = hi = None
        if temporal:
            lo = r.choice([None, 0, 1, 5, 20]) if not explicit_times else r.choice([0, 1, 5, 20])
            hi = r.choice([None, None, -1, 60, 90, 2**33] + ([0] if not lo else [])) if not explicit_times else r.choice([-1, -1, 60, 90])
        base = lo or 0
        nd = {"id": i, "type": r.randrange(ntypes), "weight": r.choice(wts), "created": lo, "removed": hi, "feats": feats(r, kinds, base), "edges": []}
        seen = set()
        for _ in range(r.randint(0, maxdeg)):
            d, t = r.choice(dsts), r.randrange(etypes)
            if not parallel and (d, t) in seen:
                continue
            seen.add((d, t))
            c = rm = None
            if temporal:
                end = hi if hi not in (None, -1) else None
                c = r.choice([None, base, base + 3, base + 10]) if not explicit_times else r.choice([base, base + 3, base + 10])
                cb = base if c is None else c
                last = -1 if end is None else end
                rm = r.choice([None, last, cb + 30, cb + 7, cb + 1]) if not explicit_times else r.choice([last, cb + 30, cb + 7, cb + 1])
                if end is not None and rm is not None and rm > end:
                    rm = end
            nd["edges"].append({"dst": d, "type": t, "weight": r.choice(wts), "created": c, "removed": rm, "feats": feats(r, edge_kinds or kinds, base if c is None else c, 3)})
        nodes.append(nd)
    return nodes


# ---- renderings ---------------------------------------------------------------------------------------
def _jf(fs, owner):
    out = {}
    for i, f in enumerate(fs):
        if f is None:
            continue
        k, v = _jv(f)
        out.setdefault(k, {})[str(i)] = v
    return out


def _jv(f):
    if f["k"] == "dense":
        return f["dtype"] + "_feature", f["vals"]
    if f["k"] == "bin":
        return "binary_feature", f["s"]
    if f["k"] == "sparse":
        c = [x[0] for x in f["coords"]] if f["flat"] else f["coords"]
        return "sparse_" + f["dtype"] + "_feature", {"coordinates": c, "values": f["vals"]}
    items = []
    for it in f["items"]:
        k, v = _jv(it["val"])
        d = dict(v) if it["val"]["k"] == "sparse" else {"values": [v] if it["val"]["k"] == "bin" else v}
        if it["created"] is not None:
            d["created_at"] = it["created"]
        items.append(d)
    return k, items


def to_json(n, r=None, omit_edges=False):
    d = {"node_id": n["id"], "node_type": n["type"], "node_weight": n["weight"]}
    if n["created"] is not None:
        d["created_at"] = n["created"]
    if n["removed"] is not None:
        d["removed_at"] = n["removed"]
    d.update(_jf(n["feats"], n))
    es = []
    for e in n["edges"]:
        x = {"src_id": n["id"], "dst_id": e["dst"], "edge_type": e["type"], "weight": e["weight"]}
        if e["created"] is not None:
            x["created_at"] = e["created"]
        if e["removed"] is not None:
            x["removed_at"] = e["removed"]
        x.update(_jf(e["feats"], e))
        es.append(x)
    if es or not omit_edges:
        d["edge"] = es
    if r:
        ks = list(d)
        r.shuffle(ks)
        d = {k: d[k] for k in ks}
    return json.dumps(d)


TS = {"float32": "f", "float16": "f16", "float64": "d"}


def _num(v):
    return repr(v)


def to_tsv(n):
    def fs(l):
        out = []
        for f in l:
            if f is None:
                out.append("")
            elif f["k"] == "bin":
                out.append("b:" + f["s"])
            else:
                t = f["dtype"]
                key = TS.get(t) or ("u" + t[4:] if t[0] == "u" else "i" + t[3:])
                out.append(key + ":" + " ".join(_num(v) for v in f["vals"]))
        return ";".join(out)
    es = "|".join(",".join([str(e["dst"]), str(e["type"]), repr(e["weight"])] + ([fs(e["feats"])] if e["feats"] else [])) for e in n["edges"])
    return "\t".join([str(n["id"]), str(n["type"]), repr(n["weight"]), fs(n["feats"]), es])


def to_edgelist(n, is_temporal=False, sort=True):
    def fs(l):
        out = []
        for f in l:
            if f is None:
                out += ["float32", "0"]
            elif f["k"] == "bin":
                out += ["binary", "1", f["s"].replace(",", "\\,")]
            elif f["k"] == "dense":
                out += [f["dtype"], str(len(f["vals"]))] + [_num(v) for v in f["vals"]]
            else:
                dim = 0 if f["flat"] and f["dim"] == 1 else f["dim"]
                out += [f["dtype"], f"{len(f['vals'])}/{dim}"] + [str(x) for c in f["coords"] for x in c] + [_num(v) for v in f["vals"]]
        return out
    tm = lambda x: [str(x["created"]), str(x["removed"])] if is_temporal else []
    lines = [",".join([str(n["id"]), "-1", str(n["type"]), repr(n["weight"])] + tm(n) + fs(n["feats"]))]
    for e in sorted(n["edges"], key=lambda e: (e["type"], e["dst"])) if sort else n["edges"]:
        lines.append(",".join([str(n["id"]), str(e["type"]), str(e["dst"]), repr(e["weight"])] + tm(e) + fs(e["feats"])))
    return lines


# ---- declared records, for the specification ----------------------------------------------------------
def spec_feat(f, owner_created=0):
    if f is None:
        return {"k": "none"}
    if f["k"] == "dense":
        return {"k": "dense", "vals": [pack(f["dtype"], v) for v in f["vals"]]}
    if f["k"] == "bin":
        return {"k": "bin", "bytes": list(f["s"].encode())}
    if f["k"] == "sparse":
        return {"k": "sparse", "dim": f["dim"], "coords": [pack("int64", x) for c in f["coords"] for x in c], "vals": [pack(f["dtype"], v) for v in f["vals"]]}
    its = [{**it, "created": owner_created if it["created"] is None else it["created"]} for it in f["items"]]
    st = sorted(it["created"] for it in its)
    return {"k": "temporal", "items": [{"rank": st.index(it["created"]), "start": pack("int64", it["created"]), "val": spec_feat(it["val"])} for it in its]}


def records(g, temporal=False):
    nodes, edges = [], []
    for n in g:
        nc = 0 if n["created"] is None else n["created"]
        nr = -1 if n["removed"] is None else n["removed"]
        nodes.append({"id": str(n["id"]), "type": n["type"], "w64": int(n["weight"] * 64), "feats": [spec_feat(f, nc) for f in n["feats"]]})
        for e in n["edges"]:
            ec = nc if e["created"] is None else e["created"]
            er = nr if e["removed"] is None else e["removed"]
            edges.append({"src": str(n["id"]), "dst": str(e["dst"]), "type": e["type"], "w": f32(e["weight"]), "w64": int(e["weight"] * 64),
                          "created": str(ec) if temporal else "", "removed": str(er) if temporal else "",
                          "feats": [spec_feat(f, ec) for f in e["feats"]]})
    return {"nodes": nodes, "edges": edges}
