"""Writes partitions in the binary graph format, straight from the layout in specs/Store.tla (not with the converter)."""
import json, os, struct


def encode(f, time):
    k = f["k"]
    if k == "none":
        return b""
    if k == "dense":
        return bytes(x for v in f["vals"] for x in v)
    if k == "bin":
        return bytes(f["bytes"])
    if k == "sparse":
        if not f["vals"]:
            return b""
        return struct.pack("<II", len(f["vals"]) * f["dim"], f["dim"]) + b"".join(struct.pack("<q", int(x)) for c in f["coords"] for x in c) \
            + bytes(x for v in f["vals"] for x in v)
    its = sorted(f["items"], key=lambda it: it["start"])
    enc = [encode(it["val"], time) for it in its]
    n = len(its)
    head = 4 + 8 * n + 8 * (n + 1)
    offs = [head + sum(map(len, enc[:i])) for i in range(n + 1)]
    return struct.pack("<I", n) + b"".join(struct.pack("<q", time(it["start"])) for it in its) + b"".join(struct.pack("<Q", o) for o in offs) \
        + b"".join(enc) + bytes(8)


def alias(elems):
    """Alias rows (element, partner, probability) for (element, weight) pairs, in exact fractions."""
    from fractions import Fraction as F
    n = len(elems)
    total = sum(F(w) for _, w in elems)
    if n == 0 or total == 0:
        return [(e, e, 1.0) for e, _ in elems]
    p = [F(w) * n / total for _, w in elems]
    small = [i for i in range(n) if p[i] < 1]
    large = [i for i in range(n) if p[i] >= 1]
    rows = [None] * n
    while small and large:
        s, l = small.pop(), large.pop()
        rows[s] = (elems[s][0], elems[l][0], float(p[s]))
        p[l] -= 1 - p[s]
        (small if p[l] < 1 else large).append(l)
    for i in small + large:
        rows[i] = (elems[i][0], None, 1.0)
    return rows


def write(path, case, ids, time, parts=None):
    """case: parts = [[entry]], temporal; ids: index -> node id; time: rank -> timestamp."""
    os.makedirs(path, exist_ok=True)
    nt = 1 + max([e["type"] for p in case["parts"] for e in p] + [-1])
    et = 1 + max([x["type"] for p in case["parts"] for e in p for x in e["edges"]] + [-1])
    nf = max([len(e["feats"]) for p in case["parts"] for e in p] + [0])
    ef = max([len(x["feats"]) for p in case["parts"] for e in p for x in e["edges"]] + [0])
    meta = {"binary_data_version": "v2", "node_count": 0, "edge_count": 0, "node_type_count": nt, "edge_type_count": et,
            "node_feature_count": nf, "edge_feature_count": ef, "partitions": {}, "node_count_per_type": [0] * nt, "edge_count_per_type": [0] * et,
            "watermark": time(999) if case["temporal"] else -1}
    for q, entries in enumerate(case["parts"]):
        suf = f"{q}_0"
        F = {k: b"" for k in ("map", "nidx", "nfi", "nfd", "nbi", "ei", "efi", "efd", "ets")}
        nfi = ne = efi = 0
        nw, ew = [0.0] * nt, [0.0] * et
        nel, eel = [[] for _ in range(nt)], [[] for _ in range(et)]
        for pos, e in enumerate(entries):
            F["map"] += struct.pack("=QQi", ids[e["id"]], pos, e["type"])
            F["nidx"] += struct.pack("=Q", nfi)
            for f in e["feats"]:
                F["nfi"] += struct.pack("=Q", len(F["nfd"]))
                F["nfd"] += encode(f, time)
                nfi += 1
            F["nbi"] += struct.pack("=Q", ne)
            for x in e["edges"]:
                w = x["w64"] / 64
                F["ei"] += struct.pack("=QQif", ids[x["dst"]], efi, x["type"], w)
                for f in x["feats"]:
                    F["efi"] += struct.pack("=Q", len(F["efd"]))
                    F["efd"] += encode(f, time)
                    efi += 1
                F["ets"] += struct.pack("=qq", time(x["created"]), -1 if x["removed"] == -1 else time(x["removed"]))
                ne += 1
                ew[x["type"]] += w
                eel[x["type"]].append(((ids[e["id"]], ids[x["dst"]]), w))
                meta["edge_count_per_type"][x["type"]] += 1
            if e["type"] >= 0:
                w = e["w64"] / 64
                nw[e["type"]] += w
                nel[e["type"]].append((ids[e["id"]], w))
                meta["node_count_per_type"][e["type"]] += 1
        F["nidx"] += struct.pack("=Q", nfi)
        F["nfi"] += struct.pack("=Q", len(F["nfd"]))
        F["nbi"] += struct.pack("=Q", ne)
        F["ei"] += struct.pack("=QQif", 0, efi, 0, -1.0)
        F["efi"] += struct.pack("=Q", len(F["efd"]))
        names = {"map": f"node_{suf}.map", "nidx": f"node_{suf}.index", "nfi": f"node_features_{suf}.index", "nfd": f"node_features_{suf}.data",
                 "nbi": f"neighbors_{suf}.index", "ei": f"edge_{suf}.index", "efi": f"edge_features_{suf}.index", "efd": f"edge_features_{suf}.data"}
        if case["temporal"]:
            names["ets"] = f"edge_{suf}.timestamp"
            F["ets"] = struct.pack("=Q", time(999)) + F["ets"]
        for k, n in names.items():
            open(os.path.join(path, n), "wb").write(F[k])
        for t in range(nt):
            with open(os.path.join(path, f"node_{t}_{q}.alias"), "wb") as o:
                for a, b, p in alias(nel[t]):
                    o.write(struct.pack("=qqf", s64(a), s64(0 if b is None else b), p))
        for t in range(et):
            with open(os.path.join(path, f"edge_{t}_{q}.alias"), "wb") as o:
                for a, b, p in alias(eel[t]):
                    b = (0, 0) if b is None else b
                    o.write(struct.pack("=qqqqf", s64(a[0]), s64(a[1]), s64(b[0]), s64(b[1]), p))
        meta["partitions"][str(q)] = {"node_weight": nw, "edge_weight": ew}
    meta["node_count"] = sum(meta["node_count_per_type"])
    meta["edge_count"] = sum(meta["edge_count_per_type"])
    json.dump(meta, open(os.path.join(path, "meta.json"), "w"))


def s64(x):
    return x - 2**64 if x >= 2**63 else x
