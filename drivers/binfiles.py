"""Reads the files of a converted graph without any code of the repository."""
import glob, json, os, re, struct


def _clip(v):
    return v if 0 <= v < 2**31 - 1 else -1


def u64s(path):
    b = open(path, "rb").read()
    return [_clip(x[0]) for x in struct.iter_unpack("<Q", b[: len(b) // 8 * 8])]


def partition(d, p):
    def rd(name):
        return open(f"{d}/{name}", "rb").read()
    r = {"id": p, "temporal": False, "wm": "", "ets": [], "ragged": False}
    b = rd(f"node_{p}_0.map")
    r["ragged"] |= len(b) % 20 != 0
    r["map"] = [{"id": str(i), "pos": _clip(o), "type": t} for i, o, t in struct.iter_unpack("<QQi", b[: len(b) // 20 * 20])]
    r["nidx"] = u64s(f"{d}/node_{p}_0.index")
    r["nfi"] = u64s(f"{d}/node_features_{p}_0.index")
    r["nfd"] = list(rd(f"node_features_{p}_0.data"))
    r["nbi"] = u64s(f"{d}/neighbors_{p}_0.index")
    b = rd(f"edge_{p}_0.index")
    r["ragged"] |= len(b) % 24 != 0
    r["ei"] = [{"dst": str(x), "fpos": _clip(o), "type": t, "w": struct.pack("<f", w).hex(), "w64": w64(w)} for x, o, t, w in struct.iter_unpack("<QQif", b[: len(b) // 24 * 24])]
    r["efi"] = u64s(f"{d}/edge_features_{p}_0.index")
    r["efd"] = list(rd(f"edge_features_{p}_0.data"))
    ts = f"{d}/edge_{p}_0.timestamp"
    if os.path.exists(ts):
        b = open(ts, "rb").read()
        r["temporal"] = True
        r["wm"] = str(struct.unpack("<q", b[:8])[0]) if len(b) >= 8 else "?"
        r["ragged"] |= (len(b) - 8) % 16 != 0
        r["ets"] = [{"created": str(a), "removed": str(c)} for a, c in struct.iter_unpack("<qq", b[8: 8 + (len(b) - 8) // 16 * 16])]
    return r


def partitions(d, ids=None):
    if ids is not None:
        return [partition(d, p) for p in ids]
    ids = sorted(int(m.group(1)) for m in (re.fullmatch(r"node_(\d+)_0\.map", f) for f in os.listdir(d)) if m)
    return [partition(d, p) for p in ids]


SC = 262144


def aliases(d):
    out = []
    for f in sorted(os.listdir(d)):
        m = re.fullmatch(r"(node|edge)_(\d+)_(\d+)\.alias", f)
        if not m:
            continue
        b = open(f"{d}/{f}", "rb").read()
        rows = []
        if m.group(1) == "node":
            ok = len(b) % 20 == 0
            for l, rr, p in struct.iter_unpack("<qqf", b[: len(b) // 20 * 20]):
                rows.append((str(l), str(rr), p))
        else:
            ok = len(b) % 36 == 0
            for a, c, e, g, p in struct.iter_unpack("<qqqqf", b[: len(b) // 36 * 36]):
                rows.append((f"{a}-{c}", f"{e}-{g}", p))
        out.append({"el": m.group(1), "type": int(m.group(2)), "part": int(m.group(3)), "whole": ok,
                    "rows": [{"id": a, "other": o, "p": round(p * SC) if p == p and abs(p) < 100 else -1, "one": p == 1.0} for a, o, p in rows]})
    return out


def w64(x):
    y = x * 64
    return int(y) if y == int(y) and abs(y) < 2**31 else -1


def meta(d, name="meta.json"):
    f = f"{d}/{name}"
    if not os.path.exists(f):
        return None
    m = json.load(open(f))
    def num(v):
        return int(v) if isinstance(v, (int, float)) and v == int(v) and abs(v) < 2**31 - 1 else -1
    g = lambda k: num(m.get(k, -7))
    return {"version": str(m.get("binary_data_version")), "nodes": g("node_count"), "edges": g("edge_count"), "ntypes": g("node_type_count"), "etypes": g("edge_type_count"),
            "nfeats": g("node_feature_count"), "efeats": g("edge_feature_count"), "wm": str(m.get("watermark")),
            "npt": [num(x) for x in m.get("node_count_per_type", [])], "ept": [num(x) for x in m.get("edge_count_per_type", [])],
            "parts": [{"id": int(k), "nw": [w64(x) for x in v["node_weight"]], "ew": [w64(x) for x in v["edge_weight"]]} for k, v in sorted(m.get("partitions", {}).items(), key=lambda z: int(z[0]))]}
