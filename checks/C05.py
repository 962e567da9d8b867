import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import graphgen as gg


def fspec(f):
    z = {"k": "none", "dtype": "", "bytes": [], "coords": [], "shape": []}
    if f is None:
        return z
    if f["k"] == "bin":
        return {**z, "k": "bin", "bytes": list(f["s"].encode())}
    b = [x for v in f["vals"] for x in gg.pack(f["dtype"], v)]
    if f["k"] == "dense":
        return {**z, "k": "dense", "dtype": f["dtype"], "bytes": b}
    return {**z, "k": "sparse", "dtype": f["dtype"], "bytes": b, "coords": [str(x) for c in f["coords"] for x in c],
            "shape": [len(f["vals"])] if f["flat"] else [len(f["vals"]), f["dim"]]}


def expect(g):
    out = []
    for n in g:
        nr = {"src": str(n["id"]), "dst": "-1", "type": n["type"], "w": gg.f32(n["weight"]), "created": str(n["created"]), "removed": str(n["removed"]), "feats": [fspec(f) for f in n["feats"]]}
        es = []
        inf = float("inf")
        def key(e):
            cr = n["created"] or 0 if e["created"] is None else e["created"]
            rm = (n["removed"] if n["removed"] is not None else -1) if e["removed"] is None else e["removed"]
            return (e["type"], cr, inf if rm == -1 else rm, e["dst"])
        order = sorted(range(len(n["edges"])), key=lambda k: key(n["edges"][k]))
        for k, e in enumerate(n["edges"]):
            cr = n["created"] if e["created"] is None else e["created"]
            rm = n["removed"] if e["removed"] is None else e["removed"]
            es.append({"rank": order.index(k), "rec": {"src": str(n["id"]), "dst": str(e["dst"]), "type": e["type"], "w": gg.f32(e["weight"]), "created": str(cr), "removed": str(rm),
                                                       "feats": [fspec(f) for f in e["feats"]]}})
        out.append({"rec": nr, "edges": es})
    return out


def ordered(g):
    """The edge list has no nesting: its writer puts edges in record order."""
    out = []
    for n in g:
        m = dict(n)
        inf = float("inf")
        m["edges"] = sorted(n["edges"], key=lambda e: (e["type"], (n["created"] or 0) if e["created"] is None else e["created"],
                                                       inf if (e["removed"] if e["removed"] is not None else -1 if n["removed"] is None else n["removed"]) == -1
                                                       else (e["removed"] if e["removed"] is not None else n["removed"]), e["dst"]))
        out.append(m)
    return out


def edge_list_view(r, g, temporal):
    """The same records under different decoder settings: defaults, delimiters."""
    args = {"is_temporal": True} if temporal else {}
    dl = r.choice([",", ",", "\t", ";", "~"])
    ld = r.choice(["/", "/", "#"])
    es = r.choice(["\\", "\\", "^"])
    if dl != ",":
        args["delimiter"] = dl
    if ld != "/":
        args["length_delimiter"] = ld
    if es != "\\":
        args["binary_escape"] = es
    nt = {n["type"] for n in g}
    et = {e["type"] for n in g for e in n["edges"]}
    nw = {n["weight"] for n in g}
    ew = {e["weight"] for n in g for e in n["edges"]}
    dn = len(nt) == 1 and r.random() < 0.5
    de = len(et) == 1 and r.random() < 0.5
    dnw = len(nw) == 1 and r.random() < 0.5
    dew = len(ew) == 1 and r.random() < 0.5
    if dn:
        args["default_node_type"] = min(nt)
    if de:
        args["default_edge_type"] = min(et)
    if dnw:
        args["default_node_weight"] = min(nw)
    if dew:
        args["default_edge_weight"] = min(ew)

    def layout(xs):
        """Feature slots on which all elements agree can be declared once."""
        if not xs or r.random() < 0.5:
            return [], []
        ts, ls = [], []
        for k in range(min(len(x["feats"]) for x in xs)):
            fs = [x["feats"][k] for x in xs]
            if any(f is None for f in fs):
                t, l = None, None
            else:
                key = lambda f: "binary" if f["k"] == "bin" else f["dtype"]
                ln = lambda f: [1] if f["k"] == "bin" else [len(f["vals"])] if f["k"] == "dense" else [len(f["vals"]), 0 if f["flat"] and f["dim"] == 1 else f["dim"]]
                t = key(fs[0]) if len({key(f) for f in fs}) == 1 and r.random() < 0.8 else None
                l = ln(fs[0]) if len({str(ln(f)) for f in fs}) == 1 and r.random() < 0.8 else None
            ts.append(t)
            ls.append(l)
        return ts, ls

    nts, nls = layout(g)
    ets, els = layout([e for n in g for e in n["edges"]])
    if nts:
        args["default_node_feature_types"], args["default_node_feature_lens"] = nts, nls
    if ets:
        args["default_edge_feature_types"], args["default_edge_feature_lens"] = ets, els

    def fs(l, ts, ls):
        out = []
        for k, f in enumerate(l):
            t = ts[k] if k < len(ts) else None
            ln = ls[k] if k < len(ls) else None
            if f is None:
                key, lv, vals = "float32", "0", []
            elif f["k"] == "bin":
                key, lv, vals = "binary", "1", [f["s"].replace(dl, es + dl)]
            elif f["k"] == "dense":
                key, lv, vals = f["dtype"], str(len(f["vals"])), [repr(v) for v in f["vals"]]
            else:
                dim = 0 if f["flat"] and f["dim"] == 1 else f["dim"]
                key, lv, vals = f["dtype"], f"{len(f['vals'])}{ld}{dim}", [str(x) for c in f["coords"] for x in c] + [repr(v) for v in f["vals"]]
            out += ([] if t is not None else [key]) + ([] if ln is not None else [lv]) + vals
        return out

    lines = []
    tm = lambda x, n: [str(x["created"]), str(x["removed"])] if temporal else []
    for n in ordered(g):
        lines.append(dl.join([str(n["id"]), "-1"] + ([] if dn else [str(n["type"])]) + ([] if dnw else [repr(n["weight"])]) + tm(n, n) + fs(n["feats"], nts, nls)))
        for e in n["edges"]:
            lines.append(dl.join([str(n["id"])] + ([] if de else [str(e["type"])]) + [str(e["dst"])] + ([] if dew else [repr(e["weight"])]) + tm(e, n) + fs(e["feats"], ets, els)))
    return {"format": "edgelist", "args": args, "lines": lines}


def tsv_view(r, g):
    lines = []
    for n in g:
        x = gg.to_tsv(n)
        if r.random() < 0.4:  # columns equal to their defaults may be left empty
            col = x.split("\t")
            if col[1] == "0":
                col[1] = ""
            def drop(e):
                f = e.split(",")
                if f[1] == "0":
                    f[1] = ""
                if len(f) == 3 and f[2] == "0.0":  # trailing defaults may be left out
                    f = f[:2] if f[1] else f[:1]
                return ",".join(f)
            col[4] = "|".join(drop(e) for e in col[4].split("|")) if col[4] else ""
            x = "\t".join(col)
        if r.random() < 0.5:
            x = x.rstrip("\t") if n["feats"] or not n["edges"] else x
        lines.append(x)
    return {"format": "tsv", "lines": lines}


def json_view(r, g):
    lines = []
    for n in g:
        d = json.loads(gg.to_json(n, r, omit_edges=True))
        for x in [d] + d.get("edge", []):
            for a, b in (("float32", "float"), ("float64", "double")):
                for pre in ("", "sparse_"):
                    k = f"{pre}{a}_feature"
                    if k in x and r.random() < 0.4:
                        x[f"{pre}{b}_feature"] = x.pop(k)
            if r.random() < 0.2:
                x["uint8_feature" if "uint8_feature" not in x else "zz"] = {} if r.random() < 0.5 else None
        if "edge" in d and r.random() < 0.5:
            r.shuffle(d["edge"])
        lines.append(json.dumps(d, ensure_ascii=r.random() < 0.5))
    return {"format": "json", "lines": lines}


def run(c):
    out = c.model("EdgeList", "EdgeList_mc.cfg", workers=1)
    r = c.rng
    cases = []
    for b in c._printed(out, "BEH"):
        g = [{"id": 1, "type": 0, "weight": 1.0, "created": None, "removed": None, "edges": [],
              "feats": [{"k": "bin", "s": "".join(s)} for s in b["strings"]]}]
        line = "1,-1,0,1.0," + "".join(b["line"])
        n = len(b["strings"])
        cases.append({"exp": expect(g), "views": [{"format": "edgelist", "lines": [line], "args": {"binary_escape": "!", "default_node_feature_types": ["binary"] * n,
                                                                                               "default_node_feature_lens": [[1]] * n}}], "kind": "escaped-strings"})
    if len(cases) > c.pick(600, 10**6):
        cases = r.sample(cases, c.pick(600, 10**6))
    for k in range(c.pick(900, 9000)):
        mode = r.choice(["all", "all", "no-tsv", "temporal", "bool"])
        kinds = {"all": ("dense", "bin", "none"), "no-tsv": ("dense", "bin", "sparse", "none"), "temporal": ("dense", "bin", "sparse", "none"), "bool": ("dense", "none")}[mode]
        one = r.random() < 0.4
        g = gg.graph(r, kinds=kinds, ntypes=1 if one else r.choice([3, 12]), etypes=1 if one else r.choice([3, 12]), weights=[1.5] if one else [0.0, 0.5, 0.1, 2.0], temporal=mode == "temporal",
                     explicit_times=mode == "temporal", parallel=False, n=r.choice([0, 1, 2, 4, 7]))
        if one and g and r.random() < 0.7:  # same features everywhere
            fs = gg.feats(r, kinds)
            ef = gg.feats(r, kinds)
            for n in g:
                n["feats"] = fs
                for e in n["edges"]:
                    e["feats"] = ef
        views = [edge_list_view(r, g, mode == "temporal")]
        if mode == "bool":
            for n in g:
                n["feats"] = [{"k": "dense", "dtype": "bool", "vals": [r.random() < 0.5 for _ in range(3)]}]
            views = [edge_list_view(r, g, False)]
            for v in views:
                if r.random() < 0.5:
                    v["lines"] = [x.replace("True", "1").replace("False", "0") for x in v["lines"]]
        else:
            views.append(json_view(r, g))
        if mode == "all":
            views.append(tsv_view(r, g))
        cases.append({"exp": expect(g), "views": views, "binary": True, "watermark": 200 if mode == "temporal" else None, "kind": mode})
    done = c.drive("decode.py", cases)
    for d in done:
        d["_views"] = d.pop("views")
        d.pop("watermark", None)
    c.judge("J_Decode", done, chunk=100)
    c.assumptions = ["strings avoid the characters a format reserves and cannot escape"]


main("C05", run)
