"""Conversion runs shared by the converter checks."""
import graphgen as gg

DYADIC = [0.5, 1.0, 2.0, 0.25, 3.0, 0.125]


def lines_of(g, fmt, r=None, temporal=False):
    if fmt == "json":
        return [gg.to_json(n, r if r and r.random() < 0.5 else None, omit_edges=bool(r and r.random() < 0.3)) for n in g]
    if fmt == "tsv":
        return [gg.to_tsv(n) for n in g]
    return [x for n in g for x in gg.to_edgelist(n, temporal)]


def case(g, fmt, *, judge, mode="pipe-thread", partitions=1, workers=1, files=None, nfiles=1, watermark=None, r=None, lines=None, decoder_args=None, **kw):
    lines = lines if lines is not None else lines_of(g, fmt, r, watermark is not None)
    if files is None:
        files = [[] for _ in range(nfiles)]
        for i, x in enumerate(lines):  # contiguous runs of lines
            files[i * nfiles // max(len(lines), 1)].append(x)
    if fmt == "edgelist" and watermark is not None:
        decoder_args = {**(decoder_args or {}), "is_temporal": True}
    if mode == "debug" or mode == "writer":
        partitions = workers = 1
    c = dict(format=fmt, files=files, partitions=partitions, workers=workers, mode=mode, exp=gg.records(g, watermark is not None), judge=judge,
             decoder_args=decoder_args or {}, version="v2", ordered=False, exact_parts=mode in ("pipe-thread", "pipe-proc", "debug"), must_reject=False,
             skip_node=False, skip_edge=False, kind=f"{fmt}/{mode}")
    c.update(kw)
    c["_wm"] = watermark
    return c


def records_case(groups, *, watermark=None, judge=("content",), **kw):
    """Raw records for one partition writer: (src, dst or -1, type, weight, created, removed, features)."""
    nodes, edges = [], []
    life, owner = (0, -1), None
    for g in groups:
        for s, t, ty, w, cr, rm, fs in g:
            if t == -1:
                owner, life = s, (0 if cr is None else cr, -1 if rm is None else rm)
                nodes.append({"id": str(s), "type": ty, "w64": int(w * 64), "feats": [gg.spec_feat(f, life[0]) for f in fs]})
            else:
                if s != owner:
                    owner, life = s, (0, -1)
                ec, er = (life[0] if cr is None else cr), (life[1] if rm is None else rm)
                edges.append({"src": str(s), "dst": str(t), "type": ty, "w": gg.f32(w), "w64": int(w * 64), "feats": [gg.spec_feat(f, ec) for f in fs],
                              "created": str(ec) if watermark is not None else "", "removed": str(er) if watermark is not None else ""})
    c = case([], "json", judge=list(judge), mode="writer", watermark=watermark, lines=[])
    c.update(mode="records", records=groups, exp={"nodes": nodes, "edges": edges}, ordered=True, kind="records/writer")
    c.update(kw)
    return c


def of_behaviour(hist, r, watermark=None):
    """A behaviour of Converter.tla as records for the writer, cut into calls at random places."""
    recs = []
    for h in hist:
        fs = [{"k": "dense", "dtype": "uint8", "vals": b} if b else None for b in h["feats"]]
        cr, rm = h["times"] if watermark is not None else (None, None)
        recs.append((int(h["id"]), -1 if h["k"] == "node" else int(h["dst"]), h["type"], 1.0, cr, rm, fs))
    groups = []
    for x in recs:
        if not groups or r.random() < 0.4:
            groups.append([])
        groups[-1].append(x)
    return records_case(groups, watermark=watermark, kind="behaviour/writer")


def random_records(r, n):
    """Interleaved sources, undeclared sources, empty and mixed features."""
    groups, prev, pt = [], None, 0
    ids = r.sample([0, 1, 2, 3, 2**33 + 7, 2**63 - 1, 2**40], 4)
    for _ in range(n):
        fs = gg.feats(r, ("dense", "bin", "wild", "sparse", "none")) + ([None] if r.random() < 0.15 else [])
        w = r.choice([0.5, 1.0, 0.1, 7.25, 1e-6, 3e8])
        s = r.choice(ids) if prev is None or r.random() < 0.4 else prev
        if r.random() < 0.35:
            x, pt = (s, -1, r.randrange(4), w, None, None, fs), 0
        else:
            if s != prev:
                pt = 0
            pt = pt + r.choice([0, 0, 0, 1, 2])
            x = (s, r.choice(ids), pt, w, None, None, fs)
        prev = s
        if not groups or r.random() < 0.4:
            groups.append([])
        groups[-1].append(x)
    return records_case(groups)


def finish(cases):
    """The specification sees the watermark as an opaque string, the driver as a number."""
    drv = []
    for c in cases:
        d = dict(c)
        d["watermark"] = c["_wm"]
        drv.append(d)
    return drv


def run(check, cases, chunk=30):
    done = check.drive("convert.py", finish(cases))
    for c in done:
        c["watermark"] = "" if c["_wm"] is None else str(c["_wm"])
        c.pop("files", None) if False else None
        c["_files"] = c.pop("files")
        c.pop("records", None), c.pop("schedule", None), c.pop("decoder_args", None), c.pop("assign", None)
    done = [c for c in done if c["end"] != "skipped"]
    check.judge("J_Convert", done, chunk=chunk)
    return done
