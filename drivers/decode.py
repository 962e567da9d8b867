"""Decodes lines with the repository's decoders and records what comes out, plus digests of the binary files."""
import hashlib, os, shutil, tempfile, struct
import numpy as np
from dlib import serve
import deepgnn.graph_engine.snark.decoders as decoders
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter

D = {"json": decoders.JsonDecoder, "tsv": decoders.TsvDecoder, "edgelist": decoders.EdgeListDecoder}


def feat(f):
    if f is None:
        return {"k": "none", "dtype": "", "bytes": [], "coords": [], "shape": []}
    if isinstance(f, tuple):
        return {"k": "sparse", "dtype": str(f[1].dtype), "bytes": list(f[1].tobytes()), "coords": [str(x) for x in f[0].reshape(-1)], "shape": list(f[0].shape)}
    if isinstance(f, np.ndarray):
        return {"k": "dense", "dtype": str(f.dtype), "bytes": list(f.tobytes()), "coords": [], "shape": []}
    return {"k": "bin", "dtype": "", "bytes": list(str(f).encode()), "coords": [], "shape": []}


def rec(x):
    s, d, t, w, cr, rm, fs = x
    return {"src": str(s), "dst": str(d), "type": int(t), "w": struct.pack("<f", w).hex(), "created": str(cr), "removed": str(rm), "feats": [feat(f) for f in fs]}


def case(c):
    out = []
    for v in c["views"]:
        dec = D[v["format"]](**v.get("args", {}))
        try:
            recs = [rec(x) for line in v["lines"] for x in dec.decode(line)]
            end = "ok"
        except Exception as e:  # noqa
            recs, end = [], f"{type(e).__name__}: {e}"[:150]
        sums = []
        if end == "ok" and c.get("binary"):
            d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
            try:
                w = BinaryWriter(d, 0, watermark=c.get("watermark"))
                for line in v["lines"]:
                    w.add(dec.decode(line))
                w.close()
                sums = [{"name": f, "sum": hashlib.sha1(open(f"{d}/{f}", "rb").read()).hexdigest()} for f in sorted(os.listdir(d))]
            except Exception as e:  # noqa
                end = f"writing: {type(e).__name__}: {e}"[:150]
            finally:
                shutil.rmtree(d, True)
        out.append({"format": v["format"], "recs": recs, "end": end, "sums": sums})
    return {"got": out}


if __name__ == "__main__":
    serve(case, 60)
