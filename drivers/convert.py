"""Converts input text with the repository's converters and records the files they leave."""
import io, contextlib, json, os, re, subprocess, sys, random, shutil, tempfile, threading, time
from dlib import serve, guarded
import binfiles
import numpy as np
import deepgnn.graph_engine.snark.convert as convert
import deepgnn.graph_engine.snark.dispatcher as dispatcher
import deepgnn.graph_engine.snark.decoders as decoders
import deepgnn.graph_engine.snark.meta_merger as meta_merger
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter


class Jitter:
    """A decoder that takes its time, differently per line."""

    def __init__(self, inner, seed, delay):
        self.inner, self.rng, self.delay = inner, random.Random(seed), delay

    def decode(self, line):
        time.sleep(self.rng.random() * self.delay)
        return self.inner.decode(line)


class Gated:
    """Follows a schedule of ("feed"), ("take", worker) steps; only timing depends on it."""

    def __init__(self, schedule, inner, owner):
        self.steps, self.k, self.cv, self.inner, self.owner, self.free = schedule, 0, threading.Condition(), inner, owner, False

    def wait(self, who):
        with self.cv:
            end = time.time() + 0.5
            while not self.free and not (self.k < len(self.steps) and self.steps[self.k] == who):
                if self.k >= len(self.steps):
                    break
                left = end - time.time()
                if left <= 0:  # the implementation cannot follow this schedule any further
                    self.free = True
                    break
                self.cv.wait(left)
            if self.k < len(self.steps) and self.steps[self.k] == who:
                self.k += 1
            self.cv.notify_all()

    def decode(self, line):
        self.wait(self.owner(line))
        return self.inner.decode(line)

    def feed(self, lines):
        for x in lines:
            self.wait(-1)
            yield [x]


def make_decoder(c):
    f = c["format"]
    kw = c.get("decoder_args", {})
    d = {"json": decoders.JsonDecoder, "tsv": decoders.TsvDecoder, "edgelist": decoders.EdgeListDecoder}[f]
    return d(**kw)


def write_inputs(d, files):
    os.makedirs(d)
    for i, lines in enumerate(files):
        with open(f"{d}/part{i:02d}.txt", "w", encoding="utf-8") as f:
            f.write("".join(x + "\n" for x in lines))


def np_feat(f):
    """A feature description as the value a decoder would hand to the writer."""
    if f is None:
        return None
    if f["k"] == "bin":
        return f["s"]
    if f["k"] == "dense":
        return np.array(f["vals"], dtype=f["dtype"])
    co = [x[0] for x in f["coords"]] if f["flat"] else f["coords"]
    return (np.array(co, dtype=np.int64), np.array(f["vals"], dtype=f["dtype"]))


def run(c, d):
    src, out = d + "/in", d + "/out"
    write_inputs(src, c["files"])
    os.makedirs(out)
    path = src if len(c["files"]) > 1 or c.get("folder") else src + "/part00.txt"
    wm = c.get("watermark")
    skips = dict(skip_node_sampler=c.get("skip_node", False), skip_edge_sampler=c.get("skip_edge", False))
    mode = c["mode"]
    seed = c.get("seed", 0)
    if mode == "cli":
        cmd = [sys.executable, "-m", "deepgnn.graph_engine.snark.convert", "-d", path, "-p", str(c["partitions"]), "-o", out, "-t", c["format"]]
        if wm is not None:
            cmd += ["--watermark", str(wm)]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=60)
        if p.returncode:
            raise RuntimeError(p.stderr[-600:])
        return out
    if mode == "records":
        w = BinaryWriter(out, 0, watermark=wm, **skips)
        for group in c["records"]:
            w.add(iter([(int(s), int(t), ty, wt, cr, rm, [np_feat(f) for f in fs]) for s, t, ty, wt, cr, rm, fs in group]))
        w.close()
        return out
    if mode == "writer":  # records straight into a partition writer, in several calls
        dec = make_decoder(c)
        w = BinaryWriter(out, 0, watermark=wm, **skips)
        for lines in c["files"]:
            for x in lines:
                w.add(dec.decode(x))
        w.close()
        return out
    placed = {}

    def one(worker):
        dec = make_decoder(c)
        if c.get("delay"):
            dec = Jitter(dec, seed + worker, c["delay"])
        disp = None
        it = None
        parts = c["partitions"]
        if c.get("schedule") is not None:
            lines = c["files"][0]
            part_of = {x: c["assign"][i] for i, x in enumerate(lines)}
            g = Gated(c["schedule"], dec, lambda x: part_of[x])
            dec, it = g, g.feed(lines)
            assign = lambda x: part_of[x]
        else:
            rr = random.Random(seed)
            table = {}
            assign = lambda x: table.setdefault(x, rr.randrange(parts))
        choose = assign

        def assign(x):
            p = choose(x)
            if c["format"] == "json":
                placed[str(json.loads(x)["node_id"])] = p
            return p
        if mode in ("queue-thread", "queue-proc"):
            disp = dispatcher.QueueDispatcher(out, parts, assign, dec, use_threads=mode == "queue-thread", watermark=wm, **skips)
        elif mode == "pipe-proc":
            disp = dispatcher.PipeDispatcher(out, parts, dec, use_threads=False, watermark=wm, **skips)
        conv = convert.MultiWorkersConverter(graph_path=path, output_dir=out, decoder=dec, partition_count=parts, worker_index=worker,
                                             worker_count=c.get("workers", 1), record_per_step=c.get("step", 512), buffer_size=c.get("block", 50),
                                             queue_size=c.get("queue", 30), thread_count=c.get("threads", 2), dispatcher=disp, file_iterator=it,
                                             debug=mode == "debug", watermark=wm, **skips)
        conv.convert()

    ws = list(range(c.get("workers", 1)))
    with contextlib.redirect_stdout(io.StringIO()):
        if c.get("together"):
            errs = []

            def guard(w):
                try:
                    one(w)
                except BaseException as e:  # noqa
                    errs.append(e)

            ts = [threading.Thread(target=guard, args=(w,)) for w in ws]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if errs:
                raise errs[0]
        else:
            for w in c.get("worker_order", ws):
                one(w)
    owners = []
    for f in sorted(os.listdir(out)):
        if f.startswith("meta") and f.endswith(".json"):
            owners.append([int(k) for k in json.load(open(f"{out}/{f}"))["partitions"]])
    c["_owners"] = owners
    c["_placed"] = [{"id": k, "part": v} for k, v in sorted(placed.items())] if mode in ("queue-thread", "queue-proc") else []
    if c.get("workers", 1) > 1:
        meta_merger.merge_metadata_files(out)
    return out


def read_back(out):
    """The metadata as the repository's own reader presents it."""
    from deepgnn.graph_engine.snark.meta import Meta
    n = lambda v: int(v) if v == int(v) and abs(v) < 2**31 - 1 else -1
    try:
        m = Meta(out)
        return [{"version": str(m.version), "nodes": n(m.node_count), "edges": n(m.edge_count), "ntypes": n(m.node_type_count), "etypes": n(m.edge_type_count),
                 "parts": n(m.partition_count), "npt": [n(x) for x in m.node_count_per_type], "ept": [n(x) for x in m.edge_count_per_type], "wm": str(m.watermark)}]
    except Exception as e:
        return [{"version": f"{type(e).__name__}: {e}"[:200], "nodes": -1, "edges": -1, "ntypes": -1, "etypes": -1, "parts": -1, "npt": [], "ept": [], "wm": ""}]


hangs = [0]


def case(c):
    if hangs[0] >= 2:  # enough of a verdict
        return {"end": "skipped", "parts": [], "alias": [], "meta": [], "owners": [], "placed": [], "files_for": []}
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        st, v = guarded(lambda: run(c, d), 20)
        if st == "hang" and c["mode"].endswith("-proc"):  # forking a process that has threads can stall on its own
            shutil.rmtree(d, True)
            st, v = guarded(lambda: run(c, d), 40)
        if st == "hang":
            hangs[0] += 1
            return {"end": "hang", "parts": [], "alias": [], "meta": [], "owners": [], "placed": [], "files_for": []}
        if st == "raised":
            return {"end": "rejected" if isinstance(v, (AssertionError, ValueError)) and c.get("may_reject") else "error", "err": f"{type(v).__name__}: {v}"[:200],
                    "_tb": v._tb[-1500:], "parts": [], "alias": [], "meta": [], "owners": [], "placed": [], "files_for": []}
        out = d + "/out"
        m = binfiles.meta(out)
        have = sorted(int(x.group(1)) for x in (re.fullmatch(r"node_(\d+)_0\.map", f) for f in os.listdir(out)) if x)
        return {"owners": c.pop("_owners", []), "placed": c.pop("_placed", []), "files_for": have, "end": "ok", "err": "", "parts": binfiles.partitions(out, [p["id"] for p in m["parts"]] if m else None), "alias": binfiles.aliases(out), "meta": [m] if m else [],
                "reader": read_back(out) if m and "meta" in c["judge"] else []}
    finally:
        shutil.rmtree(d, True)


if __name__ == "__main__":
    serve(case, 90)
