"""Runs the text reader over files with given bytes and records the batches it delivers."""
import os, shutil, tempfile, random, time, threading
from dlib import serve, guarded
import fsspec
from fsspec.implementations.local import LocalFileSystem


class VFS(LocalFileSystem):
    """The local filesystem, with scripted delays and read failures."""

    protocol = ("vfs",)
    plan = {}
    lock = threading.Lock()

    @classmethod
    def _strip_protocol(cls, path):
        return LocalFileSystem._strip_protocol(path[6:] if isinstance(path, str) and path.startswith("vfs://") else path)

    def open(self, path, mode="rb", **kw):
        p = VFS.plan
        with VFS.lock:
            p["n"] = p.get("n", 0) + 1
            n = p["n"]
            d = p["rng"].random() * p["delay"] if p.get("delay") else 0
        if d:
            time.sleep(d)
        if p.get("fail") and n == p["fail"]:
            p["hit"] = True
            raise OSError("scripted read failure")
        return super().open(path, mode, **kw)


fsspec.register_implementation("vfs", VFS, clobber=True)

from deepgnn.graph_engine._adl_reader import TextFileIterator  # noqa


def iterate(it, limit):
    batches, end = [], "stop"
    gen = iter(it)
    while True:
        st, v = guarded(lambda: next(gen), 15)
        if st == "ok":
            batches.append(v)
            if len(batches) > limit:
                return batches, "endless"
        elif st == "hang":
            return batches, "hang"
        else:
            return batches, ("stop" if isinstance(v, StopIteration) else "error")


def case(c):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        for i, b in enumerate(c["files"]):
            with open(f"{d}/f{i:03d}.txt", "wb") as f:
                f.write(bytes(b))
        runs = []
        for w in range(c["workers"]):
            VFS.plan = {"delay": c.get("delay", 0), "rng": random.Random(c.get("seed", 0)), "fail": c.get("failat", 0)}
            random.seed(c.get("seed", 0))
            path = "vfs://" + d if c.get("vfs") else d
            if c.get("single"):
                path += "/f000.txt"
            it = TextFileIterator(filename=path, batch_size=c["batch"], epochs=c["epochs"], read_block_in_M=c["length"] / 1000000 + 1e-9,
                                  buffer_queue_size=c["queue"], thread_count=c["threads"], worker_index=w, num_workers=c["workers"],
                                  shuffle=c["shuffle"], drop_last=c["drop"])
            its = []
            for r in range(c.get("passes", 1)):
                VFS.plan["hit"] = False
                if c.get("abandon") and r == 0:  # leave the first pass unfinished, then restart
                    guarded(lambda: next(iter(it), None), 15)
                    continue
                batches, end = iterate(it, c["limit"])
                its.append({"batches": [[list(x.encode("utf-8")) for x in b] for b in batches], "end": end, "hit": bool(VFS.plan["hit"])})
                if end == "hang":
                    break
            runs.append(its)
        return {"runs": runs}
    finally:
        shutil.rmtree(d, True)


if __name__ == "__main__":
    serve(case, 120)
