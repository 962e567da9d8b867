"""Engine queries over graphs kept on other filesystems: partitions and metadata are put into (in-memory) stores first."""
import hashlib, json, os, shutil, tempfile
import fsspec
from fsspec.implementations.memory import MemoryFileSystem
import dlib, engine


class Vault(MemoryFileSystem):
    protocol = "vault"
    store = {}
    pseudo_dirs = [""]
    cachable = False

    @classmethod
    def _strip_protocol(cls, path):
        path = path[len("vault://"):] if path.startswith("vault://") else path
        return MemoryFileSystem._strip_protocol(path)


fsspec.register_implementation("vault", Vault)
STORE = {"a": "memory", "b": "vault"}
N = [0]


def digest(path):
    with open(path, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()[:12]


class World(engine.World):
    def put(self, files, store, folder):
        fs = fsspec.filesystem(STORE[store])
        for f in files:
            with open(f, "rb") as src, fs.open(f"/{folder}/{os.path.basename(f)}", "wb") as dst:
                dst.write(src.read())
            os.remove(f)
        return f"{STORE[store]}://{folder}"

    def place(self):
        at = self.case["at"]
        N[0] += 1
        self.needed = []
        self.tmp = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        tempfile.tempdir = self.tmp  # local copies end up here
        root = self.dir
        parts = range(len(self.case["parts"]))
        with open(os.path.join(self.dir, "meta.json")) as f:
            meta = json.load(f)
        bare = [x for x in ("node", "edge") if not meta[x + "_feature_count"]]  # no features, nothing to fetch
        own = {p: engine.apart(self.dir, p) for p in parts}
        if at["meta"] != "l":
            root = self.put([os.path.join(self.dir, "meta.json")], at["meta"], f"g{N[0]}")
        home = []
        wanted = {p for ps in self.case["servers"] for p in ps} if self.case["servers"] else set(self.case.get("load", parts))
        for p in parts:
            where = at["parts"][p]
            files = [os.path.join(own[p], n) for n in sorted(os.listdir(own[p]))]
            away = where in STORE or where == "m" and at["meta"] != "l"
            if away and p in wanted:
                self.needed += [[os.path.basename(f), digest(f)] for f in files if not any(os.path.basename(f).startswith(x + "_features") for x in bare)]
            if where == "m":  # beside the metadata
                if at["meta"] == "l":
                    for f in files:
                        os.rename(f, os.path.join(self.dir, os.path.basename(f)))
                else:
                    self.put(files, at["meta"], f"g{N[0]}")
                home.append(root)
            elif where == "l":
                home.append(own[p])
            else:
                home.append(self.put(files, where, f"g{N[0]}p{p}"))
        return root, home


def listing(d):
    return sorted([n, digest(os.path.join(b, n))] for b, _, fs in os.walk(d) for n in fs)


def run(case):
    w = None
    try:
        w = World(case)
        got = listing(w.tmp)
        ans = [engine.query(w, q) for q in case["ops"]]
        w.g.reset()
        for s in w.servers:
            s.reset()
        left = [n for n, _ in listing(w.tmp)]
        return {"ans": ans, "needed": w.needed, "got": got, "remain": left}
    finally:
        for fs in (MemoryFileSystem, Vault):
            fs.store.clear()
            fs.pseudo_dirs[:] = [""]
        if w is not None:
            w.servers = []
            w.g = None
            w.close()
            shutil.rmtree(w.tmp, True)
        tempfile.tempdir = None


if __name__ == "__main__":
    dlib.serve(run, 60)
