"""Runs the data lake writer with a stand-in for the storage service and records the files it leaves behind."""
import multiprocessing, os, shutil, tempfile, threading, time, warnings
from dlib import serve, guarded

warnings.simplefilter("ignore")
_sleep = time.sleep
time.sleep = lambda s: _sleep(s / 500 if s >= 5 else s)  # the monitors look every few seconds
import azure.datalake.store as store  # noqa

PATIENCE = 40
WORLD = [None]
CREDENTIALS = """<configuration><property><name>fs.adl.oauth2.client.id</name><value>cid</value></property>
<property><name>fs.adl.oauth2.credential</name><value>sec</value></property>
<property><name>fs.adl.oauth2.refresh.url</name><value>https://login.microsoftonline.com/0fa7b2c4-3d5e-4f60-8a9b-1c2d3e4f5a6b/oauth2/token</value></property></configuration>"""


class Scripted(Exception):
    pass


class World:
    """The storage service: a file appears, or is replaced, when it is closed."""

    def __init__(self, case):
        self.case = case
        self.root = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
        self.calls = {w: multiprocessing.Value("i", 0) for w in ("open", "write", "close")}
        self.failed = multiprocessing.Value("i", 0)
        self.slow = multiprocessing.Value("i", 0)

    def step(self, what):
        with self.calls[what].get_lock():
            self.calls[what].value += 1
            n = self.calls[what].value
        d = self.case["delay"]
        if d:
            _sleep(d * ((n * 7919 + len(what)) % 11) / 10.0)
        if self.case["fault"] == [what, n]:
            self.failed.value = 1
            raise Scripted("storage")
        if self.failed.value and self.case["slowly"]:
            with self.slow.get_lock():
                self.slow.value += 1
                few = self.slow.value <= 4
            if few:
                _sleep(self.case["slowly"])


def install():
    class Handle:
        def __init__(self, path, mode):
            self.path, self.mode, self.data, self.open = path, mode, b"", True
            self.lock = threading.Lock()

        def write(self, data):
            WORLD[0].step("write")
            with self.lock:
                if not self.open:
                    raise ValueError("closed file")
                self.data += data
            return len(data)

        def flush(self, *a, **k):
            pass

        def close(self):
            if not self.open:
                return
            WORLD[0].step("close")
            self.open = False
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            with open(self.path, "ab" if "a" in self.mode else "wb") as f:
                f.write(self.data)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class FileSystem:
        def __init__(self, token=None, store_name=None, **k):
            self.at = os.path.join(WORLD[0].root, "files", str(store_name) if token == ("0fa7b2c4-3d5e-4f60-8a9b-1c2d3e4f5a6b", "sec", "cid") else "unauthorised")

        def open(self, path, mode="rb", **k):
            WORLD[0].step("open")
            return Handle(os.path.join(self.at, str(path).lstrip("/")), mode)

        def exists(self, path, **k):
            return os.path.exists(os.path.join(self.at, str(path).lstrip("/")))

        def mkdir(self, *a, **k):
            pass

    store.core.AzureDLFileSystem = FileSystem
    store.lib.auth = lambda tenant_id=None, client_secret=None, client_id=None, **k: (tenant_id, client_secret, client_id)


install()  # before the code under test takes its names
from deepgnn.graph_engine import adl_uploader as up  # noqa


def line(n):
    return "%d|%s" % (n, " x" * (n % 3))


def payload(op):
    ls = [line(n) for n in op["lines"]]
    if op["op"] == "write":
        return "".join(x + "\n" for x in ls)
    return [int(n) if op["plain"] else x for n, x in zip(op["lines"], ls)]


def parse(data, plain):
    out = []
    text = data.decode("utf-8", "replace")
    if text and not text.endswith("\n"):
        return [-1]
    for x in text.split("\n")[:-1]:
        head = x.split("|")[0]
        n = int(head) if head.isdigit() else -1
        out.append(n if n in plain and x == str(n) or n >= 0 and n not in plain and x == line(n) else -1)
    return out


def run(case):
    world = World(case)
    home = os.path.join(world.root, "home")
    os.makedirs(os.path.join(home, "etc/hadoop"))
    with open(os.path.join(home, "etc/hadoop/core-site.xml"), "w") as f:
        f.write(CREDENTIALS)
    os.environ["HADOOP_HOME"] = home
    WORLD[0] = world
    said, late = [], []
    plain = {n for op in case["ops"] for n in op["lines"] if op["plain"]}
    w = up.AdlDataWriter(store_name="shop", file_path_prefix="out/emb", max_chunks_per_file=case["perfile"], process_num=case["procs"],
                         threads_per_process=case["threads"], queue_size=case["queue"], max_lines_per_chunk=case["perchunk"])
    hang = ""

    def call(fn):
        st, v = guarded(fn, PATIENCE)
        if st == "raised":
            return "full" if type(v).__name__ == "Full" else "raised"
        return st if st != "ok" else "false" if v is False else "ok"

    for op in case["ops"]:
        st = call(lambda: (w.write if op["op"] == "write" else w.writelines)(payload(op)))
        said.append(st)
        if st == "hang":
            hang = op["op"]
            break
    told = True
    if world.failed.value and case["ask"] and not hang:
        # the writer ends and says so
        told, end, n = False, time.time() + PATIENCE, 10 ** 6
        while time.time() < end and not told:
            n += 1
            st = call(lambda: w.writelines([line(n)]) if case["ask"] == "lines" else w.write(line(n) + "\n"))
            if st == "hang":
                hang = "after-" + case["ask"]
                break
            told = st in ("false", "raised", "full") and (case["ask"] == "write" or st != "full")
            _sleep(0.01)
        plain -= {n for n in plain if n > 10 ** 6}
    closed = "ok"
    if not hang:
        def close():
            for _ in range(case["closes"]):
                if case["leave"] == "close":
                    w.close()
                else:
                    try:
                        with w as x:
                            if x is not w:
                                raise TypeError("not a writer")
                            if case["leave"] == "raise":
                                raise Scripted("body")
                    except Scripted:
                        pass
        closed = call(close)
        if closed == "ok":
            late = [call(lambda: w.writelines(["late"]))]
    for p in multiprocessing.active_children():
        # a monitor may be closing still
        p.join(5 if closed == "ok" and world.failed.value else 0)
        if p.is_alive():
            p.kill()
            p.join()
    files = []
    top = os.path.join(world.root, "files")
    for d, _, names in os.walk(top):
        for n in names:
            p = os.path.join(d, n)
            files.append({"name": os.path.relpath(p, top)[: len("shop/out/emb")], "lines": parse(open(p, "rb").read(), plain)})
    shutil.rmtree(world.root, ignore_errors=True)
    failed = bool(world.failed.value)
    return {"said": said, "late": late, "closed": closed, "files": files, "failed": failed, "told": told, "stuck": hang, "hang": bool(hang) or closed == "hang"}


serve(run, timeout=300)
