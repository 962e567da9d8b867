"""Runs synchronized servers and clients through a given order of steps and records what happened when."""
import multiprocessing as mp
import os, shutil, signal, sys, tempfile, threading, time

_sleep = time.sleep
time.sleep = lambda s: _sleep(s / 40 if s >= 0.5 else s)  # the code polls once a second
_wait = threading.Event.wait
threading.Event.wait = lambda self, timeout=None: _wait(self, timeout / 40 if timeout is not None and 0.5 <= timeout <= 2 else timeout)

from dlib import serve  # noqa
from deepgnn.graph_engine.backends.snark.synchronized import SynchronizedClient, SynchronizedServer  # noqa

from deepgnn import get_logger  # noqa

get_logger()  # set up before any process is forked
LONG, SHORT = 20, 0.6
MAIN = os.getpid()


class Journal:
    def __init__(self, path):
        self.path = path

    def __call__(self, e, k):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, b"%d %s %d\n" % (time.monotonic_ns(), e.encode(), k))
        os.close(fd)

    def read(self):
        rows = [x.split() for x in open(self.path)] if os.path.exists(self.path) else []
        rows.sort(key=lambda x: int(x[0]))
        t0 = int(rows[0][0]) if rows else 0
        return [{"t": (int(t) - t0) // 1000000, "e": e, "k": int(k)} for t, e, k in rows]


class FakeServer:
    def __init__(self, journal, k, gate, fails):
        self.j, self.k = journal, k
        if fails:
            raise RuntimeError("scripted: server cannot start")
        while not os.path.exists(gate):
            _sleep(0.002)
        journal("s-up", k)

    def reset(self):
        self.j("s-down", self.k)


class FakeClient:
    def __init__(self, journal, k, slow):
        self.j, self.k, self.slow = journal, k, slow
        _sleep(slow / 2)
        journal("c-up", k)

    def reset(self):
        _sleep(self.slow)
        self.j("c-down" if os.getpid() == MAIN else "f-down", self.k)


def run(case):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    sync = os.path.join(d, "sync")
    os.mkdir(sync)
    log = Journal(os.path.join(d, "log"))
    gate = lambda k: os.path.join(d, "gate%d" % k)
    missing, crashed = set(case["missing"]), set(case["crashed"])
    servers, clients, calls = {}, {}, []
    connecting = {}
    if os.environ.get("VERIF_DEBUG") is None:
        devnull = open(os.devnull, "w")
        sys.stderr = devnull

    def call(name, k, fn):
        def go():
            log(name, k)
            try:
                fn()
                log(name + "-done", k)
            except TimeoutError:
                log(name + "-timeout", k)
            except BaseException:  # noqa
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
                log(name + "-raised", k)
        t = threading.Thread(target=go, daemon=True)
        t.start()
        calls.append((name, k, t))
        return t

    forks = []
    try:
        for e, k in case["sched"]:
            if e == "server":
                if k in missing and case["absent"]:
                    continue
                log("server", k)
                servers[k] = SynchronizedServer(sync, k, SHORT if crashed else LONG, FakeServer, log, k, gate(k), k in missing)
            elif e == "ready":
                open(gate(k), "w").close()
                end = time.monotonic() + 3
                while time.monotonic() < end and not any(x["e"] == "s-up" and x["k"] == k for x in log.read()):
                    _sleep(0.002)
            elif e == "client":
                clients[k] = SynchronizedClient(sync, case["ranks"][k], case["S"], SHORT if missing else LONG, FakeClient, log, k, case["slow"])
                log("client", k)
            elif e == "connect":
                seen = []
                for _ in range(case["threads"]):
                    connecting[k] = call("connect", k, lambda k=k, seen=seen: seen.append(clients[k].client) or seen[0] is clients[k].client or log("c-other", k))
            elif e == "closec":
                if k in connecting:
                    for n, j, t in list(calls):
                        if n == "connect" and j == k:
                            t.join(LONG)
                if missing and case["noclose"] and k in connecting:
                    continue  # it has been told that servers are missing, nobody closes it
                call("closec", k, clients[k].reset).join(0.3)
            elif e == "fork":
                if k in connecting:
                    connecting[k].join(LONG)
                pid = os.fork()
                if pid == 0:
                    try:
                        clients[k].reset()
                    finally:
                        os._exit(0)
                forks.append(pid)
                log("fork", k)
                end = time.monotonic() + 5
                while time.monotonic() < end and os.waitpid(pid, os.WNOHANG)[0] == 0:
                    _sleep(0.002)
                else:
                    forks.remove(pid) if time.monotonic() < end else None
            elif e == "closes":
                for n, _, t in list(calls):
                    if n == "connect":
                        t.join(LONG)
                if k in servers:
                    call("closes", k, servers[k].reset).join(case["pause"])
            _sleep(0.002)
        end = time.monotonic() + 12
        for _, _, t in calls:
            t.join(max(0.01, end - time.monotonic()))
        stuck = [[n, k] for n, k, t in calls if t.is_alive()]
        procs = [x._server_process for x in servers.values() if hasattr(x, "_server_process")] or mp.active_children()
        end = time.monotonic() + 3
        while time.monotonic() < end and any(p in mp.active_children() for p in procs):
            _sleep(0.005)
        alive = len([p for p in mp.active_children() if p in procs])
        if case["twice"] and not stuck:
            for k, s in servers.items():
                call("closes", k, s.reset).join(5)
        left = sorted(x for x in os.listdir(sync))
        return {"log": log.read(), "stuck": stuck, "alive": alive, "left": left, "hang": bool(stuck) or alive > 0, "short": int(SHORT * 1000)}
    finally:
        for p in mp.active_children():
            try:
                os.kill(p.pid, signal.SIGKILL)
            except OSError:
                pass
        for pid in forks:
            os.kill(pid, signal.SIGKILL)
        shutil.rmtree(d, ignore_errors=True)


serve(run, timeout=90)
