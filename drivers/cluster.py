"""Starts the distributed backend in the worker processes of a made up cluster and records who serves what where."""
import argparse, builtins, inspect, json, os, shutil, signal, socket, sys, tempfile, threading, time, traceback

_sleep = time.sleep
time.sleep = lambda s: _sleep(s / 40 if s >= 0.5 else s)  # the code polls once a second
_wait = threading.Event.wait
threading.Event.wait = lambda self, timeout=None: _wait(self, timeout / 40 if timeout is not None and 0.5 <= timeout <= 2 else timeout)

HOST = [None]


class Socket(socket.socket):
    """A machine with an address of its own on the way out."""

    def connect(self, address):
        if self.type != socket.SOCK_DGRAM or not HOST[0]:
            return super().connect(address)

    def getsockname(self):
        return (HOST[0], 1) if self.type == socket.SOCK_DGRAM and HOST[0] else super().getsockname()


_byname = socket.gethostbyname
socket.socket, socket.gethostbyname = Socket, lambda name: HOST[0] or _byname(name)

from dlib import serve  # noqa
from deepgnn import get_logger  # noqa
from deepgnn.graph_engine.backends.options import BackendOptions  # noqa
from deepgnn.graph_engine.backends.snark import client as backend  # noqa
from deepgnn.graph_engine.snark import client as snark_client, server as snark_server  # noqa

get_logger()  # set up before any process is forked
ENV = ("LOCAL_RANK", "LOCAL_WORLD_SIZE", "RANK", "WORLD_SIZE", "OMPI_COMM_WORLD_LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_SIZE", "OMPI_COMM_WORLD_RANK",
       "OMPI_COMM_WORLD_SIZE", "HOROVOD_LOCAL_RANK", "HOROVOD_LOCAL_SIZE", "HOROVOD_RANK", "HOROVOD_SIZE", "TF_CONFIG")
Real, RealGraph = (inspect.signature(x.__init__) for x in (snark_server.Server, snark_client.DistributedGraph))


def note(path, rec):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(rec) + "\n").encode())
    os.close(fd)


def bound(signature, a, k):
    b = signature.bind(None, *a, **k)
    b.apply_defaults()
    return b.arguments


def worker(case, w, d, model):
    me = case["workers"][w]
    phase = [1]
    log = os.path.join(d, "log")
    for x in ENV:
        os.environ.pop(x, None)
    os.environ.update(me["env"])
    slow = me["slow"]
    real_open = builtins.open

    def slow_open(file, mode="r", *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(model):
            ext = os.path.splitext(os.fspath(file))[1][1:]
            _sleep(slow.get(ext if set(mode) & set("wax+") else "read", 0))
        return real_open(file, mode, *a, **k)

    builtins.open = slow_open

    def serve_(self, *a, **k):
        b = bound(Real, a, k)
        parts = [p if isinstance(p, int) else p[1] for p in b["partitions"]]
        note(log, {"e": "server", "w": w, "phase": phase[0], "addr": b["hostname"], "parts": parts})

    def stop(self):
        note(log, {"e": "down", "w": w, "phase": phase[0]})

    def connect(self, *a, **k):
        b = bound(RealGraph, a, k)
        note(log, {"e": "client", "w": w, "phase": phase[0], "servers": list(b["servers"])})
        self.meta = argparse.Namespace(node_count_per_type=[1], edge_count_per_type=[1])

    snark_server.Server.__init__, snark_server.Server.reset = serve_, stop
    snark_client.DistributedGraph.__init__, snark_client.DistributedGraph.reset = connect, lambda self: None
    HOST[0] = "127.0.0.%d" % (me["host"] + 1)

    def meet(name):
        real_open(os.path.join(d, "%s-%d" % (name, w)), "w").close()
        n = len(case["workers"])
        end = time.monotonic() + 60
        while time.monotonic() < end and not all(os.path.exists(os.path.join(d, "%s-%d" % (name, j))) for j in range(n)):
            _sleep(0.005)

    params = argparse.Namespace(data_dir=os.path.join(d, "data"), model_dir=model, ge_start_timeout=case["timeout"], backend="snark",
                                graph_type="remote", converter="skip", sync_dir=case["sync_dir"] and os.path.join(d, "elsewhere"), **dict({"server_idx": None, "client_rank": None}, **me["args"]))
    options = BackendOptions(params)
    for n in range(1, case["phases"] + 1):
        phase[0] = n
        try:
            if n > 1 and not case["same_options"]:
                options = BackendOptions(params)
            _sleep(slow.get("begin", 0))
            b = backend.SnarkDistributedBackend(options)
            b.graph
            note(log, {"e": "ready", "w": w, "phase": n})
        except BaseException as e:  # noqa
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            note(log, {"e": "raised", "w": w, "phase": n, "what": type(e).__name__})
            meet("up%d" % n)
            break
        meet("up%d" % n)
        try:
            b.close()
            note(log, {"e": "closed", "w": w, "phase": n})
        except BaseException as e:  # noqa
            note(log, {"e": "raised", "w": w, "phase": n, "what": type(e).__name__})
        meet("down%d" % n)


def run(case):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    model = os.path.join(d, "model")
    os.mkdir(os.path.join(d, "data"))
    os.mkdir(model)
    P = case["parts"]
    meta = {"binary_data_version": "v2", "node_count": 10, "edge_count": 10, "node_type_num": 1, "edge_type_num": 1, "node_feature_num": 0, "edge_feature_num": 0,
            "partitions": {str(i): {"node_weight": [1.0], "edge_weight": [1.0]} for i in range(P)}, "node_count_per_type": [10], "edge_count_per_type": [10], "watermark": -1}
    with open(os.path.join(d, "data", "meta.json"), "w") as f:
        json.dump(meta, f)
    pids = {}
    try:
        for w in range(len(case["workers"])):
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    if not os.environ.get("VERIF_DEBUG"):
                        null = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(null, 2)
                    worker(case, w, d, model)
                finally:
                    os._exit(0)
            pids[w] = pid
        end = time.monotonic() + 3 * case["timeout"] * case["phases"]
        waiting = dict(pids)
        while waiting and time.monotonic() < end:
            for w, pid in list(waiting.items()):
                if os.waitpid(pid, os.WNOHANG)[0]:
                    del waiting[w]
            _sleep(0.005)
        log = os.path.join(d, "log")
        rows = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
        out = {"stuck": sorted(waiting), "hang": bool(waiting), "left": sorted(os.path.splitext(x)[1] for _, _, fs in os.walk(model) for x in fs)}
        for e, keys in (("server", ("w", "phase", "addr", "parts")), ("client", ("w", "phase", "servers")), ("ready", ("w", "phase")), ("closed", ("w", "phase")), ("raised", ("w", "phase", "what"))):
            out[e + "s"] = [{k: x[k] for k in keys} for x in rows if x["e"] == e]
        out["hang"] = out["hang"] or any(x["what"] == "TimeoutError" for x in out["raiseds"])
        for x in out["servers"]:
            x["host"] = x["addr"].rsplit(":", 1)[0]
        return out
    finally:
        for w, pid in pids.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(d, ignore_errors=True)


serve(run, timeout=300)
