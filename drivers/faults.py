"""Queries of the distributed client while servers fail, in scripted ways."""
import copy, ctypes, json, os, threading, time
import dlib, engine
from engine import LIB, World, query
from deepgnn.graph_engine.snark import server, client

WAITS = []
time.sleep = lambda s: WAITS.append(s)
LIB.VShimCalls.restype = ctypes.c_uint64


def config(case):
    if "attempts" not in case:
        return None
    pol = {"maxAttempts": case["attempts"], "initialBackoff": case["btext"][0], "maxBackoff": case["btext"][1], "backoffMultiplier": case["btext"][2],
           "retryableStatusCodes": ["UNAVAILABLE"]}
    return [("grpc.enable_retries", 1), ("grpc.service_config", json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": pol}]}))]


def run(case):
    case["grpc_options"] = config(case)
    case["late_client"] = True
    w = World(case)
    connected = []
    try:
        for code in case["connect"] + [0]:
            for h in w.hosts:
                LIB.VShimScript(h.encode(), str(code).encode())
            try:
                w.connect()
                if case["copied"]:
                    first, w.g = w.g, engine.Api(copy.copy(w.g.c))
                    first.reset()
                connected.append(True)
            except Exception:
                connected.append(False)
            for h in w.hosts:
                LIB.VShimScript(h.encode(), b"")
        return {"connected": connected, "obs": queries(case, w)}
    finally:
        w.close()


def queries(case, w):
    kind = client.PartitionStorageType(case.get("storage", 0))
    stopped = set()
    obs = []
    try:
        for st in case["steps"]:
            for s, down in enumerate(st["down"]):
                if down and s not in stopped:
                    w.servers[s].reset()
                    stopped.add(s)
                elif not down and s in stopped:
                    w.servers[s] = server.Server(w.dir, [(w.dir, p) for p in case["servers"][s]], w.hosts[s], storage_type=kind)
                    stopped.discard(s)
            for s, codes in enumerate(st["script"]):
                LIB.VShimScript(w.hosts[s].encode(), "|".join(map(str, codes)).encode())
            before = [LIB.VShimCalls(h.encode()) for h in w.hosts]
            del WAITS[:]
            order = "|".join(w.hosts[s] if s >= 0 else "hold" for s in st["order"])
            LIB.VShimOrder(order.encode())
            free = threading.Timer(st.get("hold", 2), lambda: LIB.VShimOrder(b""))
            free.daemon = True
            free.start()
            o = {"err": False, "ans": {}}
            try:
                o["ans"] = query(w, st["q"])
            except Exception as e:
                o["err"] = True
                o["text"] = str(e)[:200]
            if "hold" not in st:
                free.cancel()
                LIB.VShimOrder(b"")
            else:
                free.join()
                threading.Event().wait(0.05)
            o["calls"] = [LIB.VShimCalls(h.encode()) - b for h, b in zip(w.hosts, before)]
            o["waits"] = [min(round(x * 1000), 2**30) for x in WAITS]
            for s in range(len(w.hosts)):
                LIB.VShimScript(w.hosts[s].encode(), b"")
            obs.append(o)
        return obs
    finally:
        for s in stopped:
            w.servers[s] = server.Server(w.dir, [(w.dir, p) for p in case["servers"][s]], w.hosts[s], storage_type=kind)


if __name__ == "__main__":
    dlib.serve(run, 60)
