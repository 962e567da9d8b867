"""Opens, asks and closes clients, samplers and servers of stored graphs in a given order and records what each step gave."""
import copy, gc, threading, time
import dlib, engine
from engine import Api, World, drawn, query
from deepgnn.graph_engine.snark import client, distributed, local, server


time.sleep = lambda s: None  # between attempts of a query


class Run:
    def __init__(self, case):
        self.case = case
        self.worlds = [World(dict(w, late_client=True, skip_graph=not w["servers"])) for w in case["worlds"]]
        self.graphs, self.samplers, self.others = {}, {}, []

    def open(self, x):
        c = self.case["clients"][x["c"] - 1]
        w = self.worlds[c["world"] - 1]
        v = copy.copy(w)
        kind = client.PartitionStorageType(w.case["storage"])
        other = [d for d, o in self.graphs.items() if c["copied"] and o.g is not None and self.case["clients"][d - 1]["world"] == c["world"] and self.case["clients"][d - 1]["servers"] and self.case["clients"][d - 1]["api"]]
        if c["servers"]:
            if c["api"] and other:
                v.g = Api(copy.copy(self.graphs[other[0]].g.c))
            elif c["api"]:
                v.g = Api(distributed.Client(list(w.hosts), num_threads=c["threads"]))
            else:
                v.g = client.DistributedGraph(list(w.hosts), num_threads=c["threads"])
        elif c["api"]:
            v.g = Api(local.Client(w.dir, list(w.case["load"]), kind))
        else:
            v.g = client.MemoryGraph(w.dir, [(w.dir, p) for p in w.case["load"]], storage_type=kind)
        self.graphs[x["c"]] = v

    def close(self, x):
        if x["drop"]:
            self.graphs[x["c"]].g = None
            gc.collect()
        else:
            self.graphs[x["c"]].g.reset()

    def ask(self, x):
        return query(self.graphs[x["c"]], x["q"])

    def make(self, x):
        v, s = self.graphs[x["c"]], self.case["samplers"][x["m"] - 1]
        g = v.g.c.graph if isinstance(v.g, Api) else v.g
        for k in range(x["crowd"]):  # many more samplers of the same client
            o = self.case["samplers"][(x["m"] + k) % len(self.case["samplers"])]
            self.others.append((client.NodeSampler if o["elem"] == "node" else client.EdgeSampler)(g, list(range(5)), o["kind"]))
        if isinstance(v.g, Api):
            v.g.elements(s["elem"], s["types"], s["kind"], 1, 1)
            self.samplers[x["m"]] = None
        else:
            self.samplers[x["m"]] = (client.NodeSampler if s["elem"] == "node" else client.EdgeSampler)(v.g, list(s["types"]), s["kind"])

    def shut(self, x):
        self.samplers[x["m"]].reset()

    def draw(self, x):
        v, s, call = self.graphs[x["c"]], self.case["samplers"][x["m"] - 1], x["q"]["calls"][0]
        if self.samplers[x["m"]] is None:
            return drawn(v, v.g.elements(s["elem"], s["types"], s["kind"], call["size"], call["seed"]))
        return drawn(v, self.samplers[x["m"]].sample(call["size"], call["seed"]))

    def stop(self, x):
        self.worlds[0].servers[x["s"] - 1].reset()

    def start(self, x):
        w, s = self.worlds[0], x["s"] - 1
        kind = client.PartitionStorageType(w.case["storage"])
        if w.case.get("api"):
            w.servers[s] = distributed.Server(w.hosts[s], w.dir, s, len(w.hosts), storage_type=kind)
        else:
            w.servers[s] = server.Server(w.dir, [(w.dir, p) for p in w.case["servers"][s]], w.hosts[s], storage_type=kind)

    def step(self, k):
        x = dict(self.case["h"][k], q=self.case["qs"][k], drop=k in self.case["drops"], crowd=self.case["crowd"])
        o = {"err": False, "ans": {}}
        try:
            o["ans"] = getattr(self, x["e"])(x) or {}
        except Exception as e:
            o["err"] = True
            o["text"] = (type(e).__name__ + " " + str(e))[:200]
        return o

    def end(self):
        for v in self.graphs.values():
            if v.g is not None:
                v.g.reset()
        for w in self.worlds:
            w.close()


def run(case):
    r = Run(case)
    obs = [None] * len(case["h"])
    try:
        k = 0
        while k < len(obs):
            if k in case["pairs"]:  # this step and the next at the same time
                both = threading.Barrier(2)

                def one(j):
                    both.wait()
                    obs[j] = r.step(j)

                ts = [threading.Thread(target=one, args=(j,), daemon=True) for j in (k, k + 1)]
                [t.start() for t in ts]
                [t.join() for t in ts]
                k += 2
            else:
                obs[k] = r.step(k)
                k += 1
        return {"obs": obs}
    finally:
        r.end()


if __name__ == "__main__":
    dlib.serve(run, 60)
