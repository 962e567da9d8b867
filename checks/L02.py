import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["h", "h1", "h10", "h2", "h-1", "H", "10.0.0.1", "10.0.0.10", "node.a", "node", "z", "a", "localhost", "127.0.0.1", "[::1]", "[fe80::1]", "[fe80::2]"]
SLOW = [0, 0, 0, 0.04, 0.12, 0.3]


def cluster(r, launcher, H, S, P, given):
    """One made up cluster: H hosts with S workers each."""
    n = H * S
    workers = []
    servers = ["127.0.0.%d:%d" % (h + 1, 20000 + r.randrange(1000)) for h in range(H)] if given else None
    located = True
    order = list(range(n))
    if launcher.startswith("tf"):
        hosts = r.sample(NAMES, H)
        ports = r.sample([1, 9, 10, 80, 2222, 22222, 3333], S)
        addr = [(h, "%s:%d" % (hosts[h], ports[s])) for h in range(H) for s in range(S)]
        r.shuffle(addr)
        located = not given  # with a list from the user the order of hosts is the launcher's
    for w in range(n):
        h, slot = w // S, w % S
        env, args = {}, {"num_ge": 0}
        if launcher == "ddp":
            env = {"RANK": w, "WORLD_SIZE": n, "LOCAL_RANK": slot, "LOCAL_WORLD_SIZE": S}
        elif launcher == "mpi":
            env = {"OMPI_COMM_WORLD_RANK": w, "OMPI_COMM_WORLD_SIZE": n, "OMPI_COMM_WORLD_LOCAL_RANK": slot, "OMPI_COMM_WORLD_LOCAL_SIZE": S}
        elif launcher == "horovod":
            env = {"HOROVOD_RANK": w, "HOROVOD_SIZE": n, "HOROVOD_LOCAL_RANK": slot, "HOROVOD_LOCAL_SIZE": S}
        elif launcher == "tf-args":
            h = addr[w][0]
            args.update(task_index=w, worker_hosts=[a for _, a in addr])
        elif launcher == "tf-config":
            h = addr[w][0]
            env = {"TF_CONFIG": json.dumps({"cluster": {"worker": [a for _, a in addr], "ps": ["ps:1"]}, "task": {"type": r.choice(["worker", "Worker"]), "index": w}})}
        elif launcher == "explicit":
            # ranks of clients do not follow the order of servers
            args.update(server_idx=h if slot == 0 else -1, client_rank=order[w], num_ge=0 if given or P == n and n <= 4 else n)
        elif launcher == "skip":
            args.update(skip_ge_start=True)
        if given:
            args["servers"] = servers
        if launcher != "explicit" and r.random() < 0.3:
            args["num_ge"] = r.randint(1, 5)
        slow = {k: r.choice(SLOW) for k in ("begin", "client", "server", "servername", "read")}
        workers.append({"host": h, "env": {k: str(v) for k, v in env.items()}, "args": args, "slow": slow})
    return {"hosts": H, "slots": S, "parts": P, "given": servers or [], "workers": workers, "located": located and launcher != "skip", "skip": launcher == "skip",
            "phases": r.choice([1, 2]), "same_options": r.random() < 0.3, "sync_dir": r.choice(["", "", "x"]), "timeout": 20, "kind": launcher + ("-given" if given else "-discovered"), "sig": launcher}


def run(c):
    r = c.rng
    c.model("Exchange", "Exchange_mc.cfg")
    c.model("Exchange", "Exchange_wide.cfg", name="Exchange-wide", workers=8)
    c.model("Exchange", "Exchange_late.cfg", name="Exchange-late", expect_violation="AllStart")
    cfg = open(os.path.join(SPECS, "Exchange_mc.cfg")).read().replace("MaxHosts = 2", "MaxHosts = %d" % c.pick(3, 4)).replace("MaxParts = 5", "MaxParts = 6").replace("PROPERTY AllStart", "")
    shapes = c.enumerate("Exchange", cfg)
    cases = []
    for b in shapes:
        for launcher in ("ddp", "mpi", "horovod", "tf-args", "tf-config", "explicit", "skip"):
            if launcher == "skip" and not b["given"]:
                continue
            for _ in range(c.pick(1, 6)):
                cases.append(cluster(r, launcher, b["hosts"], b["slots"], b["parts"], b["given"]))
    r.shuffle(cases)
    keep = [x for x in cases if x["given"]][:c.pick(70, 1500)] + [x for x in cases if not x["given"]][:c.pick(170, 4000)]
    for H, S in ((11, 1), (6, 2), (12, 1)):  # two digit indices
        for launcher in ("ddp", "mpi", "tf-args", "tf-config", "explicit"):
            for given in (False, True):
                if r.random() < c.pick(0.4, 1):
                    keep.append(cluster(r, launcher, H, S, r.randint(1, 25), given))
    c.judge("J_Cluster", c.drive("cluster.py", keep, par=8), chunk=60)
    c.assumptions = ["as many workers on every host", "workers close once all of them are connected", "engine server and client are stand-ins that record their arguments; polling runs 40 times faster"]


main("L02", run)
