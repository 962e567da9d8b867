"""Answers the same questions several times, each time with a new client in other circumstances, and records the answers."""
import json, random
from types import SimpleNamespace
from concurrent.futures import ThreadPoolExecutor
import dlib, engine

engine.random = SimpleNamespace(seed=lambda s: None)  # seeded once per run, below


def text(x):
    return json.dumps(x, sort_keys=True)


def shifted(q, by):
    """The same question with another seed; without one the engine takes it from python's generator."""
    if q["op"] == "gmany":
        return dict(q, ops=[dict(s, calls=[shifted(dict(x, op=""), by) for x in s["calls"]]) for s in q["ops"]])
    return dict(q, seed=q["seed"] + by if "seed" in q else None)


def mixed(ops, seed):
    """The order in which to ask, and the questions with the calls of their samplers in another order."""
    r = random.Random(seed)
    out = []
    for q in ops:
        if q["op"] == "gmany":
            n = sum(len(s["calls"]) for s in q["ops"])
            turns = iter(r.sample(range(n), n))
            q = dict(q, ops=[dict(s, calls=[dict(x, turn=next(turns)) for x in s["calls"]]) for s in q["ops"]])
        out.append(q)
    return r.sample(range(len(ops)), len(ops)), out


def run(case):
    runs = []
    for v in case["runs"]:
        w = engine.World(dict(case, **v["world"]))
        ops = [shifted(q, v["shift"]) for q in case["ops"]]
        try:
            random.seed(case["pyseed"] + v["shift"] if not case["explicit"] else v["other"])
            if v["parallel"]:
                with ThreadPoolExecutor(v["parallel"]) as ex:
                    ans = list(ex.map(lambda q: engine.query(w, q), ops))
            else:
                ans = [None] * len(ops)
                turn = range(len(ops))
                if v["shuffle"]:
                    turn, ops = mixed(ops, v["shuffle"])
                for k in turn:
                    q = ops[k]
                    for j in v["noise"]:
                        if j[0] == k:
                            engine.query(w, case["lookups"][j[1]])
                    order = v["orders"][k] if v["orders"] else None
                    ans[k] = engine.ordered(w, order, lambda: engine.query(w, q), 0.3) if w.servers else engine.query(w, q)
            runs.append([text(a) for a in ans])
        finally:
            w.close()
    return {"answers": runs}


if __name__ == "__main__":
    dlib.serve(run, 120)
