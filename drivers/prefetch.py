"""Steers a prefetching generator through given schedules and records what the consumer sees."""
import contextlib, io, queue, random, sys, threading, time
from dlib import serve, guarded
from deepgnn.graph_engine.prefetch import Generator

PATIENCE = 10


class Scripted(Exception):
    pass


RAISED = {"text": lambda t: Scripted(t), "empty": lambda t: Scripted(), "stop": lambda t: StopIteration(), "exit": lambda t: SystemExit(), "key": lambda t: KeyError(t)}
BLANK = {"none": None, "zero": 0, "empty": ()}


class Sampler:
    """Yields batches 1..n, each when its gate opens, then ends or fails."""

    def __init__(self, case, world):
        self.case, self.world = case, world

    def __iter__(self):
        w = self.world
        for k in range(1, self.case["n"] + 1):
            w.move()
            yield ["batch", k]
        w.move()
        if self.case["samperr"]:
            raise Scripted("sampler" if self.case["raised"] != "empty" else "")

    def __len__(self):
        return self.case["n"]


class World:
    def __init__(self, case):
        self.case = case
        self.gated = bool(case["sched"])
        self.rng = random.Random(case.get("seed", 0))
        self.steps = threading.Semaphore(0)
        self.gates = {k: threading.Event() for k in range(1, case["n"] + 1)}
        self.graph = object()
        self.asked = []

    def move(self):
        if self.gated:
            self.steps.acquire()
        elif self.case["delay"]:
            time.sleep(self.rng.random() * self.case["delay"])

    def query(self, graph, inputs):
        k = inputs[1]
        self.asked.append(k)
        if self.gated:
            self.gates[k].wait()
        elif self.case["delay"]:
            time.sleep(self.rng.random() * self.case["delay"])
        if k in self.case["bad"]:
            raise RAISED[self.case["raised"]]("query %d" % k)
        if self.case["blank"]:
            return BLANK[self.case["blank"]]
        return ("result", k, graph is self.graph)

    def open(self):
        self.gated = False
        for g in self.gates.values():
            g.set()
        for _ in range(self.case["n"] + 3):
            self.steps.release()


class Consumer:
    """Calls next() on its own thread, one call at a time."""

    def __init__(self, gen, case):
        self.blank, self.left = case["blank"], [k for k in range(1, case["n"] + 1) if k not in case["bad"]]
        self.gen, self.todo, self.outcomes, self.busy = gen, queue.Queue(), [], threading.Event()
        self.free = threading.Event()
        self.free.set()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.todo.get()
            try:
                v = next(self.gen)
                if self.blank and type(v) is type(BLANK[self.blank]) and v == BLANK[self.blank]:
                    # results without a name: only their number counts
                    v = ("result", self.left.pop(0) if self.left else 0, True)
                ok = type(v) is tuple and len(v) == 3 and v[0] == "result" and v[2] is True
                self.outcomes.append(["item", v[1]] if ok else ["foreign", 0])
            except StopIteration:
                self.outcomes.append(["stop", 0])
            except BaseException as e:  # noqa
                self.outcomes.append(["raised", int("query" in str(e) or "sampler" in str(e))])
            self.free.set()

    def call(self):
        self.free.clear()
        self.todo.put(1)


def settle():
    time.sleep(0.0006)


def run(case):
    sys.stdout = io.StringIO()  # the generator prints tracebacks
    w = World(case)
    gen = Generator(w.graph, Sampler(case, w), w.query, prefetch_size=case["cap"], max_parallel=case["par"])
    con = Consumer(gen, case)
    closing = None

    def close():
        def go():
            gen.join()
            gen.join()
        box = []
        t = threading.Thread(target=lambda: box.append(guarded(go, PATIENCE)[0]), daemon=True)
        t.start()
        return t, box

    for e in case["sched"]:
        if e == "S":
            w.steps.release()
        elif e[0] == "F":
            w.gates[int(e[1:])].set()
        elif e == "C":
            if con.free.wait(0.02):
                con.call()
        elif e == "X":
            if con.free.wait(0.02):
                closing = close()
        settle()
    w.open()
    hang = not con.free.wait(PATIENCE)
    while not hang and closing is None and len(con.outcomes) < case["n"] + 6:
        if len(con.outcomes) >= 3 and all(o[0] != "item" for o in con.outcomes[-3:]):
            break
        if case["closeat"] >= 0 and len(con.outcomes) >= case["closeat"]:
            break
        con.call()
        hang = not con.free.wait(PATIENCE)
    outcomes = list(con.outcomes)
    early = closing is not None or (case["closeat"] >= 0 and not any(o[0] != "item" for o in outcomes))
    if closing is None:
        closing = close()
    closing[0].join(PATIENCE + 5)
    closed = closing[1][0] if closing[1] else "hang"
    return {"got": outcomes, "hang": hang or closed == "hang", "stuck": hang, "early": early, "closed": closed, "asked": sorted(w.asked)}


serve(run, timeout=60)
