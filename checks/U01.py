import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *


def case(r, kind):
    procs, threads = r.choice([1, 1, 2, 2, 3, 5]), r.choice([1, 1, 2, 3, 5])
    perchunk = r.choice([1, 1, 2, 3, 7, 1024])
    ops, n = [], 0
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 25])):
        op = r.choice(["write", "lines", "lines"])
        k = r.choice([0, 1, 1, 2, 3, 4, 6, 7, 8, 15])
        ops.append(dict(op=op, lines=list(range(n + 1, n + k + 1)), plain=op == "lines" and r.random() < 0.2))
        n += k
    chunks = sum(1 if o["op"] == "write" else -(-len(o["lines"]) // perchunk) for o in ops)
    queue = r.choice([procs, procs, 2 * procs, 3 * procs + 1, 100, max(1, procs - 1)])
    each = queue // procs
    fault = ["", 0]
    if kind == "fault":
        fault = [r.choice(["open", "write", "write", "close"]), r.choice([1, 1, 2, 3, 5])]
    return dict(kind=kind, procs=procs, threads=threads, perfile=r.choice([0, 0, 1, 1, 2, 3]), perchunk=perchunk, queue=queue, ops=ops,
                roomy=each == 0 or chunks <= each, delay=r.choice([0, 0, 0.002, 0.01]), fault=fault,
                slowly=r.choice([0, 0, 0.5]) if kind == "fault" else 0, ask=r.choice(["lines", "write", ""]) if kind == "fault" else "",
                leave=r.choice(["close", "close", "with", "raise"]), closes=r.choice([1, 1, 2]))


def run(c):
    r = c.rng
    c.model("Upload", "Upload_mc.cfg")
    c.model("Upload", "Upload_fault.cfg", name="Upload-fault")
    c.model("Upload", "Upload_empty.cfg", name="Upload-empty-ends", expect_violation="Whole")
    c.model("Upload", "Upload_patient.cfg", name="Upload-patient-write", expect_violation="WriteReturns")
    c.model("Upload", "Upload_stuck.cfg", name="Upload-patient-close", expect_violation="CloseReturns")
    if c.thorough:
        c.model("Upload", "Upload_wide.cfg", name="Upload-wide")
    cases = [case(r, "plain") for _ in range(c.pick(500, 5000))] + [case(r, "fault") for _ in range(c.pick(160, 1500))]
    c.judge("J_Upload", c.drive("upload.py", cases), chunk=60)
    c.assumptions = ["the storage service is replaced by a stand-in: a file appears when it is closed", "the pauses of the monitors are shortened",
                     "what was accepted before a storage failure may be lost, as the code documents by ending early"]


main("U01", run)
