import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ALPHA = ["a", "b", " ", "é", "漢", "😀", "\t", "\x0b", "\x0c", "\x1c", "\x85", " ", "{", '"', "\\"]


def content(r):
    out = b""
    for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5, 8])):
        n = r.choice([0, 1, 1, 2, 3, 5, 9])
        out += "".join(r.choice(ALPHA) for _ in range(n)).encode() + r.choice([b"\n", b"\n", b"\n", b"\r\n"])
    if r.random() < 0.5:
        out += "".join(r.choice(ALPHA) for _ in range(r.choice([1, 2, 4]))).encode()
    return list(out)


def run(c):
    c.model("MC_TextReader", "TextReader_mc.cfg", name="TextReader")
    gen = open(os.path.join(SPECS, "TextReader_mc.cfg")).read()
    gen = re.sub(r"SPECIFICATION Spec", "INIT Init\nNEXT GenNext", gen)
    gen = re.sub(r"INVARIANTS.*|PROPERTY.*", "", gen).replace("Fails = {0, 2, 5}", "Fails = {0, 2}")
    if c.thorough:
        gen = gen.replace("SmallFiles", "AllFiles")
    envs = c.enumerate("MC_TextReader", gen)
    r = c.rng
    r.shuffle(envs)
    cases = []
    for e in envs[: c.pick(1500, 12000)]:
        n = max(1, min(e["threads"], e["length"]))
        cases.append(dict(files=e["files"], length=e["length"], threads=e["threads"], batch=e["batch"], epochs=e["epochs"], drop=e["drop"],
                          shuffle=False, workers=1, queue=1, fault=e["fail"] > 0, failat=e["fail"] and (e["fail"] - 1) * e["threads"] + r.randint(1, e["threads"]),
                          vfs=True, kind="spec-environment"))
    for k in range(c.pick(500, 4000)):
        nf = r.choice([1, 2, 3, 4, 6])
        w = r.randint(1, nf) if r.random() < 0.5 else 1
        fault = r.random() < 0.15
        cases.append(dict(files=[content(r) for _ in range(nf)], length=r.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 40, 1000]), threads=r.choice([1, 1, 2, 3, 4, 7]),
                          batch=r.choice([1, 2, 3, 5, 50]), epochs=r.choice([1, 1, 2, 3]), drop=r.random() < 0.3, shuffle=r.random() < 0.25, workers=w,
                          queue=r.choice([1, 1, 2, 30]), fault=fault, failat=r.randint(1, 12) if fault else 0, vfs=fault or r.random() < 0.4,
                          delay=r.choice([0, 0, 0.002]), seed=r.randint(0, 9999), passes=r.choice([1, 1, 2]), abandon=False, kind="random"))
        cc = cases[-1]
        if nf == 1 and r.random() < 0.5:
            cc["single"] = True
        if cc["passes"] == 2 and not fault and r.random() < 0.5:
            cc["abandon"] = True
    for x in cases:
        x["limit"] = 10 + 3 * x["epochs"] * sum(len(f) + 1 for f in x["files"])
    c.judge("J_TextReader", c.drive("text_reader.py", cases), chunk=250)
    c.assumptions = ["text is valid UTF-8", "local filesystem; read errors appear as exceptions of open/read"]


main("R01", run)
