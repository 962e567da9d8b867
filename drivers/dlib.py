"""Driver side of the harness: runs cases against the real code and records what happened."""
import faulthandler, json, os, resource, sys, threading, traceback, logging

faulthandler.enable(file=open(os.devnull, "w"))
if os.environ.get("VERIF_DEBUG"):
    faulthandler.dump_traceback_later(45, file=open(os.environ["VERIF_DEBUG"] + str(os.getpid()), "w"))
logging.disable(logging.CRITICAL)
# Broken code may read a size from the wrong place: end with it, not with the machine.
resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))


def guarded(fn, timeout):
    """Call fn in a thread; returns ("ok", value) | ("raised", exception) | ("hang", None)."""
    box = {}

    def run():
        try:
            box["v"] = fn()
        except BaseException as e:  # noqa
            box["e"] = e
            box["tb"] = traceback.format_exc()

    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(timeout)
    if t.is_alive():
        return "hang", None
    if "e" in box:
        box["e"]._tb = box["tb"]
        return "raised", box["e"]
    return "ok", box["v"]


def serve(fn, timeout=60):
    """Run every case of the input file, appending one JSON line per case to the output file."""
    inp, outp = sys.argv[1], sys.argv[2]
    hangs = 0
    with open(outp, "a") as out:
        for n, case in enumerate(json.load(open(inp))):
            out.write(json.dumps({"begin": n}) + "\n")
            out.flush()
            st, v = guarded(lambda: fn(case), timeout)
            if st == "ok":
                rec = {"status": "ok", "obs": v}
                hangs += bool(isinstance(v, dict) and v.get("hang"))
            elif st == "hang":
                rec = {"status": "hang"}
                hangs += 1
            else:
                rec = {"status": "exception", "type": type(v).__name__, "text": str(v)[:300], "tb": getattr(v, "_tb", "")[-2000:]}
            out.write(json.dumps(rec) + "\n")
            out.flush()
            if hangs >= 3:
                break
    sys.stdout.flush()
    os._exit(0)
