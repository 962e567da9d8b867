"""Shared machinery: running TLC, judging recorded behaviour, evidence and verdicts."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYSRC = os.path.join(REPO, "src/python")
SPECS = os.path.join(VERIF, "specs")
VENV = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
CORES = os.cpu_count() or 4


class Machinery(Exception):
    """The checking machinery itself failed (never a verdict about the code)."""


def _scratch():
    d = tempfile.mkdtemp(prefix="verif-")
    atexit.register(shutil.rmtree, d, True)
    return d


SCRATCH = _scratch()


def tlc(module, cfg, *, env=None, workers=1, timeout=800, extra=(), heap="3g", fast=False, depth_first=False):
    """Run TLC on specs/<module>.tla with the text of a config. Returns (output, stats)."""
    d = tempfile.mkdtemp(dir=SCRATCH)
    cfgf = os.path.join(d, "m.cfg")
    if "\n" in cfg or "SPECIFICATION" in cfg or "INIT" in cfg:
        open(cfgf, "w").write(cfg)
    else:
        shutil.copy(os.path.join(SPECS, cfg), cfgf)
    jopts = ["-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"]
    if fast:
        jopts.append("-XX:TieredStopAtLevel=1")
    if depth_first:
        jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java", *jopts, "-DTLA-Library=" + SPECS, "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-config", cfgf, *extra,
           os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPECS, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(os.path.join(d, "st"), True)
    out = r.stdout + r.stderr
    st = {"states": 0, "transitions": 0, "rc": r.returncode}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        st["transitions"], st["states"] = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"states generated: ([\d,]+)|The number of states generated: ([\d,]+)", out)
        if m:
            n = int((m[-1][0] or m[-1][1]).replace(",", ""))
            st["transitions"] = st["states"] = n
    return out, st


def run_py(script, args=(), *, env=None, timeout=800, lib=None, watch=None, stale=240):
    """Run a driver under the repository's interpreter against the working tree.

    A driver whose output file does not change for `stale` seconds is stuck: it is ended, with return code -99."""
    e = dict(os.environ)
    e["PYTHONPATH"] = PYSRC + ":" + os.path.join(VERIF, "drivers") + ":" + os.path.join(VERIF, "lib")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_SCRATCH"] = SCRATCH
    e["PYTHONHASHSEED"] = "0"
    for k in list(e):
        if k.startswith(("OMPI_", "HOROVOD_", "TF_CONFIG")) or k in ("LOCAL_RANK", "RANK", "WORLD_SIZE", "LOCAL_WORLD_SIZE"):
            del e[k]
    if lib:
        e["SNARK_LIB_PATH"] = lib
    e.update(env or {})
    err = tempfile.TemporaryFile(mode="w+", errors="replace", dir=SCRATCH)
    p = subprocess.Popen([VENV, os.path.join(VERIF, "drivers", script), *map(str, args)], stdin=subprocess.DEVNULL,
                         stdout=err, stderr=err, env=e, start_new_session=True)
    t0 = time.time()
    rc = None
    while rc is None:
        try:
            rc = p.wait(0.2 if time.time() - t0 < 5 else 1)
        except subprocess.TimeoutExpired:
            now = time.time()
            last = max(t0, os.path.getmtime(watch) if watch and os.path.exists(watch) else t0)
            if now - t0 > timeout or (watch and now - last > stale):
                rc = -99 if watch and now - last > stale else -98
                _killpg(p)
                p.wait()
    _killpg(p)
    err.seek(0)
    text = err.read()
    err.close()
    if rc == -98:
        n = sum('"begin"' in x for x in open(watch)) if watch and os.path.exists(watch) else 0
        raise Machinery(f"{script} ran out of time after {n} cases")
    return subprocess.CompletedProcess(script, rc, text, text)


def _killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def native_lib():
    r = subprocess.run([sys.executable, os.path.join(VERIF, "cc/build.py")], capture_output=True, text=True)
    if r.returncode:
        raise Machinery("native build failed: " + r.stderr[-3000:])
    return r.stdout.strip().splitlines()[-1]


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.bad = []  # (signature, clause, case)
        self.assumptions = []
        self.kinds = {}
        self.extra = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        self.known = []
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d["property"] == prop and d["status"] == "known":
                        self.known.append(d)
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    # ---- the specification itself ------------------------------------------------------------
    def model(self, module, cfg, *, workers=CORES, timeout=800, name=None, extra=(), expect_violation=None, env=None):
        """Model check the specification. A violation here is about the design, so it must never happen
        (or, with expect_violation, must happen: the spec with a known bug switched on)."""
        out, st = tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, env=env, heap="8g")
        ok = "No error has been found" in out or "Finished computing" in out and st["rc"] == 0
        if expect_violation:
            if f"Invariant {expect_violation} is violated" not in out and f"property {expect_violation}" not in out and expect_violation not in re.findall(r"(?:Invariant|Action property|Temporal properties|Deadlock)\s*(\S*)", out):
                raise Machinery(f"{module}: expected a violation of {expect_violation}\n{out[-2000:]}")
        elif not ok or st["rc"] != 0:
            raise Machinery(f"specification {module} failed:\n{out[-3500:]}")
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.models.append({"model": name or module, "states": st["states"], "transitions": st["transitions"],
                            **({"expected_violation": expect_violation} if expect_violation else {})})
        return out

    def enumerate(self, module, cfg, *, timeout=300, env=None, tag="BEH"):
        """All values a specification prints as <<tag, json>> during an exhaustive run."""
        out, st = tlc(module, cfg, workers=1, timeout=timeout, env=env)
        res = self._printed(out, tag)
        if st["rc"] != 0 or not res:
            raise Machinery(f"enumeration of {module} failed:\n{out[-2500:]}")
        return res

    @staticmethod
    def _printed(out, tag):
        return [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, out, re.M)]

    def behaviours(self, module, cfg, *, num, depth, seed=None, timeout=300, env=None, tag="BEH"):
        """Generate behaviours from the specification by simulation: values printed as <<tag, json>>."""
        out, st = tlc(module, cfg, workers=1, timeout=timeout, env=env,
                      extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed if seed is not None else self.seed)])
        res = self._printed(out, tag)
        if not res:
            raise Machinery(f"no behaviours from {module}:\n{out[-2500:]}")
        self.states += st["states"]
        self.transitions += st["transitions"]
        return res

    # ---- judging recorded behaviour ----------------------------------------------------------
    def judge(self, module, cases, *, chunk=60, timeout=700, cfg=None, env=None, par=None, describe=None):
        """Let TLC validate recorded runs of the real code against the specification.

        Each case is one recorded run; specs/<module>.tla prints <<"BAD", index, "clause">> for every clause of
        the specification the run breaks and <<"DONE", n>> at the end."""
        if not cases:
            return
        cfg = cfg or "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        base = [i for i in range(0, len(cases), chunk)]
        strip = lambda c: {k: v for k, v in c.items() if not k.startswith("_")}

        def one(k):
            f = tempfile.mktemp(suffix=".json", dir=SCRATCH)
            json.dump([strip(c) for c in chunks[k]], open(f, "w"))
            out, st = tlc(module, cfg, env={**(env or {}), "TRACE": f}, timeout=timeout, fast=len(chunks[k]) < 40)
            done = re.findall(r'<<"DONE", (\d+)>>', out)
            if st["rc"] != 0 or not done or int(done[-1]) != len(chunks[k]):
                keep = os.path.join(VERIF, "evidence", f"failed-{module}.json")
                shutil.copy(f, keep)
                raise Machinery(f"{module} could not judge chunk {k} (kept {keep}):\n{out[-3500:]}")
            os.remove(f)
            bad = [(base[k] + int(i) - 1, c) for i, c in re.findall(r'<<"BAD", (\d+), "([^"]*)">>', out)]
            return st, bad

        with ThreadPoolExecutor(par or min(CORES, 8)) as ex:
            res = list(ex.map(one, range(len(chunks))))
        for st, bad in res:
            self.states += st["states"]
            self.transitions += st["transitions"]
            for i, clause in bad:
                self.fail(clause, cases[i], module)
        self.traces += len(cases)
        for c in cases:
            self.kinds[c.get("kind", module)] = self.kinds.get(c.get("kind", module), 0) + 1
        if len(self.samples) < 6:
            for c in cases[:2]:
                self.samples.append({"spec": module, "run": json.loads(json.dumps(strip(c))[:1500] if len(json.dumps(strip(c))) <= 1500 else json.dumps(str(strip(c))[:1200]))})

    def drive(self, script, cases, *, par=None, lib=None, timeout=700, env=None, stale=240):
        """Run the driver over the cases in parallel processes; returns the cases with what was observed.
        A run that crashes the interpreter, hangs or raises out of the driver is a violation by itself."""
        par = min(par or CORES, len(cases)) or 1
        parts = [list(range(k, len(cases), par)) for k in range(par)]
        res = [None] * len(cases)
        deadline = time.time() + timeout

        def part(ix):
            todo = ix
            while todo:
                d = tempfile.mkdtemp(dir=SCRATCH)
                inp, outp = os.path.join(d, "in.json"), os.path.join(d, "out.jsonl")
                json.dump([cases[i] for i in todo], open(inp, "w"))
                left = deadline - time.time()
                if left < 1:
                    raise Machinery(f"{script} ran out of time")
                r = run_py(script, [inp, outp], env=env, lib=lib, timeout=left, watch=outp, stale=stale)
                lines = open(outp).read().splitlines() if os.path.exists(outp) else []
                recs, open_case = [], False
                for x in lines:
                    o = json.loads(x)
                    if "begin" in o:
                        open_case = True
                    else:
                        open_case = False
                        recs.append(o)
                for i, o in zip(todo, recs):
                    res[i] = o
                done = len(recs)
                if open_case:
                    res[todo[done]] = {"status": "hang" if r.returncode == -99 else "crash", "rc": r.returncode, "text": r.stderr[-1500:]}
                    done += 1
                elif done < len(todo) and sum(o["status"] == "hang" or (o["status"] == "ok" and isinstance(o["obs"], dict) and bool(o["obs"].get("hang"))) for o in recs) < 3:
                    raise Machinery(f"{script} stopped early (rc {r.returncode}): {r.stderr[-2500:]}")
                elif done < len(todo):  # too many hangs: enough of a verdict
                    return
                todo = todo[done:]

        with ThreadPoolExecutor(par) as ex:
            list(ex.map(part, parts))
        good = []
        for c, o in zip(cases, res):
            if o is None:
                continue
            if o["status"] == "ok":
                good.append({**c, **o["obs"]})
            else:
                self.traces += 1
                self.fail(o["status"] + (":" + o["type"] if "type" in o else ""), {**c, **o}, script)
        return good

    def fail(self, clause, case, module=""):
        sig = clause + ("@" + str(case.get("sig")) if case.get("sig") else "")
        for k in self.known:
            if re.fullmatch(k["match"], sig):
                self.known_hit.setdefault(k["id"], (k, sig))
                return
        self.bad.append((sig, module, case))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        seen = {}
        lines = []
        for sig, module, case in self.bad:
            if sig in seen:
                continue
            seen[sig] = 1
            path = os.path.join(VERIF, "evidence", "replay", f"{self.prop}-{len(seen)}.json")
            json.dump({"property": self.prop, "clause": sig, "spec": module, "seed": self.seed, "tier": self.tier, "case": case}, open(path, "w"), indent=1, default=str)
            lines.append((sig, path))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "models": self.models, "runs_by_kind": self.kinds, **self.extra}
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.traces)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "assumptions": self.assumptions,
              "violations": len(lines),
              }
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for k, sig in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for sig, path in lines[:10]:
            print(f"VIOLATION property={self.prop} replay={path}  [{sig}]")
        print(f"{self.prop} {self.tier}: states={self.states} transitions={self.transitions} runs={self.traces} "
              f"violations={len(lines)} wall={ev['wall_s']}s")
        sys.stdout.flush()
        sys.exit(1 if lines else 0)


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        fn(c)
    except Machinery as e:
        if c.bad:  # a verdict was already reached on real behaviour
            print("machinery:", str(e)[:500], file=sys.stderr)
            c.finish()
        print("MACHINERY-FAILURE", prop, e, file=sys.stderr)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        if c.bad:
            c.finish()
        print("MACHINERY-FAILURE timeout", prop, e, file=sys.stderr)
        sys.exit(2)
    c.finish()
