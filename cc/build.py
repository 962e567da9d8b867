"""Build libwrapper.so of the working tree's C++ engine against the in-process shims.

Usage: build.py   -> prints the path of the library.
The result is cached under /verif/.cache keyed by the content of every C++ source and shim.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(os.path.dirname(HERE), ".cache")
LIBDIR = os.path.join(REPO, "src/cc/lib")

def sources():
    out = []
    for root in (LIBDIR, HERE):
        for d, ds, fs in os.walk(root):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".cc", ".h", ".proto", ".py")) ]
    return out

def key():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

def build():
    os.makedirs(CACHE, exist_ok=True)
    k = key()
    lib = os.path.join(CACHE, f"libwrapper-{k}.so")
    if os.path.exists(lib):
        return lib
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        tmp = os.path.join(CACHE, f"build-{k}")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/gen/src/cc/lib/distributed")
        dist = LIBDIR + "/distributed"
        subprocess.run(["protoc", "-I", REPO, "--cpp_out", tmp + "/gen", dist + "/service.proto"], check=True)
        subprocess.run([sys.executable, HERE + "/gen_grpc.py", dist + "/service.proto", tmp + "/gen/src/cc/lib/distributed/service.grpc.pb.h"], check=True)
        inc = ["-I", HERE + "/shim", "-I", tmp + "/gen", "-I", REPO, "-I", LIBDIR + "/graph"]
        # asserts stay enabled: the engine performs some reads inside assert()
        flags = ["-std=c++20", "-O1", "-g0", "-fPIC", "-DGLOG_NO_ABBREVIATED_SEVERITIES", "-w"]
        skip = ("_test.cc", "_benchmark.cc")
        cc = []
        for d in (LIBDIR, LIBDIR + "/graph", dist):
            cc += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc") and not f.endswith(skip) and f != "mocks.cc"]
        cc += [tmp + "/gen/src/cc/lib/distributed/service.pb.cc", HERE + "/grpc_shim.cc"]
        def one(i):
            o = f"{tmp}/{i}.o"
            r = subprocess.run(["g++", *flags, *inc, "-c", cc[i], "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f"C++ compile failed: {cc[i]}\n{r.stderr[-3000:]}")
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, range(len(cc))))
        r = subprocess.run(["g++", "-shared", "-o", tmp + "/lib.so", *objs, "-lprotobuf", "-labsl_raw_hash_set", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_raw_logging_internal", "-labsl_throw_delegate", "-Wl,--no-undefined", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(f"C++ link failed: {r.stderr[-3000:]}")
        os.rename(tmp + "/lib.so", lib)
        shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        libs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("libwrapper-")), key=os.path.getmtime)
        for old in libs[:-6]:
            os.remove(old)
    return lib

if __name__ == "__main__":
    print(build())
