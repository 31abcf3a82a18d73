"""Builds the simulator and the code under test, from /repo's working tree."""
import glob, hashlib, json, os, subprocess, sys, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
CXX = "g++"
RT_FLAGS = "-std=gnu++17 -O2 -g -fno-pie -fno-threadsafe-statics -w".split()
# the shipped build defines NDEBUG; every memory access and atomic is instrumented
SUT_FLAGS = ("-std=gnu++17 -O1 -g1 -DNDEBUG -D_USML_SIM -fno-pie -fsanitize=thread -pthread -w "
             "-fno-omit-frame-pointer").split()
NETCDF = ["-lnetcdf_c++4", "-lnetcdf"]
MODULES = ("ublas types netcdf ocean threads beampatterns transmit eigenrays eigenverbs biverbs "
           "waveq3d wavegen platforms sensors rvbts managed").split()
# binary -> (repository modules, scenario files, libraries)
BINARIES = {
    "core": (["threads", "types", "ublas", "managed"], ["core_*.cc"], []),
    "full": (MODULES, ["full_*.cc"], NETCDF),
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Builder:
    def __init__(self):
        os.makedirs(OUT, exist_ok=True)
        inc = os.path.join(OUT, "inc")
        os.makedirs(inc, exist_ok=True)
        link = os.path.join(inc, "usml")
        if not os.path.islink(link) or os.readlink(link) != REPO:
            if os.path.islink(link):
                os.unlink(link)
            os.symlink(REPO, link)
        self.inc = ["-I" + inc, "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "scen")]
        self.hcache = {}
        self.lock = threading.Lock()

    def fhash(self, path):
        with self.lock:
            if path in self.hcache:
                return self.hcache[path]
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "missing"
        with self.lock:
            self.hcache[path] = h
        return h

    def compile(self, src, flags):
        key = sha((src + " " + " ".join(flags)).encode())[:16]
        obj = os.path.join(OUT, "obj", os.path.basename(src)[:-3] + "-" + key + ".o")
        meta = obj + ".json"
        try:
            with open(meta) as f:
                m = json.load(f)
            if os.path.exists(obj) and all(self.fhash(p) == h for p, h in m.items()):
                return obj, False
        except (OSError, ValueError):
            pass
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        dep = obj + ".d"
        r = subprocess.run([CXX] + flags + self.inc + ["-MMD", "-MF", dep, "-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        with open(dep) as f:
            names = f.read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = {p: self.fhash(p) for p in names if not p.startswith(("/usr/include", "/usr/lib"))}
        with open(meta, "w") as f:
            json.dump(deps, f)
        return obj, True

    def build(self, name):
        modules, scen, libs = BINARIES[name]
        jobs = []
        for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cc"))):
            jobs.append((s, RT_FLAGS))
        for pat in scen:
            for s in sorted(glob.glob(os.path.join(VERIF, "scen", pat))):
                jobs.append((s, SUT_FLAGS))
        for m in modules:
            for s in sorted(glob.glob(os.path.join(REPO, m, "*.cc"))):
                jobs.append((s, SUT_FLAGS))
        # biggest first: the pool stays busy to the end
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            res = list(ex.map(lambda j: self.compile(*j), jobs))
        objs = sorted(o for o, _ in res)
        exe = os.path.join(OUT, name)
        tag = sha(" ".join(self.fhash(o) for o in objs).encode())
        try:
            with open(exe + ".tag") as f:
                if f.read() == tag and os.path.exists(exe):
                    return exe
        except OSError:
            pass
        r = subprocess.run([CXX, "-no-pie", "-rdynamic", "-pthread", "-o", exe] + objs + libs + ["-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        with open(exe + ".tag", "w") as f:
            f.write(tag)
        return exe


def build(names):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = Builder()
        return {n: b.build(n) for n in names}


if __name__ == "__main__":
    try:
        for n, p in build(sys.argv[1:] or list(BINARIES)).items():
            print(n, p)
    except RuntimeError as e:
        print(e)
        sys.exit(2)
