"""Build libarmas (double precision) and drivers from /repo's current working tree.

Everything is built outside /repo, in /verif/build/<variant>-<content hash>/ (git-ignored).
The source list is taken from src/Makefile.am, the flags are those of the repository's build.
"""
import fcntl, hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
BUILD = os.environ.get("MBV_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("MBV_JOBS", "8"))

CFLAGS = ("-O3 -ffast-math -fomit-frame-pointer -pthread -march=x86-64-v3 -fPIC -w").split()
DEFS = ["-DFLOAT64", "-DHAVE_CONFIG_H", '-DCONFIG_SETTINGS="mbv"', '-DCOMPILER="gcc"',
        '-DCOMPILE_TIME="now"']
VARIANTS = {
    "plain": dict(cc="gcc", cflags=CFLAGS),
    # assertions on, address+undefined sanitizers: used where malformed input is fed to parsers
    "asan": dict(cc="gcc", cflags=("-O1 -g -fno-omit-frame-pointer -fsanitize=address "
                                   "-pthread -march=x86-64-v3 -fPIC -w").split()),
}


class BuildError(Exception):
    pass


def sources():
    """Library sources, from the *_SOURCES variables of src/Makefile.am."""
    txt = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    names = []
    for m in re.finditer(r"^(COMMON|BLAS|EBLAS|ACCEL|LAPACK|SPARSE|COMPAT)\s*\+?=\s*(.*)$", txt, re.M):
        for s in m.group(2).split():
            if s.endswith(".c") and s not in names:
                names.append(s)
    if len(names) < 50:
        raise BuildError("cannot read the source list from src/Makefile.am")
    return names


def tree_hash(extra=()):
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h", ".am", ".sh")):
                p = os.path.join(base, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in extra:
        h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def lib(variant="plain"):
    """Build the library; returns the directory with libarmasd.so."""
    os.makedirs(BUILD, exist_ok=True)
    v = VARIANTS[variant]
    cfg = os.path.join(VERIF, "driver", "config.h")
    out = os.path.join(BUILD, "%s-%s" % (variant, tree_hash([cfg])))
    with Lock(os.path.join(BUILD, "lock-" + variant)):
        so = os.path.join(out, "libarmasd.so")
        if os.path.exists(so):
            return out
        # drop older builds of this variant
        for d in os.listdir(BUILD):
            if d.startswith(variant + "-") and os.path.isdir(os.path.join(BUILD, d)):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        obj = os.path.join(out, "obj")
        os.makedirs(obj, exist_ok=True)
        inc = ["-I", os.path.join(VERIF, "driver"), "-I", os.path.join(REPO, "src/include")]
        srcs = sources()

        def one(s):
            o = os.path.join(obj, s.replace("/", "_")[:-2] + ".o")
            run([v["cc"]] + v["cflags"] + DEFS + inc + ["-c", os.path.join(REPO, "src", s), "-o", o])
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, srcs))
        san = [f for f in v["cflags"] if f.startswith("-fsanitize")]
        run([v["cc"], "-shared", "-pthread", "-o", so + ".tmp"] + san + objs + ["-lm"])
        os.rename(so + ".tmp", so)
        shutil.rmtree(obj, ignore_errors=True)
    return out


def driver(name, variant="plain", srcs=None, extra=(), libs=()):
    """Build /verif/driver/<name>.c against the library; returns the executable path."""
    d = lib(variant)
    srcs = srcs or [os.path.join(VERIF, "driver", name + ".c")]
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, "rb").read())
    h.update(" ".join(extra).encode())
    exe = os.path.join(d, "%s-%s" % (name, h.hexdigest()[:12]))
    with Lock(os.path.join(BUILD, "lock-drv-" + name + variant)):
        if not os.path.exists(exe):
            san = [f for f in VARIANTS[variant]["cflags"] if f.startswith("-fsanitize")]
            run(["gcc", "-O1", "-g", "-w", "-pthread", "-march=x86-64-v3", "-DFLOAT64", "-DHAVE_CONFIG_H"] + san +
                ["-I", os.path.join(VERIF, "driver"), "-I", os.path.join(REPO, "src/include")] +
                list(extra) + srcs + ["-o", exe + ".tmp", "-L", d, "-larmasd", "-Wl,-rpath," + d, "-lm"] + list(libs))
            os.rename(exe + ".tmp", exe)
    return exe


WRAP = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock",
        "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait",
        "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_create",
        "pthread_join", "pthread_detach", "pthread_setaffinity_np", "pthread_yield", "sched_yield",
        "usleep", "nanosleep", "free", "malloc", "calloc"]


def sched_driver(srcs):
    """One executable: the library with its accelerators instrumented (every memory access is a call to
    vsched.c) and the pthread functions replaced by those of the controlled scheduler."""
    cfg = os.path.join(VERIF, "driver", "config.h")
    vs = os.path.join(VERIF, "driver", "vsched.c")
    hdr = os.path.join(VERIF, "driver", "vm.h")
    out = os.path.join(BUILD, "sched-%s" % tree_hash([cfg, hdr, vs] + srcs))
    with Lock(os.path.join(BUILD, "lock-sched")):
        exe = os.path.join(out, "vmsched")
        if os.path.exists(exe):
            return exe
        for d in os.listdir(BUILD):
            if d.startswith("sched-") and os.path.isdir(os.path.join(BUILD, d)):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        obj = os.path.join(out, "obj")
        os.makedirs(obj, exist_ok=True)
        inc = ["-I", os.path.join(VERIF, "driver"), "-I", os.path.join(REPO, "src/include")]

        def one(s):
            lib_ = not s.startswith("/")
            o = os.path.join(obj, s.replace("/", "_")[:-2] + ".o")
            fl = CFLAGS
            if lib_ and s.startswith(("workers/", "threaded/")):
                fl = "-O1 -g -pthread -fsanitize=thread -march=x86-64-v3 -fPIC -w".split()
            elif not lib_:
                fl = "-O1 -g -pthread -march=x86-64-v3 -fPIC -w".split()
            run(["gcc"] + fl + DEFS + inc + ["-c", os.path.join(REPO, "src", s), "-o", o])
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, sources() + srcs + [vs]))
        run(["gcc", "-pthread", "-o", exe + ".tmp"] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAP), "-lm"])
        os.rename(exe + ".tmp", exe)
        shutil.rmtree(obj, ignore_errors=True)
    return exe


if __name__ == "__main__":
    print(lib(sys.argv[1] if len(sys.argv) > 1 else "plain"))
