"""Strings of the environment variables, in a process each: what the library reads from them, that it
leaves them alone, and that operations work under them."""
from run import *
import gen_blas3 as b3, gen_blas12 as b2
import gen_accel as ga

codes = lambda s: [ord(c) for c in s]
NUMS = ["", "0", "1", "2", "3", "4", "5", "7", "8", "16", "31", "64", "100", "160", "1000", "4096", "65536", "1000000",
        "999999999", "007"]
BAD = ["-1", "-5", "-0", "abc", "x", "y", ".", "-", "n8", "*", "--3", "e5"]
LOOSE = ["12x", " 8", "+5", "4.5", "2147483647", "2147483648", "4294967296", "4294967297", "99999999999", "1e3", "0x10", "8 "]
SIZES = ["", "0", "1", "1000", "1023", "1024", "4095", "4096", "4097", "5000", "8k", "6K", "100k", "256K", "1M", "2m", "16384",
         "1k", "3k", "64K"]
BADSZ = ["-1", "-5", "-4096", "abc", "k", "M", "-1K", "K8", "-18446744073709551615"]
LOOSESZ = [" 8192", "+9000", "8192b", "0x4000", "8kk", "16 k", "010000"]
CPUS = ["0", "1", "3", "7", "0-3", "2-5", "1-7/2", "0-100/3", "5-2", "0-0", "0x3", "0xF0", "0X5", "2:0x7", "0:0x1", "3:0xff", "0-6/3",
        "9", "100", "0xffffffffffffffff", "31:0x3", "28:0xff", "40-50", "0x80000000", "0x100000000", "0-1023", "0x8000000000000000"]
BADCPU = ["", "-", "a", "0-7/0", "0-7/-1", "3-", "-3", "0-7/", "1:2", ":0x3", "0x", "0-x", "7/2", "-2:0x1f", "1-3-5", "0xg", "x3",
          "0-7/0x2", "99999999999", "0-99999999999", "/", ":", "2-6/x"]


def field(g, ok, bad, loose):
    k = g.r.random()
    return g.r.choice(ok) if k < 0.72 else g.r.choice(bad) if k < 0.88 else g.r.choice(loose)


def env(g):
    r = g.r
    e = {}
    if r.random() < 0.8:
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8])
        f = [field(g, NUMS, BAD, LOOSE) for _ in range(min(n, 6))]
        if n > 6:
            f.append(r.choice(["y", "Y", "n", "", "yes", "no", "1", "0", "N"]))
        if n > 7:
            f.append(r.choice(["", "y", "3"]))
        e["ARMAS_CONFIG"] = ",".join(f)
    if r.random() < 0.6:
        e["ARMAS_CACHE"] = ",".join(field(g, SIZES, BADSZ, LOOSESZ) for _ in range(r.choice([0, 1, 2, 2, 2, 3])))
    if r.random() < 0.6:
        f = [field(g, NUMS, BAD, LOOSE) if r.random() < 0.5 else r.choice(["1", "4", "10", ""]),
             field(g, ["1", "2", "3", "4", "5", "8", "", "0", "100"], BAD, LOOSE),
             r.choice(["", "B", "T", "b", "t", "BR", "BZ", "TR", "TZ", "BR2", "TZ2", "B2", "2", "bz2", "x", "BX", "Q2", "7", "BR3"])]
        f = f[:r.choice([0, 1, 2, 3, 3, 3, 3])]
        if len(f) == 3:
            f += [r.choice(CPUS) if r.random() < 0.8 else r.choice(BADCPU) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        e["ARMAS_AC_CONFIG"] = ",".join(f)
    e["VM_NPROC"] = str(r.choice([1, 2, 4, 8, 8, 8, 16, 33, 64, 100, 1024]))
    return e


def case(g, cid, e, use=None):
    c = Case(cid, e)
    keys = dict(cfg="ARMAS_CONFIG", cache="ARMAS_CACHE", ac="ARMAS_AC_CONFIG")
    tl = {k: codes(e[v]) for k, v in keys.items() if v in e}
    np_ = int(e["VM_NPROC"])
    first = g.r.random() < 0.5
    look = lambda: (c.call("getenv", ev={k: v for k, v in tl.items() if k != "ac"}),
                    c.call("getacenv", ev=dict({k: v for k, v in tl.items() if k == "ac"}, np=np_)))
    if first:
        look()
    n = 0
    for op in ("gemm", "symm", "trmm", "trsm"):
        ga.sub(g, c, n, {}, op)
        n += 1
    for d in (b3.syrk(g, "x", {}), b3.updtrm(g, "x", {}), b2.gemv(g, "x", {}), b2.trmv(g, "x", {}), b2.level1(g, "x", {}, g.r.choice(["dot", "asum", "axpy"]))):
        ga.append(c, n, d)
        n += 1
    if use:
        c.call("ac_init", kind=(use, use), seed=0, how=("r1", "r1"))
        ga.append(c, n, b3.gemm(g, "x", {}, fl=[], mnk=(12, 12, 3), scal=(1, 2)))     # large enough to be divided
        n += 1
        for op in ("gemm", "trsm"):
            ga.sub(g, c, n, {}, op)
            n += 1
        c.call("ac_release")
    look()
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 11)
    out = []
    # one field at a time
    k = 0
    for pos in range(6):
        for v in NUMS + BAD + LOOSE:
            out.append(("ARMAS_CONFIG", "," * pos + v))
    for pos in range(2):
        for v in SIZES + BADSZ + LOOSESZ:
            out.append(("ARMAS_CACHE", "," * pos + v))
    for v in CPUS + BADCPU:
        out.append(("ARMAS_AC_CONFIG", "4,3,B," + v))
    for v in NUMS[:14] + BAD + LOOSE:
        out.append(("ARMAS_AC_CONFIG", v))
        out.append(("ARMAS_AC_CONFIG", "," + v))
    if tier == "quick":
        out = g.r.sample(out, 150)
    cs = []
    for name, v in out:
        e = {name: v, "VM_NPROC": g.r.choice(["8", "8", "64", "3"])}
        cs.append(case(g, "s%d" % k, e))
        k += 1
    for t in range({"quick": 160, "thorough": 3000}[tier]):
        e = env(g)
        use = None
        f = (e.get("ARMAS_AC_CONFIG", "") + ",,").split(",")
        few = int(e["VM_NPROC"]) <= 16 or f[1] in ("1", "2", "3", "4", "5", "8")
        if few and g.r.random() < 0.5:
            use = g.r.choice(["WORKERS", "TRANSIENT", "SIMPLE"])
        cs.append(case(g, "r%d" % t, e, use))
    # pinning
    for t in range({"quick": 12, "thorough": 100}[tier]):
        np_ = g.r.choice([4, 8, 16])
        spec = [g.r.choice([x for x in CPUS if len(x) < 10]) for _ in range(g.r.choice([0, 1, 2, 2]))]
        w = g.r.choice([2, 3, 4])
        e = {"ARMAS_AC_CONFIG": ",".join(["4", str(w), g.r.choice(["B", "T"])] + spec), "VM_NPROC": str(np_)}
        c = case(g, "p%d" % t, e, "WORKERS")
        sel = set()
        for s in spec:
            sel |= cpuset(s, np_)
        c.call("pins", ev=dict(sel=sorted(sel), cores=w))
        cs.append(c)
    return cs


def cpuset(s, n):
    """well-formed specifications only"""
    if ":" in s:
        o, m = s.split(":")
        b = int(m, 16) << int(o)
    elif s[:2].lower() == "0x":
        b = int(s, 16)
    elif "-" in s:
        lo, hi = s.split("/")[0].split("-")
        return {c for c in range(n) if int(lo) <= c <= int(hi) and (c - int(lo)) % int((s + "/1").split("/")[1]) == 0}
    else:
        return {int(s)} & set(range(n))
    return {c for c in range(n) if b >> c & 1}


if __name__ == "__main__":
    ck = Check("C11")
    ck.traces(cases(TIER, SEED), {"vm": vm()}, stall=12.0)
    ck.finish()
