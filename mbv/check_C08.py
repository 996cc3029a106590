"""The same operations under random block configurations, cache sizes, thresholds and algorithm
options: every result must be the one the specification gives, which does not mention any of them."""
from run import *
import configs, gen_blas3 as b3, gen_blas12 as b2

SIZES = ["4096", "4k", "5000", "6K", "8192", "10000", "16k", "64K", "256k", "1M", ""]
L1 = ["1024", "1k", "2000", "4096", "32K", ""]


def config(g):
    """a configuration string and cache sizes, from ordinary to extreme ratios"""
    r = g.r
    k = r.random()
    if k < 0.4:
        p = lambda: r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 31, 32, 48, 64, 96, 160])
    elif k < 0.8:
        p = lambda: r.choice([1, 2, 4, 8, 16, 64, 160, 1000, 100000])
    else:
        p = lambda: r.choice([8, 12, 16, 20, 24, 32])
    f = [p(), p(), p(), r.choice([1, 2, 3, 4, 5, 8, 16, 64]), r.choice([1, 2, 3, 4, 7, 1024]),
         r.choice([1, 2, 3, 4, 5, 8, 16, 256])]
    s = ",".join(map(str, f))
    if r.random() < 0.35:
        s += "," + r.choice("yYn")
    return {"ARMAS_CONFIG": s, "ARMAS_CACHE": r.choice(SIZES) + "," + r.choice(L1)}


def cases(tier, seed):
    g = Gen(seed * 7919 + 8)
    out = []
    ncfg, reps = {"quick": (70, 2), "thorough": (700, 4)}[tier]
    opts = [(), ("NAIVE",), ("RECURSIVE",)]
    for ci in range(ncfg):
        cfg = config(g)
        for t in range(reps):
            big = lambda: b3.dims(g, cfg, True)
            i = "%d_%d" % (ci, t)
            out.append(b3.gemm(g, "gm" + i, cfg, mnk=(big(), big(), big())))
            out.append(b3.symm(g, "sm" + i, cfg, mn=(big(), big())))
            for of in opts:
                j = i + (of[0][0] if of else "D")
                out.append(b3.trmm(g, "tm" + j, cfg, mn=(big(), b3.dims(g, cfg)), of=of))
                out.append(b3.trsm(g, "ts" + j, cfg, mn=(big(), b3.dims(g, cfg)), of=of))
                out.append(b3.syrk(g, "sk" + j, cfg, nk=(big(), b3.dims(g, cfg)), of=of))
                out.append(b3.syrk(g, "s2" + j, cfg, op="update2_sym", of=of))
                out.append(b3.updtrm(g, "ut" + j, cfg, of=of))
                out.append(b2.gemv(g, "gv" + j, cfg, of=of))
                out.append(b2.symv(g, "sv" + j, cfg, of=of))
                out.append(b2.trmv(g, "tv" + j, cfg, of=of))
                out.append(b2.trmv(g, "tw" + j, cfg, op="mvsolve_trm", of=of))
                for op in ("mvupdate", "mvupdate_trm", "mvupdate_sym", "mvupdate2_sym"):
                    out.append(b2.ger(g, op + j, cfg, op=op, of=of))
                out.append(b2.level1(g, "l1" + j, cfg, g.r.choice(["dot", "asum", "nrm2", "axpy", "axpby", "adot"]), of=of))
    # what the cache buffer held before must not matter
    for c in out:
        if g.r.random() < 0.5:
            c.poison()
    return out


if __name__ == "__main__":
    ck = Check("C08")
    ck.traces(cases(TIER, SEED), {"vm": vm()}, timeout=800)
    ck.finish()
