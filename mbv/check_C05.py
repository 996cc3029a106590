from run import *
import configs, gen_blas3 as b3, gen_blas12 as b2
import itertools

OF = [(), ("NAIVE",), ("RECURSIVE",)]


def cases(tier, seed):
    g = Gen(seed * 7919 + 5)
    out = []
    n = {"quick": 60, "thorough": 800}[tier]
    for ci, cfg in enumerate(configs.ALL):
        k = 0
        for fl in ([], ["TRANSA"], ["ABSA"], ["TRANSA", "ABSA"]):
            for kk in itertools.product("rc", "rc"):
                for of in OF:
                    for t in range(2):
                        out.append(b2.gemv(g, "g%d_%d" % (ci, k), cfg, fl=fl, kk=kk, of=of))
                        k += 1
        for tri in (["UPPER"], ["LOWER"]):
            for kk in itertools.product("rc", "rc"):
                for of in OF:
                    out.append(b2.symv(g, "s%d_%d" % (ci, k), cfg, fl=tri, kk=kk, of=of))
                    out.append(b2.ger(g, "u%d_%d" % (ci, k), cfg, op="mvupdate_sym", fl=tri, kk=kk, of=of))
                    out.append(b2.ger(g, "u2%d_%d" % (ci, k), cfg, op="mvupdate2_sym", fl=tri, kk=kk, of=of))
                    out.append(b2.ger(g, "ut%d_%d" % (ci, k), cfg, op="mvupdate_trm", fl=tri, kk=kk, of=of))
                    out.append(b2.ger(g, "ur%d_%d" % (ci, k), cfg, fl=[], kk=kk, of=of))
                    k += 1
        for fl in itertools.product(["UPPER", "LOWER"], [None, "TRANSA"], [None, "UNIT"]):
            fl = [f for f in fl if f]
            for of in OF:
                for kx in "rc":
                    out.append(b2.trmv(g, "t%d_%d" % (ci, k), cfg, fl=fl, of=of, k=kx))
                    k += 1
        for t in range(n):
            of = g.r.choice(OF)
            out.append(b2.gemv(g, "rg%d_%d" % (ci, t), cfg, of=of))
            out.append(b2.symv(g, "rs%d_%d" % (ci, t), cfg, of=of))
            out.append(b2.trmv(g, "rt%d_%d" % (ci, t), cfg, of=of))
            for op in ("mvupdate", "mvupdate_trm", "mvupdate_sym", "mvupdate2_sym"):
                out.append(b2.ger(g, "r%s%d_%d" % (op, ci, t), cfg, op=op, of=of))
        for t in range(5):
            mm = "X" if t == 0 else True
            out.append(b2.gemv(g, "mg%d_%d" % (ci, t), cfg, mism=mm))
            out.append(b2.symv(g, "ms%d_%d" % (ci, t), cfg, mism=mm))
            out.append(b2.trmv(g, "mt%d_%d" % (ci, t), cfg, mism=mm))
            for op in ("mvupdate", "mvupdate_trm", "mvupdate_sym", "mvupdate2_sym"):
                out.append(b2.ger(g, "m%s%d_%d" % (op, ci, t), cfg, op=op, mism=mm))
        for t in range(2):
            out.append(b2.gemv(g, "zg%d_%d" % (ci, t), cfg, mn=(0, 3) if t else (3, 0)))
            out.append(b2.ger(g, "zu%d_%d" % (ci, t), cfg, mn=(0, 3) if t else (3, 0)))
    return out


if __name__ == "__main__":
    ck = Check("C05")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
