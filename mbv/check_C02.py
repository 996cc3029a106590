from run import *
import configs, gen_blas3 as b3
import itertools


def cases(tier, seed):
    g = Gen(seed * 7919 + 2)
    out = []
    n = {"quick": 90, "thorough": 900}[tier]
    for ci, cfg in enumerate(configs.ALL):
        k = 0
        for fl in itertools.product(["LEFT", "RIGHT"], ["UPPER", "LOWER"], [None, "TRANSB"]):
            fl = [f for f in fl if f]
            for t in range(6):
                out.append(b3.symm(g, "s%d_%d" % (ci, k), cfg, fl=fl, scal=b3.SCAL[(k * 5 + t) % len(b3.SCAL)]))
                k += 1
        k = 0
        for fl in itertools.product(["LEFT", "RIGHT"], ["UPPER", "LOWER"], [None, "TRANSA"], [None, "UNIT"]):
            fl = [f for f in fl if f]
            for of in ((), ("NAIVE",), ("RECURSIVE",)):
                for t in range(2):
                    out.append(b3.trmm(g, "t%d_%d" % (ci, k), cfg, fl=fl, of=of))
                    k += 1
            out.append(b3.trmm(g, "tb%d_%d" % (ci, k), cfg, fl=fl,
                               mn=(g.r.choice([30, 33, 37]), g.r.choice([30, 33, 37]))))
        for t in range(n):
            out.append(b3.symm(g, "rs%d_%d" % (ci, t), cfg))
            out.append(b3.trmm(g, "rt%d_%d" % (ci, t), cfg, of=g.r.choice(b3.OPTSETS)))
        for t in range(6):
            out.append(b3.symm(g, "ms%d_%d" % (ci, t), cfg, mism=True))
            out.append(b3.trmm(g, "mt%d_%d" % (ci, t), cfg, mism=True))
        for t in range(3):
            mn = [b3.dims(g, cfg), b3.dims(g, cfg)]
            mn[t % 2] = 0
            out.append(b3.symm(g, "zs%d_%d" % (ci, t), cfg, mn=mn))
            out.append(b3.trmm(g, "zt%d_%d" % (ci, t), cfg, mn=mn))
    return out


if __name__ == "__main__":
    ck = Check("C02")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
