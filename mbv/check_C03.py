from run import *
import configs, gen_blas3 as b3, gen_blas12 as b2
import itertools


def cases(tier, seed):
    g = Gen(seed * 7919 + 3)
    out = []
    n = {"quick": 60, "thorough": 700}[tier]
    for ci, cfg in enumerate(configs.ALL):
        k = 0
        for fl in itertools.product(["LEFT", "RIGHT"], ["UPPER", "LOWER"], [None, "TRANSA"], [None, "UNIT"]):
            fl = [f for f in fl if f]
            for of in ((), ("NAIVE",), ("RECURSIVE",)):
                for t in range(2):
                    out.append(b3.trsm(g, "t%d_%d" % (ci, k), cfg, fl=fl, of=of))
                    out.append(b2.trmv(g, "v%d_%d" % (ci, k), cfg, op="mvsolve_trm", fl=fl[1:], of=of))
                    k += 1
            out.append(b3.trsm(g, "tb%d_%d" % (ci, k), cfg, fl=fl,
                               mn=(g.r.choice([26, 28, 33]), g.r.choice([26, 28, 33]))))
            out.append(b3.trsm(g, "t1%d_%d" % (ci, k), cfg, fl=fl,
                               mn=(1, g.r.choice([5, 9, 17])) if k % 2 else (g.r.choice([5, 9, 17]), 1)))
        for t in range(n):
            out.append(b3.trsm(g, "r%d_%d" % (ci, t), cfg, of=g.r.choice(b3.OPTSETS)))
            out.append(b2.trmv(g, "rv%d_%d" % (ci, t), cfg, op="mvsolve_trm", of=g.r.choice(b3.OPTSETS)))
        for t in range(6):
            out.append(b3.trsm(g, "m%d_%d" % (ci, t), cfg, mism=True))
            out.append(b2.trmv(g, "mv%d_%d" % (ci, t), cfg, op="mvsolve_trm", mism=True))
        for t in range(2):
            mn = [b3.dims(g, cfg), b3.dims(g, cfg)]
            mn[t % 2] = 0
            out.append(b3.trsm(g, "z%d_%d" % (ci, t), cfg, mn=mn))
    return out


if __name__ == "__main__":
    ck = Check("C03")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
