from run import *
import configs, gen_blas3 as b3
import itertools


def cases(tier, seed):
    g = Gen(seed * 7919 + 4)
    out = []
    n = {"quick": 70, "thorough": 700}[tier]
    for ci, cfg in enumerate(configs.ALL):
        k = 0
        for fl in itertools.product(["UPPER", "LOWER"], [None, "TRANSA"]):
            fl = [f for f in fl if f]
            for sc in b3.SCAL:
                for of in ((), ("NAIVE",), ("RECURSIVE",)):
                    out.append(b3.syrk(g, "s%d_%d" % (ci, k), cfg, fl=fl, scal=sc, of=of))
                    out.append(b3.syrk(g, "s2%d_%d" % (ci, k), cfg, op="update2_sym", fl=fl, scal=sc, of=of))
                    k += 1
        k = 0
        for fl in itertools.product(["UPPER", "LOWER"], [None, "TRANSA"], [None, "TRANSB"]):
            fl = [f for f in fl if f]
            for sc in b3.SCAL:
                out.append(b3.updtrm(g, "u%d_%d" % (ci, k), cfg, fl=fl, scal=sc, of=g.r.choice([(), (), ("NAIVE",), ("RECURSIVE",)])))
                k += 1
        for t in range(n):
            out.append(b3.syrk(g, "rs%d_%d" % (ci, t), cfg, of=g.r.choice(b3.OPTSETS)))
            out.append(b3.syrk(g, "r2%d_%d" % (ci, t), cfg, op="update2_sym", of=g.r.choice(b3.OPTSETS)))
            out.append(b3.updtrm(g, "ru%d_%d" % (ci, t), cfg, of=g.r.choice(b3.OPTSETS)))
        for t in range(6):
            out.append(b3.syrk(g, "ms%d_%d" % (ci, t), cfg, mism=True))
            out.append(b3.syrk(g, "m2%d_%d" % (ci, t), cfg, op="update2_sym", mism=True))
            out.append(b3.updtrm(g, "mu%d_%d" % (ci, t), cfg, mism=True))
        for t in range(3):
            mn = [b3.dims(g, cfg), b3.dims(g, cfg), b3.dims(g, cfg)]
            mn[t % 3] = 0
            out.append(b3.syrk(g, "zs%d_%d" % (ci, t), cfg, nk=mn[:2]))
            out.append(b3.syrk(g, "z2%d_%d" % (ci, t), cfg, op="update2_sym", nk=mn[:2]))
            out.append(b3.updtrm(g, "zu%d_%d" % (ci, t), cfg, mnk=mn))
        for t in range(4):
            out.append(b3.syrk(g, "bs%d_%d" % (ci, t), cfg, nk=(g.r.choice([33, 36, 41]), g.r.choice([3, 20]))))
            out.append(b3.updtrm(g, "bu%d_%d" % (ci, t), cfg, mnk=(g.r.choice([33, 36, 41]), g.r.choice([33, 36, 41]), g.r.choice([3, 20]))))
    return out


if __name__ == "__main__":
    ck = Check("C04")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
