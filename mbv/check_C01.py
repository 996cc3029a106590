from run import *
import configs, gen_blas3 as b3


def cases(tier, seed):
    g = Gen(seed * 7919 + 1)
    out = []
    n = {"quick": 150, "thorough": 1500}[tier]
    for ci, cfg in enumerate(configs.ALL):
        # every flag combination and special scalar at least once per configuration
        k = 0
        for fl in ([], ["TRANSA"], ["TRANSB"], ["TRANSA", "TRANSB"]):
            for sc in b3.SCAL:
                out.append(b3.gemm(g, "f%d_%d" % (ci, k), cfg, fl=fl, scal=sc))
                k += 1
            for ab in (["ABSA"], ["ABSB"], ["ABSA", "ABSB"]):
                out.append(b3.gemm(g, "a%d_%d" % (ci, k), cfg, fl=fl + ab))
                k += 1
        # thin shapes, every small remainder
        for t in range(30):
            mnk = [g.r.choice([1, 2, 3, 4, 5, 9]) for _ in range(3)]
            mnk[g.r.randrange(3)] = b3.dims(g, cfg, True)
            out.append(b3.gemm(g, "t%d_%d" % (ci, t), cfg, mnk=tuple(mnk)))
        for t in range(n):
            out.append(b3.gemm(g, "r%d_%d" % (ci, t), cfg))
        for t in range(8):
            out.append(b3.gemm(g, "m%d_%d" % (ci, t), cfg, mism=True))
        for t in range(4):
            mnk = [b3.dims(g, cfg) for _ in range(3)]
            mnk[t % 3] = 0
            out.append(b3.gemm(g, "z%d_%d" % (ci, t), cfg, mnk=tuple(mnk)))
        for t in range({"quick": 6, "thorough": 60}[tier]):
            out.append(b3.gemm(g, "b%d_%d" % (ci, t), cfg,
                               mnk=tuple(g.r.choice([30, 33, 36, 41, 47, 50]) for _ in range(3))))
    return out


if __name__ == "__main__":
    ck = Check("C01")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
