from run import *
import configs, gen_blas12 as b2
import itertools

OPS = ["dot", "adot", "asum", "amax", "iamax", "iamin", "nrm2", "axpy", "axpby", "copy", "swap", "scale"]
TWO = ["dot", "adot", "axpy", "axpby", "copy", "swap"]


def cases(tier, seed):
    g = Gen(seed * 7919 + 6)
    out = []
    n = {"quick": 25, "thorough": 500}[tier]
    for ci, cfg in enumerate(configs.ALL):
        k = 0
        for op in OPS:
            for kk in itertools.product("rc", "rc"):
                for of in b2.L1OPTS[1:]:
                    out.append(b2.level1(g, "o%d_%d" % (ci, k), cfg, op, kk=kk, of=of))
                    k += 1
            # every small length with every remainder of the unrolled loops
            for ln in range(1, 18):
                out.append(b2.level1(g, "n%d_%d" % (ci, k), cfg, op, n=ln))
                k += 1
            for t in range(n):
                out.append(b2.level1(g, "r%d_%d" % (ci, k), cfg, op))
                k += 1
            for t in range(2):
                out.append(b2.level1(g, "z%d_%d" % (ci, k), cfg, op, n=0))
                out.append(b2.level1(g, "x%d_%d" % (ci, k), cfg, op, mism="X"))
                if op in TWO:
                    out.append(b2.level1(g, "m%d_%d" % (ci, k), cfg, op, mism=True))
                k += 1
    return out


if __name__ == "__main__":
    ck = Check("C06")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
