from run import *
import configs, gen_ext as ge
import itertools


def cases(tier, seed):
    g = Gen(seed * 7919 + 27)
    out = []
    n = {"quick": 7, "thorough": 100}[tier]
    for ci, cfg in enumerate(configs.ALL):
        k = 0
        for fl in itertools.product(["LEFT", "RIGHT"], ["UPPER", "LOWER"], [None, "TRANSA"], [None, "UNIT"]):
            fl = [f for f in fl if f]
            for t in range(1 if tier == "quick" else 5):
                for op in ("mult_trm", "solve_trm"):
                    out.append(ge.case(g, "f%s%d_%d" % (op, ci, k), cfg, op, fl=fl, of=() if op == "solve_trm" else g.r.choice([(), (), ("NAIVE",)])))
                    out.append(ge.case(g, "fv%s%d_%d" % (op, ci, k), cfg, "mv" + op, fl=fl[1:]))
                k += 1
        for op in ge.OPS:
            for t in range(n * (3 if op in ("mult", "mult_sym", "mvmult", "adot", "sum", "axpby") else 1)):
                out.append(ge.case(g, "r%s%d_%d" % (op, ci, t), cfg, op, big=t % 5 == 0))
            for t in range(2):
                out.append(ge.case(g, "m%s%d_%d" % (op, ci, t), cfg, op, mism=True))
            for q in (1, 2, 3):
                out.append(ge.case(g, "s%s%d_%d" % (op, ci, q), cfg, op, n=q))
    for i, c in enumerate(out):
        if i % 3 == 0:
            c.exe = "asan"
    return out


if __name__ == "__main__":
    ck = Check("C27")
    ck.traces(cases(TIER, SEED), {"vm": vm(), "asan": vm("asan")})
    ck.finish()
