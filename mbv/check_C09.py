"""Operations dispatched to every accelerator under every scheduling option: the actions of the
specification that accept them are those of the serial operations."""
from run import *
import gen_accel as ga

KINDS = ["SIMPLE", "WORKERS", "TRANSIENT"]


def cases(tier, seed):
    g = Gen(seed * 7919 + 9)
    out = []
    n = {"quick": 4, "thorough": 100}[tier]
    for pi, pol in enumerate(ga.POLICY):
        for kind in KINDS if pi else KINDS:
            if kind == "SIMPLE" and pol not in ("", "T"):
                continue
            for ci in range(n):
                tiled = pol.startswith("T")
                items = g.r.choice([1, 2, 3, 4, 5, 8]) if tiled else g.r.choice([1, 2, 5, 16, 40, 100])
                procs = g.r.choice([1, 2, 3, 4, 5, 8, 8])
                env = ga.accfg(items, procs, pol, g.r.choice(ga.BLK))
                for t in range(2):
                    ops = [g.r.choice(["gemm"] * 4 + ["symm", "trmm", "trsm"]) for _ in range(4)]
                    if kind == "SIMPLE":
                        ops = [g.r.choice(["gemm", "symm", "trmm", "trsm"]) for _ in range(4)]
                    out.append(ga.session(g, "%s%s_%d_%d" % (kind[0], pol or "N", ci, t), env, kind, ops,
                                          uses=g.r.choice([1, 1, 2])))
    # names
    for t, kind in enumerate(["simple", "workers", "transient", "w", "T", "Simple", "nothing", "", "libx.so"]):
        c = ga.session(g, "n%d" % t, ga.accfg(4, 3, "B"), kind or "-", ["gemm"] if t < 6 else [])
        out.append(c)
    return out


if __name__ == "__main__":
    ck = Check("C09")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
