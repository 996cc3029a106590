from run import *
import configs, gen_blas12 as b2

OPS = ["mcopy", "madd", "mscale", "scale_to", "mplus", "make_trm", "mnorm", "apply", "apply2", "iterate",
       "set_values", "set_all", "allclose", "intolerance"]
FLAGS = {
    "mcopy": [[], ["TRANSA"]],
    "mplus": [[], ["UPPER"], ["LOWER"], ["TRANSA"], ["TRANSB"], ["ABSA"], ["UPPER", "ABSA"]],
    "mnorm": [[]], "allclose": [[]], "intolerance": [[]],
    "make_trm": [["UPPER"], ["LOWER"], ["UPPER", "UNIT"], ["LOWER", "UNIT"], []],
    "apply": [[], ["UPPER"], ["LOWER"]], "apply2": [[], ["UPPER"], ["LOWER"]], "iterate": [[], ["UPPER"], ["LOWER"]],
}
TRI = [[], ["UPPER"], ["LOWER"], ["UPPER", "UNIT"], ["LOWER", "UNIT"], ["SYMM"]]
SHAPES = [(1, 1), (1, 6), (6, 1), (2, 2), (3, 5), (5, 3), (4, 4), (9, 4), (4, 9), (8, 8), (13, 6), (6, 13)]


def cases(tier, seed):
    g = Gen(seed * 7919 + 7)
    out = []
    n = {"quick": 30, "thorough": 800}[tier]
    for ci, cfg in enumerate(configs.ALL[:2]):
        k = 0
        for op in OPS:
            for fl in FLAGS.get(op, TRI):
                for mn in SHAPES:
                    out.append(b2.elem(g, "e%d_%d" % (ci, k), cfg, op, mn=mn, fl=fl))
                    k += 1
            for t in range(n):
                out.append(b2.elem(g, "r%d_%d" % (ci, k), cfg, op))
                k += 1
            for t in range(2):
                out.append(b2.elem(g, "z%d_%d" % (ci, k), cfg, op, mn=(0, 3) if t else (3, 0), fl=[]))
                if op in ("mcopy", "mplus", "allclose", "intolerance"):
                    out.append(b2.elem(g, "m%d_%d" % (ci, k), cfg, op, mn=g.r.choice(SHAPES[3:]), fl=[], mism=True))
                if op in ("set_values", "set_all"):
                    out.append(b2.elem(g, "s%d_%d" % (ci, k), cfg, op, mn=(3 + t, 5), fl=["SYMM"], mism=True))
                k += 1
        for t in range(20):
            out.append(b2.mplus_const(g, "c%d_%d" % (ci, t), cfg))
    return out


if __name__ == "__main__":
    ck = Check("C07")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
