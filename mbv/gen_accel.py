"""Cases for the accelerators: sequences of level-3 operations between ac_init and ac_release."""
from run import *
import gen_blas3 as b3

POLICY = ["", "B", "BR", "BZ", "BR2", "BZ2", "T", "TR", "TZ", "TR2", "TZ2"]
BLK = ["", "4,4,4,4,8,8", "8,8,8,8,16,16"]


def accfg(items, procs, pol, blk=""):
    e = {"ARMAS_AC_CONFIG": "%d,%d,%s" % (items, procs, pol)}
    if blk:
        e["ARMAS_CONFIG"] = blk
    return e


def sub(g, c, n, cfg, kind):
    """append one operation to case c, with buffers of its own"""
    dim = lambda: b3.dims(g, cfg)
    sc = g.r.choice([(1, 2), (2, 2), (1, 1), (-1, 2), (1, 0), (3, 2), (0, 2), (2, -1)])
    if kind == "gemm":
        fl = [f for f in (g.r.choice(["TRANSA", "TRANSA", "CTRANSA"]), g.r.choice(["TRANSB", "TRANSB", "CTRANSB"])) if g.r.random() < 0.5]
        if g.r.random() < 0.15:
            fl.append(g.r.choice(["ABSA", "ABSB"]))
        k = g.r.choice([0.2, 0.6, 0.8])
        m, n_ = dim(), dim()
        if g.r.random() < 0.25:
            m = g.r.choice([1, 2, 3])
        elif g.r.random() < 0.25:
            n_ = g.r.choice([1, 2, 3])
        d = b3.gemm(g, "x", cfg, fl=fl, mnk=(m, n_, g.r.choice([1, 2, 3, 5, 8, 9])), scal=sc, mism=g.r.random() < 0.04)
    elif kind == "symm":
        d = b3.symm(g, "x", cfg, scal=sc, mism=g.r.random() < 0.04)
    elif kind == "trmm":
        d = b3.trmm(g, "x", cfg, mism=g.r.random() < 0.04)
    else:
        d = b3.trsm(g, "x", cfg, mism=g.r.random() < 0.04)
    append(c, n, d)


def append(c, n, d):
    """the commands of case d at the end of case c, with n as suffix of the buffers"""
    for line, ev in d.cmds:
        # rename the buffers
        ev = json.loads(json.dumps(ev))
        if ev["k"] == "load":
            line = line.replace("buf %s " % ev["b"], "buf %s%d " % (ev["b"], n), 1)
            ev["b"] += str(n)
        else:
            for k, v in ev.items():
                if isinstance(v, dict) and "b" in v:
                    line = line.replace("%s=%s," % (k, v["b"]), "%s=%s%d," % (k, v["b"], n))
                    v["b"] += str(n)
        c.cmds.append((line, ev))


def session(g, cid, env, kind, ops, seed=0, how="r1", exe="vm", uses=1):
    c = Case(cid, env, exe=exe)
    n = 0
    for u in range(uses):
        c.call("ac_init", kind=(kind, kind), seed=seed, how=(how, how))
        for o in ops:
            sub(g, c, n, {k: v for k, v in env.items() if k == "ARMAS_CONFIG"}, o)
            n += 1
            if g.r.random() < 0.3:
                c.call("ac_quiesce")
        if exe == "vm" or g.r.random() < 0.5:
            c.call("ac_quiesce")
        c.call("ac_release")
    return c
