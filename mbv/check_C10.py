"""The worker protocol: the real accelerators run under a scheduler that decides every interleaving."""
from run import *
import gen_accel as ga, gen_blas3 as b3

KINDS = ["WORKERS", "TRANSIENT", "SIMPLE"]


def hows(g, k):
    r = g.r
    if k == 0:
        return "r%d" % r.choice([1, 2, 3, 5, 10, 30])
    if k == 1:
        return "p%d,%d" % (r.choice([1, 2, 3, 5]), r.choice([100, 300, 1000]))
    if k == 2:
        return "f%d" % r.randint(1, 400)
    if k == 3:
        return "f%d,%d" % (r.randint(1, 300), r.randint(20, 800))
    return "d%d" % r.randint(1, 3)


def cases(tier, seed):
    g = Gen(seed * 7919 + 10)
    out = []
    nenv, nsch = {"quick": (3, 15), "thorough": (12, 40)}[tier]
    for pi, pol in enumerate(ga.POLICY):
        for kind in KINDS:
            if kind == "SIMPLE" and pol not in ("", "T"):
                continue
            for ci in range(nenv):
                tiled = pol.startswith("T")
                procs = g.r.choice([1, 2, 2, 3, 3, 4, 5, 8])
                items = g.r.choice([2, 4, 5, 8]) if tiled else g.r.choice([1, 2, 5, 40, 100])
                env = ga.accfg(items, procs, pol)
                for t in range(nsch):
                    how = hows(g, t % 5) + ("s" if g.r.random() < 0.3 else "")
                    ops = ["gemm"] * g.r.choice([0, 1, 1, 2, 3]) if kind != "SIMPLE" else \
                        [g.r.choice(["gemm", "symm", "trmm", "trsm"])]
                    out.append(ga.session(g, "%s%s_%d_%d" % (kind[0], pol or "N", ci, t), env, kind, ops,
                                          seed=g.r.randrange(1 << 30), how=how, exe="sched", uses=g.r.choice([1, 1, 2])))
    # a worker that has not started when the accelerator is released, or joins late
    for t in range({"quick": 80, "thorough": 500}[tier]):
        procs = g.r.choice([3, 4, 5])
        kind = g.r.choice(["WORKERS", "WORKERS", "TRANSIENT"])
        env = ga.accfg(g.r.choice([60, 100]), procs, g.r.choice(["B", "BR", "BZ"]))
        out.append(ga.session(g, "d%d" % t, env, kind, ["gemm"] * g.r.choice([1, 1, 2]), seed=g.r.randrange(1 << 30),
                              how="d%d" % g.r.randint(1, procs), exe="sched", uses=g.r.choice([1, 2])))
    # some thread frozen at every step in turn
    for kind, pol, procs in [("WORKERS", "B", 2), ("WORKERS", "BR2", 2), ("WORKERS", "BZ2", 3), ("TRANSIENT", "B", 2),
                             ("TRANSIENT", "T", 1), ("TRANSIENT", "T", 2), ("WORKERS", "T", 1)]:
        env = ga.accfg(4 if pol == "T" else 1, procs, pol)
        for k in range(g.r.randint(1, 6), 400, {"quick": 7, "thorough": 1}[tier]):
            c = Case("z%s%s%d_%d" % (kind[0], pol, procs, k), env, exe="sched")
            c.call("ac_init", kind=(kind, kind), seed=k % 5 if tier == "quick" else k % 3, how=("f%d" % k, "f%d" % k))
            for n in range(2):
                d = b3.gemm(g, "x", {}, fl=[], mnk=(2, 16, 1), scal=(1, 2))
                ga.append(c, n, d)
            c.call("ac_release")
            out.append(c)
    return out


PROPS = "SPECIFICATION Fair\nINVARIANT NothingBad AllGone\nPROPERTY Returns Refines"


def models(ck, tier):
    """the protocols themselves, exhaustively; with each repaired defect put back TLC must object"""
    off = dict(WaitOnce=False, SpinRefs=False, RunInThread=False, StopAlways=False)
    sizes = [(2, 2, 1, 2, True), (2, 2, 1, 1, False)] if tier == "quick" else \
        [(2, 2, 2, 1, True), (2, 2, 2, 2, True), (2, 3, 1, 2, True), (3, 2, 1, 2, False), (3, 2, 1, 1, True), (2, 3, 2, 1, False),
         (1, 3, 2, 2, False)]
    for nw, nt, calls, q, two in sizes:
        ck.model("Workers", dict(NW=nw, NT=nt, CALLS=calls, QLEN=q, TWO=two, **off), PROPS,
                 "workers%d%d%d%d%s" % (nw, nt, calls, q, two))
    toff = dict(WrongSignal=False, LeaveUnlocked=False, NoJoin=False)
    for nw, nt, calls, q in [(2, 3, 1, 2)] if tier == "quick" else [(2, 4, 2, 2), (2, 3, 2, 1), (3, 3, 2, 2), (1, 4, 2, 2), (3, 4, 1, 2)]:
        ck.model("Transient", dict(NW=nw, NT=nt, CALLS=calls, QLEN=q, **toff), PROPS, "transient%d%d%d%d" % (nw, nt, calls, q))
    if tier != "quick":
        for d in off:
            ck.model("Workers", dict(dict(NW=2, NT=1 if d == "RunInThread" else 2, CALLS=1, QLEN=1, TWO=d != "RunInThread", **off), **{d: True}),
                     PROPS, "workers" + d, must_fail=True)
        for d in toff:
            ck.model("Transient", dict(dict(NW=2, NT=4, CALLS=2, QLEN=2, **toff), **{d: True}), PROPS, "transient" + d, must_fail=True)


if __name__ == "__main__":
    ck = Check("C10")
    models(ck, TIER)
    ck.traces(cases(TIER, SEED), {"sched": vm_sched()})
    ck.finish()
