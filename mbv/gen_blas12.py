"""Cases for level-2, level-1 and elementwise operations."""
from run import *
import configs
from gen_blas3 import SCAL, tri_fill, sym_fill, trm_flags, trsm_data, dims


def kinds(g):
    return g.r.choice("rc"), g.r.choice("rc")


def gemv(g, cid, cfg, op="mvmult", fl=None, mn=None, scal=None, of=(), mism=False, kk=None):
    c = Case(cid, cfg)
    m, n = mn or (dims(g, cfg), dims(g, cfg))
    if fl is None:
        fl = ["TRANSA"] if g.r.random() < 0.5 else []
        if g.r.random() < 0.2:
            fl.append("ABSA")
    al, be = scal or g.r.choice(SCAL)
    tr = "TRANSA" in fl
    nx, ny = (m, n) if tr else (n, m)
    if mism:
        w = g.r.choice("xymn")
        nx, ny, m, n = nx + (w == "x"), ny + (w == "y"), m + (w == "m"), n + (w == "n")
    kx, ky = kk or kinds(g)
    A = g.matrix(c, "A", m, n)
    X = notvec(g, c, "X") if mism == "X" else g.vector(c, "X", nx, kx)
    Y = g.vector(c, "Y", ny, ky)
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(Y)
    c.call(op, fl, of, be=be, Y=Y, al=al, A=A, X=X)
    return c


def notvec(g, c, name):
    return g.matrix(c, name, g.r.choice([2, 3]), g.r.choice([2, 3]))


def symv(g, cid, cfg, op="mvmult_sym", fl=None, n=None, scal=None, of=(), mism=False, kk=None):
    c = Case(cid, cfg)
    n = dims(g, cfg) if n is None else n
    fl = list(fl if fl is not None else [g.r.choice(["UPPER", "LOWER"])])
    al, be = scal or g.r.choice(SCAL)
    kx, ky = kk or kinds(g)
    nc, nx, ny = n, n, n
    if mism:
        w = g.r.choice("xyn")
        nx, ny, nc = nx + (w == "x"), ny + (w == "y"), nc + (w == "n")
    A = g.matrix(c, "A", n, nc, sym_fill(g, "UPPER" in fl))
    X = notvec(g, c, "X") if mism == "X" else g.vector(c, "X", nx, kx)
    Y = g.vector(c, "Y", ny, ky)
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(Y)
    c.call(op, fl, of, be=be, Y=Y, al=al, A=A, X=X)
    return c


def trmv(g, cid, cfg, op="mvmult_trm", fl=None, n=None, al=None, of=(), mism=False, k=None):
    c = Case(cid, cfg)
    n = dims(g, cfg) if n is None else n
    if fl is None:
        fl = [f for f in trm_flags(g) if f not in ("LEFT", "RIGHT")]
    al = g.r.choice([1, 1, 2, -1, 3, 0]) if al is None else al
    nx, nc = n, n
    if mism:
        w = g.r.choice("xn")
        nx, nc = nx + (w == "x"), nc + (w == "n")
    if "solve" in op and not mism:
        A, Bv = trsm_data(g, c, fl, n, 1, al, False)
        X = g.vector(c, "X", n, k, fill=lambda i: Bv[i][0])
    else:
        A = g.matrix(c, "A", n, nc, tri_fill(g, "UPPER" in fl, "UNIT" in fl, n))
        X = notvec(g, c, "X") if mism == "X" else g.vector(c, "X", nx, k)
    c.call(op, fl, of, X=X, al=al, A=A)
    return c


def ger(g, cid, cfg, op="mvupdate", fl=None, mn=None, scal=None, of=(), mism=False, kk=None):
    """mvupdate, mvupdate_trm, mvupdate_sym, mvupdate2_sym"""
    c = Case(cid, cfg)
    m, n = mn or (dims(g, cfg), dims(g, cfg))
    sym = "sym" in op
    if sym:
        n = m
    if fl is None:
        fl = [] if op.endswith("mvupdate") else [g.r.choice(["UPPER", "LOWER"])]
    al, be = scal or g.r.choice(SCAL)
    nx, ny = m, n
    if mism:
        w = g.r.choice("xymn" if op != "mvupdate_sym" and op != "ext_mvupdate_sym" else "xmn")
        nx, ny, m, n = nx + (w == "x"), ny + (w == "y"), m + (w == "m"), n + (w == "n")
    kx, ky = kk or kinds(g)
    A = g.matrix(c, "A", m, n, sym_fill(g, "UPPER" in fl) if fl else None)
    X = notvec(g, c, "X") if mism == "X" else g.vector(c, "X", nx, kx)
    kw = {}
    if "mvupdate_sym" not in op:
        kw["Y"] = g.vector(c, "Y", ny, ky)
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(A)
    c.call(op, fl, of, be=be, A=A, al=al, X=X, **kw)
    return c


# -------------------------------------------------------------------------------------------------
L1OPTS = [(), (), ("NAIVE",), ("KAHAN",), ("RECURSIVE",), ("PAIRWISE",)]


def l1len(g):
    return g.r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 31, 33, 40])


def level1(g, cid, cfg, op, n=None, kk=None, of=None, mism=False):
    c = Case(cid, cfg)
    n = l1len(g) if n is None else n
    kx, ky = kk or kinds(g)
    of = g.r.choice(L1OPTS) if of is None else of
    kw = {}
    big = g.r.choice([0, 0, 0, 0, 600, -600]) if op in ("nrm2", "amax", "iamax", "iamin") else 0
    nx = n + (1 if mism is True else 0)
    lo, hi = (-9, 9) if op in ("iamax", "iamin", "amax") else (-3, 3)
    fill = None
    if op in ("iamin", "iamax") and g.r.random() < 0.7 and n:
        # a unique extremum at a chosen place
        at = g.r.randrange(n)
        m = -1 if op == "iamin" else -30
        fill = lambda i: m if i == at else g.r.choice([-5, -4, -3, 3, 4, 5])
    X = notvec(g, c, "X") if mism == "X" else g.vector(c, "X", nx, kx, scale=-big, lo=lo, hi=hi, fill=fill)
    if op in ("dot", "adot", "axpy", "axpby", "copy", "swap"):
        kw["Y"] = g.vector(c, "Y", n, ky)
    if op in ("axpy", "axpby", "scale", "adot"):
        kw["al"] = g.r.choice([0, 1, -1, 2, 3])
    if op == "axpby":
        kw["be"] = g.r.choice([0, 1, -1, 2, 3])
        if kw["be"] == 0 and not mism and g.r.random() < 0.5:
            c.forget(kw["Y"])
    if op == "adot":
        kw["r0"] = g.r.choice([0, 1, -7])
    if op == "nrm2":
        kw["vs"] = (10, str(10 - big))
        kw["va"] = 1
    elif op == "amax":
        kw["vs"] = (0, str(-big))
    c.call(op, (), of, X=X, **kw)
    return c


def elem(g, cid, cfg, op, mn=None, fl=None, mism=False):
    c = Case(cid, cfg)
    m, n = mn or (g.r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13]), g.r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13]))
    kw, ev = {}, {}
    tri = g.r.choice([[], ["UPPER"], ["LOWER"]])
    unit = ["UNIT"] if g.r.random() < 0.5 else []
    if fl is None:
        if op in ("mcopy",):
            fl = g.r.choice([[], ["TRANSA"]])
        elif op in ("madd", "mscale", "set_values", "set_all", "scale_to"):
            fl = g.r.choice([tri + unit, tri, ["SYMM"] + (unit if op.startswith("set") else [])])
        elif op == "mplus":
            fl = g.r.choice([tri, ["TRANSB"], ["TRANSA"], tri]) + g.r.choice([[], [], ["ABSA"]])
        elif op in ("make_trm",):
            fl = tri + unit
        elif op in ("apply", "apply2", "iterate"):
            fl = tri
        else:
            fl = []
    if "SYMM" in fl and not mism:
        n = m
    # vector operands are taken as vectors, whatever the flags say
    if (m == 1 or n == 1) and op in ("madd", "mscale", "mplus"):
        fl = []
    if op in ("mcopy", "mplus", "allclose", "intolerance"):
        tr = "TRANSA" in fl or "TRANSB" in fl
        d = 1 if mism else 0
        bm, bn = (n, m) if tr else (m, n + d)
        A = g.matrix(c, "A", bm + (d if tr else 0), bn)
        src = c.bufs["A"]
        if op == "mcopy":
            kw.update(D=g.matrix(c, "D", m, n), A=A)
        elif op == "mplus":
            kw.update(A=g.matrix(c, "T", m, n), B=A, al=g.r.choice([0, 1, -1, 2]), be=g.r.choice([0, 1, -1, 3]))
        else:
            at = (g.r.randrange(m), g.r.randrange(n)) if m*n and g.r.random() < 0.6 else None
            df = g.r.choice([1, -1, 2, 3])
            B = g.matrix(c, "B", m, n, lambda i, j: src[A.pos(i, j)] + (df if (i, j) == at else 0))
            kw.update(A=A, B=B)
            if op == "intolerance":
                kw.update(at=g.r.choice([0, 1, 2]), rt=g.r.choice([0, 1]))
    else:
        sc = {"scale_to": 4}.get(op, 1)
        A = g.matrix(c, "A", m, n, (lambda i, j: 8 * g.r.randint(-3, 3)) if op == "scale_to" else None)
        kw["A"] = A
    if op in ("madd", "mscale", "apply2"):
        kw["al"] = g.r.choice([0, 1, -1, 2, 3])
    if op == "scale_to":
        kw["from"], kw["to"] = g.r.choice([1, 2, 4, 8]), g.r.choice([1, 2, 3, 16])
    if op == "apply":
        kw["fn"] = g.r.choice([0, 1])
    if op == "iterate":
        kw["stop"] = g.r.choice([0, 0, 1, 3, 7])
    if op == "mnorm":
        w = g.r.choice(["one", "two", "inf", "frb"])
        kw["which"] = {"one": 1, "two": 2, "inf": 3, "frb": 4}[w]
        ev["norm"] = w
        if w in ("two", "frb"):
            kw["vs"], kw["va"] = 9, 1
    c.call(op, fl, (), ev=ev, **kw)
    return c


def mplus_const(g, cid, cfg):
    c = Case(cid, cfg)
    m, n = g.r.choice([(1, 1), (1, 1), (3, 4), (5, 2), (1, 5)])
    A = g.matrix(c, "A", m, n)
    B = g.matrix(c, "B", 1, 1)
    c.call("mplus", (), (), al=g.r.choice([1, 2, -1]) if m * n == 1 else 1, A=A, be=g.r.choice([0, 1, 2]), B=B)
    return c
