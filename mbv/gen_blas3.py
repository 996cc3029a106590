"""Cases for the level-3 operations."""
from run import *
import configs


def dims(g, cfg, big=False):
    """a dimension: small values, values around the block sizes of cfg, sometimes larger"""
    r = g.r
    k = r.random()
    if k < 0.25:
        return r.choice([1, 1, 2, 3, 4, 5])
    if k < 0.6:
        return r.choice([6, 7, 8, 9, 10, 11, 12, 13])
    if k < 0.9:
        return r.choice([15, 16, 17, 18, 20, 23, 24, 25])
    return r.choice([31, 32, 33, 36, 40] if big else [19, 21, 22])


SCAL = [(1, 0), (1, 1), (2, 1), (-1, 1), (1, -1), (3, 2), (0, 1), (0, 2), (-2, 0), (1, 3), (0, 0)]
OPTSETS = [(), (), ("NAIVE",), ("RECURSIVE",)]


def tri_fill(g, up, unit, n, diag=None):
    def f(i, j):
        if i == j:
            return None if unit else (diag(i) if diag else g.r.choice([-3, -2, -1, 1, 2, 3]))
        if (i < j) == up:
            return g.r.randint(-3, 3)
        return None                        # junk: must not be read
    return f


def sym_fill(g, up):
    return lambda i, j: g.r.randint(-3, 3) if (i == j or (i < j) == up) else None


def gemm(g, cid, cfg, op="mult", fl=None, mnk=None, scal=None, mism=False):
    c = Case(cid, cfg)
    m, n, k = mnk or (dims(g, cfg), dims(g, cfg), dims(g, cfg))
    fl = list(fl if fl is not None else [f for f in ("TRANSA", "TRANSB") if g.r.random() < 0.5])
    if mism is False and g.r.random() < 0.1:
        fl = [("C" + f if f.startswith("TRANS") else f) for f in fl]
    al, be = scal or g.r.choice(SCAL)
    ta, tb = "TRANSA" in fl or "CTRANSA" in fl, "TRANSB" in fl or "CTRANSB" in fl
    ar, ac = (k, m) if ta else (m, k)
    br, bc = (n, k) if tb else (k, n)
    if mism:
        w = g.r.choice(["ar", "ac", "br", "bc", "m", "n"])
        d = g.r.choice([1, -1, 2])
        ar, ac, br, bc, m, n = [max(1, x + (d if w == nm else 0)) for x, nm in
                                zip((ar, ac, br, bc, m, n), ("ar", "ac", "br", "bc", "m", "n"))]
    A = g.matrix(c, "A", ar, ac)
    B = g.matrix(c, "B", br, bc)
    C = g.matrix(c, "C", m, n)
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(C)
    c.call(op, fl, be=be, C=C, al=al, A=A, B=B)
    return c


def symm(g, cid, cfg, op="mult_sym", fl=None, mn=None, scal=None, mism=False):
    c = Case(cid, cfg)
    m, n = mn or (dims(g, cfg), dims(g, cfg))
    if fl is None:
        fl = [g.r.choice(["LEFT", "RIGHT"]), g.r.choice(["UPPER", "LOWER"])]
        if g.r.random() < 0.4:
            fl.append("TRANSB")
    fl = list(fl)
    al, be = scal or g.r.choice(SCAL)
    na = n if "RIGHT" in fl else m
    br, bc = (n, m) if "TRANSB" in fl else (m, n)
    ac = na
    if mism:
        w = g.r.choice(["ac", "br", "bc", "m", "n"])
        d = g.r.choice([1, -1, 2])
        ac, br, bc, m, n = [max(1, x + (d if w == nm else 0)) for x, nm in
                            zip((ac, br, bc, m, n), ("ac", "br", "bc", "m", "n"))]
    A = g.matrix(c, "A", na, ac, sym_fill(g, "UPPER" in fl))
    B = g.matrix(c, "B", br, bc)
    C = g.matrix(c, "C", m, n)
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(C)
    c.call(op, fl, be=be, C=C, al=al, A=A, B=B)
    return c


def trmm(g, cid, cfg, op="mult_trm", fl=None, mn=None, al=None, of=(), mism=False):
    c = Case(cid, cfg)
    m, n = mn or (dims(g, cfg), dims(g, cfg))
    fl = list(fl if fl is not None else trm_flags(g))
    al = g.r.choice([1, 1, 2, -1, 3, 0]) if al is None else al
    na = n if "RIGHT" in fl else m
    ac = na
    if mism:
        w = g.r.choice(["ac", "m", "n"])
        ac, m, n = [max(1, x + (1 if w == nm else 0)) for x, nm in zip((ac, m, n), ("ac", "m", "n"))]
    A = g.matrix(c, "A", na, ac, tri_fill(g, "UPPER" in fl, "UNIT" in fl, na))
    B = g.matrix(c, "B", m, n)
    c.call(op, fl, of, B=B, al=al, A=A)
    return c


def trm_flags(g):
    fl = [g.r.choice(["LEFT", "RIGHT"]), g.r.choice(["UPPER", "LOWER"])]
    if g.r.random() < 0.5:
        fl.append("TRANSA")
    if g.r.random() < 0.35:
        fl.append("UNIT")
    return fl


def trsm_data(g, c, fl, m, n, al, right, vec=None):
    """triangular A (diagonal +-1,+-2), B = op(A)*X0 with small X0; B/al keeps integers"""
    na = n if right else m
    up, unit, tr = "UPPER" in fl, "UNIT" in fl, "TRANSA" in fl
    A = g.matrix(c, "A", na, na, tri_fill(g, up, unit, na, diag=lambda i: g.r.choice([-2, -1, 1, 2, 1, -1])))
    d = c.bufs["A"]

    def op(i, j):
        if tr:
            i, j = j, i
        if i == j:
            return 1 if unit else d[A.pos(i, i)]
        return d[A.pos(i, j)] if (i < j) == up else 0
    M = [[op(i, j) for j in range(na)] for i in range(na)]
    X = [[g.r.randint(-3, 3) for _ in range(n)] for _ in range(m)]
    if right:
        Bv = [[sum(X[i][k] * M[k][j] for k in range(na)) for j in range(n)] for i in range(m)]
    else:
        Bv = [[sum(M[i][k] * X[k][j] for k in range(na)) for j in range(n)] for i in range(m)]
    return A, Bv


def trsm(g, cid, cfg, op="solve_trm", fl=None, mn=None, al=None, of=(), mism=False):
    c = Case(cid, cfg)
    m, n = mn or (dims(g, cfg), dims(g, cfg))
    fl = list(fl if fl is not None else trm_flags(g))
    al = g.r.choice([1, 1, 2, -1, 3, 0]) if al is None else al
    if mism:
        na = n if "RIGHT" in fl else m
        w = g.r.choice(["ac", "n" if "RIGHT" in fl else "m"])
        ac = na + (1 if w == "ac" else 0)
        m, n = m + (1 if w == "m" else 0), n + (1 if w == "n" else 0)
        A = g.matrix(c, "A", na, ac, tri_fill(g, "UPPER" in fl, False, na, diag=lambda i: 1))
        B = g.matrix(c, "B", m, n)
    else:
        A, Bv = trsm_data(g, c, fl, m, n, al, "RIGHT" in fl)
        B = g.matrix(c, "B", m, n, lambda i, j: Bv[i][j])
    c.call(op, fl, of, B=B, al=al, A=A)
    return c


def syrk(g, cid, cfg, op="update_sym", fl=None, nk=None, scal=None, of=(), mism=False):
    c = Case(cid, cfg)
    n, k = nk or (dims(g, cfg), dims(g, cfg))
    if fl is None:
        fl = [g.r.choice(["UPPER", "LOWER"])] + (["TRANSA"] if g.r.random() < 0.5 else [])
    fl = list(fl)
    al, be = scal or g.r.choice(SCAL)
    ar, ac = (k, n) if "TRANSA" in fl else (n, k)
    br, bc = ar, ac
    cr, cc = n, n
    if mism:
        w = g.r.choice(["ar", "cr", "cc", "br", "bc"] if op == "update2_sym" else ["cr", "cc"])
        ar, br, bc, cr, cc = [max(1, x + (1 if w == nm else 0)) for x, nm in
                              zip((ar, br, bc, cr, cc), ("ar", "br", "bc", "cr", "cc"))]
    A = g.matrix(c, "A", ar, ac)
    kw = {}
    if op == "update2_sym":
        kw["B"] = g.matrix(c, "B", br, bc)
    C = g.matrix(c, "C", cr, cc, sym_fill(g, "UPPER" in fl))
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(C)
    c.call(op, fl, of, be=be, C=C, al=al, A=A, **kw)
    return c


def updtrm(g, cid, cfg, fl=None, mnk=None, scal=None, of=(), mism=False):
    c = Case(cid, cfg)
    m, n, k = mnk or (dims(g, cfg), dims(g, cfg), dims(g, cfg))
    if fl is None:
        fl = [g.r.choice(["UPPER", "LOWER"])] + [f for f in ("TRANSA", "TRANSB") if g.r.random() < 0.5]
    fl = list(fl)
    al, be = scal or g.r.choice(SCAL)
    ar, ac = (k, m) if "TRANSA" in fl else (m, k)
    br, bc = (n, k) if "TRANSB" in fl else (k, n)
    if mism:
        w = g.r.choice(["ar", "ac", "br", "bc", "m", "n"])
        ar, ac, br, bc, m, n = [max(1, x + (1 if w == nm else 0)) for x, nm in
                                zip((ar, ac, br, bc, m, n), ("ar", "ac", "br", "bc", "m", "n"))]
    A = g.matrix(c, "A", ar, ac)
    B = g.matrix(c, "B", br, bc)
    up = "UPPER" in fl
    C = g.matrix(c, "C", m, n, lambda i, j: g.r.randint(-3, 3) if i == j or (i < j) == up else None)
    if be == 0 and not mism and g.r.random() < 0.5:
        c.forget(C)
    c.call("update_trm", fl, of, be=be, C=C, al=al, A=A, B=B)
    return c
