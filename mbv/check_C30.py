from run import *
import configs

SENT = 2147483647


class A:
    """address: buffer, offset, increment or leading dimension"""
    def __init__(self, b, o, inc):
        self.b, self.o, self.inc = b, o, inc

    def arg(self):
        return (dict(b=self.b, o=self.o, inc=self.inc), "%s,%d,%d" % (self.b, self.o, self.inc))


class Mk:
    def __init__(self, g, c):
        self.g, self.c = g, c
        self.vals = {}

    def vec(self, name, n, inc, fill, nan=False):
        r = self.g.r
        n0 = max(n, 0)
        off = r.randint(0, 4)
        tot = off + ((n0 - 1) * abs(inc) + 1 if n0 else 0) + r.randint(1, 5)
        d = [SENT if nan else r.randint(-9, 9) + 50 for _ in range(tot)]
        for i in range(n0):
            p = off + ((n0 - 1 - i) * -inc if inc < 0 else i * inc)
            d[p] = SENT if nan else fill(i)
        self.c.buf(name, d)
        return A(name, off, inc)

    def mat(self, name, r, c, row, fill, nan=False):
        """r x c matrix; entries None hold anything, not a number included"""
        g = self.g.r
        minor, major = (c, r) if row else (r, c)
        ld = max(minor, 1) + g.choice([0, 0, 1, 2, 5])
        off = g.randint(0, 3)
        tot = off + ld * max(major, 0) + g.randint(1, 3)
        hole = g.choice([SENT, 77])
        d = [SENT if nan else g.randint(-9, 9) + 50 for _ in range(tot)]
        if not nan:
            for i in range(r):
                for j in range(c):
                    v = fill(i, j)
                    d[off + (i * ld + j if row else i + j * ld)] = hole if v is None else v
        self.c.buf(name, d)
        return A(name, off, ld)


def tri(up, unit, rnd):
    def f(i, j):
        if i == j:
            return None if unit else rnd(i, j)
        return rnd(i, j) if (i < j) == up else None
    return f


L1 = ["asum", "nrm2", "dot", "iamax", "axpy", "copy", "swap", "scal", "rot", "rotg"]
L2 = ["gemv", "symv", "ger", "syr", "syr2", "trmv", "trsv"]
L3 = ["f_gemm", "c_gemm", "c_gemm_row", "f_symm", "c_symm", "c_symm_row", "f_syrk", "f_syr2k",
      "f_trmm", "c_trmm", "c_trmm_row", "f_trsm", "c_trsm", "c_trsm_row"]
TRIPLES = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (24, 7, 25), (0, 6, 6), (6, 0, 6), (0, 0, 0),
           (20, 21, 29), (21, 20, 29)]


def case(g, cid, cfg, op, big):
    r = g.r
    c = Case(cid, cfg)
    k = Mk(g, c)
    lo = lambda *a: r.randint(-3, 3)
    opts = dict(ta=r.choice("NnTtCc"), tb=r.choice("NTtCc"), ul=r.choice("UuLl"), dg=r.choice("NnUu"), sd=r.choice("LlRr"))
    inc = lambda: r.choice([1, 1, 1, 2, 3, 5, -1, -1, -2, -3])
    dim = lambda: r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17] + ([20, 25, 33] if big else []))
    al = r.choice([1, 1, -1, 2, -3, 0])
    be = r.choice([1, 0, 0, -1, 2])
    o = op[2:]
    kw = {}
    use = lambda *names: {n: opts[n] for n in names}
    if op in ("f_asum", "f_nrm2", "f_iamax", "f_scal"):
        n = r.choice([dim(), dim(), dim(), 40, 0, -1])
        i = inc()
        f = lo
        if o == "nrm2":
            a, b, h = r.choice(TRIPLES)
            pos = r.sample(range(max(n, 2)), 2)
            f = lambda q: a if q == pos[0] else -b if q == pos[1] else 0
            kw["vs"] = 8
        elif r.random() < .5:
            f = lambda q: r.randint(-30, 30)
        X = k.vec("x", n, i, f)
        if o == "scal":
            kw["al"] = al
        c.call(op, n=n, X=X.arg(), **kw)
    elif op in ("f_dot", "f_axpy", "f_copy", "f_swap", "f_rot"):
        n = r.choice([dim(), dim(), dim(), 40, 0, -1])
        X = k.vec("x", n, inc(), lo)
        Y = k.vec("y", n, inc(), lo)
        if o == "axpy":
            kw["al"] = al
        if o == "rot":
            kw["c"], kw["s"] = r.choice([(0, 1), (1, 0), (2, 3), (-1, 2)])
        c.call(op, n=n, X=X.arg(), Y=Y.arg(), **kw)
    elif op == "f_rotg":
        for a, b, h in TRIPLES:
            s, t = r.choice([1, -1]), r.choice([1, -1])
            c.buf("x", [1])
            c.call(op, a=a * s, b=b * t, h=h)
    elif op == "f_gemv":
        m, n = dim(), dim()
        if r.random() < .08:
            m, n = r.choice([(0, n), (m, 0)])
        t = opts["ta"] in "TtCc"
        nan = al == 0 and r.random() < .6
        M = k.mat("a", m, n, False, lo, nan)
        X = k.vec("x", m if t else n, inc(), lo, nan)
        Y = k.vec("y", n if t else m, inc(), lo, be == 0 and r.random() < .6)
        if (m == 0 or n == 0):
            be = r.choice([1, 2])
        c.call(op, m=m, n=n, al=al, be=be, A=M.arg(), X=X.arg(), Y=Y.arg(), **use("ta"))
    elif op == "f_symv":
        n = dim()
        nan = al == 0 and r.random() < .6
        M = k.mat("a", n, n, False, tri(opts["ul"] in "Uu", False, lo), nan)
        X = k.vec("x", n, inc(), lo, nan)
        Y = k.vec("y", n, inc(), lo, be == 0 and r.random() < .6)
        c.call(op, n=n, al=al, be=be, A=M.arg(), X=X.arg(), Y=Y.arg(), **use("ul"))
    elif op in ("f_ger", "f_syr", "f_syr2"):
        m, n = dim(), dim()
        if o != "ger":
            m = n
        nan = al == 0 and r.random() < .6
        M = k.mat("a", m, n, False, lo if o == "ger" else tri(opts["ul"] in "Uu", False, lo))
        X = k.vec("x", m, inc(), lo, nan)
        if o == "ger":
            kw["m"] = m
        else:
            kw.update(use("ul"))
        if o != "syr":
            kw["Y"] = k.vec("y", n, inc(), lo, nan).arg()
        c.call(op, n=n, al=al, A=M.arg(), X=X.arg(), **kw)
    elif op in ("f_trmv", "f_trsv"):
        n = dim()
        up, unit, t = opts["ul"] in "Uu", opts["dg"] in "Uu", opts["ta"] in "TtCc"
        ent = lo if o == "trmv" else (lambda i, j: r.choice([1, -1, 1, 2] if n < 6 else [1, -1]) if i == j else r.choice([0, 0, 1, -1]))
        vals = {}
        M = k.mat("a", n, n, False, lambda i, j: vals.setdefault((i, j), tri(up, unit, ent)(i, j)))
        if o == "trsv":
            z = [r.randint(-3, 3) for _ in range(n)]
            T = lambda i, j: (1 if i == j and unit else vals[(j, i) if t else (i, j)] or 0)
            rhs = [sum(T(i, j) * z[j] for j in range(n)) for i in range(n)]
            X = k.vec("x", n, inc(), lambda i: rhs[i])
        else:
            X = k.vec("x", n, inc(), lo)
        c.call(op, n=n, A=M.arg(), X=X.arg(), **use("ul", "ta", "dg"))
    else:
        row = op.endswith("_row")
        m, n, kk = dim(), dim(), dim()
        if o.startswith("gemm"):
            if r.random() < .1:
                m, n, kk = r.choice([(0, n, kk), (m, 0, kk), (m, n, 0)])
            ta, tb = opts["ta"] in "TtCc", opts["tb"] in "TtCc"
            nan = al == 0 and r.random() < .6
            a = k.mat("a", kk if ta else m, m if ta else kk, row, lo, nan)
            b = k.mat("b", n if tb else kk, kk if tb else n, row, lo, nan)
            cc = k.mat("c", m, n, row, lo, be == 0 and r.random() < .6)
            c.call(op, m=m, n=n, kk=kk, al=al, be=be, A=a.arg(), B=b.arg(), C=cc.arg(), **use("ta", "tb"))
        elif o.startswith("symm"):
            q = n if opts["sd"] in "Rr" else m
            nan = al == 0 and r.random() < .6
            a = k.mat("a", q, q, row, tri(opts["ul"] in "Uu", False, lo), nan)
            b = k.mat("b", m, n, row, lo, nan)
            cc = k.mat("c", m, n, row, lo, be == 0 and r.random() < .6)
            c.call(op, m=m, n=n, al=al, be=be, A=a.arg(), B=b.arg(), C=cc.arg(), **use("sd", "ul"))
        elif o in ("syrk", "syr2k"):
            t = opts["ta"] in "TtCc"
            if r.random() < .08:
                kk = 0
            nan = al == 0 and r.random() < .6
            a = k.mat("a", kk if t else n, n if t else kk, False, lo, nan)
            if o == "syr2k":
                kw["B"] = k.mat("b", kk if t else n, n if t else kk, False, lo, nan).arg()
            cc = k.mat("c", n, n, False, tri(opts["ul"] in "Uu", False, lo), be == 0 and r.random() < .6)
            c.call(op, n=n, kk=kk, al=al, be=be, A=a.arg(), C=cc.arg(), **kw, **use("ul", "ta"))
        else:
            right, up, unit, t = opts["sd"] in "Rr", opts["ul"] in "Uu", opts["dg"] in "Uu", opts["ta"] in "TtCc"
            q = n if right else m
            if o.startswith("trmm"):
                a = k.mat("a", q, q, row, tri(up, unit, lo), al == 0 and r.random() < .6)
                b = k.mat("b", m, n, row, lo)
            else:
                ent = lambda i, j: r.choice([1, -1, 1, 2] if q < 6 else [1, -1]) if i == j else r.choice([0, 0, 1, -1])
                vals = {}
                a = k.mat("a", q, q, row, lambda i, j: vals.setdefault((i, j), tri(up, unit, ent)(i, j)))
                T = lambda i, j: (1 if i == j and unit else vals[(j, i) if t else (i, j)] or 0)
                X = [[r.randint(-3, 3) for _ in range(n)] for _ in range(m)]
                if right:
                    P = lambda i, j: sum(X[i][h] * T(h, j) for h in range(q))
                else:
                    P = lambda i, j: sum(T(i, h) * X[h][j] for h in range(q))
                b = k.mat("b", m, n, row, P)
            c.call(op, m=m, n=n, al=al, A=a.arg(), B=b.arg(), **use("sd", "ul", "ta", "dg"))
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 30)
    out = []
    n = {"quick": 40, "thorough": 400}[tier]
    for ci, cfg in enumerate([configs.DEFAULT, configs.SMALL, configs.SKEW]):
        for op in ["f_" + o for o in L1 + L2] + L3:
            for t in range(n * (2 if op in L3 else 1) + 6):
                out.append(case(g, "%s_%d_%d" % (op, ci, t), cfg, op, tier == "thorough" or t % 4 == 0))
    return out


if __name__ == "__main__":
    ck = Check("C30")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
