"""Cases for the extended-precision operations (spec/Ext.tla): numbers hi*2^30 + lo whose products cancel."""
from run import *
import gen_blas3 as b3

T = 1 << 30
OPS = ["mult", "mult_sym", "mult_trm", "solve_trm", "mvmult", "mvmult_sym", "mvmult_trm", "mvsolve_trm",
       "mvupdate", "mvupdate_sym", "mvupdate2_sym", "axpby", "adot", "sum"]
E3 = lambda v: (digits(v), str(v))


class X:
    """a case under construction: the pairing of the inner dimension and the mode"""
    def __init__(self, g, n, near=False, mode=None):
        self.g, r = g, g.r
        self.mode = mode or r.choice(["cancel"] * 6 + ["plain", "wide", "beta"])
        step = 6 if near else max(n, 1)
        idx = []
        for b in range(0, n, step):
            blk = list(range(b, min(b + step, n)))
            r.shuffle(blk)
            idx += blk
        self.mate, self.sign = [None] * n, [0] * n
        for q in range(0, n - 1, 2):
            a, b = sorted(idx[q:q + 2])
            self.mate[a] = self.mate[b] = (a, b)
            self.sign[a], self.sign[b] = 1, -1
        self.n = n
        self.memo = {}
        self.lim = r.choice([1000, 1000, 30, 7])

    def rnd(self, key, lim=3):
        if key not in self.memo:
            self.memo[key] = self.g.r.randint(-lim, lim)
        return self.memo[key]

    def lo(self):
        return self.g.r.randint(-self.lim, self.lim)

    def hi(self, v):
        return 0 if self.mode == "plain" else v

    # the operand whose entries agree in pairs, the one whose entries are opposite in pairs
    def even(self, name, i, k):
        p = self.mate[k]
        return self.hi(self.rnd((name, i, p))) * T + self.lo()

    def odd(self, name, k, j):
        p = self.mate[k]
        if self.mode == "wide":
            return self.rnd((name, k, j)) * T + self.lo()
        return self.hi(self.sign[k] * self.rnd((name, p, j)) if p else 0) * T + self.lo()

    def sym(self, name, i, j):
        p, q = self.mate[i], self.mate[j]
        if p is None or q is None:
            return self.lo()
        return self.hi(self.rnd((name,) + tuple(sorted([p, q])))) * T + self.lo()

    def tri(self, name, i, j):
        p, q = self.mate[i], self.mate[j]
        if p is None or q is None or not (p[1] < q[0] or q[1] < p[0]):
            return self.g.r.randint(-7, 7)
        return self.hi(self.rnd((name, p, q))) * T + self.g.r.randint(-7, 7)


def small(g):
    return g.r.choice([1, 1, -1, 2, -3])


def ordinary(g):
    return g.r.randint(-3, 3) * T + g.r.randint(-1000, 1000)


def scalars(g, x):
    al, be = g.r.choice([(1, 1), (1, 0), (1, 1), (2, 1), (-1, 1), (1, -1), (3, 2), (0, 1), (0, 2), (-2, 0), (1, 3), (0, 0)])
    if x.mode == "wide" and g.r.random() < .5:
        al += g.r.choice([1, -2]) * T
    return al, be


def case(g, cid, cfg, op, big=False, mism=False, n=None, fl=None, of=()):
    r = g.r
    c = Case(cid, cfg)
    d = lambda: b3.dims(g, cfg, big)
    # numbers that are not to be read
    junk = lambda: ordinary(g) + 5 * T
    mat = lambda name, m, k, f: g.matrix(c, name, m, k, f, x="e", junk=junk)
    vec = lambda name, k, f: g.vector(c, name, k, fill=f, x="e", junk=junk)
    off = lambda w, *names: [1 if w == q else 0 for q in names]
    # the target of an update by e2*2^60+..: under mode "beta" its own part cancels the product's
    name = "ext_" + op
    fl = list(fl) if fl is not None else None
    up = lambda i, j: i == j or (i < j) == ("UPPER" in fl)
    if op == "mult":
        m, k2, k = (d(), d(), d()) if n is None else (n, n, n)
        fl = fl if fl is not None else [f for f in ("TRANSA", "TRANSB") if r.random() < .5]
        x = X(g, k)
        Av = [[x.even("a", i, q) for q in range(k)] for i in range(m)]
        Bv = [[x.odd("b", q, j) for j in range(k2)] for q in range(k)]
        al, be = scalars(g, x)
        w = r.choice(["m", "n", "k"]) if mism else None
        ta, tb = "TRANSA" in fl, "TRANSB" in fl
        A = mat("A", k if ta else m, m if ta else k, lambda i, j: Av[j][i] if ta else Av[i][j])
        B = mat("B", k2 if tb else k, k if tb else k2, lambda i, j: Bv[j][i] if tb else Bv[i][j])
        if x.mode == "beta":
            Cv, al, be = against(g, [[sum(a // T * (b // T) for a, b in zip([near(v) for v in Av[i]], [near(Bv[q][j]) for q in range(k)]))
                                      for j in range(k2)] for i in range(m)])
        else:
            Cv = [[ordinary(g) for j in range(k2)] for i in range(m)]
        o = off(w, "m", "n")
        C = mat("C", m + o[0], k2 + o[1], lambda i, j: Cv[i % m][j % k2])
        if mism and w == "k":
            B = mat("D", (k2 if tb else k + 1), (k + 1 if tb else k2), lambda i, j: ordinary(g))
        if be == 0 and not mism and r.random() < .5:
            c.forget(C)
        c.call(name, fl, of, be=E3(be), C=C, al=E3(al), A=A, B=B)
    elif op == "mult_sym":
        m, k2 = (d(), d()) if n is None else (n, n)
        fl = fl if fl is not None else [r.choice(["LEFT", "RIGHT"]), r.choice(["UPPER", "LOWER"])] + (["TRANSB"] if r.random() < .4 else [])
        right, tb = "RIGHT" in fl, "TRANSB" in fl
        na = k2 if right else m
        x = X(g, na)
        A = mat("A", na, na + (1 if mism else 0), lambda i, j: x.sym("a", i, j) if j < na and up(i, j) else None)
        Bf = lambda i, j: x.odd("b", j, i) if right else x.odd("b", i, j)
        B = mat("B", k2 if tb else m, m if tb else k2, lambda i, j: Bf(j, i) if tb else Bf(i, j))
        C = mat("C", m, k2, lambda i, j: ordinary(g))
        al, be = scalars(g, x)
        if be == 0 and not mism and r.random() < .5:
            c.forget(C)
        c.call(name, fl, of, be=E3(be), C=C, al=E3(al), A=A, B=B)
    elif op in ("mult_trm", "solve_trm"):
        m, k2 = (d(), d()) if n is None else (n, n)
        fl = fl if fl is not None else b3.trm_flags(g)
        right, tr, unit = "RIGHT" in fl, "TRANSA" in fl, "UNIT" in fl
        na = k2 if right else m
        x = X(g, na, near=r.random() < .7, mode=None if op == "mult_trm" else r.choice(["cancel"] * 4 + ["plain"]))
        solve = op == "solve_trm"
        dg = {i: r.choice([1, -1, 2, -2, 4]) if solve else r.randint(-7, 7) for i in range(na)}
        A = mat("A", na, na + (1 if mism else 0),
                lambda i, j: None if j >= na or not up(i, j) or (unit and i == j) else dg[i] if i == j else x.tri("a", i, j))
        Xv = [[x.odd("b", j if right else i, i if right else j) for j in range(k2)] for i in range(m)]
        al = r.choice([1, 1, -1, 2, 3, 0]) if not solve else r.choice([1, 1, -1])
        if x.mode == "wide" and r.random() < .5:
            al += r.choice([1, -2]) * T
        if solve and not mism:
            M = opmat(c.bufs["A"], A, na, "UPPER" in fl, unit, tr)
            Xv = [[al * sum((Xv[i][q] * M[q][j] if right else M[i][q] * Xv[q][j]) for q in range(na)) for j in range(k2)] for i in range(m)]
            assert all(abs(v) < 1 << 53 for row in Xv for v in row)
        B = mat("B", m, k2, lambda i, j: Xv[i][j])
        c.call(name, fl, of, B=B, al=E3(al), A=A)
    elif op in ("mvmult", "mvmult_sym"):
        m, k = (d(), d()) if n is None else (n, n)
        symm = op == "mvmult_sym"
        fl = fl if fl is not None else ([r.choice(["UPPER", "LOWER"])] if symm else [r.choice(["TRANS", "TRANSA"])] if r.random() < .5 else [])
        if symm:
            m = k
        x = X(g, k)
        ta = "TRANS" in fl or "TRANSA" in fl
        w = r.choice("xya" if symm else "xy") if mism else None
        o = off(w, "x", "y", "a")
        if symm:
            A = mat("A", k, k + o[2], lambda i, j: x.sym("a", i, j) if j < k and up(i, j) else None)
        else:
            Av = [[x.even("a", i, q) for q in range(k)] for i in range(m)]
            A = mat("A", k if ta else m, m if ta else k, lambda i, j: Av[j][i] if ta else Av[i][j])
        Xv = [x.odd("x", q, 0) for q in range(k)]
        al, be = scalars(g, x)
        Yv = [ordinary(g) for _ in range(m)]
        if x.mode == "beta" and not symm:
            Yv, al, be = against(g, [[sum(near(Av[i][q]) // T * (near(Xv[q]) // T) for q in range(k))] for i in range(m)])
            Yv = [v[0] for v in Yv]
        V = vec("X", k + o[0], lambda i: Xv[i % k])
        Y = vec("Y", m + o[1], lambda i: Yv[i % m])
        if be == 0 and not mism and r.random() < .5:
            c.forget(Y)
        c.call(name, fl, of, be=E3(be), Y=Y, al=E3(al), A=A, X=V)
    elif op in ("mvmult_trm", "mvsolve_trm"):
        na = d() if n is None else n
        fl = fl if fl is not None else [f for f in b3.trm_flags(g) if f not in ("LEFT", "RIGHT")]
        tr, unit, solve = "TRANSA" in fl, "UNIT" in fl, op == "mvsolve_trm"
        x = X(g, na, near=r.random() < .7, mode=None if not solve else r.choice(["cancel"] * 4 + ["plain"]))
        dg = {i: r.choice([1, -1, 2, -2, 4]) if solve else r.randint(-7, 7) for i in range(na)}
        w = r.choice("ax") if mism else None
        o = off(w, "a", "x")
        A = mat("A", na, na + o[0],
                lambda i, j: None if j >= na or not up(i, j) or (unit and i == j) else dg[i] if i == j else x.tri("a", i, j))
        Xv = [x.odd("x", q, 0) for q in range(na)]
        al = r.choice([1, 1, -1, 2, 3, 0]) if not solve else r.choice([1, 1, -1])
        if x.mode == "wide" and r.random() < .5:
            al += r.choice([1, -2]) * T
        if solve and not mism:
            M = opmat(c.bufs["A"], A, na, "UPPER" in fl, unit, tr)
            Xv = [al * sum(M[i][q] * Xv[q] for q in range(na)) for i in range(na)]
            assert all(abs(v) < 1 << 53 for v in Xv)
        V = vec("X", na + o[1], lambda i: Xv[i % na])
        c.call(name, fl, of, X=V, al=E3(al), A=A)
    elif op in ("mvupdate", "mvupdate_sym", "mvupdate2_sym"):
        m, k = (d(), d()) if n is None else (n, n)
        sy = op != "mvupdate"
        fl = fl if fl is not None else ([r.choice(["UPPER", "LOWER"])] if sy else [])
        if sy:
            m = k
        x = X(g, 0, mode=r.choice(["beta", "beta", "beta", "plain", "wide"]))
        num = lambda: x.hi(r.randint(-3, 3)) * T + x.lo()
        Xv = [num() for _ in range(m)]
        Yv = [num() for _ in range(k)]
        w = r.choice("xya" if sy else "xy") if mism else None
        o = off(w, "x", "y", "a")
        al, be = scalars(g, x)
        if x.mode == "beta":
            h = lambda v: near(v) // T
            if op == "mvupdate":
                P = [[h(Xv[i]) * h(Yv[j]) for j in range(k)] for i in range(m)]
            elif op == "mvupdate_sym":
                P = [[h(Xv[i]) * h(Xv[j]) for j in range(k)] for i in range(m)]
            else:
                P = [[h(Xv[i]) * h(Yv[j]) + h(Yv[i]) * h(Xv[j]) for j in range(k)] for i in range(m)]
            Av, al, be = against(g, P)
        else:
            Av = [[ordinary(g) for _ in range(k)] for _ in range(m)]
        A = mat("A", m, k + o[2], lambda i, j: Av[i][j % k] if not sy or up(i, j) else None)
        V = vec("X", m + o[0], lambda i: Xv[i % m])
        kw = dict(X=V)
        if op != "mvupdate_sym":
            kw["Y"] = vec("Y", k + o[1], lambda i: Yv[i % k])
        elif w == "y":
            return case(g, cid, cfg, op, big, mism, n, fl, of)
        if be == 0 and not mism and r.random() < .5:
            c.forget(View("A", A.o, A.r, A.c, A.s))
            if sy:                                       # the other triangle is not the call's business
                pass
        c.call(name, fl, of, be=E3(be), A=A, al=E3(al), **kw)
    else:
        k = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 33]) if n is None else n
        fl = fl if fl is not None else []
        any3 = lambda: (r.randint(-9, 9), r.choice([0, 1, 2, 2]))
        val = lambda v: v[0] << 30 * v[1] if isinstance(v, tuple) else v
        al, be = r.choice([(1, 1), (1, 0), (2, 1), (-1, 1), (3, 2), (0, 1), (-2, 0), (1, -1)])
        Yv = [r.choice([ordinary(g), ordinary(g), any3()]) for _ in range(k)]
        if op == "axpby":
            if r.random() < .6:
                al, be = T * r.choice([1, -1]) + r.randint(-9, 9), T + r.randint(-9, 9)
                h = T if al > 0 else -T
                Yv = [ordinary(g) for _ in range(k)]
                Xv = [(-(near(v) // T) if al > T // 2 else near(v) // T) * T + r.randint(-1000, 1000) for v in Yv]
            else:
                Xv = [r.choice([ordinary(g), any3()]) for _ in range(k)]
            w = r.choice("xyv") if mism else None
            V = vec("X", k + (w == "x"), lambda i: Xv[i % k] if k else 1)
            Y = vec("Y", k + (w == "y"), lambda i: Yv[i % k] if k else 1)
            if w == "v":
                V = mat("D", 2, max(k, 2), lambda i, j: ordinary(g))
            elif be == 0 and r.random() < .5:
                c.forget(Y)
            c.call(name, fl, of, be=E3(be), Y=Y, al=E3(al), X=V)
        elif op == "adot":
            x = X(g, k)
            Xv = [x.even("a", 0, q) for q in range(k)]
            Yv = [x.odd("b", q, 0) for q in range(k)]
            if x.mode == "wide":
                Xv = [r.choice([v, any3()]) for v in Xv]
            elif r.random() < .2:
                al = r.choice([1, -1]) * T + 3
            w = r.choice("xyv") if mism else None
            V = vec("X", k + (w == "x"), lambda i: Xv[i % k] if k else 1)
            Y = vec("Y", k + (w == "y"), lambda i: Yv[i % k] if k else 1)
            if w == "v":
                V = mat("D", 2, max(k, 2), lambda i, j: ordinary(g))
            c.call(name, fl, of, al=E3(al), X=V, Y=Y, r0=(0, "0"))
        else:
            fl = ["ABS"] if r.random() < .3 else []
            big3 = [(r.randint(-9, 9), r.choice([2, 3, 3])) for _ in range(k // 2)]
            Xv = big3 + [(-v, e) for v, e in big3] + [r.randint(-1000, 1000) for _ in range(k - 2 * (k // 2))]
            if fl or r.random() < .3:
                Xv = [r.choice([(r.randint(-9, 9), r.choice([0, 1, 2])), ordinary(g)]) for _ in range(k)]
            elif k > 4:
                for q in r.sample(range(k), k // 3):
                    if isinstance(Xv[q], tuple):
                        z = Xv.index((-Xv[q][0], Xv[q][1])) if (-Xv[q][0], Xv[q][1]) in Xv else q
                        Xv[q], Xv[z] = ordinary(g), ordinary(g)
            r.shuffle(Xv)
            V = vec("X", k, lambda i: Xv[i])
            if mism:
                V = mat("D", 2, max(k, 2), lambda i, j: ordinary(g))
            c.call(name, fl, of, al=E3(r.choice([1, 1, 1, 2, -1, 3, 0, T + 1]) if not fl else 1), X=V, r0=(0, "0"))
    return c


def near(v):
    """v without its low digit"""
    return v - digits(v)[0]


def against(g, P):
    """a target and scalars such that be*target cancels al*(P*2^60 + ..) in the top digit"""
    s, t = g.r.choice([1, -1]), g.r.choice([1, -1])
    al, be = s, t * T + g.r.randint(-9, 9)
    return [[-s * t * v * T + g.r.randint(-1000, 1000) for v in row] for row in P], al, be


def opmat(d, A, n, up, unit, tr):
    def f(i, j):
        if tr:
            i, j = j, i
        if i == j:
            return 1 if unit else d[A.pos(i, i)]
        return d[A.pos(i, j)] if (i < j) == up else 0
    return [[f(i, j) for j in range(n)] for i in range(n)]
