from run import *
import lin
from check_C14 import LBS, tri

ALPHA = (1 + 17 ** .5) / 8


def rev(A):
    return [r[::-1] for r in A[::-1]]


def swap(A, i, j):
    A[i], A[j] = A[j], A[i]
    for r in A:
        r[i], r[j] = r[j], r[i]


def sim_ldl(A, piv):
    """growth of a lower LDL' factorization, or None"""
    n = len(A)
    A = [[float(x) for x in r] for r in A]
    g = 0.0
    for k in range(n):
        if piv:
            p = max(range(k, n), key=lambda i: abs(A[i][i]))
            swap(A, k, p)
        d = A[k][k]
        if abs(d) < .2:
            return None
        g = max(g, abs(d))
        for i in range(k + 1, n):
            l = A[i][k] / d
            g = max(g, abs(l))
            for j in range(k + 1, n):
                A[i][j] -= l * A[k][j]
        for i in range(k + 1, n):
            A[k][i] = A[i][k] = 0.0
    return g


def sim_bk(A):
    n = len(A)
    A = [[float(x) for x in r] for r in A]
    g = 0.0
    k = 0
    while k < n:
        am, r = 0.0, k
        for i in range(k + 1, n):
            if abs(A[i][k]) > am:
                am, r = abs(A[i][k]), i
        rm = max([abs(A[r][j]) for j in range(k, n) if j != r] or [0])
        if abs(A[k][k]) < 1e-9 and am < 1e-9:
            return None
        if abs(A[k][k]) >= ALPHA * am or abs(A[k][k]) * rm >= ALPHA * am * am:
            p, s = k, 1
        elif abs(A[r][r]) >= ALPHA * rm:
            p, s = r, 1
        else:
            p, s = r, 2
        swap(A, k + s - 1, p)
        if s == 1:
            if abs(A[k][k]) < .2:
                return None
            inv = [[1 / A[k][k]]]
        else:
            d = A[k][k] * A[k + 1][k + 1] - A[k + 1][k] ** 2
            if abs(d) < .1:
                return None
            inv = [[A[k + 1][k + 1] / d, -A[k + 1][k] / d], [-A[k + 1][k] / d, A[k][k] / d]]
        L = [[sum(A[i][k + t] * inv[t][u] for t in range(s)) for u in range(s)] for i in range(k + s, n)]
        g = max([g] + [abs(x) for r in L for x in r] + [abs(A[k + t][k + u]) for t in range(s) for u in range(s)])
        W = [[A[i][k + t] for t in range(s)] for i in range(n)]
        for i in range(k + s, n):
            for j in range(k + s, n):
                A[i][j] -= sum(L[i - k - s][t] * W[j][t] for t in range(s))
        k += s
    return g


def symmat(g, n, style):
    r = g.r
    if style == "ldl":
        w = .5 if n < 6 else .25
        L = [[1 if i == j else (r.choice([-1, 1]) if i > j and r.random() < w else 0) for j in range(n)] for i in range(n)]
        D = [r.choice([-3, -2, -1, 1, 2, 3, 4]) for _ in range(n)]
        A = [[sum(L[i][t] * D[t] * L[j][t] for t in range(n)) for j in range(n)] for i in range(n)]
        p = list(range(n))
        if r.random() < .5:
            r.shuffle(p)
        return [[A[p[i]][p[j]] for j in range(n)] for i in range(n)]
    dz = r.choice([0, .3, 1])
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            A[i][j] = A[j][i] = r.randint(-3, 3) if i != j else (0 if r.random() < dz else r.randint(-3, 3))
    return A


def find(g, n, up, kind):
    """symmetric indefinite matrix on which the named factorization has moderate growth"""
    for t in range(300):
        A = symmat(g, n, g.r.choice(["ldl", "any"]) if kind != "np" else "ldl")
        if lin.maxabs(A) > 24 or not lin.nice(A, 3.0):
            continue
        B = rev(A) if up else A
        q = sim_bk(B) if kind == "bk" else sim_ldl(B, kind == "pv")
        if q is not None and q < (12 if kind == "bk" else 16):
            return A
    return [[(1 + i % 3) * (-1) ** i if i == j else 0 for j in range(n)] for i in range(n)]


def case(g, cid, env, kind):
    r = g.r
    c = Case(cid, env)
    up = r.random() < 0.5
    fl = ["UPPER" if up else "LOWER"]
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13])
    wkw = lambda: dict(wx=r.choice([0, 0, 64]), wo=r.choice([0, 0, 64]))
    A = find(g, n, up, kind)
    V = g.xmatrix(c, "A", n, n, fill=tri(A, up))
    kw = {}
    if kind != "np":
        off = r.randint(0, 2)
        c.ibuf("P", [r.randint(-n, n) for _ in range(off + n + 1)])
        kw["P"] = Piv("P", off, n)
    w = r.random() < .5
    op = ("bk" if kind == "bk" else "ldl") + "factor"
    if w:
        c.call(op + "_w", fl=fl, A=V, **kw, **wkw())
    else:
        c.call(op, fl=fl, A=V, **kw)
    if r.random() < 0.7:
        q = r.choice([1, 1, 2, 5])
        B = g.xmatrix(c, "B", n, q, fill=lambda i, j: r.randint(-3, 3))
        if kind == "bk":
            if r.random() < .5:
                c.call("bksolve", fl=fl, B=B, A=V, **kw)
            else:
                c.call("bksolve_w", fl=fl, B=B, A=V, **kw)
        else:
            c.call("ldlsolve_f", fl=fl, B=B, A=V, **kw)
    if r.random() < .3:
        c.poison()
    if kind != "bk" and r.random() < 0.6:
        if r.random() < 0.5:
            c.call("ldlinverse", fl=fl, A=V, **kw)
        else:
            c.call("ldlinverse_w", fl=fl, A=V, **kw, **wkw())
    return c


def solve_exact(g, cid, env, mism=False):
    r = g.r
    c = Case(cid, env)
    up = r.random() < 0.5
    fl = ["UPPER" if up else "LOWER"]
    n = r.randint(1, r.choice([4, 9, 13, 20]))
    q = r.choice([0, 1, 1, 2, 3, 6])
    piv = r.random() < 0.6
    L = [[r.choice([-4, -2, -1, 1, 2]) if i == j else (r.choice([-1, 1, 2]) if i > j and r.random() < 2.0 / n else 0) for j in range(n)]
         for i in range(n)]
    if mism:
        AV = g.matrix(c, "A", n, n + r.choice([0, 1]), fill=lambda i, j: 1)
        BV = g.matrix(c, "B", n + (1 if AV.c == n else r.choice([0, 1])), q or 1)
        c.call("ldlsolve", fl=fl, B=BV, A=AV)
        return c
    # in the order the factorization works in
    p = [r.randint(1, i + 1) if up else r.randint(i + 1, n) for i in range(n)]
    src = list(range(n))
    if piv:
        for i in (range(n - 1, -1, -1) if up else range(n)):
            src[i], src[p[i] - 1] = src[p[i] - 1], src[i]
    F = rev(L) if up else L
    U = [[1 if i == j else F[i][j] for j in range(n)] for i in range(n)]
    D = [F[i][i] for i in range(n)]
    M = [[sum(U[i][k] * D[k] * U[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    X = [[r.randint(-3, 3) for _ in range(q)] for _ in range(n)]
    B = [None] * n
    for i in range(n):
        B[src[i]] = [sum(M[i][k] * X[k][cc] for k in range(n)) for cc in range(q)]
    AV = g.matrix(c, "A", n, n, fill=lambda i, j: F[i][j] if (i <= j if up else i >= j) else None)
    BV = g.matrix(c, "B", n, q, fill=lambda i, j: B[i][j])
    kw = {}
    if piv:
        c.ibuf("P", p)
        kw["P"] = Piv("P", 0, n)
    c.call("ldlsolve", fl=fl, B=BV, A=AV, **kw)
    return c


def bad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.randint(1, 5)
    fl = [r.choice(["UPPER", "LOWER"])]
    op = r.choice(["ldlfactor", "ldlinverse", "bkfactor", "bksize", "bksolve", "ldlinvp"])
    A = g.xmatrix(c, "A", n, n + (r.choice([1, 2]) if op not in ("bksize", "bksolve", "ldlinvp") else 0), fill=lambda i, j: 1)
    c.ibuf("P", [1] * (n + 1))
    if op == "bksize":
        c.call("bkfactor", fl=fl, A=A, P=Piv("P", 0, r.choice([n - 1, n + 1])))
    elif op == "ldlinvp":
        c.call("ldlinverse", fl=fl, A=A, P=Piv("P", 0, r.choice([n - 1, n + 1])))
    elif op == "bkfactor":
        c.call(op, fl=fl, A=A, P=Piv("P", 0, n))
    elif op == "bksolve":
        B = g.xmatrix(c, "B", n + 1, 2, fill=lambda i, j: 1)
        c.call(op, fl=fl, A=A, B=B, P=Piv("P", 0, n))
    else:
        c.call(op, fl=fl, A=A)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 15)
    out = []
    n = {"quick": 50, "thorough": 1000}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            for k in ("np", "pv", "bk"):
                out.append(case(g, "%s%d_%d" % (k, ci, t), env, k))
            out.append(case(g, "bk'%d_%d" % (ci, t), env, "bk"))
            out.append(solve_exact(g, "s%d_%d" % (ci, t), env))
        for t in range(6):
            out.append(solve_exact(g, "m%d_%d" % (ci, t), env, mism=True))
            out.append(bad(g, "b%d_%d" % (ci, t), env))
    return out


if __name__ == "__main__":
    ck = Check("C15")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
