from run import *
import configs, lin

LBS = [dict(), dict(ARMAS_CONFIG="16,16,16,2"), dict(ARMAS_CONFIG="16,16,16,3"), dict(ARMAS_CONFIG="16,16,16,4"),
       dict(ARMAS_CONFIG="8,8,8,5"), dict(ARMAS_CONFIG="16,16,16,1"), dict(ARMAS_CONFIG="16,16,16,0")]


def exact(g, cid, env, m, n, piv, sing):
    """P'LU with multipliers in {0,+-1/2,+-1/4}: unique pivots, exact arithmetic"""
    r = g.r
    c = Case(cid, env)
    k = min(m, n)
    L = [[4 if i == j else (r.choice([-2, -1, 0, 1, 2]) if i > j else 0) for j in range(k)] for i in range(m)]  # x4
    U = [[(r.choice([-4, -2, 2, 4]) if i == j else r.randint(-2, 2)) if i <= j else 0 for j in range(n)] for i in range(k)]
    if sing and k:
        for t in range(r.choice([1, 1, 2])):
            z = r.randrange(k)
            U[z][z] = 0
    A = lin.matmul(L, U) if k else [[0] * n for _ in range(m)]
    if piv:
        r.shuffle(A)
    return c, A


def rand(g, m, n):
    r = g.r
    hi = r.choice([1, 2, 3])
    dens = r.choice([1.0, 1.0, 0.6])
    return [[r.randint(-hi, hi) if r.random() < dens else 0 for _ in range(n)] for _ in range(m)]


def case(g, cid, env, kind):
    r = g.r
    piv = r.random() < 0.75
    mx = r.choice([4, 8, 13])
    m = r.randint(0 if r.random() < .1 else 1, mx)
    n = m if r.random() < 0.5 else r.randint(1, mx)
    if kind == "exact":
        c, A = exact(g, cid, env, m, n, piv, r.random() < 0.3)
        insc = 2
    else:
        if not piv:
            m = n = min(m, 7)
        c = Case(cid, env)
        insc = 0
        for t in range(200):
            A = rand(g, m, n)
            k = min(m, n)
            if not piv:
                for i in range(k):
                    A[i][i] = (1 if r.random() < .5 else -1) * (sum(abs(x) for x in A[i]) + 1)  # no growth
            if m != n or lin.nice(A, 6.0):
                break
            if t == 199:
                A = [[3 if i == j else 0 for j in range(n)] for i in range(m)]
    k = min(m, n)
    V = g.xmatrix(c, "A", m, n, fill=lambda i, j: A[i][j], insc=insc)
    kw = {}
    if piv:
        off = r.randint(0, 2)
        c.ibuf("P", [r.randint(-5, 99) for _ in range(off + k + 1)])
        kw["P"] = Piv("P", off, k)
    c.call("lufactor", A=V, **kw)
    if kind == "rand" and m == n and m:
        for t in range(r.choice([1, 2])):
            q = r.choice([1, 1, 2, 5])
            fl = r.choice([[], ["TRANS"]])
            inv = lin.inverse(lin.transpose(A) if fl else A)
            for w in (4, 3, 2, 1, 0):
                b = [[r.randint(-w, w) for _ in range(q)] for _ in range(m)]
                if lin.maxabs(lin.matmul(inv, b)) < 20:
                    break
            B = g.xmatrix(c, "B%d" % t, m, q, fill=lambda i, j: b[i][j])
            c.call("lusolve_f", fl=fl, B=B, A=V, **kw)
        if r.random() < 0.8:
            if r.random() < 0.5:
                c.call("luinverse", A=V, **kw)
            else:
                c.call("luinverse_w", A=V, wx=r.choice([0, 0, 64]), wo=r.choice([0, 0, 64]), **kw)
    elif kind == "exact" and m == n and m and lin_ok(A):
        c.call("luinverse", A=V, **kw)
    return c


def lin_ok(A):
    # singular matrices are refused; otherwise the inverse must stay in range
    i = lin.inverse([[x / 4.0 for x in r] for r in A])
    return i is None or lin.maxabs(i) < 8


def solve_exact(g, cid, env, mism=False):
    """integer factors, integer solution: exact solve in both forms"""
    r = g.r
    c = Case(cid, env)
    n = r.randint(0 if r.random() < .1 else 1, r.choice([4, 9, 14]))
    q = r.choice([0, 1, 1, 2, 3, 6])
    w = 1 if n > 8 else 2
    LU = [[r.choice([-2, -1, 1, 2]) if i == j else (r.randint(-w, w) if r.random() < 0.6 else 0) for j in range(n)] for i in range(n)]
    piv = r.random() < 0.8
    p = [r.randint(i + 1, n) for i in range(n)]
    src = list(range(n))
    if piv:
        for i in range(n):
            src[i], src[p[i] - 1] = src[p[i] - 1], src[i]
    M = [[sum((1 if k == i else LU[i][k]) * LU[k][j] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]
    A = [None] * n
    for i in range(n):
        A[src[i]] = M[i]
    X = [[r.randint(-3, 3) for _ in range(q)] for _ in range(n)]
    tr = r.random() < 0.5
    B = lin.matmul(lin.transpose(A) if tr else A, X) if n else []
    if mism:
        AV = g.matrix(c, "A", n, n + r.choice([0, 1]), fill=lambda i, j: 1)
        BV = g.matrix(c, "B", n + (1 if AV.c == n else r.choice([0, 1])), q)
    else:
        AV = g.matrix(c, "A", n, n, fill=lambda i, j: LU[i][j])
        BV = g.matrix(c, "B", n, q, fill=lambda i, j: B[i][j])
    kw = {}
    if piv:
        c.ibuf("P", p)
        kw["P"] = Piv("P", 0, n)
    c.call("lusolve", fl=["TRANS"] if tr else [], B=BV, A=AV, **kw)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 13)
    out = []
    n = {"quick": 60, "thorough": 1500}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            out.append(case(g, "e%d_%d" % (ci, t), env, "exact"))
            out.append(case(g, "r%d_%d" % (ci, t), env, "rand"))
            out.append(solve_exact(g, "s%d_%d" % (ci, t), env))
        for t in range(5):
            out.append(solve_exact(g, "m%d_%d" % (ci, t), env, mism=True))
            # inverse of non-square / wrong pivot count
            c = Case("i%d_%d" % (ci, t), env)
            k = g.r.randint(1, 5)
            if t % 2:
                A = g.xmatrix(c, "A", k, k + 1, fill=lambda i, j: 1)
                c.call(g.r.choice(["luinverse", "luinverse_w"]), A=A)
            else:
                A = g.xmatrix(c, "A", k, k, fill=lambda i, j: 1)
                c.ibuf("P", [1] * (k + 1))
                c.call(g.r.choice(["luinverse", "luinverse_w"]), A=A, P=Piv("P", 0, g.r.choice([k - 1, k + 1])))
            out.append(c)
    return out


if __name__ == "__main__":
    ck = Check("C13")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
