from run import *
import lin

LBS = [dict(), dict(ARMAS_CONFIG="16,16,16,2"), dict(ARMAS_CONFIG="16,16,16,3"), dict(ARMAS_CONFIG="16,16,16,4"),
       dict(ARMAS_CONFIG="8,8,8,5"), dict(ARMAS_CONFIG="16,16,16,1"), dict(ARMAS_CONFIG="16,16,16,0")]


def tri(A, up):
    return lambda i, j: A[i][j] if (i <= j if up else i >= j) else None


def spd(g, n):
    """integer SPD matrix G*G' + D with moderate inverse, entries < 64"""
    r = g.r
    for t in range(60):
        k = r.randint(1, n)
        G = [[r.choice([-1, 0, 0, 1]) for _ in range(k)] for _ in range(n)]
        A = lin.matmul(G, lin.transpose(G))
        for i in range(n):
            A[i][i] += r.choice([1, 1, 2, 3])
        if lin.nice(A, 3.0):
            return A
    return [[2 if i == j else 0 for j in range(n)] for i in range(n)]


def notpd(g, n):
    """L*D*L' with an exactly non-positive pivot; certificate z = inv(L') e_k"""
    r = g.r
    k = r.randrange(n)
    while True:
        L = [[1 if i == j else (r.choice([-1, 0, 0, 1]) if i > j else 0) for j in range(n)] for i in range(n)]
        z = [0] * n
        z[k] = 1
        for i in range(k - 1, -1, -1):
            z[i] = -sum(L[j][i] * z[j] for j in range(i + 1, k + 1))
        if max(abs(x) for x in z) <= 6:
            break
    D = [r.choice([1, 1, 4]) for _ in range(n)]
    D[k] = r.choice([0, 0, -1, -2])
    A = [[sum(L[i][t] * D[t] * L[j][t] for t in range(n)) for j in range(n)] for i in range(n)]
    return A, z


def psd(g, n, rk):
    """rank-rk PSD integer matrix"""
    r = g.r
    while True:
        G = [[r.choice([-2, -1, 0, 1, 2]) for _ in range(rk)] for _ in range(n)]
        H = lin.matmul(lin.transpose(G), G)
        if rk == 0 or lin.nice(H, 1.5):
            return lin.matmul(G, lin.transpose(G))


def case(g, cid, env, kind):
    r = g.r
    c = Case(cid, env)
    up = r.random() < 0.5
    fl = ["UPPER" if up else "LOWER"]
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13])
    wkw = lambda: dict(wx=r.choice([0, 0, 64]), wo=r.choice([0, 0, 64]))
    if kind == "plain":
        A = spd(g, n)
        V = g.xmatrix(c, "A", n, n, fill=tri(A, up))
        c.call(r.choice(["cholfactor", "cholesky"]), fl=fl, A=V)
    elif kind == "notpd":
        A, z = notpd(g, n)
        V = g.xmatrix(c, "A", n, n, fill=tri(A, up))
        c.call(r.choice(["cholfactor", "cholesky"]), fl=fl, A=V, ev=dict(cert=z))
        return c
    elif kind == "pv" or kind == "rank":
        if kind == "pv":
            A, rk = spd(g, n), n
        else:
            rk = r.randint(1, max(1, n - 1))
            A = psd(g, n, rk)
        V = g.xmatrix(c, "A", n, n, fill=tri(A, up))
        off = r.randint(0, 2)
        c.ibuf("P", [r.randint(1, n) if r.random() < .7 else 0 for _ in range(off + n + 1)])
        kw = dict(P=Piv("P", off, n))
        st = r.choice(["", "stop", "smult"]) if kind == "pv" else r.choice(["stop", "smult"])
        fk = {}
        if st:
            # thresholds well above rounding and well below (or, stop, among) the pivots
            fk[st] = r.choice([12, 14, 1, 0, -1]) if st == "stop" else r.choice([20, 24])
            if st == "stop" and kind == "rank":
                fk[st] = r.choice([12, 14])
        c.call("cholfactor" if r.random() < .6 else "cholfactor_w", fl=fl, A=V, **kw, **fk,
               **(dict() if c.cmds is None else {}))
        if c.cmds[-1][1]["op"] == "cholfactor_w":
            l, e = c.cmds.pop()
            c.call("cholfactor_w", fl=fl, A=V, **kw, **fk, **wkw())
        if kind == "rank" or st == "stop" and fk[st] < 10:
            return c
    elif kind == "update":
        A = spd(g, n)
        V = g.xmatrix(c, "A", n, n, fill=tri(A, up))
        c.call("cholfactor", fl=fl, A=V)
        for t in range(r.choice([1, 2, 3])):
            X = g.xvector(c, "X%d" % t, n, fill=lambda i: r.randint(-2, 2))
            c.call("cholupdate", fl=fl, A=V, X=X)
        return c
    kw = kw if kind == "pv" else {}
    if r.random() < 0.6:
        q = r.choice([1, 1, 2, 5])
        B = g.xmatrix(c, "B", n, q, fill=lambda i, j: r.randint(-3, 3))
        c.call("cholsolve_f", fl=fl, B=B, A=V, **kw)
    if kind == "plain" and r.random() < 0.6:
        if r.random() < 0.5:
            c.call("cholinverse", fl=fl, A=V)
        else:
            c.call("cholinverse_w", fl=fl, A=V, **wkw())
    return c


def solve_exact(g, cid, env, mism=False):
    r = g.r
    c = Case(cid, env)
    up = r.random() < 0.5
    fl = ["UPPER" if up else "LOWER"]
    n = r.randint(1, r.choice([4, 9, 13]))
    q = r.choice([0, 1, 1, 2, 3, 6])
    piv = r.random() < 0.6
    rk = n
    if piv and r.random() < 0.4:
        rk = r.randint(1, n)
    w = 1 if n > 8 else 2
    L = [[r.choice([-2, -1, 1, 2]) if i == j else (r.randint(-w, w) if i > j and r.random() < .5 else 0) for j in range(n)]
         for i in range(n)]
    M = lin.matmul(L, lin.transpose(L))
    p = [r.randint(i + 1, n) for i in range(rk)]
    src = list(range(n))
    if piv:
        for i in range(rk):
            src[i], src[p[i] - 1] = src[p[i] - 1], src[i]
    X = [[r.randint(-3, 3) for _ in range(q)] for _ in range(n)]       # in pivoted order
    B = [[0] * q for _ in range(n)]
    for i in range(n):
        B[src[i]] = [sum(M[i][k] * X[k][cc] for k in range(rk)) if i < rk else r.randint(-9, 9) for cc in range(q)]
    if mism:
        AV = g.matrix(c, "A", n, n + r.choice([0, 1]), fill=lambda i, j: 1)
        BV = g.matrix(c, "B", n + (1 if AV.c == n else r.choice([0, 1])), q or 1)
    else:
        AV = g.matrix(c, "A", n, n, fill=lambda i, j: (L[j][i] if i <= j else None) if up else (L[i][j] if i >= j else None))
        BV = g.matrix(c, "B", n, q, fill=lambda i, j: B[i][j])
    kw = {}
    if piv:
        c.ibuf("P", p)
        kw["P"] = Piv("P", 0, rk)
    c.call("cholsolve", fl=fl, B=BV, A=AV, **kw)
    return c


def bad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.randint(1, 5)
    fl = [r.choice(["UPPER", "LOWER"])]
    op = r.choice(["cholfactor", "cholesky", "cholinverse", "cholinverse_w", "pv", "pvn"])
    if op == "pvn":
        A = g.xmatrix(c, "A", n, n, fill=lambda i, j: 1)
        c.ibuf("P", [1] * (n + 1))
        c.call("cholfactor", fl=fl, A=A, P=Piv("P", 0, r.choice([n - 1, n + 1])))
    else:
        A = g.xmatrix(c, "A", n, n + 1, fill=lambda i, j: 1) if r.random() < .5 else g.xmatrix(c, "A", n + 1, n, fill=lambda i, j: 1)
        if op == "pv":
            c.ibuf("P", [1] * (n + 1))
            c.call("cholfactor", fl=fl, A=A, P=Piv("P", 0, A.r))
        else:
            c.call(op, fl=fl, A=A)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 14)
    out = []
    n = {"quick": 40, "thorough": 1000}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            for k in ("plain", "pv", "rank", "notpd", "update"):
                out.append(case(g, "%s%d_%d" % (k, ci, t), env, k))
            out.append(solve_exact(g, "s%d_%d" % (ci, t), env))
        for t in range(6):
            out.append(solve_exact(g, "m%d_%d" % (ci, t), env, mism=True))
            out.append(bad(g, "b%d_%d" % (ci, t), env))
    return out


if __name__ == "__main__":
    ck = Check("C14")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
