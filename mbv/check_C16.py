from run import *
import lin
from check_C14 import LBS

KINDS = ("qr", "ql", "lq", "rq")


def wkw(r):
    return dict(wx=r.choice([0, 0, 64]), wo=r.choice([0, 0, 64]))


def tall(g, n, k, style):
    """n x k integer matrix, k <= n"""
    r = g.r
    if style == "zero":
        return [[0] * k for _ in range(n)]
    if style == "tri":      # nothing to annihilate: scalar factors are zero
        return [[(r.choice([-2, -1, 1, 2, 3]) if i == j else r.randint(-2, 2)) if i <= j else 0 for j in range(k)] for i in range(n)]
    if style == "full":
        for t in range(50):
            A = [[r.randint(-3, 3) for _ in range(k)] for _ in range(n)]
            if lin.nice(lin.matmul(lin.transpose(A), A), 2.0) if k else True:
                return A
        return [[(2 if i == j else 1 if i == j + 1 else 0) for j in range(k)] for i in range(n)]
    A = [[r.randint(-3, 3) for _ in range(k)] for _ in range(n)]
    for j in range(k):
        x = r.random()
        if x < .2:
            for i in range(n):
                A[i][j] = 0
        elif x < .4:
            for i in range(j + 1, n):
                A[i][j] = 0
        elif x < .5 and j:
            for i in range(n):
                A[i][j] = A[i][j - 1]
    return A


def case(g, cid, env, kind):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13])
    k = r.choice([n, n, r.randint(1, n), r.randint(1, n)])
    solve = kind in ("qr", "lq") and r.random() < .4
    M = tall(g, n, k, "full" if solve else r.choice(["any", "any", "full", "tri", "zero"]))
    if kind in ("ql", "rq"):
        M = [x[::-1] for x in M[::-1]]
    if kind in ("lq", "rq"):
        M = lin.transpose(M) if k else []
    bycol = kind in ("qr", "ql")
    A = g.xmatrix(c, "A", n if bycol else k, k if bycol else n, fill=lambda i, j: M[i][j])
    T = g.xvector(c, "T", k, kind="c")
    if r.random() < .5:
        c.call(kind + "factor", A=A, T=T)
    else:
        c.call(kind + "factor_w", A=A, T=T, **wkw(r))
    if r.random() < .5:
        c.poison()
    if solve and k > 0:
        B = g.xmatrix(c, "B", n, r.choice([1, 1, 2, 5, 9]), fill=lambda i, j: r.randint(-3, 3))
        fl = r.choice([[], ["TRANS"]])
        if r.random() < .5:
            c.call(kind + "solve", fl=fl, B=B, A=A, T=T)
        else:
            c.call(kind + "solve_w", fl=fl, B=B, A=A, T=T, **wkw(r))
    for t in range(r.choice([0, 1, 2])):
        q = r.choice([1, 1, 2, 3, 7, 12])
        right = r.random() < .5
        C = g.xmatrix(c, "C%d" % t, q if right else n, n if right else q, fill=lambda i, j: r.randint(-3, 3))
        fl = (["RIGHT"] if right else r.choice([[], ["LEFT"]])) + r.choice([[], ["TRANS"]])
        if r.random() < .5:
            c.call(kind + "mult", fl=fl, C=C, A=A, T=T)
        else:
            c.call(kind + "mult_w", fl=fl, C=C, A=A, T=T, **wkw(r))
    if r.random() < .25 and k > 0:
        xr, xc = (k + r.choice([0, 0, 1]), k + r.choice([0, 0, 2])) if kind in ("qr", "lq") else (k, k)
        X = g.xmatrix(c, "X", xr, xc, fill=lambda i, j: g.xjunk())
        c.call(kind + "reflector", X=X, A=A, T=T)
    if r.random() < .6:
        K = r.choice([k, k, r.randint(0, k)])
        if r.random() < .5:
            c.call(kind + "build", A=A, T=T, K=K)
        else:
            c.call(kind + "build_w", A=A, T=T, K=K, **wkw(r))
    return c


def qrt(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 11])
    k = r.choice([n, r.randint(1, n), r.randint(1, n)])
    M = tall(g, n, k, r.choice(["any", "any", "full", "tri", "zero"]))
    A = g.xmatrix(c, "A", n, k, fill=lambda i, j: M[i][j])
    X = g.xmatrix(c, "X", r.randint(1, k + 1), k, fill=lambda i, j: g.xjunk())
    if r.random() < .5:
        c.call("qrtfactor", A=A, X=X)
    else:
        c.call("qrtfactor_w", A=A, X=X, **wkw(r))
    return c


def bad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    kind = r.choice(KINDS)
    n = r.randint(2, 6)
    k = r.randint(1, n)
    what = r.choice(["shape", "tau", "order", "count", "sorder"])
    if what == "shape":
        k = n + r.randint(1, 2)
    bycol = kind in ("qr", "ql")
    A = g.xmatrix(c, "A", n if bycol else k, k if bycol else n, fill=lambda i, j: r.randint(-2, 2))
    T = g.xvector(c, "T", k - 1 if what == "tau" else k + 1 if what == "count" else k, kind="c")
    if what == "sorder":
        kind = r.choice(["qr", "lq"]) if kind not in ("qr", "lq") else kind
        bycol = kind == "qr"
        A = g.xmatrix(c, "A2", n if bycol else k, k if bycol else n, fill=lambda i, j: r.randint(-2, 2))
        c.call(kind + "solve", fl=r.choice([[], ["TRANS"]]), A=A, T=T, B=g.xmatrix(c, "B", n + 1, 2, fill=lambda i, j: 1))
    elif what in ("order", "count"):
        right = r.random() < .5
        m = n + 1 if what == "order" else n
        C = g.xmatrix(c, "C", 2 if right else m, m if right else 2, fill=lambda i, j: 1)
        c.call(kind + "mult", fl=["RIGHT"] if right else [], A=A, T=T, C=C)
    else:
        c.call(kind + "factor", A=A, T=T)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 16)
    out = []
    n = {"quick": 40, "thorough": 800}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            for k in KINDS:
                out.append(case(g, "%s%d_%d" % (k, ci, t), env, k))
            if t % 3 == 0:
                out.append(qrt(g, "qrt%d_%d" % (ci, t), env))
        for t in range(10):
            out.append(bad(g, "b%d_%d" % (ci, t), env))
    return out


if __name__ == "__main__":
    ck = Check("C16")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
