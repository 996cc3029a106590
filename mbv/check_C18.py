from run import *
from check_C14 import LBS
from check_C16 import wkw
from check_C17 import maybe

ALGS = [[], [], ["BSVD_GOLUB"], ["BSVD_DEMMEL"], ["ABSTOL"], ["BSVD_GOLUB", "ABSTOL"]]


def fit(M):
    """the squared norm is inside the domain of the encoding"""
    while sum(x * x for row in M for x in row) > 440:
        M = [[int(x / 2) for x in row] for row in M]
    return M


def matrix(r, m, n):
    how = r.choice(["any", "any", "sparse", "band", "zero", "ones", "rank1", "diag", "perm", "dup"])
    if how == "rank1":
        u, v = [r.randint(-2, 2) for _ in range(m)], [r.randint(-2, 2) for _ in range(n)]
        return fit([[u[i] * v[j] for j in range(n)] for i in range(m)])
    if how == "perm":
        p = r.sample(range(max(m, n)), max(m, n))
        return fit([[r.choice([1, -1]) if p[i] == j else 0 for j in range(n)] for i in range(m)])
    M = [[r.randint(-3, 3) if how == "any" else r.choice([0, 0, 0, 1, -2]) if how == "sparse" else
          (r.randint(-3, 3) if abs(i - j) < 2 else 0) if how == "band" else 1 if how == "ones" else
          (r.choice([0, 1, 1, -1, 2, -3]) if i == j else 0) if how == "diag" else
          r.randint(-2, 2) if how == "dup" else 0 for j in range(n)] for i in range(m)]
    if how == "dup":
        for row in M:
            row[-1] = row[0]
    return fit(M)


def copy_of(g, c, name, M, m, n):
    return g.xmatrix(c, name, m, n, fill=lambda i, j: M[i][j])


def svd(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 10])
    m = r.choice([n, r.randint(1, 12), n + 1, 2 * n, r.randint(1, 14)])
    m = min(m, 14)
    if r.random() < .4:
        m, n = n, m
    k = min(m, n)
    M = matrix(r, m, n)
    of = r.choice(ALGS)
    S = [None]
    # all vectors or economical
    full = r.random() < .5
    fl = r.choice([["WANTU", "WANTV"], ["WANTU", "WANTV"], ["WANTU"], ["WANTV"]])
    U = g.xmatrix(c, "U", m, m if full or m < n else n) if "WANTU" in fl or r.random() < .3 else None
    V = g.xmatrix(c, "V", n if full or m >= n else m, n) if "WANTV" in fl or r.random() < .3 else None
    S = g.xvector(c, "S", k)
    maybe(g, c, "svd", fl=fl, of=of, S=S, U=U, V=V, A=copy_of(g, c, "A", M, m, n))
    if "WANTU" in fl:
        if r.random() < .5:
            c.poison()
        S1 = g.xvector(c, "S1", k)
        maybe(g, c, "svd", of=r.choice(ALGS), S=S1, U=None, V=None, A=copy_of(g, c, "A1", M, m, n), WU=U, WS=S)
    return c


def bad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    m, n = r.randint(1, 6), r.randint(1, 6)
    k = min(m, n)
    what = r.choice(["S", "U", "V", "U0", "V0"])
    S = g.xvector(c, "S", k - (1 if what == "S" and k > 1 else 0))
    mu, nv = (m if what != "U" else m + r.choice([1, -1])), (n if what != "V" else n + r.choice([1, -1]))
    U = g.xmatrix(c, "U", mu, mu) if what != "U0" and mu else None
    V = g.xmatrix(c, "V", nv, nv) if what != "V0" and nv else None
    if what == "S" and k == 1:
        U = None
    c.call("svd", fl=["WANTU", "WANTV"], S=S, U=U, V=V, A=g.xmatrix(c, "A", m, n, fill=lambda i, j: 1))
    return c


def orth(r, m, n):
    """m x n with orthonormal columns (m >= n) or rows, entries 0, +-1 (in units of 1), or +-1/2 blocks"""
    p = r.sample(range(max(m, n)), max(m, n))
    if r.random() < .5:
        p = list(range(max(m, n)))
    return [[0 if p[max(i, j) if False else (i if m >= n else j)] != (j if m >= n else i) else
             (1 if r.random() < .7 else -1) for j in range(n)] for i in range(m)]


def bidiag(r, n):
    how = r.choice(["any", "any", "split", "zerod", "zero", "same", "diag", "one", "graded"])
    d = [r.randint(-4, 4) if how == "any" else r.choice([1, 2, 3, -1, -3]) for _ in range(n)]
    e = [r.randint(-3, 3) if how == "any" else r.choice([1, -1, 2]) for _ in range(n - 1)]
    if how == "split":
        e = [x if r.random() < .6 else 0 for x in e]
    elif how == "zerod":
        for _ in range(r.randint(1, 2)):
            d[r.choice([0, n - 1, r.randrange(n)])] = 0
    elif how == "zero":
        d, e = [0] * n, ([0] * (n - 1) if r.random() < .5 else e)
    elif how == "same":
        d, e = [2] * n, [1] * (n - 1)
    elif how == "diag":
        e = [0] * (n - 1)
    elif how == "one":
        e = [0] * (n - 1)
        if n > 1:
            e[r.choice([0, n - 2, r.randrange(n - 1)])] = r.choice([1, -2])
    elif how == "graded":
        d = [r.choice([-1, 1]) * max(1, 8 >> i) for i in range(n)]
        if r.random() < .5:
            d = d[::-1]
    return d, e


def vec(g, c, name, v):
    return g.xvector(c, name, len(v), fill=lambda i: v[i])


def bdsvd(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 11])
    d, e = bidiag(r, n)
    low = r.random() < .4
    fl = (["LOWER"] if low else r.choice([[], ["UPPER"]])) + r.choice([["WANTU", "WANTV"], ["WANTU", "WANTV"], ["WANTU"], ["WANTV"]]) \
        + r.choice([[], [], ["FORWARD"]])
    ident = r.random() < .6
    m, p = n + r.choice([0, 0, 2]), n + r.choice([0, 0, 3])
    if ident:
        m, p = n, n
    U0 = [[int(i == j) for j in range(n)] for i in range(n)] if ident else orth(r, m, n)
    V0 = [[int(i == j) for j in range(n)] for i in range(n)] if ident else orth(r, n, p)
    # more columns, more rows than values
    xu, xv = (0, 0) if ident else (r.choice([0, 1]), r.choice([0, 2]))
    U = g.xmatrix(c, "U", m, n + xu, fill=lambda i, j: U0[i][j] if j < n else 3) if "WANTU" in fl else None
    V = g.xmatrix(c, "V", n + xv, p, fill=lambda i, j: V0[i][j] if i < n else 3) if "WANTV" in fl else None
    D = vec(g, c, "D", d)
    maybe(g, c, "bdsvd", fl=fl, of=r.choice(ALGS), D=D, E=vec(g, c, "E", e), U=U, V=V)
    if ident and "WANTU" in fl:
        if r.random() < .5:
            c.poison()
        if not low and r.random() < .5:
            maybe(g, c, "dqds", D=vec(g, c, "D1", d), E=vec(g, c, "E1", e), WU=U, WS=D)
        else:
            maybe(g, c, "bdsvd", fl=(["LOWER"] if low else []) + r.choice([[], ["FORWARD"]]), of=r.choice(ALGS), D=vec(g, c, "D1", d),
                  E=vec(g, c, "E1", e), U=None, V=None, WU=U, WS=D)
    return c


def bdbad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.randint(2, 6)
    what = r.choice(["E", "U", "V", "U0", "V0", "q"])
    D, E = vec(g, c, "D", [1] * n), vec(g, c, "E", [1] * (n - 1 + (r.choice([1, -1]) if what in "Eq" else 0)))
    if what == "q":
        c.call("dqds", D=D, E=E)
        return c
    U = g.xmatrix(c, "U", n, n - (what == "U"), fill=lambda i, j: int(i == j)) if what != "U0" else None
    V = g.xmatrix(c, "V", n - (what == "V"), n, fill=lambda i, j: int(i == j)) if what != "V0" else None
    c.call("bdsvd", fl=["WANTU", "WANTV"], D=D, E=E, U=U, V=V)
    return c


def two(g, cid, env):
    r = g.r
    c = Case(cid, env)
    f, h, k = r.randint(-5, 5), r.randint(-5, 5), r.choice([0, 1, -1, 2, -4, 5, -5])
    Y = g.xvector(c, "Y", 6)
    if r.random() < .3:
        c.call("bdsvd2x2", Y=Y, f=f, g=k, h=h)
    else:
        c.call("bdsvd2x2_vec", Y=Y, f=f, g=k, h=h)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 18)
    out = []
    n = {"quick": 30, "thorough": 700}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            out.append(svd(g, "s%d_%d" % (ci, t), env))
            out.append(svd(g, "t%d_%d" % (ci, t), env))
            out.append(bdsvd(g, "b%d_%d" % (ci, t), env))
        for t in range(8):
            out.append(bad(g, "x%d_%d" % (ci, t), env))
            out.append(bdbad(g, "y%d_%d" % (ci, t), env))
    for t in range(4 * n):
        out.append(two(g, "w_%d" % t, {}))
    return out


if __name__ == "__main__":
    ck = Check("C18")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
