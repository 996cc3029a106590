from run import *
from check_C14 import LBS
from check_C17 import maybe
from check_C18 import fit, vec, bidiag, orth, copy_of

LBU = [[], ["LOWER"], ["UPPER"]]


def symm(r, n):
    how = r.choice(["any", "any", "sparse", "band", "zero", "ones", "rank1", "diag", "perm", "block", "scaledI", "near"])
    M = [[0] * n for _ in range(n)]
    u = [r.choice([1, -1, 2, 0]) for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            M[i][j] = {"any": lambda: r.randint(-3, 3), "sparse": lambda: r.choice([0, 0, 0, 1, -2]),
                       "band": lambda: r.randint(-3, 3) if i - j < 2 else 0, "zero": lambda: 0, "ones": lambda: 1,
                       "rank1": lambda: u[i] * u[j], "diag": lambda: r.choice([0, 1, 1, -1, 2, -3]) if i == j else 0,
                       "perm": lambda: int(i + j == n - 1) or int(0), "block": lambda: r.randint(-2, 2) if i // 2 == j // 2 else 0,
                       "scaledI": lambda: 2 * (i == j), "near": lambda: (3 if i == j else 0) + r.choice([0, 0, 0, 1])}[how]()
            M[j][i] = M[i][j]
    while sum(x * x for row in M for x in row) > 440:
        M = [[int(x / 2) for x in row] for row in M]
    return M


def stored(r, M, fl):
    """the other triangle holds something else"""
    n = len(M)
    up = "UPPER" in fl
    return [[M[i][j] if i == j or (i < j) == up else r.choice([7, -5]) for j in range(n)] for i in range(n)]


def sel(r, n):
    s = r.choice(["all", "int", "int", "int", "val", "val"])
    if s == "all":
        return s, 0, n, n
    if s == "int":
        a = r.randint(0, n)
        b = r.randint(a, n) if r.random() < .9 else r.randint(0, n + 2)
        return s, a, b, max(0, min(b, n) - a)
    a = r.randint(-12, 12)
    b = a + r.choice([1, 2, 5, 9, 30, 0])
    return s, a, b, n


def tosel(r, n, room=None):
    s, a, b, k = sel(r, n)
    ln = k if room is None else room
    # exactly the selected ones, more, or not enough room
    ln = max(1, r.choice([k, k, n, k + 2] + ([k - 1] if s != "val" else [])))
    return dict(sel=s, lo=a, hi=b, np=r.choice([0, 1])), ln


def eig(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12])
    M = symm(r, n)
    tri = r.choice(LBU)
    D = g.xvector(c, "D", n)
    A = copy_of(g, c, "A", stored(r, M, tri), n, n)
    maybe(g, c, "eigen_sym", fl=tri + ["WANTV"], D=D, A=A)
    if r.random() < .5:
        c.poison()
    for k in range(r.choice([1, 1, 2])):
        t2 = r.choice(LBU)
        B = copy_of(g, c, "B%d" % k, stored(r, M, t2), n, n)
        if r.random() < .4:
            maybe(g, c, "eigen_sym", fl=t2, D=g.xvector(c, "D%d" % k, n), A=B, WV=A, WD=D)
        else:
            kw, ln = tosel(r, n)
            maybe(g, c, "eigen_sym_selected", fl=t2, D=g.xvector(c, "D%d" % k, ln), A=B, WV=A, WD=D, **kw)
    return c


def trd(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 11])
    d, e = bidiag(r, n)
    ident = r.random() < .7
    V0 = [[int(i == j) for j in range(n)] for i in range(n)] if ident else orth(r, n, n)
    V = g.xmatrix(c, "V", n, n, fill=lambda i, j: V0[i][j])
    D = vec(g, c, "D", d)
    maybe(g, c, "trdeigen", fl=["WANTV"] + r.choice([[], [], ["FORWARD"]]), D=D, E=vec(g, c, "E", e), V=V)
    if not ident:
        return c
    if r.random() < .5:
        c.poison()
    for k in range(r.choice([1, 2])):
        D1, E1 = vec(g, c, "D1%d" % k, d), vec(g, c, "E1%d" % k, e)
        if r.random() < .35:
            maybe(g, c, "trdeigen", fl=r.choice([[], [], ["FORWARD"]]), D=D1, E=E1, V=None, WV=V, WD=D)
        else:
            kw, ln = tosel(r, n)
            c.call("trdbisect", Y=g.xvector(c, "Y%d" % k, ln), D=D1, E=E1, WV=V, WD=D, **kw)
    return c


def unit(r, n):
    """unit vector of rational numbers with no (or few) small elements"""
    while 1:
        z = [r.choice([1, -1, 2, -2, 3]) for _ in range(n)]
        s = sum(x * x for x in z) ** .5
        return [x / s for x in z]


def secular(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 2, 3, 4, 5, 7, 10])
    d = sorted(r.sample(range(-6, 7), n)) if n <= 13 else None
    z = unit(r, n)
    rho = r.choice([1, 1, 2, 3, 5])
    D, Z = vec(g, c, "D", d), g.xvector(c, "Z", n, fill=lambda i: round(z[i] * (1 << 26)), insc=26)
    Y, W, Q = g.xvector(c, "Y", n), g.xvector(c, "V", n), g.xmatrix(c, "Q", n, n)
    c.call("trdsec_solve_vec", Y=Y, V=W, Q=Q, D=D, Z=Z, rho=rho)
    how = r.choice(["same", "null", "other"])
    if how == "other":
        T = g.xmatrix(c, "T", n, n)
        c.call("trdsec_eigen", Q=T, V=W, P=Q, np=0, X=D, Y=Y, Z=Z, rho=rho)
    else:
        T = Q
        c.call("trdsec_eigen", Q=Q, V=W, np=int(how == "null"), X=D, Y=Y, Z=Z, rho=rho)
    if r.random() < .5:
        c.poison()
    c.call("trdsec_solve", Y=g.xvector(c, "Y1", n), D=D, Z=Z, W=g.xvector(c, "W", n), rho=rho, WV=T, WD=Y)
    return c


def two(g, cid, env):
    r = g.r
    c = Case(cid, env)
    f, h, k = r.randint(-5, 5), r.randint(-5, 5), r.choice([0, 0, 1, -1, 2, -4, 5, -5])
    c.call(r.choice(["sym_eigen2x2", "sym_eigen2x2vec", "sym_eigen2x2vec"]), Y=g.xvector(c, "Y", 4), f=f, g=k, h=h)
    return c


def bad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.randint(2, 6)
    what = r.choice(["D", "A", "E", "V", "V0", "sA", "bE", "z", "w", "y", "v", "q", "p"])
    one = lambda i, j=0: 1
    if what in ("D", "A"):
        A = g.xmatrix(c, "A", n, n + (what == "A"), fill=one)
        c.call("eigen_sym", fl=["LOWER"], D=g.xvector(c, "D", n - (what == "D")), A=A)
    elif what in ("E", "V", "V0"):
        V = None if what == "V0" else g.xmatrix(c, "V", n, n - (what == "V"), fill=one)
        c.call("trdeigen", fl=["WANTV"], D=vec(g, c, "D", [1] * n), E=vec(g, c, "E", [1] * (n - 1 + (what == "E"))), V=V)
    elif what == "sA":
        c.call("eigen_sym_selected", fl=["LOWER"], D=g.xvector(c, "D", n), A=g.xmatrix(c, "A", n, n + r.choice([1, -1]), fill=one),
               sel="all", lo=0, hi=0, np=0)
    elif what == "bE":
        c.call("trdbisect", Y=g.xvector(c, "Y", n), D=vec(g, c, "D", [1] * n), E=vec(g, c, "E", [1] * (n if r.random() < .5 or n < 3 else n - 2)),
               sel="all", lo=0, hi=0, np=0)
    elif what in "zwy":
        c.call("trdsec_solve", Y=g.xvector(c, "Y", n - (what == "y")), D=vec(g, c, "D", list(range(n))), Z=vec(g, c, "Z", [1] * (n - (what == "z"))),
               W=g.xvector(c, "W", n - (what == "w")), rho=1)
    elif what == "v":
        c.call("trdsec_solve_vec", Y=g.xvector(c, "Y", n), V=g.xvector(c, "V", n - 1), Q=g.xmatrix(c, "Q", n, n), D=vec(g, c, "D", list(range(n))),
               Z=vec(g, c, "Z", [1] * n), rho=1)
    else:
        Q = g.xmatrix(c, "Q", n, n - (what == "q"), fill=one)
        kw = dict(P=g.xmatrix(c, "P", n, n - 1, fill=one)) if what == "p" else {}
        c.call("trdsec_eigen", Q=Q, V=vec(g, c, "V", [1] * n), np=0, X=vec(g, c, "X", [1] * n), Y=vec(g, c, "Y", [1] * n),
               Z=vec(g, c, "Z", [1] * n), rho=1, **kw)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 19)
    out = []
    n = {"quick": 40, "thorough": 900}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            out.append(eig(g, "e%d_%d" % (ci, t), env))
            out.append(trd(g, "t%d_%d" % (ci, t), env))
        for t in range(10):
            out.append(bad(g, "x%d_%d" % (ci, t), env))
    for t in range(4 * n):
        out.append(secular(g, "s_%d" % t, {}))
        out.append(two(g, "w_%d" % t, {}))
    return out


if __name__ == "__main__":
    ck = Check("C19")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
