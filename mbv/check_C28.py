from run import *
import lin
from check_C14 import LBS
from check_C16 import wkw

ALPHAS = [([2048, 0], "1"), ([-2048, 0], "-1"), ([4096, 0], "2"), ([1024, 0], "0.5"), ([0, 0], "0")]
SCALES = [0, 0, 0, -960, -500, 200, 990]


def vals(r, n, how):
    if how == "zero":
        return [0] * n
    if how == "sparse":
        return [r.choice([0, 0, 0, 1, -1, 2]) for _ in range(n)]
    return [r.randint(-4, 4) for _ in range(n)]


def xv(g, c, name, v, kind=None, insc=0):
    return g.xvector(c, name, len(v), kind=kind, fill=lambda i: v[i], insc=insc)


def nonneg(r, a, x, sign=1):
    """a reflector to non-negative beta is long when beta is close to a: outside the domain of the encoding"""
    s = sum(t * t for t in x)
    b = max(0, a * a + sign * s) ** .5
    return r.choice([[], ["NONNEG"]]) if s == 0 or s < 40 * (a - b) ** 2 else []


def house(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 1, 2, 3, 4, 5, 8, 12])
    x = vals(r, n, r.choice(["zero", "sparse", "any", "any"]))
    X = xv(g, c, "X", x)
    a = r.randint(-4, 4)
    H = xv(g, c, "H", [a])
    T = xv(g, c, "T", [5])
    c.call("house", fl=r.choice([[], ["UNIT"]]) + nonneg(r, a, x), H=H, X=X, T=T, sc=r.choice(SCALES))
    return c


def hhouse(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4])
    while True:
        x = vals(r, n, r.choice(["zero", "sparse", "any"]))
        a = r.randint(-7, 7)
        s = sum(t * t for t in x)
        # not on the verge: |a|^2 - |x|^2 = 0 exactly only where it is computed exactly
        if a * a != s or s == 0 or sum(1 for t in x if t) == 1:
            break
    X = xv(g, c, "X", x)
    H = xv(g, c, "H", [a])
    T = xv(g, c, "T", [5])
    c.call("hhouse", fl=nonneg(r, a, x, -1) + r.choice([[], ["HHNEGATIVE"]]), H=H, X=X, T=T,
           sc=r.choice([0, 0, -300, 300]))
    return c


def refl(r, n):
    """(v, t, scale bits): v[0]=1, t*v'v = 2 exactly"""
    v = [0] * n
    v[0] = 1
    k = r.choice([0, 1, 3])
    if k <= n - 1:
        for i in r.sample(range(1, n), k):
            v[i] = r.choice([-1, 1])
    return v, {1: 4, 2: 2, 4: 1}[sum(x * x for x in v)]         # t in halves


def unscaled(r, n):
    """v'v = 1, in halves"""
    v = [0] * n
    if n >= 4 and r.random() < .7:
        for i in r.sample(range(n), 4):
            v[i] = r.choice([-1, 1])
    else:
        v[r.randrange(n)] = r.choice([-2, 2])
    return v


def apply(g, cid, env):
    r = g.r
    c = Case(cid, env)
    op = r.choice(["houseapply2x1", "houseapply", "houseapply", "hhouse_apply"])
    m, n = r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2, 3, 4, 5, 7])
    right = r.random() < .5
    fl = ["RIGHT"] if right else ["LEFT"]
    bad = r.random() < .12
    if op != "houseapply":
        # H has order 1 + (rows or columns of A2)
        k = n if right else m
        v, t = refl(r, k + 1)
        if r.random() < .1:
            t = 0
        A = g.xmatrix(c, "A", m, n, fill=lambda i, j: r.randint(-4, 4))
        ln = m if right else n
        X = g.xvector(c, "X", ln, kind="c" if right else "r", fill=lambda i: r.randint(-4, 4))
        H = xv(g, c, "H", v[1:])
        T = xv(g, c, "T", [t], insc=1)
        W = xv(g, c, "W", [9] * (ln - 1 if bad and ln > 1 else ln + r.choice([0, 0, 2])), kind="c")
        c.call(op, fl=fl, X=X, A=A, H=H, T=T, W=W)
        return c
    if r.random() < .3:
        m, n = r.choice([(1, n + 1), (m + 1, 1)])
        right = m == 1
        fl = ["RIGHT"] if right else ["LEFT"]
    k = n if right else m
    scaled = r.random() < .5
    A = g.xmatrix(c, "A", m, n, fill=lambda i, j: r.randint(-4, 4))
    kw = {}
    if scaled:
        v, t = refl(r, k + (1 if bad else 0))
        H = xv(g, c, "H", v[1:])
        kw["T"] = xv(g, c, "T", [t], insc=1)
        fl = fl + r.choice([[], ["UNIT"]])
    else:
        H = xv(g, c, "H", unscaled(r, k + (1 if bad else 0)), insc=1)
        kw["T"] = None
    ln = m if right else n
    if (m == 1 or n == 1) and r.random() < .6:
        kw["W"] = None
    else:
        less = r.random() < .1 and ln > 1
        kw["W"] = xv(g, c, "W", [9] * (ln - 1 if less else ln + r.choice([0, 0, 2])), kind="c")
    c.call(op, fl=fl, A=A, H=H, **kw)
    return c


def mult(g, cid, env):
    """reflectors built in the columns of Q, then their product applied"""
    r = g.r
    c = Case(cid, env)
    n = r.choice([2, 3, 4, 5, 6, 8])
    k = r.choice([1, n, n - 1, r.randint(1, n)])
    unit = r.random() < .5
    how = r.choice(["any", "any", "sparse", "zero"])
    q0 = [[vals(r, 1, how)[0] for j in range(k)] for i in range(n)]
    Q = g.xmatrix(c, "Q", n, k, fill=lambda i, j: (q0[i][j] if i >= j else None))
    bad = r.random() < .1
    T = g.xvector(c, "T", k + (1 if bad and unit else 0), kind="c")
    fl = ["UNIT"] if unit else []
    for j in range(k):
        c.call("house", fl=fl + nonneg(r, q0[j][j], [q0[i][j] for i in range(j + 1, n)]), H=Q.sub(j, j, 1, 1), X=Q.sub(j + 1, j, n - j - 1, 1),
               T=T.sub(j, 0, 1, 1), sc=0)
    for t in range(2):
        right = r.random() < .5
        q = r.choice([1, 1, 2, 3, 5, 9])
        m = n + (1 if bad and not unit else 0)
        X = g.xmatrix(c, "X%d" % t, q if right else m, m if right else q, fill=lambda i, j: r.randint(-3, 3))
        kw = dict(fl=fl + (["RIGHT"] if right else r.choice([[], ["LEFT"]])) + r.choice([[], ["TRANS"]]), X=X, Q=Q,
                  T=T if unit else None)
        if q > 1 and r.random() < .5 and not bad:
            c.call("housemult_w", **kw, **wkw(r))
        else:
            c.call("housemult", **kw)
    return c


ROT = [(2, 0), (0, 2), (0, -2), (-2, 0), (1, 1), (1, -1), (2, 1), (-1, 2), (0, 0)]


def givens(g, cid, env):
    r = g.r
    c = Case(cid, env)
    op = r.choice(["gvcompute", "gvrot_vec", "gvleft", "gvright", "gvupdate", "gvupdate", "gvupdate"])
    if op == "gvcompute":
        s = r.choice([(r.randint(-9, 9), r.randint(-9, 9)), (0, r.randint(-3, 3)), (r.randint(-3, 3), 0), (3, -3), (-4, 4)])
        X = xv(g, c, "X", list(s))
        Y = xv(g, c, "Y", [5, 5, 5])
        c.call(op, X=X, Y=Y, sc=r.choice(SCALES))
        return c
    if op == "gvrot_vec":
        n = r.choice([1, 2, 3, 7])
        c.call(op, X=xv(g, c, "X", vals(r, n, "any")), Y=xv(g, c, "Y", vals(r, n, "any")),
               C=xv(g, c, "C", list(r.choice(ROT)), insc=1))
        return c
    m, n = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 5, 8])
    A = g.xmatrix(c, "A", m, n, fill=lambda i, j: r.randint(-4, 4))
    if op == "gvupdate":
        left = r.random() < .5
        ln = m if left else n
        start = r.randint(0, ln - 1)
        nrot = r.choice([ln - 1 - start, ln - 1 - start, r.randint(0, ln - 1 - start), ln - start, ln + 1])
        cs = [r.choice(ROT[:4] * 2 + ROT[4:] + [(2, 0)] * 3) for _ in range(max(nrot, 1))]
        c.call(op, fl=["LEFT" if left else "RIGHT"] + r.choice([[], ["FORWARD"], ["BACKWARD"], ["BACKWARD"]]), A=A, lo=start,
               C=xv(g, c, "C", [x[0] for x in cs], insc=1), S=xv(g, c, "S", [x[1] for x in cs], insc=1), n=nrot)
        return c
    ln, wd = (m, n) if op == "gvleft" else (n, m)
    lo = r.randint(0, wd - 1) if r.random() < .9 else wd
    c.call(op, A=A, C=xv(g, c, "C", list(r.choice(ROT)), insc=1), k1=r.randrange(ln), k2=r.randrange(ln), lo=lo,
           n=r.choice([wd - lo, wd - lo, r.randint(0, wd - lo), wd + 1]))
    return c


def diag(g, cid, env):
    r = g.r
    c = Case(cid, env)
    m, n = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 5, 8])
    right = r.random() < .5
    solve = r.random() < .5
    k = (n if right else m) + (r.choice([0] * 8 + [1, -1]))
    k = max(k, 1)
    d = [r.choice([1, 2, -2, 4, -1, 3]) for _ in range(k)]
    if not solve:
        d = [x if r.random() < .8 else 0 for x in d]
    A = g.xmatrix(c, "A", m, n, fill=lambda i, j: r.randint(-4, 4))
    if r.random() < .7 or k == 1:
        Dg = xv(g, c, "D", d)
    else:
        Dg = g.xmatrix(c, "D", k, k, fill=lambda i, j: d[i] if i == j else None)
    c.call("solve_diag" if solve else "mult_diag", fl=["RIGHT"] if right else r.choice([["LEFT"], []]), A=A, D=Dg,
           al=r.choice(ALPHAS))
    return c


def rbt(g, cid, env):
    r = g.r
    c = Case(cid, env)
    d = r.choice([1, 2, 2, 3])
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13])
    fill = lambda i, j: r.choice([2, -2, 1, 3])
    w = r.random()
    if w < .08:
        c.call("size_rbt", n=r.randint(1, 99), d=r.randint(1, 5), wf=r.choice([0, 1]))
    elif w < .5:
        rows = n + (r.choice([0] * 6 + [1, 3]))
        A = g.xmatrix(c, "A", n, n + (1 if r.random() < .05 else 0), fill=lambda i, j: r.randint(-3, 3))
        U = g.xmatrix(c, "U", rows, d, fill=fill, insc=1)
        V = g.xmatrix(c, "V", rows + (1 if r.random() < .05 else 0), d, fill=fill, insc=1)
        c.call("update2_rbt", A=A, U=U, V=V)
    else:
        right = r.random() < .5
        q = r.choice([1, 2, 3, 5])
        A = g.xmatrix(c, "A", q if right else n, n if right else q, fill=lambda i, j: r.randint(-3, 3))
        U = g.xmatrix(c, "R", n + (r.choice([0] * 12 + [1])), d, fill=fill, insc=1)
        c.call("mult_rbt", fl=["RIGHT"] if right else r.choice([["LEFT"], []]), A=A, R=U) if r.random() < .5 else \
            c.call("mult_rbt", fl=(["RIGHT"] if right else ["LEFT"]) + ["TRANS"], A=A, R=U)
    return c


def keys(r, n):
    k = r.choice(["any", "few", "same", "asc", "desc", "two"])
    v = [r.randint(-50, 50) for _ in range(n)]
    if k == "few":
        v = [r.choice([-2, -1, 0, 1, 2]) for _ in range(n)]
    elif k == "same":
        v = [3] * n
    elif k == "two":
        v = [r.choice([0, 1]) for _ in range(n)]
    elif k in ("asc", "desc"):
        v.sort(reverse=k == "desc")
    return v


def sort(g, cid, env):
    r = g.r
    c = Case(cid, env)
    op = r.choice(["sort_vec", "abs_sort_vec", "qsort_vec", "qsort_vec", "qsort_vec", "sort_eigenvec", "sort_eigenvec"])
    n = r.choice([1, 2, 3, 5, 7, 8, 9, 13, 20, 31] + ([40, 64] if op != "sort_eigenvec" else []))
    v = keys(r, n)
    Dv = g.vector(c, "D", n, fill=lambda i: v[i])
    dirn = r.choice([1, -1])
    if op != "sort_eigenvec":
        c.call(op, D=Dv, dirn=dirn)
        return c
    kw = {}
    if r.random() < .7:
        kw["U"] = g.matrix(c, "U", r.randint(1, 6), n + r.choice([0, 0, 1]))
    if r.random() < .5:
        kw["V"] = g.matrix(c, "V", n + r.choice([0, 0, 1]), r.randint(1, 6))
    if r.random() < .5:
        kw["C"] = g.vector(c, "C", n) if r.random() < .5 else g.matrix(c, "C", r.randint(2, 4), n)
    if "C" in kw and n == 1 and kw["C"].r > 1:
        del kw["C"]
    if r.random() < .04:
        Dv = g.matrix(c, "D2", 3, 2)
        kw = {}
    c.call(op, D=Dv, dirn=dirn, **kw)
    return c


def inv(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 11, 13])
    up = r.random() < .5
    unit = r.random() < .4
    while True:
        A = [[(r.choice([-2, -1, 0, 0, 1, 1]) if (j > i if up else j < i) else 0) for j in range(n)] for i in range(n)]
        for i in range(n):
            A[i][i] = 1 if unit else r.choice([1, 1, -1, 2, -2, 4])
        if lin.nice(A, 8.0):
            break
    if not unit and r.random() < .12:
        A[r.randrange(n)][r.randrange(n)] += 0
        i = r.randrange(n)
        A[i][i] = 0
    M = g.xmatrix(c, "A", n, n + (1 if r.random() < .04 else 0),
                  fill=lambda i, j: A[i][j] if j < n and (j > i if up else j < i) or (i == j and not unit) else None)
    c.call("inverse_trm", fl=["UPPER" if up else "LOWER"] + (["UNIT"] if unit else []), A=M)
    return c


def quad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    if r.random() < .4:
        j, k = r.randint(-900, 900), r.randint(-900, 900)
        k += (j + k) % 2
        c.call("discriminant", i=(j + k) // 2, j=j, l=k)
    else:
        a = r.choice([1, 1, 1, -1, 2, 3, -4, 7])
        Y = xv(g, c, "Y", [5, 5])
        b = r.randint(-7, 7)
        c.call("qdroots", a=a, b=b, c=r.choice([r.randint(-9, 9), 0, 0, b * b // a if b * b % a == 0 and abs(b * b // a) < 30 else 1]), Y=Y)
    return c


KINDS = dict(h=house, y=hhouse, a=apply, m=mult, g=givens, d=diag, r=rbt, s=sort, i=inv, q=quad)


def cases(tier, seed):
    g = Gen(seed * 7919 + 28)
    out = []
    n = {"quick": 60, "thorough": 1500}[tier]
    for k, f in KINDS.items():
        for t in range(n if k != "q" else n // 2):
            out.append(f(g, "%s_%d" % (k, t), {} if k not in "im" else LBS[t % len(LBS)]))
    return out


if __name__ == "__main__":
    ck = Check("C28")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
