from run import *
from check_C14 import LBS, tri
from check_C16 import wkw


def general(g, m, n):
    r = g.r
    s = r.choice(["any", "any", "sparse", "cond", "zero"])
    A = [[r.randint(-3, 3) if s == "any" else r.choice([0, 0, 0, 1, -2]) if s == "sparse" else
          (r.randint(-3, 3) if abs(i - j) < 2 else 0) if s == "cond" else 0 for j in range(n)] for i in range(m)]
    if r.random() < .2 and n:
        z = r.randrange(n)
        for i in range(m):
            A[i][z] = 0
    return A


def sym(g, n):
    A = general(g, n, n)
    for i in range(n):
        for j in range(i):
            A[i][j] = A[j][i]
    return A


def maybe(g, c, op, **kw):
    if g.r.random() < .5:
        c.call(op, **kw)
    else:
        c.call(op + "_w", **kw, **wkw(g.r))


def mults(g, c, op, n, fl, A, T):
    r = g.r
    for t in range(r.choice([0, 1, 1])):
        q = r.choice([1, 2, 3, 7, 12])
        right = r.random() < .5
        name = "C%d%s" % (t, "".join(fl))
        C = g.xmatrix(c, name, q if right else n, n if right else q, fill=lambda i, j: r.randint(-3, 3))
        maybe(g, c, op, fl=fl + (["RIGHT"] if right else r.choice([["LEFT"], []])) + r.choice([[], ["TRANS"]]), C=C, A=A, T=T)


def case(g, cid, env, kind):
    r = g.r
    c = Case(cid, env)
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13])
    if kind == "hess":
        M = general(g, n, n)
        A = g.xmatrix(c, "A", n, n, fill=lambda i, j: M[i][j])
        T = g.xvector(c, "T", n - 1, kind="c")
        maybe(g, c, "hessreduce", A=A, T=T)
        if r.random() < .5:
            c.poison()
        if n > 1:
            mults(g, c, "hessmult", n, [], A, T)
    elif kind == "trd":
        up = r.random() < .5
        fl = ["UPPER" if up else "LOWER"]
        M = sym(g, n)
        A = g.xmatrix(c, "A", n, n, fill=tri(M, up))
        T = g.xvector(c, "T", n, kind="c")
        maybe(g, c, "trdreduce", fl=fl, A=A, T=T)
        if r.random() < .5:
            c.poison()
        if n > 1:
            mults(g, c, "trdmult", n, fl, A, T)
            if r.random() < .7:
                maybe(g, c, "trdbuild", fl=fl, A=A, T=T, K=r.choice([n, n - 1, n - 1, r.randint(1, n - 1)]))
    else:
        m = r.choice([n, r.randint(1, 13), r.randint(1, 13)])
        k = min(m, n)
        M = general(g, m, n)
        A = g.xmatrix(c, "A", m, n, fill=lambda i, j: M[i][j])
        T = g.xvector(c, "T", k, kind="c")
        S = g.xvector(c, "S", k, kind="c")
        maybe(g, c, "bdreduce", A=A, T=T, S=S)
        if r.random() < .5:
            c.poison()
        if k > 1:
            mults(g, c, "bdmult", m, ["MULTQ"], A, T)
            mults(g, c, "bdmult", n, ["MULTP"], A, S)
            x = r.random()
            if x < .4:
                maybe(g, c, "bdbuild", fl=["WANTQ"], A=A, T=T, K=r.choice([k, k, r.randint(1, k)]))
            elif x < .8:
                maybe(g, c, "bdbuild", fl=["WANTP"], A=A, T=S, K=r.choice([k, k, r.randint(1, k)]))
    return c


def bad(g, cid, env):
    r = g.r
    c = Case(cid, env)
    n = r.randint(2, 6)
    what = r.choice(["hess", "hesst", "trd", "trdt", "trdm", "trdmt", "hessm"])
    A = g.xmatrix(c, "A", n, n + (r.choice([-1, 1]) if what in ("hess", "trd") else 0), fill=lambda i, j: 1)
    T = g.xvector(c, "T", n - (what.startswith("hess")) + (r.choice([-1, 1]) if what[-1] == "t" else 0), kind="c")
    if what in ("trdm", "trdmt", "hessm"):
        right = r.random() < .5
        m = n + (0 if what[-1] == "t" else r.choice([-1, 1]))
        C = g.xmatrix(c, "C", 3 if right else m, m if right else 3, fill=lambda i, j: 1)
        c.call("hessmult" if what == "hessm" else "trdmult", fl=["RIGHT"] if right else ["LEFT"], C=C, A=A, T=T)
    elif what.startswith("hess"):
        c.call("hessreduce", A=A, T=T)
    else:
        c.call("trdreduce", fl=[r.choice(["UPPER", "LOWER"])], A=A, T=T)
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 17)
    out = []
    n = {"quick": 45, "thorough": 900}[tier]
    for ci, env in enumerate(LBS):
        for t in range(n):
            for k in ("hess", "trd", "bd", "bd'"):
                out.append(case(g, "%s%d_%d" % (k, ci, t), env, k.strip("'")))
        for t in range(10):
            out.append(bad(g, "b%d_%d" % (ci, t), env))
    return out


if __name__ == "__main__":
    ck = Check("C17")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
