from run import *
import itertools

KIND = dict(rows=2, cols=4, upper=8, lower=0x10)


def pivots(g, n, np_, bwd):
    r = g.r
    style = r.choice(["any", "down", "down", "skip", "id"])
    out = []
    for k in range(np_):
        if style == "any":
            out.append(r.randint(1, n))
        elif style == "down":
            out.append(r.randint(min(k + 1, n), n))     # as factorizations record them
        elif style == "skip":
            out.append(r.choice([k + 1, r.randint(1, n)]))
        else:
            out.append(k + 1)
    return out


def one(g, cid, kind, dirs, n=None, m=None, np_=None, via="pivot", piv=None, mism=False):
    c = Case(cid)
    r = g.r
    n = n if n is not None else r.randint(0, 9)
    m = m if m is not None else r.randint(0, 7)
    shape = dict(rows=(n, m), cols=(m, n), upper=(n, n), lower=(n, n))[kind]
    up = kind == "upper"
    if kind in ("upper", "lower"):
        A = g.matrix(c, "A", n, n, fill=lambda i, j: r.randint(-99, 99) if (i <= j) == up or i == j else None)
    else:
        A = g.matrix(c, "A", *shape, lo=-99, hi=99)
    if np_ is None:
        np_ = r.choice([n, n, r.randint(0, n)])
    if piv is None:
        piv = pivots(g, n, np_, dirs[0] == "bwd")
    if mism:
        np_ = n + r.randint(1, 3)
        piv = [r.randint(1, max(n, 1)) for _ in range(np_)]
    np_ = len(piv)
    off = r.randint(0, 2)
    if via != "pivot_rows" and via != "pivot_cols" or True:
        # positions that denote no exchange (row and column kinds only)
        if kind in ("rows", "cols") and np_ and r.random() < 0.2:
            piv = list(piv)
            piv[r.randrange(np_)] = r.choice([0, -2])
    c.ibuf("P", [77] * off + piv + [78] * r.randint(0, 2))
    for d in dirs:
        bit = 0 if d == "fwd" else 1
        if via == "pivot":
            pf = bit | KIND[kind]
            if kind == "rows" and r.random() < 0.3:
                pf = bit                                # rows is the default kind
        else:
            pf = bit
        c.call(via, pf=pf, A=A, P=Piv("P", off, np_), ev=dict(kind=kind, dir=d))
    return c


def cases(tier, seed):
    g = Gen(seed * 7919 + 12)
    out = []
    k = 0
    # every pivot vector up to size 3, every kind and direction, then undone
    for kind in KIND:
        for n in range(0, 4):
            for piv in itertools.product(range(1, n + 1), repeat=n):
                for dirs in (("fwd", "bwd"), ("bwd", "fwd")):
                    out.append(one(g, "e%d" % k, kind, dirs, n=n, m=g.r.randint(1, 3), piv=list(piv)))
                    k += 1
    reps = {"quick": 150, "thorough": 3000}[tier]
    for kind in KIND:
        for via in ["pivot"] + (["pivot_" + kind] if kind in ("rows", "cols") else []):
            for t in range(reps):
                dirs = g.r.choice([("fwd",), ("bwd",), ("fwd", "bwd"), ("bwd", "fwd"), ("fwd", "fwd", "bwd")])
                n = g.r.choice([None, None, g.r.randint(10, 20)])
                out.append(one(g, "r%d" % k, kind, dirs, n=n, via=via))
                k += 1
            for t in range(6):
                out.append(one(g, "x%d" % k, kind, (g.r.choice(["fwd", "bwd"]),), via=via, mism=True))
                k += 1
    for t in range(reps):
        c = Case("s%d" % k)
        n = g.r.choice([0, 1, 2, 3, g.r.randint(0, 14)])
        vals = g.r.choice([3, 50])
        D = g.vector(c, "D", n, lo=-vals, hi=vals)
        off = g.r.randint(0, 2)
        c.ibuf("P", [g.r.randint(-9, 9) for _ in range(off + n + 2)])
        d = g.r.choice([1, -1, 2, -3])
        c.call("pivot_sort", D=D, P=Piv("P", off, n), dirn=d)
        if n:
            c.call("pivot_index", X=D)
        out.append(c)
        k += 1
    return out


if __name__ == "__main__":
    ck = Check("C12")
    ck.laws("PivotLaws")
    ck.traces(cases(TIER, SEED), {"vm": vm()})
    ck.finish()
