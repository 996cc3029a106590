"""Iterative solvers and incomplete factorizations of sparse matrices.  spec/Iter.tla"""
from run import *
from sparse_gen import *


class Iter(Session):
    def fvec(self, n, lo=-40, hi=40, data=None):        # in units of 1/32
        self.nb += 1
        b = "V%d" % self.nb
        pad, o = self.r.randint(0, 2), self.r.randint(0, 2)
        d = [self.r.randint(-90, 90) for _ in range(o + n + pad)]
        for i in range(n):
            d[o + i] = self.r.randint(lo, hi) if data is None else data[i]
        self.c.xbuf(b, d, insc=5)
        return View(b, o, n, 1, n + pad)

    def fmat(self, n, m=None):
        self.nb += 1
        b = "F%d" % self.nb
        self.c.xbuf(b, [0] * (n * n))
        return View(b, 0, n, n, n)

    def off(self):
        return self.r.choice([1, -1, 1, -1, 2, -2])

    def dominant(self, n, sym, tridiag=False, m=None):
        """strictly dominant diagonal; for sym one triangle, sometimes with unrelated entries in the other"""
        R = self.r
        m = m or n
        dens = R.choice([0, .2, .4, .7, 1])
        e = {}
        for i in range(m):
            for j in range(n):
                if i != j and (not tridiag or abs(i - j) == 1) and R.random() < (dens if not tridiag else .8):
                    if sym and j > i:
                        continue
                    e[i, j] = self.off() if n <= 5 else R.choice([1, -1])
        for i in range(min(m, n)):
            s = sum(abs(v) for (p, q), v in e.items() if p == i or (sym and q == i)) if m == n else 3
            if m != n:
                s = max(sum(abs(v) for (p, q), v in e.items() if p == i), sum(abs(v) for (p, q), v in e.items() if q == i))
            e[i, i] = min(s + R.randint(1, 3), 15)
        return e

    def flip(self, e):
        return {(j, i): v for (i, j), v in e.items()}

    def conf(self, n, mx=True):
        R = self.r
        kw = {}
        k = R.random()
        if k < .4:
            kw["stop"] = R.randint(3, 9)
        elif k < .65:
            kw["smult"] = R.randint(2, 7)
        if mx and ("stop" in kw or "smult" in kw) and R.random() < .5:
            kw["maxiter"] = R.randint(1, n + 1)
        return kw

    def work(self, kw):
        R = self.r
        if R.random() < .4:
            kw["w"] = 1
            if R.random() < .3:
                kw["wp"] = R.choice([0, 30, 60, 80, 100])
            elif R.random() < .5:
                kw["wx"] = R.choice([8, 64])

    def start(self, n, sol=None, big=4):
        if sol is not None:
            return self.fvec(n, data=sol)
        return self.fvec(n, 0, 0) if self.r.random() < .5 else self.fvec(n, -big, big)

    def size(self):
        return self.r.choice([1, 2, 3, 4, 5, 6, 8])

    def mul(self, e, x, m):
        y = [0] * m
        for (i, j), v in e.items():
            y[i] += v * x[j]
        return y

    def system(self, e, m, n, full=None, big=40):
        """right side and start; sometimes the solution is the start"""
        if self.r.random() < .08:
            x = [self.r.randint(-3, 3) for _ in range(n)] if self.r.random() < .6 else [0] * n
            return self.start(n, x), self.fvec(m, data=self.mul(full or e, x, m))
        return self.start(n, big=4 if big > 8 else 1), self.fvec(max(1, m + (self.r.choice([1, -1]) if self.r.random() < .04 else 0)), -big, big)

    def symmetric(self, pre):
        R = self.r
        n = self.size()
        up = R.random() < .5
        tri = R.random() < .4
        e = self.dominant(n, True, tri)
        full = dict(self.flip(e))
        full.update(e)
        if up:
            e = self.flip(e)
        other = {}
        if R.random() < .4:                        # what is in the other triangle does not count
            e0 = dict(e)
            for i in range(n):
                for j in range(n):
                    if i != j and (i, j) not in e0 and (i > j) == up and R.random() < .4:
                        e[i, j] = R.choice([1, 2, -1])
        fl = ["UPPER" if up else "LOWER"]
        kind = R.choice([0, 1] * 10 + [2])
        k = self.build(n, n, kind=kind, ents=e)
        X, B = self.system(e, n, n, full)
        kw = self.conf(n)
        self.work(kw)
        if not pre:
            self.c.call("it_cgrad", fl, X=X, x="X%d" % k, B=B, **kw)
        else:
            p = self.build(n, n, kind=R.randint(0, 1), ents=e)
            F = self.fmat(n)
            self.c.call("it_icholz", fl, x="X%d" % p, F=F)
            kw.pop("maxiter", 0)
            self.c.call("it_pcgrad", fl, X=X, x="X%d" % k, B=B, F=F, **kw)
            self.free(p)
        self.free(k)

    def general(self, pre):
        R = self.r
        n = self.size()
        e = self.dominant(n, False, R.random() < .4)
        if not pre and R.random() < .5:            # rows in another order
            s = list(range(n))
            R.shuffle(s)
            e = {(s[i], j): v for (i, j), v in e.items()}
        kind = R.choice([0, 1] * 10 + [2])
        k = self.build(n, n, kind=kind, ents=e)
        X, B = self.system(e, n, n)
        kw = self.conf(n)
        self.work(kw)
        if R.random() < .6:
            kw["m"] = R.choice([3, 4, 5, 8, 10, 2])
            if kw["m"] < 3:
                kw["w"] = 0
                kw.pop("wp", 0)
                kw.pop("wx", 0)
                kw["m"] = 3
        if not pre:
            self.c.call("it_gmres", X=X, x="X%d" % k, B=B, **kw)
        else:
            p = self.build(n, n, kind=R.randint(0, 1), ents=e)
            F = self.fmat(n)
            self.c.call("it_iluz", x="X%d" % p, F=F)
            kw.pop("maxiter", 0)
            self.c.call("it_pgmres", X=X, x="X%d" % k, B=B, F=F, **kw)
            self.free(p)
        self.free(k)

    def normal(self, under):
        R = self.r
        a, b = sorted([self.size(), self.size()])
        e = self.dominant(b, False, m=a)           # a x b with a <= b
        m, n = a, b
        s = list(range(n))
        R.shuffle(s)
        e = {(i, s[j]): v for (i, j), v in e.items()}
        if not under:
            e, m, n = self.flip(e), b, a
        k = self.build(m, n, kind=R.choice([0, 1] * 10 + [2]), ents=e)
        X, B = self.system(e, m, n, big=40 if under else 8)
        kw = self.conf(min(m, n))
        self.work(kw)
        self.c.call("it_cgne" if under else "it_cgnr", X=X, x="X%d" % k, B=B, **kw)
        self.free(k)

    def factor(self):
        """matrices with missing diagonal entries, not positive, wrong storage or shape"""
        R = self.r
        n = self.size()
        w = R.choice(["diag", "neg", "coo", "rect", "rnd"])
        op = R.choice(["it_iluz", "it_icholz"]) if w != "neg" else "it_icholz"
        e = self.dominant(n, op == "it_icholz")
        up = R.random() < .5
        if up:
            e = self.flip(e)
        c, kind = n, R.randint(0, 1)
        if w == "diag":
            i = R.randrange(n)
            e.pop((i, i))
        elif w == "neg":
            i = R.randrange(n)
            e[i, i] = -R.randint(1, 3)
        elif w == "coo":
            kind = 2
        elif w == "rect":
            c = n + 1 if n < 8 else n - 1
            e = {p: v for p, v in e.items() if p[1] < c}
        k = self.build(n, c, kind=kind, ents=e)
        self.c.call(op, ["UPPER" if up else "LOWER"] if op == "it_icholz" else [], x="X%d" % k, F=self.fmat(n))
        self.free(k)

    def run(self, n):
        st = [lambda: self.symmetric(False), lambda: self.symmetric(True), lambda: self.general(False), lambda: self.general(True),
              lambda: self.normal(True), lambda: self.normal(False), self.factor]
        for _ in range(n):
            self.r.choice(st)()
            for k in sorted(self.x):
                self.free(k)
        return self.end()


def cases(tier, seed):
    g = Gen(seed * 49979687 + 24)
    n = {"quick": 240, "thorough": 4000}[tier]
    out = [Iter(g, "it.%d" % k).run(g.r.choice([2, 5])) for k in range(n)]
    for c in out[::4]:
        c.exe = "asan"          # memory errors
    return out


if __name__ == "__main__":
    ck = Check("C24")
    ck.traces(cases(TIER, SEED), {"vm": vm(), "asan": vm("asan")}, stall=10.0)
    ck.finish()
