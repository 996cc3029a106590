"""Products, sums and solutions with sparse matrices are those with the dense matrices represented.  spec/Sparse.tla"""
from run import *
from sparse_gen import *


class Ops(Session):
    def sub(self, k):
        """k, or what a copy or twice transposing makes of it"""
        R = self.r
        if R.random() < .15 and len(self.x) < NX - 2:
            s = self.x[k]
            y, z = [q for q in range(NX) if q not in self.x][:2]
            if R.random() < .5 or s.kind == 2:
                self.c.call("sp_copy", x="X%d" % k, y="X%d" % y)
                self.x[y] = Sp(s.kind, s.r, s.c, s.size, s.e)
                self.free(k)
                return y
            self.c.call("sp_transpose", x="X%d" % k, y="X%d" % y)
            self.c.call("sp_transpose", x="X%d" % y, y="X%d" % z)
            self.x[y], self.x[z] = Sp(s.kind, s.c, s.r, len(s.e), s.t()), Sp(s.kind, s.r, s.c, len(s.e), s.e)
            self.free(k)
            self.free(y)
            return z
        return k

    def kind(self):
        return self.r.choice([0, 1] * 8 + [2])

    def off(self, p=.08):
        return self.r.choice([1, 1, -1]) if self.r.random() < p else 0

    def sc(self):
        return self.r.choice([1, 1, 2, -1, -2, 0])

    def mvmult(self):
        k = self.sub(self.build(kind=self.kind()))
        s = self.x[k]
        tr = self.r.random() < .5
        m, n = (s.c, s.r) if tr else (s.r, s.c)
        fl = (["TRANS"] if tr else []) + [f for f in ("UNIT", "LOWER", "UPPER") if self.r.random() < .1]
        self.c.call("sp_mvmult", fl, be=self.sc(), Y=self.vec(max(1, m + self.off())), al=self.sc(), x="X%d" % k,
                    X=self.vec(max(1, n + self.off())))

    def square(self):
        n = self.r.choice([1, 2, 3, 4, 5, 6, 8])
        return self.sub(self.build(n, n if self.r.random() < .93 else min(8, n + 1), kind=self.kind()))

    def mvsym(self):
        k = self.square()
        s = self.x[k]
        fl = [self.r.choice(["LOWER", "UPPER"])] + (["TRANS"] if self.r.random() < .1 else [])
        self.c.call("sp_mvmult_sym", fl, be=self.sc(), Y=self.vec(max(1, s.r + self.off())), al=self.sc(), x="X%d" % k,
                    X=self.vec(max(1, s.c + self.off(.04))))

    def trmfl(self):
        return [self.r.choice(["LOWER", "UPPER"])] + [f for f in ("TRANS", "UNIT") if self.r.random() < .5]

    def mvtrm(self):
        k = self.square()
        s = self.x[k]
        self.c.call("sp_mvmult_trm", self.trmfl(), X=self.vec(max(1, s.r + self.off())), al=self.sc(), x="X%d" % k)

    def solve(self):
        R = self.r
        fl = self.trmfl()
        n = R.choice([1, 2, 3, 4, 5, 6, 8])
        dens = R.choice([0, .2, .4, .7])
        up, unit, tr = "UPPER" in fl, "UNIT" in fl, "TRANS" in fl
        e = {(i, j): R.choice([-2, -1, 1, 2]) for i in range(n) for j in range(n) if R.random() < dens}
        for i in range(n):
            if not unit or R.random() < .5:
                e[i, i] = R.choice([-2, -1, 1, 2]) if not unit else 7
            else:
                e.pop((i, i), None)
        k = self.sub(self.build(n, n, kind=self.kind(), ents=e))
        x = [R.randint(-2, 2) for _ in range(n)]

        def a(i, j):
            if tr:
                i, j = j, i
            if i == j:
                return 1 if unit else e[i, j]
            return e.get((i, j), 0) if (i < j) == up else 0
        b = [sum(a(i, j) * x[j] for j in range(n)) for i in range(n)]
        wrong = self.off()
        self.c.call("sp_mvsolve_trm", fl, X=self.vec(n, b) if not wrong else self.vec(n + 1), al=self.r.choice([1, 1, 2, -1, 3]), x="X%d" % k)

    def pair(self, add):
        R = self.r
        fl = [f for f in ("TRANSA", "TRANSB") if R.random() < .5]
        m, n, p = [R.choice([1, 2, 3, 4, 5, 6, 8]) for _ in range(3)]
        a, b = ((m, n), (m, n)) if add else ((m, n), (n, p))
        a = a[::-1] if "TRANSA" in fl else a
        b = b[::-1] if "TRANSB" in fl else b
        if R.random() < .08:
            b = (b[0], min(8, b[1] + 1)) if R.random() < .5 else (min(8, b[0] + 1), b[1])
        kind = self.kind()
        ka = self.build(*a, kind=kind)
        kb = self.build(*b, kind=kind if R.random() < .95 else R.randint(0, 2))
        if ka not in self.x or ka == kb:
            return None
        if add and R.random() < .06 and self.x[ka].r == self.x[ka].c:
            kb = ka
        m, n = (m, n) if add else (m, p)
        return fl, ka, kb, kind, m, n

    def binary(self, add, into):
        R = self.r
        t = self.pair(add)
        if not t:
            return
        fl, ka, kb, kind, m, n = t
        al, be = R.choice([1, 1, 2, -1, 0]), R.choice([1, 1, 2, -1, 0])
        room = len(self.x[ka].e) + len(self.x[kb].e) if add else m * n
        if room > CAP:
            return
        kw = dict(be=be) if add else {}
        kw.update(al=al, x="X%d" % ka, y="X%d" % kb)
        if not into:
            z = self.free_slot()
            if ka in self.x and kb in self.x:
                self.c.call("sp_add" if add else "sp_mult", fl, z="X%d" % z, **kw)
                self.c.call("sp_free", x="X%d" % z)
            return
        if R.random() < .07:
            n = n + 1 if n < 8 else n - 1
            n = max(n, 1)
        room = max(1, min(CAP, room + R.choice([0, 0, 0, 1, -1, 5])))
        kind = kind if R.random() < .95 else R.randint(0, 2)
        if kind < 2 and R.random() < .3:
            l = [(i, j) for i in range(m) for j in range(n)]
            R.shuffle(l)
            z = self.build(m, n, kind=kind, ents={p: 7 for p in l[:room]})
        else:
            z = self.fresh(kind, m, n, room)
        if ka in self.x and kb in self.x and z in self.x and z not in (ka, kb):
            self.c.call("sp_addto" if add else "sp_multto", fl, z="X%d" % z, less=R.choice([0] * 9 + [1, 8]), **kw)
            if R.random() < .3:                    # once more over the result
                self.c.call("sp_addto" if add else "sp_multto", fl, z="X%d" % z, less=0, **kw)

    def run(self, n):
        st = [self.mvmult, self.mvsym, self.mvtrm, self.solve, lambda: self.binary(True, False), lambda: self.binary(False, False),
              lambda: self.binary(True, True), lambda: self.binary(False, True)]
        for _ in range(n):
            self.r.choice(st)()
            if len(self.x) > NX - 4:
                for k in sorted(self.x)[:4]:
                    self.free(k)
        return self.end()


def cases(tier, seed):
    g = Gen(seed * 49979687 + 23)
    n = {"quick": 300, "thorough": 5000}[tier]
    out = [Ops(g, "spo.%d" % k).run(g.r.choice([3, 8])) for k in range(n)]
    for c in out[::4]:
        c.exe = "asan"          # memory errors
    return out


if __name__ == "__main__":
    ck = Check("C23")
    ck.traces(cases(TIER, SEED), {"vm": vm(), "asan": vm("asan")}, stall=10.0)
    ck.finish()
