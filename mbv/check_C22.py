"""Sparse matrices: sessions of making, filling, growing, copying, converting, transposing, sorting and reading
them; every step judged by the matrix represented and the form it is stored in.  spec/Sparse.tla"""
from run import *
from sparse_gen import *


class Forms(Session):
    def new(self):
        R = self.r
        if R.random() < .12:                       # nothing or not enough
            k = self.free_slot()
            if R.random() < .4:
                self.c.call(R.choice(["sp_new", "sp_init"]), x="X%d" % k, r=0, c=0, n=0, kind=R.randint(0, 2))
                self.free_x(k)
            else:
                self.c.call("sp_make", x="X%d" % k, r=R.randint(1, 8), c=R.randint(1, 8), n=R.randint(1, 12), kind=R.randint(0, 2),
                            more=-R.choice([1, 4, 8]))
            return
        if R.random() < .2:
            self.fresh(R.randint(0, 2), R.randint(1, 8), R.randint(1, 8), R.randint(1, 9))
            return
        self.build()

    def free_x(self, k):
        self.c.call("sp_free", x="X%d" % k)

    def any(self):
        k = self.pick()
        return self.build() if k is None else k

    def append1(self):
        k = self.any()
        s = self.x[k]
        l = [(i, j) for i in range(s.r) for j in range(s.c) if (i, j) not in s.e]
        if l and len(s.e) < CAP - 8:
            self.append(k, *self.r.choice(l), self.r.choice([-2, -1, 1, 2, 3]))

    def resize(self):
        k = self.any()
        s = self.x[k]
        n = max(1, len(s.e) + self.r.choice([-1, 0, 0, 1, 3, 10]))
        self.c.call("sp_resize", x="X%d" % k, n=n)
        if s.kind == 2 and n >= len(s.e):
            s.size = n

    def copy(self):
        k = self.any()
        y = self.free_slot()
        if k not in self.x:
            return
        s = self.x[k]
        self.c.call("sp_copy", x="X%d" % k, y="X%d" % y)
        self.x[y] = Sp(s.kind, s.r, s.c, s.size, s.e)

    def convert(self):
        k = self.any()
        y = self.free_slot()
        if k not in self.x:
            return
        s, kind = self.x[k], self.r.choice([0, 1, 0, 1, 2])
        self.c.call("sp_convert", x="X%d" % k, y="X%d" % y, kind=kind)
        if kind < 2:
            self.x[y] = Sp(kind, s.r, s.c, len(s.e), s.e)

    def transpose(self):
        k = self.any()
        y = self.free_slot()
        if k not in self.x:
            return
        s = self.x[k]
        self.c.call("sp_transpose", x="X%d" % k, y="X%d" % y)
        if s.kind != 2:
            self.x[y] = Sp(s.kind, s.c, s.r, len(s.e), s.t())

    def target(self, k, kind, r, c):
        """a matrix other than k, mostly one made for what goes into it, sometimes with old contents"""
        R, s = self.r, self.x[k]
        if R.random() < .25:
            l = [y for y in sorted(self.x) if y != k]
            if l:
                return R.choice(l)
        if R.random() < .15:
            r, c = R.choice([(r + 1 if r < 8 else r - 1, c), (r, c + 1 if c < 8 else c - 1), (c, r)])
            r, c = max(r, 1), max(c, 1)
        n = max(1, len(s.e) + R.choice([0, 0, 0, 0, 1, -1, 4]))
        if R.random() < .3 and r * c >= len(s.e):
            # as many entries, elsewhere
            l = [(i, j) for i in range(r) for j in range(c)]
            R.shuffle(l)
            y = self.build(r, c, kind=kind, ents={p: 5 for p in l[:len(s.e)]})
        else:
            y = self.fresh(kind, r, c, n)
        return y if k in self.x and y != k else None

    def to(self, op):
        k = self.any()
        s = self.x[k]
        kind = s.kind if op != "sp_convert_to" else self.r.choice([0, 1, 0, 1, 0, 1, 2])
        r, c = (s.c, s.r) if op == "sp_transpose_to" else (s.r, s.c)
        y = self.target(k, kind if self.r.random() < .9 else self.r.randint(0, 2), r, c)
        if y is None or k not in self.x or y not in self.x:
            return
        kw = dict(kind=kind) if op == "sp_convert_to" else {}
        self.c.call(op, x="X%d" % k, y="X%d" % y, **kw)
        t = self.x[y]
        if kind != 2 and t.kind == kind and (t.r, t.c) == (r, c) and t.size == len(s.e):     # surely taken
            self.x[y] = Sp(kind, r, c, t.size, s.t() if op == "sp_transpose_to" else s.e)
        else:
            self.free(y)

    def sort(self):
        self.c.call("sp_sort", x="X%d" % self.any())

    def sort_to(self):
        self.c.call("sp_sort_to", x="X%d" % self.any(), order=self.r.randint(0, 1))

    def dense(self):
        k = self.any()
        s = self.x[k]
        m, n = s.r, s.c
        if self.r.random() < .12:
            m, n = self.r.choice([(m + 1, n), (m, n + 1)])
        self.c.call("sp_dense", x="X%d" % k, D=self.mat(m, n))

    def diag(self):
        if self.r.random() < .5:
            n = self.r.randint(1, 6)
            d = self.r.choice([0, 0, 1, -1, 2])
            e = {(i, j): 1 for i in range(n) for j in range(n) if self.r.random() < .3 or j - i == d}
            if e and self.r.random() < .5:
                del e[self.r.choice(sorted(e))]
            k = self.build(n, n, ents=e)
        else:
            k = self.any()
        s = self.x.get(k)
        if not s:
            return
        for d in self.r.sample(range(-min(s.r, s.c), min(s.r, s.c) + 1), 2):
            self.c.call("sp_diag", x="X%d" % k, d=d)

    def at(self):
        k = self.pick(lambda s: s.kind != 2)
        if k is None:
            return
        s = self.x[k]
        for _ in range(3):
            i, j = self.r.randrange(s.r), self.r.randrange(s.c)
            if s.e and self.r.random() < .5:
                i, j = self.r.choice(sorted(s.e))
            self.c.call("sp_at", x="X%d" % k, l=i if s.kind == 1 else j, ix=j if s.kind == 1 else i)

    def run(self, n):
        st = [(self.new, 14), (self.append1, 10), (self.resize, 6), (self.copy, 8), (self.convert, 10), (self.transpose, 8),
              (lambda: self.to("sp_copy_to"), 7), (lambda: self.to("sp_convert_to"), 10), (lambda: self.to("sp_transpose_to"), 7),
              (self.sort, 3), (self.sort_to, 6), (self.dense, 8), (self.diag, 6), (self.at, 8)]
        for _ in range(n):
            self.r.choices([f for f, w in st], [w for f, w in st])[0]()
        return self.end()


def cases(tier, seed):
    g = Gen(seed * 49979687 + 22)
    n = {"quick": 300, "thorough": 5000}[tier]
    out = [Forms(g, "sp.%d" % k).run(g.r.choice([4, 10, 20])) for k in range(n)]
    for c in out[::4]:
        c.exe = "asan"          # memory errors
    return out


if __name__ == "__main__":
    ck = Check("C22")
    ck.traces(cases(TIER, SEED), {"vm": vm(), "asan": vm("asan")}, stall=10.0)
    ck.finish()
