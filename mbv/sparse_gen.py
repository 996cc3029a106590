"""Sessions over sparse matrices: eight slots X0..X7, mirrored here so that the operations chosen are meaningful"""
from run import *

NX, CAP, SIZE = 8, 64, 207


class Sp:
    def __init__(self, kind, r, c, size, ents=None):
        self.kind, self.r, self.c, self.size, self.e = kind, r, c, size, dict(ents or {})

    def t(self):
        return {(j, i): v for (i, j), v in self.e.items()}


class Session:
    def __init__(self, g, cid, tag=""):
        self.g, self.r = g, g.r
        self.c = Case(cid, {}, tag)
        for k in range(NX):
            self.c.ibuf("X%d" % k, [0] * SIZE)
        self.x = {}
        self.nb = 0
        self.c.call("sp_begin")

    def free_slot(self):
        l = [k for k in range(NX) if k not in self.x]
        if not l:
            k = self.r.choice(sorted(self.x))
            self.free(k)
            return k
        return self.r.choice(l)

    def pick(self, f=lambda s: True):
        l = [k for k in sorted(self.x) if f(self.x[k])]
        return self.r.choice(l) if l else None

    def free(self, k):
        self.c.call("sp_free", x="X%d" % k)
        del self.x[k]

    def fresh(self, kind, r, c, n, how=None):
        k = self.free_slot()
        how = how or self.r.choice(["sp_new", "sp_init", "sp_make"])
        kw = dict(more=self.r.choice([0, 0, 8, 24, 100])) if how == "sp_make" else {}
        self.c.call(how, x="X%d" % k, r=r, c=c, n=n, kind=kind, **kw)
        self.x[k] = Sp(kind, r, c, n)
        return k

    def append(self, k, i, j, v):
        s = self.x[k]
        self.c.call("sp_append", x="X%d" % k, i=i, j=j, v=v)
        if s.kind == 2:
            if len(s.e) >= s.size:
                s.size = None
            s.e[i, j] = v
            if s.size is None:
                s.size = len(s.e)

    def build(self, r=None, c=None, dens=None, kind=None, ents=None):
        """a matrix of coordinates in random order, perhaps converted"""
        R = self.r
        r = r or R.choice([1, 2, 3, 3, 4, 5, 6, 8])
        c = c or R.choice([1, 2, 3, 3, 4, 5, 6, 8])
        if ents is None:
            dens = R.choice([0, .15, .3, .5, .8, 1]) if dens is None else dens
            ents = {(i, j): R.choice([-3, -2, -1, 1, 2, 3]) for i in range(r) for j in range(c) if R.random() < dens}
        l = list(ents.items())
        R.shuffle(l)
        n = max(1, len(l) + R.choice([0, 0, 1, 5, -1, -2]))
        k = self.fresh(2, r, c, n)
        for (i, j), v in l:
            self.append(k, i, j, v)
        self.x[k].size = max(self.x[k].size, n)
        kind = R.choice([0, 1, 2]) if kind is None else kind
        if kind < 2:
            k2 = self.free_slot()
            if k2 == k or k not in self.x:
                return k
            self.c.call("sp_convert", x="X%d" % k, y="X%d" % k2, kind=kind)
            self.x[k2] = Sp(kind, r, c, len(l), ents)
            if R.random() < .7:
                self.free(k)
            return k2
        return k

    def vec(self, n, data=None, lo=-3, hi=3):
        self.nb += 1
        b = "V%d" % self.nb
        pad = self.r.randint(0, 2)
        o = self.r.randint(0, 2)
        d = [self.g.junk() for _ in range(o + n + pad)]
        for i in range(n):
            d[o + i] = self.r.randint(lo, hi) if data is None else data[i]
        self.c.buf(b, d)
        return View(b, o, n, 1, n + pad)

    def mat(self, m, n):
        self.nb += 1
        b = "M%d" % self.nb
        ld = m + self.r.randint(0, 2)
        self.c.buf(b, [self.g.junk() for _ in range(ld * n + 1)])
        return View(b, 1, m, n, ld)

    def end(self):
        for k in sorted(self.x):
            self.free(k)
        self.c.call("sp_live")
        return self.c
