"""Matrix handles: sessions of making views of views, using their elements, owning and giving back storage,
partitions.  spec/Dense.tla"""
from run import *

NAMES = "abcdefghijklmn"


class H:
    """what the generator needs to know of a handle to stay within what callers may do"""
    def __init__(self, r=0, c=0, s=0, o=0, root=0, own=0, heap=0):
        self.r, self.c, self.s, self.o, self.root, self.own, self.heap = r, c, s, o, root, own, heap

    def size(self):
        return self.r * self.c

    def inside(self, n):
        return self.size() == 0 or (self.o >= 0 and self.o + (self.c - 1) * self.s + self.r - 1 < n)


class Session:
    def __init__(self, g, cid, big=False):
        self.g, self.r = g, g.r
        c = self.c = Case(cid)
        self.np = self.r.choice([1, 12, 30, 60, 90])
        c.buf("P", [100 + i for i in range(self.np)])
        self.hs = {x: H() for x in NAMES}
        for x in NAMES:
            c.ibuf(x, [0] * 6)
        self.cap = 36
        for k in range(2, 7):
            c.buf("H%d" % k, [0] * self.cap)
        self.room = {1: self.np}
        self.next = 1000
        c.call("dn_begin")

    def live(self, h):
        return h.root in self.room or h.root == 0

    def usable(self, vec=False, some=True):
        l = [x for x in NAMES if self.live(self.hs[x]) and (self.hs[x].size() > 0 or not some)
             and (not vec or 1 in (self.hs[x].r, self.hs[x].c))]
        return self.r.choice(l) if l else None

    def target(self, avoid=()):
        l = [x for x in NAMES if not self.hs[x].own and x not in avoid]
        return self.r.choice(l) if l else None

    def put(self, x, r, c, s, o, root):
        h = self.hs[x]
        self.hs[x] = H(r, c, s, o, root, 0, h.heap)
        if r <= 0 or c <= 0:
            # what an empty view looks at does not matter
            self.hs[x].root = 0

    def none(self, x):
        self.put(x, 0, 0, 0, 0, 0)

    # -- steps
    def make(self):
        r = self.r
        x = self.target()
        if not x:
            return
        for _ in range(20):
            m, n = r.choice([0, 1, 1, 2, 3, 4, 5, 7]), r.choice([0, 1, 1, 2, 3, 4, 5, 7])
            s = m + r.choice([0, 0, 1, 2, 5])
            if r.random() < .1:
                s = r.randint(1, 5) if m <= 1 else s
            h = H(m, n, s, r.randint(0, self.np - 1), 1)
            if h.inside(self.np):
                break
        else:
            return
        self.c.call("dn_make", x=x, r=m, c=n, s=s, o=h.o)
        self.put(x, m, n, s, h.o, 1)

    def view(self):
        r = self.r
        some = r.random() < .93
        a = self.usable(some=some)
        if a is None:
            return
        h = self.hs[a]
        alias = not h.own and r.random() < .15
        x = a if alias else self.target((a,))
        if not x:
            return
        op = r.choice(["column", "row", "sub", "sub", "sub", "subext", "subvec", "diag", "diag", "colrow"])
        src = a
        if r.random() < .03 and op in ("column", "row", "sub", "subext", "subvec"):
            src, h = None, H()
        ok = h.size() > 0
        m, n, s, o, root = h.r, h.c, h.s, h.o, h.root
        u = 1 if ok and src and r.random() < .3 else 0
        ng = lambda v, k: v - k if not u and r.random() < .35 else v
        if op == "column":
            i = r.randrange(n) if ok else 0
            self.c.call("dn_column", x=x, a=src, i=ng(i, n) if ok else 0, u=u)
            self.put(x, m, 1, s, o + i * s, root) if ok else self.none(x)
        elif op == "row":
            i = r.randrange(m) if ok else 0
            self.c.call("dn_row", x=x, a=src, i=ng(i, m) if ok else 0, u=u)
            self.put(x, 1, n, s, o + i, root) if ok else self.none(x)
        elif op in ("sub", "subext"):
            i = r.randint(0, m) if r.random() < .1 else r.randrange(max(m, 1))
            j = r.randint(0, n) if r.random() < .1 else r.randrange(max(n, 1))
            nr, nc = r.randint(0, m - i) if m else 0, r.randint(0, n - j) if n else 0
            if r.random() < .6:
                nr, nc = max(nr, min(1, m - i)), max(nc, min(1, n - j))
            full = lambda k, w: -1 if not u and k == w and r.random() < .5 else k
            kw = dict(x=x, a=src, i=ng(i, m) if i < m else i, j=ng(j, n) if j < n else j, r=full(nr, m - i), c=full(nc, n - j))
            if op == "sub":
                self.c.call("dn_sub", u=u, **kw)
                st = s
            else:
                st = r.choice([-1, s, s + 1, 1, 2, s + 3])
                t = s if st < 0 else st
                if ok and not H(nr, nc, t, o + j * s + i, root).inside(self.room.get(root, 0)):
                    st = -1
                self.c.call("dn_subext", s=st, **kw)
                st = s if st < 0 else st
            self.put(x, nr, nc, st, o + j * s + i, root) if ok else self.none(x)
        elif op == "subvec":
            vec = 1 in (m, n)
            if not vec or not ok:
                self.c.call("dn_subvec", x=x, a=src, i=0, n=0, u=0)
                self.none(x)
                return
            i = r.randrange(m * n)
            k = r.randint(0, m * n - i)
            self.c.call("dn_subvec", x=x, a=src, i=ng(i, m * n), n=-1 if not u and k == m * n - i and r.random() < .5 else k, u=u)
            if m == 1:
                self.put(x, 1, k, s, o + i * s, root)
            else:
                self.put(x, k, 1, s, o + i, root)
        elif op == "diag":
            k = r.randint(-(m - 1), n - 1) if ok else 0
            self.c.call("dn_diag", x=x, a=src, dg=k, u=u)
            i0, j0 = max(-k, 0), max(k, 0)
            self.put(x, 1, min(m - i0, n - j0), s + 1, o + j0 * s + i0, root) if ok else self.none(x)
        elif op == "colrow":
            if n != 1 or not ok or x == a:
                return
            self.c.call("dn_colrow", x=x, a=a)
            self.put(x, 1, m, 1, o, root)

    def element(self):
        r = self.r
        a = self.usable(some=r.random() < .95)
        if a is None:
            return
        h = self.hs[a]
        ok = h.size() > 0
        u = 1 if ok and r.random() < .25 else 0
        i, j = (r.randrange(h.r), r.randrange(h.c)) if ok else (0, 0)
        k = r.randrange(h.size()) if ok else 0
        if ok and not u:
            i, j, k = [v - w if r.random() < .35 else v for v, w in ((i, h.r), (j, h.c), (k, h.size()))]
        self.next += 1
        op = r.choice(["get", "get", "set", "set", "getat", "getat", "setat", "setat", "index", "real", "info"])
        if op in ("get", "set", "index"):
            kw = dict(v=self.next) if op == "set" else {}
            self.c.call("dn_" + op, a=a, i=i, j=j, u=u, **kw)
        elif op in ("getat", "setat"):
            # the plain ones are for vectors
            if u and 1 not in (h.r, h.c) and h.s != h.r:
                u, k = 0, k
            kw = dict(v=self.next) if op == "setat" else {}
            self.c.call("dn_" + op, a=a, i=k, u=u, **kw)
        elif op == "real":
            if ok:
                self.c.call("dn_real", a=a, i=k % h.size())
        else:
            self.c.call("dn_info", a=None if r.random() < .1 else a, i=r.choice([k, h.size(), -h.size(), -h.size() - 1, h.size() - 1, 0, -1]))

    def storage(self):
        r = self.r
        free = [k for k in range(2, 7) if k not in self.room]
        op = r.choice(["init", "alloc", "newcopy", "newcopy", "release", "release", "free", "free", "huge", "none"])
        if op in ("init", "alloc", "newcopy"):
            # a handle that has nothing, and for those that come from the library is not one of them already
            l = [x for x in NAMES if not self.hs[x].own and not self.hs[x].heap]
            if not l or not free:
                return
            x, k = r.choice(l), r.choice(free)
            if op == "newcopy":
                a = self.usable(some=r.random() < .95)
                if a is None or a == x or self.hs[a].size() > self.cap:
                    return
                h = self.hs[a]
                self.c.call("dn_newcopy", x=x, a=a, st=k)
                if h.size() > 0:
                    self.hs[x] = H(h.r, h.c, h.r, 0, k, 1, 1)
                    self.room[k] = h.size()
                return
            m, n = r.choice([0, 1, 2, 3, 4, 5, 6]), r.choice([0, 1, 2, 3, 4, 5, 6])
            if r.random() < .7:
                m, n = max(m, 1), max(n, 1)
            if op == "init" and r.random() < .05:
                m = -1
            self.c.call("dn_" + op, x=x, r=m, c=n, st=k)
            if m > 0 and n > 0:
                self.hs[x] = H(m, n, m, 0, k, 1, op == "alloc")
                self.room[k] = m * n
            elif op == "init":
                self.hs[x] = H(max(m, 0), max(n, 0))
        elif op == "release":
            l = [x for x in NAMES if self.live(self.hs[x])]
            own = [x for x in l if self.hs[x].own]
            x = r.choice(own if own and r.random() < .6 else l)
            self.release(x, "release")
        elif op == "free":
            l = [x for x in NAMES if self.hs[x].heap]
            if l:
                self.release(r.choice(l), "free")
        elif op == "huge":
            m, n = r.choice([(65536, 65536), (46341, 46341), (65536, 32768), (2 ** 30, 2), (2 ** 30, 4), (2 ** 31 - 1, 2 ** 31 - 1),
                             (2 ** 30, 2 ** 30), (30000, 30000), (2 ** 29, 8), (2 ** 31 - 1, 1), (1, 2 ** 31 - 1)])
            self.c.call("dn_huge", r=(min(m, 2 ** 30), str(m)), c=(min(n, 2 ** 30), str(n)), alloc=r.randint(0, 1))
        else:
            self.c.call("dn_freenone")

    def release(self, x, op):
        h = self.hs[x]
        if op == "release" and h.root and h.root not in self.room and not h.own:
            return
        self.c.call("dn_" + op, x=x)
        if h.own:
            was = h.root
            del self.room[was]
            for y in NAMES:
                if self.hs[y].root == was:
                    self.hs[y].root = -1            # looks at what is no more
            self.hs[x] = H(heap=h.heap)
        if op == "free":
            self.hs[x] = H()

    def block(self, x, h, i, j, m, n):
        if x:
            self.put(x, m, n, h.s, h.o + j * h.s + i, h.root)

    def cuts(self, xs, h, rc, cc):
        nq = len(cc) - 1
        for p in range(len(rc) - 1):
            for q in range(nq):
                self.block(xs[p * nq + q], h, rc[p], cc[q], rc[p + 1] - rc[p], cc[q + 1] - cc[q])

    def partition(self):
        """through a matrix or vector in blocks of varying size, from either end"""
        r = self.r
        a = self.usable()
        if a is None:
            return
        h = self.hs[a]
        l = [x for x in NAMES if not self.hs[x].own and not self.hs[x].heap and x != a]
        two = r.random() < .5 and len(l) >= 13
        if len(l) < (13 if two else 5):
            return
        r.shuffle(l)
        fwd = r.randint(0, 1)
        opt = lambda x, keep: x if keep or r.random() < .7 else None
        arg = lambda xs: (["" if x is None else x for x in xs], ",".join(x or "-" for x in xs))
        if not two:
            how = "v" if 1 in (h.r, h.c) and r.random() < .5 else r.choice("rc")
            n = h.r if how == "r" else h.c if how == "c" else h.size()
            rows = how == "r" or (how == "v" and h.r != 1)
            cut = lambda xs, cs: self.cuts(xs, h, cs, [0, h.c]) if rows else self.cuts(xs, h, [0, h.r], cs)
            t, b, x0, x1, x2 = l[:5]
            nb = r.choice([0, 0, 0, 1, 2, n + 1])
            self.c.call("dn_part", a=a, how=how, nb=nb, fwd=fwd, xs=arg([t, b]))
            k = min(nb, n) if fwd else n - min(nb, n)
            cut([t, b], [0, k, n])
            turn = -1 if r.random() < .8 else r.randint(1, 3)
            for it in range(r.randint(1, 8)):
                if it == turn:
                    fwd = 1 - fwd
                nb = r.choice([1, 1, 2, 3, n, n + 2])
                self.c.call("dn_repart", a=a, t=t, how=how, nb=nb, fwd=fwd, xs=arg([x0, x1, x2]))
                nb = min(nb, n - k) if fwd else min(nb, k)
                lo = k if fwd else k - nb
                cut([x0, x1, x2], [0, lo, lo + nb, n])
                if nb == 0 and how == "v":
                    pass
                if r.random() < .3:
                    y = self.target((a, t, b, x0, x1, x2))
                    if y:
                        p, q = r.choice([(x0, x1), (x1, x2)])
                        self.merge(y, p, q, "r" if rows else "c")
                if r.random() < .4:
                    self.element()
                self.c.call("dn_continue", a=a, t=x0, m=x1, how=how, fwd=fwd, xs=arg([t, b]))
                k = lo + nb if fwd else lo
                cut([t, b], [0, k, n])
        else:
            P, Q = l[:4], l[4:13]
            m, n = h.r, h.c
            if r.random() < .6:
                mb = nb = r.choice([0, 0, 1, min(m, n)])
            else:
                mb, nb = r.randint(0, m), r.randint(0, n)
            xs = [P[0], opt(P[1], 0), opt(P[2], 0), P[3]]
            self.c.call("dn_part2", a=a, mb=mb, nb=nb, fwd=fwd, xs=arg(xs))
            kr, kc = (mb, nb) if fwd else (m - mb, n - nb)
            self.cuts(xs, h, [0, kr, m], [0, kc, n])
            for it in range(r.randint(1, 6)):
                if r.random() < .15:
                    fwd = 1 - fwd
                nb = r.choice([1, 1, 2, 3, n, n + 2])
                ys = [Q[k] if k in (0, 4, 8) else opt(Q[k], 0) for k in range(9)]
                self.c.call("dn_repart2", a=a, t=P[0], nb=nb, fwd=fwd, xs=arg(ys))
                nb = min(nb, m - kr, n - kc) if fwd else min(nb, kr, kc)
                lr, lc = (kr, kc) if fwd else (kr - nb, kc - nb)
                self.cuts(ys, h, [0, lr, lr + nb, m], [0, lc, lc + nb, n])
                if r.random() < .4:
                    self.element()
                xs = [P[0], opt(P[1], 0), opt(P[2], 0), P[3]]
                self.c.call("dn_continue2", a=a, t=Q[0], m=Q[4], l=Q[8], fwd=fwd, xs=arg(xs))
                kr, kc = (lr + nb, lc + nb) if fwd else (lr, lc)
                self.cuts(xs, h, [0, kr, m], [0, kc, n])

    def merge(self, y, p, q, how):
        h, g = self.hs[p], self.hs[q]
        if h.size() and g.size() and h.s != g.s:
            return
        self.c.call("dn_merge", x=y, a=p, t=q, how=how)
        if h.size() == 0 and g.size() == 0:
            self.put(y, 0, 0, 0, 0, 0)
        elif h.size() == 0 or g.size() == 0:
            f = g if h.size() == 0 else h
            self.put(y, f.r, f.c, f.s, f.o, f.root)
        elif how == "r":
            self.put(y, h.r + g.r, h.c, h.s, h.o, h.root)
        else:
            self.put(y, h.r, h.c + g.c, h.s, h.o, h.root)

    def run(self, n):
        for _ in range(2):
            self.make()
        for _ in range(n):
            x = self.r.random()
            (self.make if x < .06 else self.view if x < .42 else self.element if x < .72 else
             self.storage if x < .92 else self.partition)()
        for x in NAMES:
            if self.hs[x].heap:
                self.release(x, "free")
            elif self.hs[x].own:
                self.release(x, "release")
        self.c.call("dn_live")
        return self.c


def cases(tier, seed):
    g = Gen(seed * 32452843 + 31)
    n = {"quick": 500, "thorough": 6000}[tier]
    return [Session(g, "views.%d" % k).run(g.r.choice([8, 20, 40, 60])) for k in range(n)]


if __name__ == "__main__":
    ck = Check("C31")
    ck.traces(cases(TIER, SEED), {"vm": vm()}, stall=10.0)
    ck.finish()
