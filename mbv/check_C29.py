"""Cache buffers: sessions of threads taking, selecting, using and giving back cache buffers; what an
operation writes to and whether it gives back what it takes.  spec/Cbuf.tla, CbufOk of spec/Machine.tla"""
from run import *
import configs, gen_blas3 as b3

CONFS = [({}, 262144, 32768)]
for cache, cm, l1 in [("4096,1024", 4096, 1024), ("4k,1k", 4096, 1024), ("8192,4096", 8192, 4096),
                      ("5000,2000", 5000, 2000), ("4130,1030", 4130, 1030), ("6K,1k", 6144, 1024), ("16k,4k", 16384, 4096)]:
    for conf in ["64,64,160,4,8,4", "32,32,32,6,16,2", "16,32,16,5,3,3", "64,16,16,7,5,8", "12,20,24,3,4,5,y",
                 "4,4,6,3,4,5,y", "8,12,16,3,4,5,y", "1,1000,3,4,4,4", "1000,1,3,4,4,4", "3,5,100000,8,8,8"]:
        CONFS.append(({"ARMAS_CACHE": cache, "ARMAS_CONFIG": conf}, cm, l1))
OPTS = [(), ("NAIVE",), ("RECURSIVE",), ("CBUF_LOCAL",), ("CBUF_LOCAL",), ("CBUF_LOCAL", "RECURSIVE"), ("CBUF_THREAD",),
        ("CBUF_LOCAL", "NAIVE")]


class Part:
    """the case of a generator of single operations as one step of a session"""
    def __init__(self, c, suffix, of, kw):
        self.c, self.sfx, self.of, self.kw = c, suffix, of, kw
        self.id, self.env = c.id, c.env

        self.bufs = {}

    def buf(self, name, data, *a):
        self.bufs[name] = data
        self.c.buf(name + self.sfx, data, *a)

    def forget(self, v):
        b = v.b
        if not b.endswith(self.sfx):
            v.b = b + self.sfx
        self.c.forget(v)
        v.b = b

    def call(self, op, fl=(), of=(), ev=None, **args):
        for v in args.values():
            if isinstance(v, View) and not v.b.endswith(self.sfx):
                v.b += self.sfx
        e = dict(ev or {})
        e["t"] = self.kw["t"]
        self.c.call(op, fl, self.of, ev=e, **args, **self.kw)


class Session:
    def __init__(self, g, cid, conf):
        self.g, self.r = g, g.r
        env, self.cm, self.l1 = conf
        c = self.c = Case(cid, env)
        c.ibuf("CM", [self.cm, self.l1])
        for t in range(4):
            c.ibuf("G%d" % t, [0, 0])
        c.ibuf("WK", [0, 0])
        for s in range(6):
            c.ibuf("S%d" % s, [0, 0, 0])
        self.has = set()
        self.sel = {}          # slot -> ("own"/"thread"/"work"/"make", thread)
        self.wk = (0, 0)
        self.nt = self.r.choice([1, 2, 4])
        self.n = 0
        c.call("cb_begin")

    def thr(self):
        return self.r.randrange(self.nt)

    def thread(self, t=None):
        t = self.thr() if t is None else t
        self.c.call("cb_thread", on=t, create=self.r.randint(0, 1))
        self.has.add(t)

    def unthread(self):
        t = self.thr()
        self.c.call("cb_unthread", on=t)
        self.has.discard(t)
        for s in [s for s, (k, u) in self.sel.items() if k == "thread" and u == t]:
            del self.sel[s]

    def slot(self):
        l = [k for k in range(6) if self.sel.get(k, ("",))[0] not in ("own", "make")]
        return self.r.choice(l) if l else None

    def init(self):
        k = self.slot()
        if k is not None:
            n = self.r.choice([1, 64, 1000, 1024, 1025, 2048, 4096, 4130, 10001, 65536])
            self.c.call("cb_init", s="S%d" % k, n=n, wantl1=self.r.choice([0, 512, 1024, 4096]))
            self.sel[k] = ("own", 0)

    def make(self):
        k = self.slot()
        if k is not None:
            self.c.call("cb_make", s="S%d" % k, n=self.r.choice([1024, 1024, 1088, 1100, 4096, 4100, 9000]), o=self.r.choice([0, 0, 0, 8, 24, 56, 64]),
                        wantl1=self.r.choice([0, 512, 1024]))
            self.sel[k] = ("make", 0)

    def select(self):
        k = self.slot()
        if k is None:
            return
        t = self.thr()
        of = self.r.choice([(), (), ("CBUF_LOCAL",), ("CBUF_THREAD",), ("NAIVE",)])
        kw = {}
        self.c.call("cb_select", (), of, s="S%d" % k, on=t, wantl1=self.l1)
        if self.wk[0] > 0 and self.wk[0] - self.wk[1] >= self.cm:
            self.sel[k] = ("work", 0)
        elif "CBUF_LOCAL" in of:
            self.sel[k] = ("own", 0)
        else:
            self.sel[k] = ("thread", t)
            self.has.add(t)

    def release(self):
        if self.sel:
            k = self.r.choice(sorted(self.sel))
            self.c.call("cb_release", s="S%d" % k)
            if self.sel[k][0] == "own":
                del self.sel[k]

    def setup(self):
        r = self.r
        if self.sel:
            k = r.choice(sorted(self.sel))
            if self.sel[k][0] == "make" and False:
                return
            d = lambda: r.choice([1, 2, 3, 4, 5, 8, 12, 16, 31, 32, 64, 100, 160, 1000, 100000])
            self.c.call("cb_setup", s="S%d" % k, three=r.randint(0, 1), mb=d(), nb=d(), kb=d(), env=int(r.random() < .4))

    def work(self):
        r = self.r
        for s in [s for s, (k, u) in self.sel.items() if k == "work"]:
            del self.sel[s]
        n, o = 0, 0
        if r.random() < .7:
            o = r.choice([0, 0, 8, 64, 104, 512])
            n = o + self.cm + r.choice([-8, 0, 0, 0, 8, 64, 1000, -self.cm + 640])
        self.wk = (n, o)
        self.c.call("cb_work", n=n, o=o)

    def oper(self):
        r, g = self.r, self.g
        t = self.thr()
        if r.random() < .8:
            if t not in self.has:
                self.thread(t)
            cb = 1
        else:
            if t in self.has:
                self.c.call("cb_unthread", on=t)
                self.has.discard(t)
                for s in [s for s, (k, u) in self.sel.items() if k == "thread" and u == t]:
                    del self.sel[s]
            cb = 2
        self.n += 1
        p = Part(self.c, "_%d" % self.n, r.choice(OPTS), dict(t=t, cb=cb))
        b3.Case = lambda cid, env=None: p
        try:
            d = lambda: r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 19])
            k = r.randrange(7)
            if k == 0:
                b3.gemm(g, "", {}, mnk=(d(), d(), d()))
            elif k == 1:
                b3.symm(g, "", {}, mn=(d(), d()))
            elif k == 2:
                b3.trmm(g, "", {}, mn=(d(), d()))
            elif k == 3:
                b3.trsm(g, "", {}, mn=(d(), d()))
            elif k == 4:
                b3.syrk(g, "", {}, nk=(d(), d()))
            elif k == 5:
                b3.syrk(g, "", {}, op="update2_sym", nk=(d(), d()))
            else:
                b3.updtrm(g, "", {}, mnk=(d(), d(), d()))
        finally:
            b3.Case = Case
        if r.random() < .5:
            self.c.call("cb_kept")

    def run(self, n):
        st = [(self.oper, 30), (self.select, 14), (self.setup, 20), (self.release, 10), (self.thread, 5), (self.unthread, 5),
              (self.init, 5), (self.make, 5), (self.work, 6)]
        for _ in range(n):
            f = self.r.choices([f for f, w in st], [w for f, w in st])[0]
            f()
        for k in sorted(self.sel):
            if self.sel[k][0] == "own":
                self.c.call("cb_release", s="S%d" % k)
        for t in sorted(self.has):
            self.c.call("cb_unthread", on=t)
        self.c.call("cb_live")
        return self.c


def par(g, cid, env):
    """the same product on several threads at the same time"""
    r = g.r
    c = Case(cid, env)
    m, n, k = [r.choice([3, 8, 13, 20, 31, 40]) for _ in range(3)]
    fl = [f for f in ("TRANSA", "TRANSB") if r.random() < .5]
    A = g.matrix(c, "A", *((k, m) if "TRANSA" in fl else (m, k)))
    B = g.matrix(c, "B", *((n, k) if "TRANSB" in fl else (k, n)))
    nt, of = r.choice([2, 3, 4]), r.choice([(), (), ("CBUF_LOCAL",), ("RECURSIVE",)])
    pad = r.randint(0, 2)
    R = View("R", 0, m, n, m + pad)
    data = [g.junk() for _ in range((m + pad) * n)]
    c.buf("R", data)
    Cs = {}
    for t in range(nt):
        c.buf("C%d" % t, data)
        Cs["C%d" % t] = View("C%d" % t, 0, m, n, m + pad)
    c.call("mult", fl, of, be=0, C=R, al=2, A=A, B=B)
    c.call("cb_par", fl, of, ev=dict(Cs=[v.ev() for v in Cs.values()], R=R.ev()), A=A, B=B, al=2, nt=nt, n=r.choice([1, 5, 20]),
           **{x: (v.ev(), v.script()) for x, v in Cs.items()})
    return c


def cases(tier, seed):
    g = Gen(seed * 49979687 + 29)
    ns, np = {"quick": (400, 60), "thorough": (6000, 600)}[tier]
    out = [Session(g, "cb.%d" % k, g.r.choice(CONFS)).run(g.r.choice([6, 15, 30])) for k in range(ns)]
    out += [par(g, "par.%d" % k, g.r.choice(CONFS)[0]) for k in range(np)]
    return out


if __name__ == "__main__":
    ck = Check("C29")
    ck.traces(cases(TIER, SEED), {"vm": vm()}, stall=10.0)
    ck.finish()
