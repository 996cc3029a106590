"""Case generation helpers, execution of cases on the real library, trace checking with TLC,
verdicts and evidence.

A Case is a list of commands; each command is one line of the driver's script plus the event
that TLC sees (completed with what the driver observed).  See spec/Machine.tla.
"""
import json, os, random, re, subprocess, sys, time, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = sys.argv[1] if sys.argv[1:2] in (["quick"], ["thorough"]) else os.environ.get("VERIF_TIER", "quick")
SENT = 2147483647
BUDGET = float(os.environ.get("MBV_BUDGET", "540"))

FLAGS = dict(LOWER=0x1, UPPER=0x2, SYMM=0x4, HERM=0x8, UNIT=0x10, LEFT=0x20, RIGHT=0x40, TRANSA=0x80,
             TRANSB=0x100, TRANS=0x80, CTRANSA=0x200, CTRANSB=0x400, MULTQ=0x800, MULTP=0x1000, WANTQ=0x2000,
             WANTP=0x4000, WANTU=0x8000, WANTV=0x10000, FORWARD=0x20000, BACKWARD=0x40000, ABSA=0x80000,
             ABS=0x80000, ABSB=0x100000, CONJA=0x200000, CONJB=0x400000, HHNEGATIVE=0x800000, NONNEG=0x1000000)
OPTS = dict(NAIVE=0x1, KAHAN=0x2, PAIRWISE=0x4, RECURSIVE=0x8, BLAS_RECURSIVE=0x10, BLAS_BLOCKED=0x20,
            BLAS_TILED=0x40, RROBIN=0x80, RANDOM=0x100, TWO=0x200, BSVD_GOLUB=0x400, BSVD_DEMMEL=0x800,
            ABSTOL=0x1000, EXTPREC=0x2000, ONONNEG=0x4000, CBUF_THREAD=0x8000, CBUF_LOCAL=0x10000)
TLA_ALIAS = {"TRANS": "TRANSA", "ABS": "ABSA", "CONJ": "CONJA"}


def flagbits(fl):
    v = 0
    for f in fl:
        v |= FLAGS[f]
    return v


def optbits(of):
    v = 0
    for f in of:
        v |= OPTS[f]
    return v


class View:
    """rows x cols view with row stride ld at an offset of a named buffer"""
    def __init__(self, b, o, r, c, s):
        self.b, self.o, self.r, self.c, self.s = b, o, r, c, s

    def script(self):
        return "%s,%d,%d,%d,%d" % (self.b, self.o, self.r, self.c, self.s)

    def ev(self):
        return dict(b=self.b, o=self.o, r=self.r, c=self.c, s=self.s)

    def pos(self, i, j):
        return self.o + j * self.s + i

    def vpos(self, i):
        return self.o + (i * self.s if self.r == 1 else i)

    def sub(self, i, j, r, c):
        return View(self.b, self.o + j * self.s + i, r, c, self.s)


class Piv:
    def __init__(self, b, o=0, n=-1):
        self.b, self.o, self.n = b, o, n

    def script(self):
        return "%s,%d,%d" % (self.b, self.o, self.n)

    def ev(self):
        return dict(b=self.b, o=self.o, n=self.n)


def digits(v):
    """balanced digits to the base 2^30"""
    out = []
    for _ in range(4):
        q = v & 0x3fffffff
        q -= (q >= 0x20000000) << 30
        out.append(q)
        v = (v - q) >> 30
    assert v == 0
    return out


def fixpair(v, sh):
    n = v << sh
    h = (n + 16384) >> 15
    return [h, n - (h << 15)]


class Case:
    def __init__(self, cid, env=None, tag="", spec="ArmasTrace", exe="vm"):
        self.id, self.env, self.tag = cid, env or {}, tag
        self.cmds = []      # (script line, event)
        self.bufs = {}
        self.spec = spec
        self.exe = exe
        self.accel = None

    def key(self):
        return json.dumps([self.exe, self.env], sort_keys=True)

    def buf(self, name, data, scale=0, approx=0):
        self.bufs[name] = data
        self.cmds.append(("buf %s d %d %d %d %s" % (name, len(data), scale, approx, " ".join(map(str, data))),
                          dict(k="load", b=name, d=list(data))))

    def ibuf(self, name, data):
        self.bufs[name] = data
        self.cmds.append(("buf %s i %d 0 0 %s" % (name, len(data), " ".join(map(str, data))),
                          dict(k="load", b=name, d=list(data))))

    def xbuf(self, name, data, insc=0, hb=11):
        """fixed-point pair buffer (spec/Fix.tla): values data*2^-insc"""
        self.bufs[name] = data
        self.cmds.append(("buf %s x %d %d %d %s" % (name, len(data), hb, insc, " ".join(map(str, data))),
                          dict(k="load", b=name, d=[fixpair(v, hb + 15 - insc) for v in data])))

    def ebuf(self, name, data):
        """buffer of digit quadruples to the base 2^30 (spec/Ext.tla); data: integers, or (c, k) for c*2^(30k)"""
        self.bufs[name] = data
        txt = " ".join("%d:%d" % v if isinstance(v, tuple) else str(v) for v in data)
        self.cmds.append(("buf %s e %d 0 0 %s" % (name, len(data), txt),
                          dict(k="load", b=name, d=[digits(v[0] << 30 * v[1] if isinstance(v, tuple) else v) for v in data])))

    def poison(self):
        """fill the thread's cache buffer with not-a-numbers before the first call"""
        k = next(i for i, (l, e) in enumerate(self.cmds) if l.startswith("call "))
        self.cmds.insert(k, ("call poison fl=0 of=0", dict(k="call", op="poison", fl=[])))

    def forget(self, v):
        """the elements of view v become not-a-numbers: storage that a call is to overwrite"""
        for i, (line, e) in enumerate(self.cmds):
            if e is not None and e.get("k") == "load" and e["b"] == v.b:
                d = list(e["d"])
                for q in range(v.c):
                    for t in range(v.r):
                        d[v.pos(t, q)] = [2147483647, 0, 0, 0] if isinstance(d[0], list) else 2147483647
                w = line.split(" ")
                if w[2] == "e":
                    t0 = w[:6] + ["9223372036854775807" if x[0] == 2147483647 else o for x, o in zip(d, w[6:])]
                    self.cmds[i] = (" ".join(t0), dict(e, d=d))
                    continue
                self.cmds[i] = (" ".join(w[:-len(d)] + [str(x) for x in d]), dict(e, d=d))
                self.bufs[v.b] = d

    def setaccel(self, name):
        self.cmds.append(("accel %s" % (name or "-"), None))

    def call(self, op, fl=(), of=(), ev=None, **args):
        """args: View/Piv/int/str; (num, text) tuples give TLA value and script text separately"""
        line = ["call", op, "fl=%d" % flagbits(fl), "of=%d" % optbits(of)]
        e = dict(k="call", op=op, fl=[TLA_ALIAS.get(f, f) for f in fl])
        if of:
            e["of"] = list(of)
        for k, v in args.items():
            if v is None:
                line.append("%s=-" % k)
            elif hasattr(v, "script"):
                line.append("%s=%s" % (k, v.script()))
                e[k] = v.ev()
            elif isinstance(v, tuple):
                line.append("%s=%s" % (k, v[1]))
                e[k] = v[0]
            else:
                line.append("%s=%s" % (k, v))
                e[k] = v
        if ev:
            e.update(ev)
        self.cmds.append((" ".join(line), e))


# ---------------------------------------------------------------------------------------------
# random data

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.canary = 0

    def ints(self, n, lo=-3, hi=3):
        return [self.r.randint(lo, hi) for _ in range(n)]

    def junk(self):
        self.canary = (self.canary + 1) % 9973
        return 1000003 + 7 * self.canary

    def xjunk(self):
        self.canary = (self.canary + 1) % 997
        return 5003 + self.canary

    def xmatrix(self, case, name, r, c, fill=None, insc=0, pad=None):
        """as matrix, in a fixed-point buffer; fill gives values scaled by 2^insc"""
        return self.matrix(case, name, r, c, fill=fill, pad=pad, x=insc, junk=lambda: self.xjunk() << insc)

    def xvector(self, case, name, n, kind=None, fill=None, insc=0):
        return self.vector(case, name, n, kind=kind, fill=fill or (lambda i: self.xjunk() << insc), x=insc,
                           junk=lambda: self.xjunk() << insc)

    def matrix(self, case, name, r, c, fill=None, pad=None, scale=0, approx=0, lo=-3, hi=3, junk=None, x=None):
        """parent buffer holding an r x c matrix inside margins of junk; returns the view.
        fill(i,j) gives the entries (None entry -> junk)."""
        pad = self.r.choice([0, 0, 1, 2, 3, 5]) if pad is None else pad
        top = self.r.randint(0, pad) if pad else 0
        ld = max(r + pad, 1)
        off = self.r.choice([0, 1, 2, 3]) + top
        n = off + ld * c + self.r.choice([1, 3])
        junk = junk or self.junk
        d = [junk() for _ in range(n)]
        v = View(name, off, r, c, ld)
        for j in range(c):
            for i in range(r):
                e = fill(i, j) if fill else self.r.randint(lo, hi)
                if e is not None:
                    d[v.pos(i, j)] = e
        if x == "e":
            case.ebuf(name, d)
        elif x is not None:
            case.xbuf(name, d, x)
        else:
            case.buf(name, d, scale, approx)
        return v

    def vector(self, case, name, n, kind=None, fill=None, scale=0, approx=0, lo=-3, hi=3, junk=None, x=None):
        """row or column vector of n elements, strided, inside junk"""
        kind = kind or self.r.choice("rrcc")
        st = self.r.choice([1, 1, 2, 3, 5])
        off = self.r.choice([0, 1, 2, 3])
        m = off + n * st + self.r.choice([1, 4])
        junk = junk or self.junk
        d = [junk() for _ in range(m)]
        v = View(name, off, 1, n, st) if kind == "r" else View(name, off, n, 1, max(n, 1) + self.r.randint(0, 2))
        for i in range(n):
            d[v.vpos(i)] = fill(i) if fill else self.r.randint(lo, hi)
        if x == "e":
            case.ebuf(name, d)
        elif x is not None:
            case.xbuf(name, d, x)
        else:
            case.buf(name, d, scale, approx)
        return v


# ---------------------------------------------------------------------------------------------
# execution

def scratch():
    d = os.path.join(build.BUILD, "run-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def _exec_batch(exe, env, cases, stall=25.0):
    """Run cases in one process (restarted after a crash). Returns {case id: [events]}."""
    out = {}
    todo = list(cases)
    tmp = tempfile.mkdtemp(dir=scratch())
    e = {"PATH": "/usr/bin:/bin", "LANG": "C", "HOME": "/tmp"}
    e.update(env)
    while todo:
        sp, op, ep = (os.path.join(tmp, x) for x in ("in", "out", "err"))
        with open(sp, "w") as f:
            for c in todo:
                f.write("case %s\n" % c.id)
                for line, _ in c.cmds:
                    f.write(line + "\n")
        with open(sp) as fi, open(op, "w") as fo, open(ep, "w") as fe:
            p = subprocess.Popen([exe], stdin=fi, stdout=fo, stderr=fe, env=e, cwd=tmp)
            last, t0, hang = -1, time.time(), False
            while p.poll() is None:
                time.sleep(0.01)
                sz = os.path.getsize(op)
                if sz != last:
                    last, t0 = sz, time.time()
                elif time.time() - t0 > stall:
                    hang = True
                    p.kill()
                    p.wait()
                    break
        rc = p.returncode
        lines = open(op).read().split("\n")
        complete = lines[:-1]
        if rc == 97:
            raise RuntimeError("driver protocol error: " + open(ep).read()[-2000:])
        k, nxt = 0, None
        for ci, c in enumerate(todo):
            evs = []
            need = 1 + len(c.cmds)
            got = complete[k:k + need]
            for (line, ev), obs in zip(c.cmds, got[1:]):
                if ev is None:
                    continue
                ev = dict(ev)
                if ev["k"] == "call":
                    ev.update(json.loads(obs))
                evs.append(ev)
            if len(got) < need:
                # died inside this case
                if len(got) >= 1:
                    ev = c.cmds[len(got) - 1][1]
                    ev = dict(ev) if ev else dict(k="call", op="accel", fl=[])
                else:
                    ev = dict(k="call", op="case", fl=[])
                err = open(ep).read()[-600:]
                ev.update(crash="hang" if hang else "exit %s" % rc, stderr=err, ret=0, err=0, out={})
                evs.append(ev)
                out[c.id] = evs
                nxt = ci + 1
                break
            out[c.id] = evs
            k += need
        if nxt is None:
            if rc != 0 and todo:
                # died after the last case
                out[todo[-1].id].append(dict(k="call", op="exit", fl=[], crash="exit %s at end" % rc,
                                             stderr=open(ep).read()[-600:], ret=0, err=0, out={}))
            break
        todo = todo[nxt:]
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def execute(cases, exes, jobs=8, batch=60, stall=25.0):
    groups = {}
    for c in cases:
        groups.setdefault(c.key(), []).append(c)
    work = []
    for g in groups.values():
        for i in range(0, len(g), batch):
            work.append(g[i:i + batch])
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda w: _exec_batch(exes[w[0].exe], w[0].env, w, stall), work):
            res.update(r)
    return res


# ---------------------------------------------------------------------------------------------
# TLC

class TLCError(Exception):
    pass


def tlc(module, cfg, tracefile=None, workers=8, extra=(), timeout=800, heap="12g", env=None, cwd=None):
    md = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    if tracefile:
        e["TRACE"] = tracefile
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", r.stdout)
    return r.returncode, r.stdout, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def write_trace(path, cases, events):
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(dict(id=c.id, ev=events[c.id]), separators=(",", ":")) + "\n")


def validate(cases, events, spec, stats, timeout=800):
    """Returns the ids of the cases TLC did not accept, {id: reason}."""
    rejected = {}
    todo = [c for c in cases]
    for c in todo:
        if not events[c.id]:
            raise TLCError("empty case " + c.id)
    for attempt in range(4):
        if not todo:
            break
        path = os.path.join(scratch(), "trace-%d.ndjson" % random.randrange(1 << 30))
        write_trace(path, todo, events)
        rc, out, st = tlc(spec + ".tla", spec + ".cfg", path, timeout=timeout)
        stats["states"] = stats.get("states", 0) + st[0]
        stats["distinct"] = stats.get("distinct", 0) + st[1]
        stats["init"] = stats.get("init", 0) + len(todo)
        acc = set(re.findall(r'<<"ACC", "([^"]*)">>', out))
        if rc == 0:
            for c in todo:
                if c.id not in acc:
                    rejected[c.id] = "no action of the specification explains the event"
            os.unlink(path)
            return rejected
        # evaluation error: the observed values left the domain of the specification
        m = re.findall(r"^/\\ cs = (\d+)", out, re.M) or re.findall(r"^cs = (\d+)", out, re.M)
        if not m or not re.search(r"Error", out):
            brief = "\n".join(x for x in out.split("\n") if not x.startswith(("Parsing", "Semantic proc")))
            raise TLCError("TLC failed (exit %d):\n%s" % (rc, brief[:1800]))
        bad = todo[int(m[-1]) - 1]
        err = [x for x in out.split("\n") if "rror" in x or "verflow" in x or "ttempted" in x]
        rejected[bad.id] = "TLC evaluation error: " + " | ".join(err[:6])[:600]
        todo = [c for c in todo if c.id != bad.id and c.id not in acc]
        os.unlink(path)
    else:
        # many evaluation errors: everything that remains undecided is reported as such
        for c in todo:
            rejected.setdefault(c.id, "undecided after repeated evaluation errors")
    return rejected


def strict_position(case, events, spec):
    """Length of the accepted prefix of a rejected case, from a strict TLC run."""
    path = os.path.join(scratch(), "strict-%d.ndjson" % random.randrange(1 << 30))
    write_trace(path, [case], {case.id: events})
    rc, out, st = tlc(spec + ".tla", spec.replace("Trace", "Strict") + ".cfg" if "Trace" in spec else spec + "S.cfg",
                      path, workers=1, timeout=300)
    os.unlink(path)
    ls = re.findall(r"^/\\ ix = (\d+)", out, re.M)
    return (int(ls[-1]) if ls else 0), rc, out


# ---------------------------------------------------------------------------------------------
# verdict

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") != "fixed"]


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.stats = {}
        self.cov = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.samples = []
        self.ntraces = 0
        self.nevents = 0
        self.nrej = 0
        self.opcount = {}
        self.final = []

    # -- reporting ---------------------------------------------------------------------------
    def replay_path(self, name):
        d = os.path.join(EVID, "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def violation(self, what, data):
        p = self.replay_path("%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", what)[:60])
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, what=what, data=data), f, indent=0)
        self.violations.append((what, p))

    def laws(self, module, cfg=None, timeout=600, workers=8, **kw):
        """Model-check a module that states laws of the specification itself."""
        rc, out, st = tlc(module + ".tla", (cfg or module) + ".cfg", workers=workers, timeout=timeout, **kw)
        self.stats["states"] = self.stats.get("states", 0) + st[0]
        self.stats["distinct"] = self.stats.get("distinct", 0) + st[1]
        self.cov.setdefault("model_checked", []).append(dict(module=module, cfg=cfg or module, distinct_states=st[1]))
        if rc != 0:
            raise TLCError("laws of %s do not hold:\n%s" % (module, out[-3000:]))
        return st

    def model(self, module, consts, rest, name, must_fail=False, timeout=600):
        """Model-check a closed model with the given constants; must_fail: the model holds a known defect."""
        f = os.path.join(scratch(), name + ".cfg")
        with open(f, "w") as h:
            h.write("CONSTANTS %s\n%s\n" % (" ".join("%s = %s" % (k, str(v).upper() if isinstance(v, bool) else v)
                                                   for k, v in consts.items()), rest))
        rc, out, st = tlc(module + ".tla", f, timeout=timeout)
        self.stats["states"] = self.stats.get("states", 0) + st[0]
        self.stats["distinct"] = self.stats.get("distinct", 0) + st[1]
        self.cov.setdefault("model_checked", []).append(dict(module=module, cfg=name, distinct_states=st[1],
                                                             constants=consts, defect=must_fail))
        if (rc != 0) != must_fail or "Parsing or semantic analysis failed" in out:
            raise TLCError("%s %s: unexpected outcome %d\n%s" % (module, consts, rc, out[-3000:]))

    def traces(self, cases, exes, spec="ArmasTrace", stall=25.0, batch=60, timeout=600, limit=6, chunk=6000):
        """Execute the cases on the library, validate the traces, confirm and record rejections.
        Works in chunks; stops starting new ones when the time budget is used up (recorded)."""
        ids = [c.id for c in cases]
        assert len(set(ids)) == len(ids), "duplicate case ids"
        rej, events = {}, {}
        n = max(1, -(-len(cases) // chunk))
        if n > 1:
            # keep equal environments together, spread what may be cut off
            random.Random(SEED).shuffle(cases)
        size = -(-len(cases) // n) if cases else 1
        for i in range(n):
            part = cases[i * size:(i + 1) * size]
            if i and (time.time() - self.t0 > BUDGET or len(self.violations) >= limit):
                self.cov["cases_not_run"] = self.cov.get("cases_not_run", 0) + len(cases) - i * size
                break
            r, e = self._traces(part, exes, spec, stall, batch, timeout, limit)
            rej.update(r)
            if n == 1:
                events = e
        return rej, events

    def _traces(self, cases, exes, spec, stall, batch, timeout, limit):
        events = execute(cases, exes, stall=stall, batch=batch)
        if os.environ.get("MBV_DUMP"):
            write_trace(os.environ["MBV_DUMP"], cases, events)
        rej = validate(cases, events, spec, self.stats, timeout)
        self.ntraces += len(cases) - len(rej)
        for c in cases:
            for e in events[c.id]:
                self.nevents += 1
                if e["k"] != "load":
                    self.opcount[e["op"]] = self.opcount.get(e["op"], 0) + 1
        for c in cases:
            if len(self.samples) < 2 and c.id not in rej:
                s = json.dumps(dict(id=c.id, env=c.env, events=events[c.id]))
                if len(s) < 3000:
                    self.samples.append(json.loads(s))
        byid = {c.id: c for c in cases}
        if os.environ.get("MBV_VERBOSE"):
            for cid in rej:
                for e in events[cid]:
                    if e["k"] == "call":
                        print("REJ", cid, byid[cid].tag, byid[cid].env.get("ARMAS_CONFIG"), rej[cid][:150] if "no action" not in rej[cid] else "",
                              {k: v if not isinstance(v, dict) else "%s,%d,%dx%d,%d" % tuple(v.values()) if "r" in v else v
                               for k, v in e.items() if k not in ("k", "out", "stderr")}, "out:" + ",".join(e["out"]))
        kf = known_findings(self.prop)
        done = 0
        for cid, why in rej.items():
            c = byid[cid]
            hit = None
            for k in kf:
                if c.tag and c.tag == k.get("tag"):
                    hit = k
            if hit:
                self.known.append(hit)
                continue
            if done >= limit:
                self.nrej += 1
                continue
            # confirm: run the case again on its own and validate again
            ev2, rej2 = None, {}
            for attempt in range(3):
                ev2 = execute([c], exes, jobs=1, stall=stall)
                rej2 = validate([c], ev2, spec, {}, timeout)
                if rej2:
                    break
            if not rej2:
                # once more in its original company (heap effects, timing)
                ev2 = execute(cases, exes, stall=stall, batch=batch)
                rej2 = validate([c], ev2, spec, {}, timeout)
            if not rej2:
                self.cov.setdefault("unreproduced_rejections", []).append(cid)
                continue
            done += 1
            self.nrej += 1
            pos, _, out = strict_position(c, ev2[c.id], spec)
            bad = ev2[c.id][pos] if pos < len(ev2[c.id]) else None
            brief = {k: v for k, v in (bad or {}).items() if k not in ("d",)}
            self.violation("%s %s" % (cid, (bad or {}).get("op", "")),
                           dict(case=cid, env=c.env, reason=why, accepted_prefix=pos, rejected_event=brief,
                                script=["case"] + [x for x, _ in c.cmds], events=ev2[c.id],
                                how="feed script to the driver (stdin), trace is rejected by spec/%s.tla" % spec))
        return rej, events

    def finish(self, extra=None):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.stats.get("distinct", 0),
                   transitions=max(0, self.stats.get("states", 0) - self.stats.get("init", 0)),
                   traces_validated_against_impl=self.ntraces, events=self.nevents,
                   samples=self.samples, calls_per_operation=self.opcount)
        cov.update(self.cov)
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k in self.known:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k["id"], k["what"]))
        shutil.rmtree(scratch(), ignore_errors=True)
        print("%s %s: %d traces, %d events accepted by TLC, %d states, %.1fs" %
              (self.prop, TIER, self.ntraces, self.nevents, self.stats.get("states", 0), time.time() - self.t0))
        if self.violations:
            for what, p in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("%d rejected case(s) in all" % self.nrej)
            sys.exit(1)
        sys.exit(0)


def vm_sources():
    d = os.path.join(VERIF, "driver")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f == "main.c" or re.match(r"vm(_\w+)?\.c$", f)]


def vm(variant="plain"):
    return build.driver("vm", variant, srcs=vm_sources())


def vm_sched():
    return build.sched_driver(vm_sources())
