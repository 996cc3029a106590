"""Workspace: the buffer itself, and every operation that takes one: by itself, with exactly the queried
size, with more, with less, without.  spec/Work.tla"""
import importlib, re
from run import *

SOURCES = ["C13", "C14", "C15", "C16", "C17", "C18", "C19", "C28"]
PAIRED = set("""bdbuild bdmult bdreduce bdsvd bkfactor bksolve cholfactor cholinverse dqds eigen_sym eigen_sym_selected hessmult
hessreduce housemult ldlfactor ldlinverse lqbuild lqfactor lqmult lqsolve luinverse qlbuild qlfactor qlmult qrbuild qrfactor
qrmult qrsolve qrtfactor rqbuild rqfactor rqmult svd trdbuild trdeigen trdmult trdreduce""".split())
BIG = [2 ** 61, 2 ** 61 + 1, 2 ** 62, 2 ** 63, 2 ** 64 - 8, 2 ** 63 + 2, 2 ** 60 + 3, 2 ** 64 - 1]


def base(op):
    return op[:-2] if op.endswith("_w") else op


def paired(ev):
    # cholfactor_w without pivots takes no workspace, nor has it a size query
    return ev and ev["k"] == "call" and base(ev["op"]) in PAIRED and not (base(ev["op"]) == "cholfactor" and "P" not in ev)


def retarget(line, ev, suffix, ws=None):
    """same command on other buffers; ws: None = as it allocates its own, else extra arguments"""
    ev = json.loads(json.dumps(ev)) if ev else None
    if line.startswith("buf "):
        t = line.split(" ", 2)
        ev["b"] += suffix
        return "buf %s%s %s" % (t[1], suffix, t[2]), ev
    if not line.startswith("call "):
        return line, ev
    for k, v in list(ev.items()):
        if isinstance(v, dict) and "b" in v:
            v["b"] += suffix
    line = re.sub(r"(?<= )(\w+)=([A-Za-z]\w*),", lambda m: "%s=%s%s," % (m.group(1), m.group(2), suffix), line)
    if paired(ev):
        for k in ("wo", "wx", "wp"):
            line = re.sub(r" %s=-?\d+" % k, "", line)
            ev.pop(k, None)
        b = base(ev["op"])
        t = line.split(" ")
        t[1] = ev["op"] = b if ws is None else b + "_w"
        line = " ".join(t)
        for k, v in (ws or {}).items():
            line += " %s=%d" % (k, v)
            ev[k] = v
    return line, ev


def twins(g, cid, src):
    """the case on one set of buffers with workspaces of the library's own, on another with the caller's"""
    c = Case(cid, dict(src.env))
    pairs = []
    body = [(l, e) for l, e in src.cmds if not l.startswith("call poison")]
    names = [(e["b"], l.split()[2]) for l, e in body if e and e["k"] == "load"]
    if len({n for n, k in names}) != len(names):
        return None
    for suf, ws in (("", None), ("_q", {})):
        for l, e in body:
            w = None if ws is None else dict(wo=g.r.choice([0, 0, 8, 64, 120]), wx=g.r.choice([0, 0, 0, 8, 256]))
            c.cmds.append(retarget(l, e, suf, w))
    for n, k in names:
        pairs.append([n, n + "_q", "x" if k == "x" else "d"])
    c.call("same", ev=dict(pairs=pairs))
    return c


def short(g, cid, src):
    """up to some call as given, that one with less workspace than it asked for"""
    at = [k for k, (l, e) in enumerate(src.cmds) if paired(e)]
    k = g.r.choice(at)
    c = Case(cid, dict(src.env))
    for i, (l, e) in enumerate(src.cmds[:k]):
        c.cmds.append((l, e))
    l, e = src.cmds[k]
    w = dict(wo=g.r.choice([0, 0, 16]), wx=0, wp=g.r.choice([0, 1, 5, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99]))
    c.cmds.append(retarget(l, e, "", w))
    return c


def session(g, cid):
    r = g.r
    c = Case(cid)
    c.ibuf("W", [0, 0])
    for life in range(r.randint(1, 3)):
        n = r.choice([8, 16, 24, 40, 64, 100, 101, 160, 256, 1000, r.randint(1, 300)])
        how = r.choice(["alloc", "alloc", "attach", "new"])
        off = 0
        if how == "attach":
            off = r.choice([0, 8, n, r.randint(0, n)])
            c.call("wb_attach", w="W", n=n, o=off)
        else:
            c.call("wb_" + how, w="W", n=n)
        for _ in range(r.randint(3, 14)):
            x = r.random()
            if x < .3:
                c.call("wb_bytes", w="W", n=r.choice([0, 1, 3, 8, 16, 24, n, n - 8 if n > 8 else 1, n + 1, r.randint(0, n)]))
            elif x < .5:
                c.call("wb_elems", w="W", n=r.choice([0, 1, 2, n // 8, n // 8 + 1, r.randint(0, n // 4 + 1)]), m=r.choice([1, 4, 8, 8, 8, 24, 0]))
            elif x < .54:
                c.call("wb_elems", w="W", n=1073741823, m=r.choice([8, 8, 16, 4]), big=(0, str(r.choice(BIG[:6]))))
            elif x < .57:
                c.call("wb_bytes", w="W", n=1073741823, big=(0, str(r.choice(BIG))))
            elif x < .66:
                c.call("wb_bits", w="W", n=r.choice([0, 1, 7, 8, 9, 64, 65, 8 * n, 8 * n + 1, r.randint(0, 8 * n)]))
            elif x < .72:
                c.call("wb_reset", w="W")
            elif x < .84:
                c.call("wb_setpos", w="W", n=r.choice([0, n, n + 1, n + 8, 8, r.randint(0, n)]))
            elif x < .9:
                c.call("wb_kept")
            elif x < .93:
                c.call("wb_zero", w="W", n=r.choice([0, 1, n, n + 1, r.randint(0, n)]))
            elif x < .95:
                c.call("wb_none")
            c.call("wb_get", w="W")
        c.call("wb_kept")
        c.call("wb_free" if how == "new" else "wb_release", w="W")
    return c


def cases(tier, seed):
    g = Gen(seed * 15485863 + 20)
    per, sess = {"quick": (18, 150), "thorough": (150, 2000)}[tier]
    cs = [session(g, "sess.%d" % k) for k in range(sess)]
    pool = {}
    for s in SOURCES:
        m = importlib.import_module("check_" + s)
        for c in m.cases("quick", seed):
            if c.exe == "vm" and c.spec == "ArmasTrace":
                for op in {base(e["op"]) for l, e in c.cmds if paired(e)}:
                    pool.setdefault(op, []).append(c)
    n = 0
    for op in sorted(pool):
        for src in g.r.sample(pool[op], min(per, len(pool[op]))):
            c = twins(g, "twin.%s.%d" % (op, n), src)
            if c:
                cs.append(c)
            n += 1
        for src in g.r.sample(pool[op], min(2 * per, len(pool[op]))):
            cs.append(short(g, "short.%s.%d" % (op, n), src))
            n += 1
    return cs


if __name__ == "__main__":
    ck = Check("C20")
    ck.traces(cases(TIER, SEED), {"vm": vm()}, stall=10.0)
    ck.finish()
