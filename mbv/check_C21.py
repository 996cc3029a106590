"""Calls with operands that do not conform: one operand of an otherwise valid call gets another shape.
spec/Err.tla decides whether the shapes still conform; if not, the call must be refused."""
import importlib, re
from run import *

SOURCES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C28", "C27"]
SKIP = {"poison", "dot", "asum", "nrm2", "amax", "iamax", "iamin", "adot", "ext_adot", "ext_sum", "allclose", "intolerance", "gvcompute", "gvrot_vec",
        "gvleft", "gvright", "gvupdate", "bdsvd2x2", "bdsvd2x2_vec", "sym_eigen2x2", "sym_eigen2x2vec", "qdroots", "discriminant",
        "size_rbt", "pivot_index", "house", "hhouse", "houseapply", "sort_vec", "abs_sort_vec", "qsort_vec", "pivot_sort",
        "sort_eigenvec", "mnorm", "exit", "set_values", "set_all", "make_trm", "apply", "apply2", "iterate", "scale_to"}


def shapes(g, v):
    """other shapes for view v"""
    r, c = v["r"], v["c"]
    s = [(r - 1, c), (r, c - 1), (r + 1, c), (r, c + 1), (r + 1, c + 1), (c, r), (0, c), (r, 0), (0, 0), (1, c), (r, 1), (2 * r, c), (r, 2 * c)]
    if r == 1 or c == 1:
        s += [(2, r * c), (r * c, 2), (r * c - 1, 1), (1, r * c - 1), (r * c + 1, 1)]
    return sorted({x for x in s if min(x) >= 0 and x != (r, c) and x[0] * x[1] <= 3000})


def probe(g, cid, src, k, op=None):
    """case src up to call k; that call with one operand changed, and others after it"""
    line, ev = src.cmds[k]
    loads = [(l, e) for l, e in src.cmds[:k] if e and e["k"] == "load"]
    views = [a for a, v in ev.items() if isinstance(v, dict) and "r" in v]
    pivs = [a for a, v in ev.items() if isinstance(v, dict) and set(v) == {"b", "o", "n"} and v["n"] > 0]
    muts = [(a, s) for a in views for s in shapes(g, ev[a])] + [(a, ev[a]["n"] + d) for a in pivs for d in (-1, 1, 2)]
    if not muts:
        return None
    name = ev["op"].replace("_w", "")
    if name in ("bdmult", "bdbuild"):
        both = ["MULTQ", "MULTP"] if name == "bdmult" else ["WANTQ", "WANTP"]
        muts += 3 * [("fl", [f for f in ev["fl"] if f not in both]), ("fl", sorted(set(ev["fl"] + both)))]
    c = Case(cid, dict(src.env))
    kinds = {e["b"]: l.split()[2:] for l, e in loads}
    c.cmds = list(loads)
    n = 0
    # a buffer for the changed operand
    out = []
    for a, s in g.r.sample(muts, min(len(muts), 5)):
        e = json.loads(json.dumps(ev))
        z = "z%d" % n
        n += 1
        if a == "fl":
            e["fl"], e["probe"] = s, True
            bits = flagbits([{"TRANSA": "TRANS"}.get(f, f) for f in s])
            out.append((re.sub(r" fl=[0-9]*", " fl=%d" % bits, line), e))
            continue
        if a in pivs:
            c.ibuf(z, list(range(1, s + 1)))
            e[a] = dict(b=z, o=0, n=s)
            txt = "%s,0,%d" % (z, s)
        else:
            kd = kinds[ev[a]["b"]]
            if kd[0] == "i":
                continue
            r, cc = s
            ld = r + g.r.choice([0, 0, 1, 2]) if r else 1
            size = ld * max(cc, 1) + 2
            val = [g.r.randint(1, 3) for _ in range(size)]
            if kd[0] == "x":
                c.xbuf(z, val)
            else:
                c.buf(z, val, int(kd[2]), int(kd[3]))
            v = View(z, g.r.choice([0, 1]), r, cc, max(ld, 1))
            e[a] = v.ev()
            txt = v.script()
        l2, m = re.subn(r"(?<= )%s=[^ ]*" % a, "%s=%s" % (a, txt), line)
        assert m == 1, (line, a)
        e["probe"] = True
        out.append((l2, e))
    c.cmds += out
    return c if out else None


def cases(tier, seed):
    g = Gen(seed * 104729 + 21)
    per = {"quick": 14, "thorough": 120}[tier]
    cs = []
    pool = {}
    for s in SOURCES:
        try:
            m = importlib.import_module("check_" + s)
        except ModuleNotFoundError:
            continue
        for c in m.cases("quick", seed):
            if c.exe != "vm" or c.spec != "ArmasTrace":
                continue
            for k, (line, ev) in enumerate(c.cmds):
                if ev and ev["k"] == "call" and ev["op"] not in SKIP:
                    pool.setdefault(ev["op"], []).append((c, k))
    n = 0
    for op in sorted(pool):
        for src, k in g.r.sample(pool[op], min(per, len(pool[op]))):
            p = probe(g, "%s.%d" % (op, n), src, k)
            n += 1
            if p:
                cs.append(p)
    return cs


if __name__ == "__main__":
    ck = Check("C21")
    ck.traces(cases(TIER, SEED), {"vm": vm()}, stall=10.0)
    ck.finish()
