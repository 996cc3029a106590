"""Matrix Market files: written, read, malformed and truncated.  spec/Stream.tla"""
from run import *
from check_C25 import limbs, real, codes


class File:
    def __init__(self, r):
        self.r = r

    def number(self):
        r = self.r
        k = r.random()
        if k < .4:
            return str(r.choice([0, 1, 7, 10, -1, -12, 305, 1000]))
        if k < .7:
            return "%d.%d" % (r.randint(-30, 30), r.choice([0, 5, 25, 75, 125, 375]))
        if k < .9:
            return "%d%s%s%s%02d" % (r.randint(-20, 20), r.choice(["", ".5", ".25"]), r.choice("eE"), r.choice(["", "+", "-"]), r.randint(0, 3))
        return r.choice(["+1.5", "-0.125", "0.1", "1.0000000000000000e+00", "+12", "-2.5000e-01"])

    def banner(self, coo, sym):
        r = self.r
        w = ["%%MatrixMarket", "matrix", "coordinate" if coo else "array", "real", "symmetric" if sym else "general"]
        if r.random() < .4:
            w = [r.choice([str.lower, str.upper, str.title, str])(x) for x in w]
        sep = r.choice([" ", " ", " ", " ", " ", "  ", "\t"])
        return sep.join(w) + r.choice(["", "", "", "", " ", "\r"])

    def comments(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append(r.choice(["% a comment", "%", "%% 1 2 3", "%-----"]))
        if r.random() < .12:
            out.append("")
        return out

    def row(self, w):
        r = self.r
        return r.choice(["", "", "", "", " "]) + r.choice([" ", " ", " ", "  ", "\t"]).join(w) + r.choice(["", "", "", "", " ", "\r"])

    def parts(self):
        """banner, comments, size, entries (each a list of words)"""
        r = self.r
        coo, sym = r.random() < .55, r.random() < .35
        m = r.choice([1, 1, 2, 3, 4])
        n = m if sym else r.choice([1, 2, 3, 4])
        if coo:
            pos = [(i, j) for i in range(m) for j in range(n) if not sym or i >= j]
            r.shuffle(pos)
            pos = pos[:r.choice([0, 1, 2, 3, 5, 16])]
            ents = [[str(i + 1), str(j + 1), self.number()] for i, j in pos]
            size = [str(m), str(n), str(len(ents))]
        else:
            ents = [[self.number()] for _ in range(n * (n + 1) // 2 if sym else m * n)]
            size = [str(m), str(n)]
        return coo, sym, m, n, size, ents

    def text(self, banner, comments, size, ents):
        r = self.r
        lines = [banner] + comments + [self.row(size)]
        for e in ents:
            if r.random() < .02:
                lines.append("")
            if r.random() < .02:
                lines.append("% between")
            lines.append(self.row(e))
        return "\n".join(lines) + ("\n" if r.random() < .8 else "")

    def file(self):
        r = self.r
        coo, sym, m, n, size, ents = self.parts()
        ban, com = self.banner(coo, sym), self.comments()
        k = r.random()
        if k < .35:
            return self.text(ban, com, size, ents)
        if k < .5:                      # banner
            w = ban.split()
            i = r.randrange(len(w))
            x = r.random()
            if x < .3:
                del w[i]
            elif x < .6:
                w[i] = r.choice(["vector", "pattern", "complex", "skew-symmetric", "realx", "matrixx", "arrays", "coordinate", "array", "real", "general",
                                 "%MatrixMarket", "MatrixMarket", "%%MatrixMarketx", "%%Matrix", "generally", "symmetrical", "hermitian", "float", "integers"])
            elif x < .8:
                w.append(r.choice(["more", "real", "%", "general"]))
            else:
                w[i] = w[i][:-1]
            return self.text(" ".join(w), com, size, ents)
        if k < .65:                     # size
            size = list(size)
            x = r.random()
            i = r.randrange(len(size))
            if x < .2:
                del size[i]
            elif x < .4:
                size.append(r.choice(["1", "0", "x", str(len(ents))]))
            elif x < .8:
                size[i] = r.choice(["x", "-1", "-" + size[i], size[i] + "x", "1.5", "", "2e0", str(int(size[i]) + 1), str(max(0, int(size[i]) - 1)), "99999999999"])
            else:
                return self.text(ban, com, [], [])
            return self.text(ban, com, size, ents)
        if k < .9 and ents:             # entries
            ents = [list(e) for e in ents]
            i = r.randrange(len(ents))
            x = r.random()
            if x < .15:
                del ents[i]
            elif x < .3:
                ents.insert(i, ents[i] if not coo else [str(m), str(1), "2.5"])
            elif x < .5:
                j = r.randrange(len(ents[i]))
                ents[i][j] = r.choice(["x", "1x", "--1", "abc", "1,5", "e5", "-", "+", "1.5.2", "1e", "$"])
            elif x < .6:
                ents[i].append(r.choice(["1", "0.5", "x"]))
            elif x < .7:
                ents[i].pop()
            elif coo:
                j = r.randrange(2)
                d = [m, n][j]
                ents[i][j] = r.choice(["0", "-1", str(d + 1), str(d + 2), "1.5", "1e0", "1 "])
                if sym and r.random() < .5:
                    ents[i][0], ents[i][1] = "1", str(n)
            else:
                ents = ents[:i] + ([[]] if r.random() < .5 else [])
            return self.text(ban, com, size, ents)
        s = self.text(ban, com, size, ents)
        if k < .96:
            return s[:r.randrange(len(s))]
        return r.choice(["", "\n", "%", "%%MatrixMarket\n", "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix array real general\n",
                         "%%MatrixMarket matrix array real general\n% only\n", "1 2\n", "%%MatrixMarket matrix coordinate real general\n\n\n"])


def loads(g, cid, n):
    c, F = Case(cid), File(g.r)
    for k in range(n):
        s = codes(F.file())
        b = "J%d" % k
        c.ibuf(b, s or [32])
        c.call(g.r.choice(["mm_load", "mm_spload"]), x=b, n=len(s))
    return c


def trips(g, cid, n):
    r = g.r
    c = Case(cid)
    for k in range(n):
        x, y = "B%d" % k, "D%d" % k
        if r.random() < .5:
            sym = r.random() < .4
            m = r.choice([1, 2, 3, 4])
            q = m if sym else r.choice([1, 2, 3])
            c.ibuf(x, [v for _ in range(m * q) for v in real(r)])
            c.ibuf(y, [-1] * (4 * m * q))
            c.call("mm_trip", ["SYMM"] if sym else [], x=x, y=y, r=m, c=q, s=m + r.choice([0, 0, 1, 2]))
        else:
            sym = r.random() < .3
            m = r.choice([1, 2, 3, 5])
            q = m if sym else r.choice([1, 2, 4])
            pos = [(i, j) for i in range(m) for j in range(q) if not sym or i >= j]
            r.shuffle(pos)
            pos = pos[:r.choice([0, 1, 3, 6])]
            c.ibuf(x, [v for i, j in pos for v in [i, j] + real(r)] or [0])
            c.ibuf(y, [-1] * (6 * len(pos)) or [0])
            c.call("mm_sptrip", x=x, y=y, r=m, c=q, n=len(pos), kind=r.randint(0, 2), sym=1 if sym else 0)
    return c


def cases(tier, seed):
    g = Gen(seed * 86028121 + 26)
    n = {"quick": 800, "thorough": 16000}[tier]
    out = []
    for k in range(n):
        out += [loads(g, "load.%d" % k, 6), trips(g, "trip.%d" % k, 2), loads(g, "load'.%d" % k, 6)]
    for k, c in enumerate(out):
        if k % 6 >= 3:
            c.exe = "asan"
    return out


if __name__ == "__main__":
    ck = Check("C26")
    ck.traces(cases(TIER, SEED), {"vm": vm(), "asan": vm("asan")}, stall=10.0)
    ck.finish()
