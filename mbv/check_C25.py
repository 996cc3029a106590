"""JSON: tokens and matrices, valid, malformed and truncated streams.  spec/Stream.tla"""
import struct
from run import *

LIT = ["true", "false", "null"]


def codes(s):
    return [b for b in (s if isinstance(s, bytes) else s.encode("latin-1"))]


def limbs(v):
    u = struct.unpack(">Q", struct.pack(">d", v))[0]
    return [(u >> 48) & 0xffff, (u >> 32) & 0xffff, (u >> 16) & 0xffff, u & 0xffff]


def real(r, bad=0.0):
    if r.random() < bad:
        return limbs(r.choice([float("inf"), -float("inf"), float("nan")]))
    k = r.random()
    if k < .3:
        return limbs(r.choice([0.1, -0.3, 1 / 3, 2 / 3, 1e-5, 123456789.123456789, 0.0, -0.0, 1e22, 1e23, 5e-324, 1.7976931348623157e308,
                               2.2250738585072014e-308, 1 + 2 ** -52, 1 - 2 ** -53]))
    if k < .6:
        return limbs(r.uniform(-10, 10))
    while True:
        w = [r.randint(0, 65535) for _ in range(4)]
        if (w[0] >> 4) % 2048 != 2047:
            return w


class Doc:
    """streams"""
    def __init__(self, r):
        self.r = r

    def ws(self):
        r = self.r
        return "".join(r.choice(" \t\n\r") for _ in range(r.randint(1, 2))) if r.random() < .25 else ""

    def number(self):
        r = self.r
        k = r.random()
        if k < .35:
            return str(r.choice([0, 1, 7, 10, -1, -12, 305, 1000, -0]))
        if k < .6:
            return "%d.%d" % (r.randint(-30, 30), r.choice([0, 5, 25, 75, 125, 375, 500]))
        if k < .8:
            return "%d%s%s%s%d" % (r.randint(-20, 20), r.choice(["", ".5", ".25"]), r.choice("eE"), r.choice(["", "+", "-"]), r.randint(0, 3))
        if k < .9:
            return "-0.%d" % r.choice([5, 25, 125])
        return r.choice(["0.1", "1e-3", "123456.789", "-0", "0e0", "1E5", "0.000"])

    def badnumber(self):
        r = self.r
        return r.choice(["01", "-", "-01", "1.", ".5", "1.e3", "1e", "1e+", "1e+-2", "1e5.5", "1.2.3", "--1", "+1", "1-2", "0x10", "1a", "00",
                         "1e--2", "-.5", "1E+", "1,,", "nan", "inf", "-inf", "NaN", "1_0", "1e5e5", "-e5"])

    def string(self):
        r = self.r
        n = r.choice([0, 1, 3, 4, 6, 6, 7, 8, 12, 20])
        out = '"'
        for _ in range(n):
            k = r.random()
            if k < .6:
                out += r.choice("abcXYZ019 _.,:{}[]-'")
            elif k < .8:
                out += "\\" + r.choice('"\\/bfnrt')
            elif k < .88:
                out += "\\u00" + ("%02x" if r.random() < .5 else "%02X") % r.randint(1, 126)
            elif k < .97:
                out += chr(r.randint(0x80, 0xff))
            else:
                out += "\x7f"
        return out + '"'

    def badstring(self):
        r = self.r
        return r.choice(['"\\x"', '"\\u12g4"', '"abc', '"\n"', '"\\', '"\\u00', '"a\x01"', '"\\u00zz"', '"\t"', '"\\"', '"\\a"', "'a'"])

    def token(self):
        r = self.r
        k = r.random()
        return self.number() if k < .3 else self.string() if k < .6 else r.choice(LIT) if k < .75 else r.choice("{}[]:,")

    def badtoken(self):
        r = self.r
        k = r.random()
        return self.badnumber() if k < .4 else self.badstring() if k < .7 else r.choice(
            ["tru", "truf", "nul", "True", "fals", "falsy", "x", "$", "\x01", "\x7f", "\xe9", "%", "nil", "NULL", "\x0c", "=", ";", "/", "*"])

    def mutate(self, s):
        r = self.r
        s = list(s)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not s:
                break
            i = r.randrange(len(s))
            k = r.random()
            if k < .3:
                del s[i]
            elif k < .55:
                s[i] = r.choice('{}[]:,"\\ 0123456789.eE+-ntfu\n\x01x')
            elif k < .75:
                s.insert(i, r.choice('{}[]:,"\\ 019.e-\n'))
            elif k < .9:
                del s[i:]
            else:
                j = r.randrange(len(s))
                s[i], s[j] = s[j], s[i]
        return "".join(s)

    def stream(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 8])
        s = self.ws()
        prev = ""
        for _ in range(n):
            t = self.token()
            if prev and prev[-1].isdigit() and t[0] not in "]},":
                s += r.choice([" ", "\n", ","])
            s += t + self.ws()
            prev = s
        k = r.random()
        if k < .3:
            s += ("" if not s or s[-1] in " \n,]}" else " ") + self.badtoken() + r.choice(["", " ", ",", "1"])
        elif k < .5 and s:
            s = self.mutate(s)
        elif k < .6 and s:
            s = s[:r.randrange(len(s))]
        return s

    def join(self, toks):
        return "".join(t + self.ws() for t in toks)

    def doc(self):
        r = self.r
        m, n = r.choice([0, 1, 1, 2, 3, 4]), r.choice([0, 1, 2, 2, 3])
        mem = [['"rows"', ":", str(m)], ['"cols"', ":", str(n)]]
        if r.random() < .3:
            mem.append(['"flags"', ":", str(r.choice([0, 1, 64]))])
        if r.random() < .2:
            mem.append(['"nnz"', ":", str(r.randint(0, 9))])
        r.shuffle(mem)
        w = r.random()
        kind = r.random()
        if kind < .6:
            cnt = m * n
            if w < .1:
                cnt += r.choice([1, 2])
            elif w < .2 and cnt:
                cnt -= r.randint(1, min(3, cnt))
            el = [[self.number()] for _ in range(cnt)]
        else:
            el = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                i, j = r.randint(0, max(0, m - 1)), r.randint(0, max(0, n - 1))
                if r.random() < .15:
                    i, j = r.choice([(m, 0), (0, n), (m, n), (m + 1, n), (-1, 0), (0, -2), (m, max(0, n - 1)), (max(0, m - 1), n)])
                el.append(["[", str(i), ",", str(j), ",", self.number(), "]"])
        data = ["["]
        for k, x in enumerate(el):
            data += ([","] if k else []) + x
        data.append("]")
        toks = ["{"]
        for x in mem:
            toks += x + [","]
        toks += ['"data"', ":"] + data + ["}"]
        k = r.random()
        if k < .35:
            return self.join(toks)
        if k < .45:
            return self.join(toks) + r.choice(["x", "}", " 12", "\n{"])
        if k < .6:                  # a token taken away, doubled or replaced
            i = r.randrange(len(toks))
            w = r.random()
            if w < .4:
                del toks[i]
            elif w < .6:
                toks.insert(i, toks[i])
            else:
                toks[i] = r.choice([",", ":", "[", "]", "{", "}", "null", "true", "1", "-1", "2.5", "1e1", '"rows"', '"data"', '"rowsx"', '"x"', '"ro"',
                                    '""', "99999999999", "-3", "2147483648"])
            return self.join(toks)
        if k < .75:
            v = r.choice(['"rows"', '"cols"'])
            i = toks.index(v)
            w = r.random()
            if w < .5:
                toks[i + 2] = r.choice(["-1", "-2", "2.0", "2.5", "1e0", "2e1", "null", '"2"', "4294967297", "[1]"])
            else:
                toks[i] = r.choice(['"rowsize"', '"colsum"', '"row"', '"rows "', '"Rows"', '"data"', '"nnz"', '"flags"', '"nnzx"'])
            return self.join(toks)
        if k < .8:
            return self.join(toks)[:r.randrange(2, 12)] if r.random() < .3 else self.join(toks)[:-r.randint(1, 6)]
        if k < .85:
            return r.choice(["null", " null ", "{}", "{ }", "nul", "", "[", "{", "[]", "true", "{]", "{}}", "null,"])
        return self.mutate(self.join(toks))


def scans(g, cid, n):
    c, D = Case(cid), Doc(g.r)
    for k in range(n):
        s = codes(D.stream())
        b = "J%d" % k
        c.ibuf(b, s + [90] * (4 - min(4, len(s))) or [90])
        m = [len(s)] + [len(s)]
        c.call("js_scan", x=b, n=len(s), how=g.r.choice([0, 1, 2]), len=g.r.choice([64, 64, 64, 16, 8, 6, 3, 2, 1, 0]), max=40)
    return c


def puts(g, cid, n):
    r = g.r
    c = Case(cid)
    for k in range(n):
        t, last = [], 0
        for _ in range(r.choice([1, 2, 4, 7])):
            w = r.random()
            if last in (2, 3) and w < .8:
                t += [44, 0]
            if w < .45:
                s = [r.choice([9, 10, 13, 8, 34, 92, 47, 12, 1, 31, 127, 200, 255, 65, 48, 32, 97, 98, 99]) for _ in range(r.choice([0, 1, 3, 6, 10]))]
                t += [1, len(s)] + s
                last = 1
            elif w < .6:
                t += [2, 1, r.choice([0, 1, -1, 12345678, -7])]
                last = 2
            elif w < .8:
                t += [3, 1, 256 * r.choice([0, 1, -1, 4, 8, 12, -8, 800, 8000, 100, 31, 799992, r.randint(-3999, 3999)])]
                last = 3
            else:
                t += [r.choice([4, 5, 6]), 0]
                last = 4
                if r.random() < .5:
                    t += [r.choice([123, 125, 91, 93, 58, 44]), 0]
            if last in (2, 3):
                t += [44, 0]
        b = "T%d" % k
        c.ibuf(b, t)
        kw = dict(cap=r.choice([0, 1, 2, 5, 9, 15])) if r.random() < .2 else {}
        c.call("js_put", x=b, n=len(t), how=1 if kw else r.choice([1, 2]), more=r.randint(0, 1), **kw)
    return c


def loads(g, cid, n):
    c, D = Case(cid), Doc(g.r)
    for k in range(n):
        s = codes(D.doc())
        b = "J%d" % k
        c.ibuf(b, s or [32])
        h = g.r.choice([0, 1, 2])
        c.call("js_load", x=b, n=len(s), how=h, given=g.r.randint(0, 1), fd=g.r.randint(0, 1))
    return c


def trips(g, cid, n):
    r = g.r
    c = Case(cid)
    for k in range(n):
        m, q = r.choice([1, 1, 2, 3, 4]), r.choice([1, 2, 3])
        x, y = "B%d" % k, "D%d" % k
        bad = .1 if r.random() < .15 else 0
        c.ibuf(x, [v for _ in range(m * q) for v in real(r, bad)])
        c.ibuf(y, [-1] * (4 * m * q))
        kw = dict(cap=r.choice([0, 1, 9, 20, 30, 40])) if r.random() < .1 else {}
        c.call("js_trip", [r.choice(["SYMM", "LOWER"])] if r.random() < .2 else [], x=x, y=y, r=m, c=q, s=m + r.choice([0, 0, 1, 2]),
               how=1 if kw else r.choice([1, 2]), rhow=r.choice([0, 1, 2]), fd=r.randint(0, 1), **kw)
    if r.random() < .3:
        c.call("js_null", how=1, **(dict(cap=r.randint(0, 3)) if r.random() < .4 else {}))
    return c


def cases(tier, seed):
    g = Gen(seed * 32452843 + 25)
    n = {"quick": 800, "thorough": 16000}[tier]
    out = []
    for k in range(n):
        out += [scans(g, "scan.%d" % k, 8), puts(g, "put.%d" % k, 5), loads(g, "load.%d" % k, 6), trips(g, "trip.%d" % k, 3)]
    for k, c in enumerate(out):
        if k % 8 >= 4:
            c.exe = "asan"
    return out


if __name__ == "__main__":
    ck = Check("C25")
    ck.traces(cases(TIER, SEED), {"vm": vm(), "asan": vm("asan")}, stall=10.0)
    ck.finish()
