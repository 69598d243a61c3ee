from .gen import *
from math import gcd, isqrt
ZB = {"Z": None, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
PRIMES = {"M.i32": [2, 3, 5, 7, 13, 101, 46337, 2147483647], "M.i64": [2, 3, 11, 65537, 4294967311, 9223372036854775783],
          "M.big": [3, 7, 2**61 - 1, 2**127 - 1, 2**521 - 1], "M.mod2": [2], "M.mod5": [5], "M.mod7": [7]}
RINGS = {"R.i32": [4, 6, 12, 100, 2147483646], "R.u8": [2, 4, 6, 16, 255, 254], "R.u64": [6, 2**32, 2**64 - 1, 2**64 - 2]}
FIELD = ["Q", "Q", "Q", "Q128", "Q64"] + list(PRIMES)
UN = ["m", "r"]


class PG:
    """random polynomials of one coefficient kind; lim bounds the size of machine integers"""

    def __init__(self, g, kind, lim=None):
        self.g, self.kind, self.r = g, kind, g.rng
        self.m = None
        if kind in PRIMES:
            self.m = str(self.r.choice(PRIMES[kind]))
        elif kind in RINGS:
            self.m = str(self.r.choice(RINGS[kind]))
        self.lim = lim

    def c(self, nz=False):
        """one coefficient in JSON"""
        r = self.r
        while True:
            if self.m:
                m = int(self.m)
                v = r.choice([0, 1, m - 1, r.randrange(m), r.randrange(m), r.randrange(m), m // 2]) % m
                if v or not nz:
                    return str(v)
                continue
            if self.kind == "ZZ":
                v = [str(r.choice([0, 1, -1, 2, -3, r.randint(-9, 9)])) for _ in range(r.choice([0, 1, 1, 2, 3]))]
                if any(x != "0" for x in v) or not nz:
                    return v
                continue
            if self.kind in ("Z", "Q") and not self.lim:
                b = r.choice([1, 2, 2, 3, 4, 8, 30, 64, 70])
                v = r.choice([0, 1, 1, r.getrandbits(b), r.getrandbits(b)])
            else:
                v = r.randint(0, self.lim or 3)
            v = -v if r.random() < .5 else v
            if not v and nz:
                continue
            if self.kind == "Q":
                d = r.choice([1, 1, 2, 3, 4, 6, r.getrandbits(r.choice([3, 10, 40])) + 1]) if not self.lim else r.choice([1, 1, 2, 3])
                return [str(v), str(d)] if r.random() < .9 else [str(-v), str(-d)]
            if self.kind in ("Q64", "Q128"):
                return [str(v), str(r.choice([1, 1, 2, 3]))]
            return str(v)

    def zero(self):
        return [] if self.kind == "ZZ" else (["0", "1"] if self.kind[0] == "Q" else "0")

    def p(self, deg=None, nz=False, mono=False):
        """polynomial; now and then with gaps or trailing zeros"""
        r = self.r
        while True:
            d = deg if deg is not None else r.choice([-1, 0, 0, 1, 1, 2, 3, 4, 6])
            gap = r.choice([0, 0, .5, .8])
            v = [self.zero() if r.random() < gap else self.c() for _ in range(d + 1)]
            if deg is not None and v:
                v[-1] = self.c(nz=True)
            if mono and v:
                v[-1] = "1" if self.kind != "ZZ" and self.kind[0] != "Q" else (["1", "1"] if self.kind[0] == "Q" else ["1"])
            if deg is None and r.random() < .05:
                v += [self.zero()] * r.choice([1, 2])
            if nz and all(self.isz(c) for c in v):
                continue
            return v

    def isz(self, c):
        if self.kind == "ZZ":
            return all(x == "0" for x in c)
        return (c[0] if isinstance(c, list) else c) == "0"

    # integer arithmetic to build inputs with structure (Z, Q, moduli); lists of ints
    def ints(self, deg, lim=4):
        r = self.r
        v = [r.randint(-lim, lim) for _ in range(deg + 1)]
        while v[-1] == 0:
            v[-1] = r.randint(-lim, lim)
        return v

    def enc(self, v, den=1):
        if self.m:
            return [str(x % int(self.m)) for x in v]
        if self.kind[0] == "Q":
            return [[str(x), str(den)] for x in v]
        return [str(x) for x in v]


def imul(a, b):
    if not a or not b:
        return []
    o = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            o[i + j] += x * y
    return o


def iprod(*ps):
    o = [1]
    for p in ps:
        o = imul(o, p)
    return o


def ipow(p, n):
    return iprod(*[p] * n)


def euclid(P, r, common=False, lim=3):
    """two polynomials whose remainder sequence drops by the given degrees: built from its end"""
    drops = [r.choice([1, 1, 2, 3, 4]) for _ in range(r.choice([2, 3, 3, 4]))]
    x, y = P.ints(r.choice([0, 0, 1]) + (1 if common else 0), lim), []
    for d in drops:
        q = P.ints(d, lim)
        if r.random() < .5:          # sparse quotient
            q = [c if j == d or r.random() < .3 else 0 for j, c in enumerate(q)]
        n = imul(q, x)
        n = [a + (y[j] if j < len(y) else 0) for j, a in enumerate(n)]
        x, y = n, x
    return x, y


def pairs(g, beh, pred=lambda k: True):
    return [b for b in beh.get("MCPoly", []) if pred(b["kind"])]


def prs(g, beh, kinds, n):
    """the input pairs of the remainder sequence model, over several coefficient kinds"""
    r = g.rng
    seqs = beh.get("MCPrs", [])
    if len(seqs) > n:
        seqs = r.sample(seqs, n)
    for b in seqs:
        for kind in r.sample(kinds, 2):
            P = PG(g, kind)
            x, y = P.enc([int(c) for c in b["a"]], r.choice([1, 1, 6])), P.enc([int(c) for c in b["b"]], r.choice([1, 3]))
            yield kind, P.m, (x, y) if r.random() < .7 else (y, x)


def long(g, kind, deg, lim=3):
    """a polynomial of high degree: dense with small coefficients, or a few terms far apart"""
    P = PG(g, kind, lim)
    r = g.rng
    if r.random() < .5:
        v = P.ints(deg, lim)
    else:
        v = [0] * deg + [r.choice([1, -1, 2])]
        for _ in range(r.choice([1, 2, 4])):
            v[r.randrange(deg)] = r.choice([1, -1, 3, -2])
    return P, v


LONG = ["Z", "Q", "M.i64", "M.big", "M.mod7", "M.i32"]


def ZKIND(k):
    return k in ZB


def FKIND(k):
    return k[0] == "Q" or k.startswith("M.")


def P01(g, beh):
    r = g.rng
    for b in pairs(g, beh):
        kw = dict(kind=b["kind"], m=b["m"])
        g("p." + r.choice(["add", "sub"]), r.choice(BIN), [b["a"], b["b"]], **kw)
        g("p.mul", r.choice(BIN), [b["a"], b["b"]], **kw)
        if r.random() < .3:
            g("p.eq", "", [b["a"], b["b"]], **kw)
        elif r.random() < .3:
            g("p.hash", r.choice(["", "mul"]), [b["a"], b["b"]], **kw)
    lims = {"add": {"i8": 60, "i16": 16000, "i32": 10**9, "i64": 4 * 10**18, "isize": 4 * 10**18, "i128": 2**126 - 1, "Q64": 1000, "Q128": 10**6},
            "mul": {"i8": 4, "i16": 60, "i32": 15000, "i64": 10**9, "isize": 10**9, "i128": 2**61, "Q64": 100, "Q128": 10**5}}
    kinds = list(ZB) + ["Z", "Z", "Q", "Q", "Q", "Q64", "Q128"] + list(PRIMES) + list(RINGS) + ["ZZ", "ZZ"]
    for _ in range(g.pick(2200, 40000)):
        kind = r.choice(kinds)
        op = r.choice(["add", "sub", "mul", "adds", "subs", "muls", "eq", "neg"])
        P = PG(g, kind, lims["mul" if op in ("mul", "muls") else "add"].get(kind))
        kw = dict(kind=kind, m=P.m)
        maxdeg = 6
        a = P.p()
        if op in ("add", "sub", "mul", "eq"):
            b = P.p()
            if op in ("add", "sub", "eq") and r.random() < .3:
                # cancellation of leading terms / everything
                b = list(a)
                if b and r.random() < .6:
                    b[r.randrange(len(b))] = P.c()
            if op == "eq":
                g("p.eq", "", [a, b], **kw)
                continue
            f = r.choice(BIN + ["self", "ck"])
            g("p." + op, f, [a, b], **kw)
            if op == "add" and r.random() < .4 and kind not in ("i8",):
                g("p.sub", r.choice(BIN), [a, a], **kw)
        elif op == "neg":
            g("p.neg", r.choice("mra"), [a], **kw)
        else:
            c = P.c()
            if op in ("adds", "subs") and a and r.random() < .3:
                c = a[0]
            g("p." + op, r.choice(BIN), [a, c], **kw)
    # the coefficients themselves
    for _ in range(g.pick(700, 10000)):
        kind = r.choice(kinds)
        small = {"i8": 3, "i16": 7, "i32": 20, "i64": 500, "isize": 500, "i128": 10**6, "Q64": 30, "Q128": 1000}.get(kind)
        P = PG(g, kind, small)
        c = [P.c() for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.random() < .2:
            c[0] = {"ZZ": ["1"], "Q": ["1", "1"]}.get(kind[:1] if kind[0] == "Q" else kind, "1")
        n = r.choice([0, 1, 2, 3, 4]) if small else r.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, 31])
        if kind == "ZZ" and not any(int(x) for x in c[0]):   # the zeroth power of the zero polynomial is not specified
            n = max(n, 1)
        k = r.choice([0, 1, 2, 3, 7]) if small else r.choice([0, 1, 2, 3, 10, 255, 256, 257, 2**32 - 1, 2**63, 2**64 - 1, r.getrandbits(64)])
        g("p.coef", r.choice("mr"), [c, str(n), str(k)], kind=kind, m=P.m)
    for _ in range(g.pick(150, 2500)):
        g("p.from_raw", "", [[str(r.randint(-60, 60)) for _ in range(r.randint(0, 5))], str(r.choice([1, 2, 6, 12, 60]))], kind="Q")
        P = PG(g, r.choice(["Z", "Q", "M.i32", "R.u8", "ZZ"]))
        g("p.make", r.choice(["scalar", "scalar_ref"]), [P.c()], kind=P.kind, m=P.m)
        g("p.make", r.choice(["iter", "slice", "vec"]), [P.p()], kind=P.kind, m=P.m)
        if P.kind != "ZZ":
            g("p.make", r.choice(["default", "zero", "set_zero"]), [P.p()], kind=P.kind, m=P.m)
            g("p.to_one", r.choice("mar"), [P.p()], kind=P.kind, m=P.m)
            if P.kind in "ZQ":
                g("p.one", r.choice(["set", "is", "one"]), [r.choice([P.p(), P.p(), [["1", "1"]] if P.kind == "Q" else ["1"], []])], kind=P.kind)
        g("p.monomial", "", [P.c(), r.randint(0, 6)], kind=P.kind, m=P.m)
    for _ in range(g.pick(24, 300)):
        P, a = long(g, r.choice(LONG + ["R.u64"]), r.choice([31, 63, 64, 65, 127, 130, 255, 257, 300]))
        b = long(g, P.kind, r.choice([1, 20, 64, 256]))[1]
        g("p." + r.choice(["add", "sub", "mul"]), r.choice(BIN), [P.enc(a), P.enc(b, r.choice([1, 6]))], kind=P.kind, m=P.m)
    # programs: long sums and differences that should return to where they started
    for _ in range(g.pick(80, 1200)):
        kind = r.choice(["Z", "Q", "M.i64", "M.big", "R.i32", "ZZ", "Q", "Z"])
        P = PG(g, kind)
        kw = dict(kind=kind, m=P.m)
        g.session()
        a, b = P.p(), P.p()
        g("p.add", "rr", [a, b], d="x", **kw)
        g("p.mul", r.choice(BIN), [{"r": "x"}, P.p()], d="y", **kw)
        g("p.sub", r.choice(BIN), [{"r": "y"}, {"r": "x"}], d="z", **kw)
        g("p.adds", r.choice(BIN), [{"r": "z"}, P.c()], d="z", **kw)
        g("p.muls", r.choice(BIN), [{"r": "z"}, P.c()], d="z", **kw)
        g("p.add", r.choice(BIN), [{"r": "z"}, {"r": "x"}], d="w", **kw)
        g("p.sub", r.choice(BIN), [{"r": "w"}, {"r": "x"}], d="w", **kw)
        g("p.eq", "", [{"r": "w"}, {"r": "z"}], **kw)
        g("p.sub", r.choice(BIN), [{"r": "w"}, {"r": "z"}], d="w", **kw)
        g("p.neg", r.choice("mra"), [{"r": "w"}], **kw)
        g.end()


LIM = {"i8": 1, "i16": 2, "i32": 3, "i64": 5, "isize": 5, "i128": 20, "Q64": 3, "Q128": 4}


def P02(g, beh):
    r = g.rng
    EX = [f for f in DIVX]
    bs = beh.get("MCDivide", [])
    for b in r.sample(bs, min(len(bs), g.pick(2500, 30000))):
        q = b["da"] != "1" or b["db"] != "1" or r.random() < .2
        a, d = [[[c, dd] for c in x] if q else x for x, dd in ((b["a"], b["da"]), (b["b"], b["db"]))]
        op = r.choice(["pseudo", "pseudo", "exact_pseudo", "exact_div", "div_rem"] + (["div", "rem"] if q else []))
        form = r.choice(EX) if op == "exact_div" else r.choice(["c", "u"]) if op in ("pseudo", "exact_pseudo", "div_rem") else r.choice(BIN + ["ck"])
        g("p." + op, form, [a, d], kind=r.choice(["Q", "Q", "Q64", "Q128"]) if q else r.choice(["Z", "i64", "i128"]), m=None)
    for b in pairs(g, beh, lambda k: not k.startswith("R.")):
        kw = dict(kind=b["kind"], m=b["m"])
        for _ in range(2):
            op = r.choice(["pseudo", "exact_pseudo", "exact_div", "div_rem"] + (["div", "rem"] if FKIND(b["kind"]) else []))
            form = r.choice(EX) if op == "exact_div" else r.choice(["c", "u"]) if op in ("pseudo", "exact_pseudo", "div_rem") else r.choice(BIN + ["ck"])
            g("p." + op, form, [b["a"], b["b"]], **kw)
    for b in pairs(g, beh, lambda k: k.startswith("R.")):
        if r.random() < .4:
            g("p.pseudo", r.choice(["c", "u"]), [b["a"], b["b"]], kind=b["kind"], m=b["m"])
    kinds = ["Z", "Z", "Z", "Q", "Q", "i64", "i128", "i32", "Q64", "Q128"] + list(PRIMES)
    for _ in range(g.pick(1800, 30000)):
        kind = r.choice(kinds)
        P = PG(g, kind, LIM.get(kind))
        kw = dict(kind=kind, m=P.m)
        small = kind in LIM
        op = r.choice(["pseudo", "exact_pseudo", "exact_div", "exact_div", "div_rem", "exact_divs", "exact_divs"] + (["div", "rem"] if FKIND(kind) else []))
        form = r.choice(EX) if op == "exact_div" else r.choice(EX + BIN) if op == "exact_divs" else \
            r.choice(["c", "u"]) if op in ("pseudo", "exact_pseudo", "div_rem") else r.choice(BIN + ["ck"])
        if op == "exact_divs":
            a = P.p()
            c = P.c(nz=r.random() < .95)
            if kind in ZB and r.random() < .6 and c != "0":
                if kind in LIM:
                    c = str(r.choice([-3, -2, -1, 1, 2, 3]))
                    a = [str(r.randint(-9, 9) * int(c)) for _ in range(r.randint(0, 4))]
                else:
                    a = [str(int(x) * int(c)) for x in a]
                if a and r.random() < .3:
                    j = r.randrange(len(a))
                    a[j] = str(int(a[j]) + 1)
            g("p.exact_divs", form, [a, c], **kw)
            continue
        if small:
            b = P.p(r.choice([0, 1, 1, 2]), nz=True)
            a = P.p(r.choice([0, 1, 2, 3]) if kind != "i16" else 2)
        else:
            b = P.p(r.choice([None, None, 0, 1, 2, 3, 4]), mono=r.random() < .3)
            a = P.p(r.choice([None, None, 3, 5, 7]))
        if op in ("exact_div", "exact_pseudo", "div_rem") and r.random() < .6:
            # divisible by construction, sometimes spoiled
            lim = 2 if small else r.choice([3, 50, 10**12])
            x = P.ints(r.choice([0, 1, 2] if small else [0, 1, 2, 3, 4]), lim)
            y = P.ints(r.choice([0, 1] if small else [0, 1, 2, 3]), lim)
            if P.m and (x[-1] % int(P.m) == 0 or y[-1] % int(P.m) == 0):
                continue
            pr = imul(x, y)
            if r.random() < .25:
                pr[r.randrange(len(pr))] += 1
            a, b = P.enc(pr, r.choice([1, 2, 6])), P.enc(x, r.choice([1, 3]))
        g("p." + op, form, [a, b], **kw)
    for _ in range(g.pick(120, 2000)):
        P = PG(g, "ZZ")
        a, b = P.p(r.choice([0, 1, 2, 3])), P.p(r.choice([-1, 0, 1, 2]))
        g("p.pseudo", r.choice(["c", "u"]), [a, b], kind="ZZ")
        g("p.exact_div", r.choice(EX), [a, b], kind="ZZ")
        g("p.exact_divs", r.choice(EX), [a, P.c()], kind="ZZ")
        g.session()
        g("p.mul", "rr", [a, b], kind="ZZ", d="x")
        g("p.exact_div", r.choice(EX), [{"r": "x"}, b], kind="ZZ")
        g("p.exact_div", r.choice(EX), [{"r": "x"}, a], kind="ZZ")
        g.end()
    for _ in range(g.pick(30, 400)):
        P, a = long(g, r.choice(LONG), r.choice([31, 64, 65, 129, 200, 260]))
        b = long(g, P.kind, r.choice([1, 5, 17, 33, 60]), 2)[1]
        if P.m and b[-1] % int(P.m) == 0:
            continue
        if P.kind in "ZQ":
            b[-1] = r.choice([1, -1])
        if r.random() < .5:
            a = imul(b, a[:100])
        op = r.choice(["pseudo", "exact_pseudo", "exact_div", "div_rem"] + (["div", "rem"] if FKIND(P.kind) else []))
        g("p." + op, r.choice(EX) if op == "exact_div" else "c" if op in ("pseudo", "exact_pseudo", "div_rem") else r.choice(BIN),
          [P.enc(a), P.enc(b)], kind=P.kind, m=P.m)
    # residue rings with zero divisors: scalars that are invertible or not
    for _ in range(g.pick(200, 3000)):
        P = PG(g, "R.i32")
        g("p.exact_divs", r.choice(EX + BIN), [P.p(), P.c()], kind=P.kind, m=P.m)
        P = PG(g, r.choice(list(RINGS)))
        g("p.pseudo", r.choice(["c", "u"]), [P.p(), P.p()], kind=P.kind, m=P.m)


def shared(P, r, lim=None):
    """two integer polynomials with a known shape of common factor"""
    lim = lim or r.choice([2, 4, 9, 1000])
    x = P.ints(r.choice([0, 0, 1, 2, 3]), lim)
    a = imul(ipow(x, r.choice([1, 1, 2])), P.ints(r.choice([0, 1, 2, 3]), lim))
    b = imul(ipow(x, r.choice([0, 1, 1, 2])), P.ints(r.choice([0, 1, 2, 4]), lim))
    if r.random() < .15:
        # very different degree, gaps
        b = imul(x, [r.choice([-1, 1, 2])] + [0] * r.choice([3, 5]) + [1])
    return a, b


def P03(g, beh):
    r = g.rng
    for b in pairs(g, beh, FKIND):
        kw = dict(kind=b["kind"], m=b["m"])
        for _ in range(2):
            op = r.choice(["gcd", "lcm", "gcd_lcm", "egcd", "egcd", "subresultant_gcd"])
            g("p." + op, r.choice(["", "lcm"]) if op == "egcd" else "", [b["a"], b["b"]], **kw)
    for b in pairs(g, beh, ZKIND):
        g("p.subresultant_gcd", "", [b["a"], b["b"]], kind=b["kind"])
    for kind, m, (x, y) in prs(g, beh, ["Z", "Z", "Q", "M.i64", "M.big", "M.mod7"], g.pick(400, 6000)):
        op = "subresultant_gcd" if kind == "Z" else r.choice(["gcd", "lcm", "gcd_lcm", "egcd", "egcd", "subresultant_gcd"])
        g("p." + op, r.choice(["", "lcm"]) if op == "egcd" else "", [x, y], kind=kind, m=m)
    for _ in range(g.pick(1100, 20000)):
        kind = r.choice(FIELD + ["Z", "Z", "i128", "i64"])
        P = PG(g, kind, LIM.get(kind))
        kw = dict(kind=kind, m=P.m)
        small = kind in LIM
        if not small and r.random() < .3:
            a, b = euclid(P, r, True)
            a, b = P.enc(a), P.enc(b, r.choice([1, 3]))
        elif r.random() < .75:
            if small:
                x = P.ints(r.choice([0, 1]), 2)
                a, b = imul(x, P.ints(1, 2)), imul(x, P.ints(r.choice([0, 1]), 2))
            else:
                a, b = shared(P, r)
            den = r.choice([1, 1, 2]) if not small else 1
            a, b = P.enc(a, den), P.enc(b, r.choice([1, den]))
        else:
            a, b = (P.p(r.choice([0, 1, 2])), P.p(r.choice([0, 1]))) if small else (P.p(), P.p())
        if r.random() < .05:
            a = []
        if r.random() < .5:
            a, b = b, a
        op = "subresultant_gcd" if kind in ZB else r.choice(["gcd", "lcm", "gcd_lcm", "egcd", "egcd", "subresultant_gcd"])
        g("p." + op, r.choice(["", "lcm"]) if op == "egcd" else "", [a, b], **kw)


def P04(g, beh):
    r = g.rng
    seen = set()
    for b in pairs(g, beh):
        k = (b["kind"], json.dumps(b["a"]))
        if k in seen:
            continue
        seen.add(k)
        kw = dict(kind=b["kind"], m=b["m"])
        g("p.access", "", [b["a"]], **kw)
        g("p.to_one", r.choice("mar"), [b["a"]], **kw)
        if ZKIND(b["kind"]) or b["kind"] == "Q":
            ordered(g, b["a"], kw)
        if not b["kind"].startswith("R."):
            g("p.monic", r.choice("am"), [b["a"]], **kw)
        reducing(g, b["a"], kw)
    for _ in range(g.pick(500, 9000)):
        kind = r.choice(list(ZB) + ["Z", "Z", "Q", "Q", "Q", "Q64", "Q128"] + list(PRIMES))
        P = PG(g, kind, {"i8": 15, "i16": 2000, "i32": 10**8, "i64": 10**17, "isize": 10**17, "i128": 10**36, "Q64": 10**4, "Q128": 10**6}.get(kind))
        kw = dict(kind=kind, m=P.m)
        a = P.p()
        if kind in ZB and a and r.random() < .6:
            c = r.choice([-6, -2, 2, 3, 4] if kind != "i8" else [2, -2])
            a = [str(int(x) * c if kind != "i8" else max(-60, min(60, int(x) * c))) for x in a]
        g("p.access", "", [a], **kw)
        if kind in ZB or kind[0] == "Q":
            ordered(g, a, kw)
        g("p.monic", r.choice("am"), [a if kind[0] in "QM" or r.random() < .4 else [str(int(x) * int(a[-1])) if kind == "Z" else x for x in a]], **kw)
        reducing(g, a, kw)
        g("p.make", r.choice(["iter", "slice", "vec"]), [a], **kw)
    for _ in range(g.pick(20, 200)):
        P, a = long(g, r.choice(LONG), r.choice([40, 64, 128, 255, 256, 300]), 30)
        kw = dict(kind=P.kind, m=P.m)
        a = P.enc(a, r.choice([1, 10]))
        g("p.access", "", [a], **kw)
        if P.kind in "ZQ":
            ordered(g, a, kw)
        else:
            g("p.monic", "m", [a], **kw)
    for v in [[], ["0"], ["127"], ["128"], ["-128"], ["-129"], ["255"], ["256"], ["-1"], ["1", "1"], [str(2**63)], [str(2**63 - 1)],
              [str(-2**63)], [str(2**64)], [str(2**127)], [str(2**128 - 1)], ["0", "5"], [str(-2**31)], [str(2**31)], ["65535"], ["65536"]]:
        g("p.to_prim", "", [v], kind="Z")
    for b in (8, 16, 24, 31, 32, 53, 63, 64, 127, 128):
        for v in (2**b, 2**b - 1, -2**b, -2**b - 1):
            g("p.to_prim", "", [[str(v)]], kind="Z")
            g("p.to_prim", "", [[str(v), "1"]], kind="Z")
    for t in INTS:
        for v in [INTS[t][0], INTS[t][1], 0, 1, 5]:
            g("p.from_prim", t, [str(v)], kind="Z")
    for t, m in [("f32", 2**24), ("f64", 2**53)]:
        for v in [0, 1, -1, 7, m, -m, m - 1, 1 - m, 100, 4096]:
            g("p.from_prim", t, [str(v)], kind="Z")


def reducing(g, a, kw):
    """the canonical associate, for the kinds that have one"""
    k = kw["kind"]
    if FKIND(k) or k in ZB:
        g("p.reduce", g.rng.choice("amr"), [a], **kw)
        g("p.reducing_factor", "" if k[0] == "M" else g.rng.choice(["", "z"]), [a], **kw)


def ordered(g, a, kw):
    r = g.rng
    g("p.content", r.choice(["", "nz"]), [a], **kw)
    g("p.primitive", r.choice("amr"), [a], **kw)
    g("p.max_norm", r.choice(["", "nz"]), [a], **kw)
    if kw["kind"] not in ("i8", "i16", "i32") or sum(abs(int(x)) for x in a) < 2 ** (int(kw["kind"][1:]) - 1):
        g("p.manhattan", r.choice(["", "nz"]), [a], **kw)
    g("p.coefficient", "", [a], **kw)


def P05(g, beh):
    r = g.rng
    for b in pairs(g, beh, lambda k: not k.startswith("R.")):
        kw = dict(kind=b["kind"], m=b["m"])
        g("p.nz_resultant" if b["kind"].startswith("M.") or r.random() < .3 else "p.resultant", "", [b["a"], b["b"]], **kw)
    for kind, m, (x, y) in prs(g, beh, ["Z", "Z", "Q", "M.i64", "M.big", "M.mod5"], g.pick(400, 6000)):
        g("p.nz_resultant" if kind.startswith("M.") or r.random() < .3 else "p.resultant", "", [x, y], kind=kind, m=m)
    for _ in range(g.pick(900, 15000)):
        kind = r.choice(["Z", "Z", "Z", "Q", "Q", "i128", "i64", "Q128", "M.i32", "M.i64", "M.big", "M.mod5"])
        P = PG(g, kind, LIM.get(kind))
        small = kind in LIM
        if small:
            a, b = P.p(r.choice([0, 1, 2])), P.p(r.choice([0, 1, 2]))
            if kind == "Q128":
                a, b = P.p(r.choice([0, 1])), P.p(r.choice([0, 1, 2]))
        elif r.random() < .2:
            a, b = shared(P, r)
            a, b = P.enc(a), P.enc(b)
        elif r.random() < .5:
            a, b = euclid(P, r)
            a, b = P.enc(a), P.enc(b, r.choice([1, 2]))
        else:
            # degree jumps in the remainder sequence: sparse polynomials, b close to a multiple
            a, b = P.p(r.choice([None, 2, 3, 4, 5, 7])), P.p(r.choice([None, 1, 2, 3, 4, 6]))
            if r.random() < .4 and kind in ("Z", "Q") or P.m and r.random() < .4:
                x = P.ints(r.choice([2, 3, 4]))
                y = imul(x, P.ints(r.choice([1, 2, 3])))
                for j in range(r.choice([1, 2])):
                    if j < len(y):
                        y[j] += r.choice([-2, -1, 1, 3])
                a, b = P.enc(x), P.enc(y)
        if r.random() < .5:
            a, b = b, a
        g("p.nz_resultant" if kind.startswith("M.") or r.random() < .3 else "p.resultant", "", [a, b], kind=kind, m=P.m)
    for _ in range(g.pick(150, 2500)):
        P = PG(g, "ZZ")
        a, b = P.p(r.choice([-1, 0, 1, 2, 3, 4])), P.p(r.choice([-1, 0, 1, 2, 3]))
        g(r.choice(["p.resultant", "p.nz_resultant"]), "", [a, b], kind="ZZ")
        if r.random() < .3:
            g.session()
            g("p.mul", "rr", [a, P.p(1)], kind="ZZ", d="x")
            g("p.resultant", "", [{"r": "x"}, a], kind="ZZ")
            g.end()
    # the shapes algebraic numbers use: q(X - Y) against p(Y), x^n q(X/Y) against p(Y)
    for _ in range(g.pick(40, 600)):
        p, q = g.rng, None
        P = PG(g, "Z")
        p, q = P.ints(r.choice([1, 2, 3]), 6), P.ints(r.choice([1, 2, 3]), 6)
        pz = [[str(c)] for c in p]
        # q(X - Y) expanded in Y
        rows = [[0] * (len(q)) for _ in q]
        from math import comb
        for n, c in enumerate(q):
            for k in range(n + 1):
                rows[k][n - k] += c * comb(n, k) * (-1)**k
        g("p.resultant", "", [[[str(c) for c in row] for row in rows], pz], kind="ZZ")
        rows = [[] for _ in q]
        for n, c in enumerate(q):
            rows[len(q) - 1 - n] = ["0"] * n + [str(c)]
        g("p.resultant", "", [rows, pz], kind="ZZ")


def P06(g, beh):
    r = g.rng
    for b in beh.get("MCSturm", []):
        kind = r.choice(["Z", "Z", "Q", "i128"])
        g("p.psturm", r.choice("mr"), [b["f"]], kind="Z" if kind == "i128" and len(b["f"]) > 5 else kind)
        if kind == "Q":
            g("p.sturm", r.choice("mr"), [b["f"]], kind=kind)
    seen = set()
    for b in pairs(g, beh, lambda k: k in ("Z", "Q")):
        k = (b["kind"], json.dumps(b["a"]))
        if k not in seen:
            seen.add(k)
            if b["kind"] == "Q":
                g("p.sturm", r.choice("mr"), [b["a"]], kind="Q")
            g("p.psturm", r.choice("mr"), [b["a"]], kind=b["kind"])
    for _ in range(g.pick(300, 3000)):
        # the degree drops by more than one in the chain, leading coefficients of both signs
        n = r.randint(3, 12)
        a = [r.choice([-3, -2, -1, 1, 2, 3, 5])] + [0] * (n - 1) + [r.choice([-3, -1, 1, 2])]
        for _ in range(r.choice([1, 1, 2, 3])):
            a[r.randrange(0, n)] = r.randint(-4, 4)
        if a[0] == 0:
            a[0] = 1
        if r.random() < .4:
            a = imul(a, [r.randint(-3, 3), r.choice([1, -1, 2])])
        kind = r.choice(["Z", "Z", "Q"])
        if kind == "Q":
            g("p.sturm", r.choice("mr"), [PG(g, "Q").enc(a, r.choice([1, 3]))], kind=kind)
        g("p.psturm", r.choice("mr"), [PG(g, kind).enc(a)], kind=kind)
    for _ in range(g.pick(30, 200)):
        # long chains
        n = r.randint(10, 17)
        if r.random() < .6:
            a = iprod(*[[-r.randint(-9, 9), r.choice([1, 1, 2, 3, -1])] for _ in range(n)])
        else:
            a = [r.randint(-5, 5) for _ in range(n)] + [r.choice([-2, 1, 3])]
        g("p.psturm", r.choice("mr"), [PG(g, "Z").enc(a)], kind="Z")
    for _ in range(g.pick(500, 8000)):
        kind = r.choice(["Z", "Z", "Q", "Q", "i128", "Q128"])
        P = PG(g, kind, LIM.get(kind))
        if kind in ("i128", "Q128"):
            a = P.p(r.choice([0, 1, 2, 3]) if kind == "i128" else r.choice([1, 2]))
        else:
            c = r.random()
            if c < .45:      # many real roots
                a = iprod(*[[-r.randint(-9, 9), r.choice([1, 1, 2, 3, -1])] for _ in range(r.randint(1, 6))])
                if r.random() < .5:
                    a = imul(a, P.ints(2, 3))
                a = P.enc(a, r.choice([1, 2, 5]))
            elif c < .65:
                a = P.enc(imul(ipow(P.ints(r.choice([1, 2]), 3), r.choice([2, 3])), P.ints(r.choice([0, 1, 2]), 4)))
            else:
                a = P.p(r.choice([None, 3, 5, 6, 8]))
        if kind[0] == "Q":
            g("p.sturm", r.choice("mr"), [a], kind=kind)
        g("p.psturm", r.choice("mr"), [a], kind=kind)


def P07(g, beh):
    r = g.rng
    seen = set()
    for b in pairs(g, beh, FKIND):
        for x in ("a", "b"):
            k = (b["kind"], json.dumps(b[x]))
            if k not in seen:
                seen.add(k)
                if b["kind"] == "Q":
                    g("p.yun", "", [b[x]], kind="Q")
                if nonzero(b[x]):
                    g("p.is_square_free", "", [b[x]], kind=b["kind"], m=b["m"])
    for b in beh.get("MCYun", []):
        (n, d), f = [int(x) for x in b["c"]], [int(x) for x in b["f"]]
        g("p.yun", "", [[[str(n * x), str(d)] for x in f]], kind="Q")
    for _ in range(g.pick(450, 7000)):
        P = PG(g, "Q")
        fs = []
        for e in r.sample([1, 2, 3, 4, 5, 6], r.randint(1, 3)):
            fs += [P.ints(r.choice([1, 1, 2]), r.choice([2, 5, 30]))] * e
        a = iprod(*fs) if len(fs) <= 9 else iprod(*fs[:9])
        g("p.yun", "", [P.enc([x * r.choice([1, -1, 6]) if False else x for x in a], r.choice([1, 1, 2, -3, 10]))], kind="Q")
        g("p.yun", "", [[[str(6 * x), "35"] for x in a]], kind="Q") if r.random() < .2 else None
        kind = r.choice(["Q", "Q128", "M.i32", "M.i64", "M.big", "M.mod2", "M.mod5", "M.mod7"])
        P = PG(g, kind, 3)
        if kind == "Q128":
            a = imul(P.ints(1, 3), P.ints(1, 3))
        else:
            a = P.ints(r.choice([1, 2, 3]), 6)
            if r.random() < .5:
                a = imul(a, ipow(P.ints(r.choice([1, 2]), 3), 2))
        a = P.enc(a)
        if any(not P.isz(c) for c in a):
            g("p.is_square_free", "", [a], kind=kind, m=P.m)
    g("p.yun", "", [[]], kind="Q")
    g("p.yun", "", [[["-3", "7"]]], kind="Q")
    for _ in range(g.pick(40, 400)):
        P = PG(g, "Q128")
        g("p.yun", "", [P.enc(imul(ipow(P.ints(1, 2), 2), P.ints(r.choice([0, 1]), 2)), r.choice([1, 2]))], kind="Q128")


def nonzero(p):
    if isinstance(p, dict):
        return bool(p["e"])
    return bool(p)


SD = [[-1, 1], [1, 0, -10, 0, 1], [576, 0, -960, 0, 352, 0, -40, 0, 1],
      [46225, 0, -5596840, 0, 13950764, 0, -7453176, 0, 1513334, 0, -141912, 0, 6476, 0, -136, 0, 1]]


def cyclo(n):
    """X^n - 1 and the cyclotomic polynomial"""
    def div(a, b):
        a = a[:]
        q = [0] * (len(a) - len(b) + 1)
        for i in range(len(q) - 1, -1, -1):
            q[i] = a[i + len(b) - 1] // b[-1]
            for j, c in enumerate(b):
                a[i + j] -= q[i] * c
        return q
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            p = div(p, cyclo(d))
    return p


# products of two irreducible polynomials that both have larger coefficients than the product
CANCEL = [
    [5, -6, 2, -4, 3, 6, 7, -7, 6, 2, 4, 0, 0, 0, 1],
    [3, 1, -4, 6, -6, -6, -5, 5, 4, 1, -6, 1, 0, -2, 1],
    [-6, -5, -8, -7, 7, -2, 9, -9, -7, 0, -2, -8, -1, -1, -2, -2, 1],
    [3, 2, -4, -1, -3, 1, -1, 4, 1, -3, -4, -4, -3, 4, -2, 1],
    [2, -1, 2, -1, 2, 2, 2, -2, 0, -2, 1],
    [-1, -1, -3, -3, -1, -3, 3, -2, -3, -1, -1, -2, 1],
    [-2, -1, -2, 1, 1, -1, -2, 1, -2, -1, 1],
    [1, 2, 2, 3, 3, -2, -1, 3, -2, 3, 1, 3, 0, 1],
    [3, -9, 12, -10, -12, 12, 10, 8, 7, 1, 9, 2, 7, -6, -2, 1],
    [-2, -1, -2, 2, -1, 0, -1, -2, -2, 1, 0, 1],
    [2, 3, -2, 2, -3, 1, 3, 1, 2, 3, 1],
    [3, -6, -7, -7, 3, -7, 0, 0, -2, -7, 7, -1, -2, 1],
    [1, 1, 0, 1, -1, 0, 1, 0, -1, -1, 0, -1, 1],
    [-2, 1, -2, -1, 1, 1, -2, -1, -2, 1, 1],
    [2, -2, 4, -2, 2, 4, 3, -4, 4, 1, 4, 2, 1],
    [-1, 2, -1, 1, 2, 1, -2, 1, 1, 2, 1],
    [-3, 4, -4, 1, -4, -1, -4, 2, 2, -4, 1, 1, -2, 1, 1],
]


def P08(g, beh):
    r = g.rng
    P = PG(g, "Z")

    def f(a):
        a = [str(x) for x in a]
        if r.random() < .5:
            g("p.factor", "", [a], kind="Z")
        else:
            g("p.factor", "rng", [a, str(r.getrandbits(60))], kind="Z")
    seen = set()
    for b in pairs(g, beh, lambda k: k == "Z"):
        p = imul([int(x) for x in b["a"]], [int(x) for x in b["b"]])
        if tuple(p) not in seen:
            seen.add(tuple(p))
            f(p)
    for b in beh.get("MCRecombine", []):
        a = [int(x) for x in b["f"]]
        for k in (1, -1, 6):
            f([k * x for x in a])
        f([x * 5**i for i, x in enumerate(a)])
    for p in [[], [1], [-1], [12], [-360], [0, 1], [0, -1], [0, 0, 0, 5], [0, 0, -12, 6]]:
        f(p)
    # split completely modulo every prime
    for p in SD[1:3]:
        f(p)
        f(imul(p, [-2, 0, 1]))
        f([c * 3**i for i, c in enumerate(p)])
    f(imul(SD[1], [4, 0, -12, 0, 1]))
    if g.thorough:
        f(SD[3])
        f(imul(SD[2], SD[1]))
        f(imul(SD[2], [1, 0, -14, 0, 1]))
    for p in CANCEL:
        for q in (p, p[::-1], [(-1)**i * c for i, c in enumerate(p)]):
            f(q)
    for n in range(1, g.pick(26, 61)):
        f([-1] + [0] * (n - 1) + [1])
        f([1] + [0] * (n - 1) + [1])
        f(cyclo(n))
    for _ in range(g.pick(450, 7000)):
        c = r.random()
        lim = r.choice([1, 2, 3, 9, 40, 10**6, 10**15])
        if c < .5:      # several factors, repeated ones, content
            fs = []
            for _ in range(r.randint(1, 4)):
                fs += [P.ints(r.choice([1, 1, 1, 2, 2, 3, 4]), lim)] * r.choice([1, 1, 1, 2, 3])
            a = iprod(*fs[:6])
            k = r.choice([1, 1, -1, 2, -6, 30, 2**40])
            a = [x * k for x in a]
        elif c < .7:    # irreducible by Eisenstein, non-monic
            p = r.choice([2, 3, 5, 7])
            n = r.randint(2, 9)
            a = [p * r.choice([-1, 1, 2 if p != 2 else 3])] + [p * r.randint(-3, 3) for _ in range(n - 1)] + [r.choice([1, p + 1, 2 * p + 1])]
            if r.random() < .5:
                a = imul(a, P.ints(r.choice([1, 2]), 5))
        elif c < .85:   # coefficients sharing primes with the leading coefficient
            a = imul([r.randint(-9, 9), r.choice([2, 6, 30, 210, 2310])], [r.randint(-9, 9), r.choice([2, 3, 5, 7, 105])])
            a = imul(a, P.ints(r.choice([0, 1, 2]), 6))
        else:
            a = P.ints(r.choice([3, 5, 7, 9]), lim)
        while a and a[-1] == 0:
            a.pop()
        f(a)
    # quartics that split modulo every prime (roots +-sqrt(a)+-sqrt(b)), and products of them: several true factors, each made of
    # several modular ones
    def bi():
        while True:
            a, b = r.choice([-3, -2, -1, 2, 3, 5, 6, 7, -5]), r.choice([-7, -1, 2, 3, 5, 7, 10, -2])
            if a != b and isq(a * b) is False and isq(a) is False and isq(b) is False:
                return bi2(a, b)

    def bi2(a, b):
        return [(a - b)**2, 0, -2 * (a + b), 0, 1]

    def iadd(p, q):
        n = max(len(p), len(q))
        return [(p[i] if i < len(p) else 0) + (q[i] if i < len(q) else 0) for i in range(n)]

    def isq(n):
        return n >= 0 and isqrt(n)**2 == n
    for _ in range(g.pick(50, 500)):
        fs = [bi() for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < .3:
            fs.append(r.choice([[1, 1], [-2, 0, 1], [-5, 3], [1, 1, 1], [3, 0, 0, 2]]))
        if r.random() < .3:
            k, m = r.choice([1, 2, 3, 10**6, 10**12]), r.choice([1, 1, 2, 5])
            fs = [[c * k**i * m**(len(q) - 1 - i) for i, c in enumerate(q)] for q in fs]
        f(iprod(*fs))
    # octics whose group is elementary (at least four factors modulo every prime), several at once: true factors made of four modular ones
    def oct():
        while True:
            t = [r.choice([-3, -2, -1, 2, 3, 5, 6, 7, -5, 10]) for _ in range(3)]
            if all(isq(x) is False for x in (t[0], t[1], t[2], t[0] * t[1], t[0] * t[2], t[1] * t[2], t[0] * t[1] * t[2])):
                break
        a, b, c = t
        q = bi2(a, b)
        # q(x - sqrt c) q(x + sqrt c), the square root kept as a second component
        acc = [[0], [0]]
        for co in reversed(q):
            u, v = acc
            acc = [iadd(iadd(imul(u, [0, 1]), [-c * y for y in v]), [co]), iadd(imul(v, [0, 1]), [-y for y in u])]
        return iadd(imul(acc[0], acc[0]), [-c * y for y in imul(acc[1], acc[1])])
    for n in range(g.pick(10, 80)):
        fs = [oct(), oct()] if n % 2 else [oct(), [x * 2**i for i, x in enumerate(oct())], r.choice([[1], [-5, 3], [1, 1, 1]])]
        f(iprod(*fs))
    f(imul(cyclo(24), [x * 2**i for i, x in enumerate(cyclo(24))]))
    f(imul(cyclo(24), [x * 3**i for i, x in enumerate(cyclo(24))]))
    # large coefficients: many lifting steps
    for _ in range(g.pick(30, 300)):
        lim = 10**r.choice([12, 20, 30, 45])
        f(iprod(*[P.ints(r.choice([1, 2, 3, 5]), lim) for _ in range(r.choice([2, 2, 3]))]))
    # large multiplicities
    for _ in range(g.pick(16, 100)):
        f(iprod(*[ipow(P.ints(r.choice([1, 1, 2]), 3), r.choice([1, 4, 7, 8, 9, 10, 13])) for _ in range(r.choice([1, 2]))]))
    # the same polynomial for many random choices
    for a in [imul(SD[1], [-3, 0, 0, 1]), cyclo(15), iprod([1, 1], [2, 1], [3, 1], [4, 1], [5, 2], [1, 0, 1])]:
        for _ in range(g.pick(6, 60)):
            g("p.factor", "rng", [[str(x) for x in a], str(r.getrandbits(60))], kind="Z")


def P09(g, beh):
    r = g.rng
    for b in beh.get("MCPowerPoly", []):
        kind = r.choice(["M.i32", "M.i64", "M.big"])
        if b["al"] == "mod":
            g("p.powmod", r.choice(["c", "ci", "u", "b"]), [b["b"], b["e"], b["m"]], kind=kind, m=b["p"])
        elif b["b"] or b["e"] != "0":
            g("p.pow", r.choice(["m", "big", "i8", "u"]), [b["b"], b["e"]], kind=kind, m=b["p"])
    for b in pairs(g, beh):
        kw = dict(kind=b["kind"], m=b["m"])
        c = r.random()
        if c < .15:
            g("p.derivative", r.choice("mr"), [b["a"]], **kw)
        elif c < .3:
            g("p.eval", r.choice("mr"), [b["a"], PGm(g, b["kind"], b["m"]).c()], **kw)
        elif c < .6:
            g("p.pow", r.choice(["m", "big", "i8", "u"]), [b["a"], str(r.randint(0, 6))], **kw)
        elif FKIND(b["kind"]):
            n = r.choice([0, 0, 1, 1, 2, 3, 5, 8, 13])
            g("p.powmod", r.choice(["c", "ci", "u", "b"]), [b["a"], str(n), b["b"]], **kw)
    for _ in range(g.pick(900, 15000)):
        kind = r.choice(list(ZB) + ["Z", "Z", "Q", "Q", "Q128"] + list(PRIMES) + list(RINGS) + ["ZZ"])
        P = PG(g, kind, {"i8": 2, "i16": 5, "i32": 20, "i64": 100, "isize": 100, "i128": 1000, "Q128": 10}.get(kind))
        kw = dict(kind=kind, m=P.m)
        small = bool(P.lim)
        c = r.random()
        if c < .25:
            a = P.p(r.choice([-1, 0, 1, 2, 3]) if small else None)
            g("p.derivative", r.choice("mr"), [a], **kw)
        elif c < .55:
            a = P.p(r.choice([0, 1, 2, 3]) if small else r.choice([None, 5, 9]))
            g("p.eval", r.choice("mr"), [a, P.c()], **kw)
        elif c < .8:
            if small:
                a, n = P.p(r.choice([0, 1])), r.choice([0, 1, 2, 3])
            else:
                a, n = P.p(r.choice([None, 0, 1, 2, 3])), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 16])
                if kind == "ZZ":
                    a, n = P.p(r.choice([-1, 0, 1, 2])), min(n, 4)
            if n == 0 and not any(not P.isz(x) for x in a):
                continue
            g("p.pow", r.choice(["m", "big", "i8", "u"]), [a, str(n)], **kw)
        elif FKIND(kind) and not small:
            mo = P.p(r.choice([None, 0, 1, 2, 3, 5]))
            if kind == "Q":
                P.lim = 3
                mo, n = P.p(r.choice([0, 1, 2])), r.choice([-1, 0, 1, 2, 3, 4, 6])
                a = P.p(r.choice([-1, 0, 1, 2, 3]))
            else:
                a = P.p()
                n = r.choice([-1, 0, 1, 2, 3, 5, 12, 37, 255, 256, r.getrandbits(20), r.getrandbits(62), 2**40])
            forms = ["c", "ci", "b"] + (["u"] if n >= 0 else [])
            if P.m and r.random() < .2:
                n, forms = int(P.m)**2, ["c", "b"]
            g("p.powmod", r.choice(forms), [a, str(n), mo], **kw)


    for d in [64, 127, 128, 255, 256, 257, 300] * g.pick(2, 12):
        P, a = long(g, r.choice(LONG + ["R.u64", "R.i32"]), d)
        a = P.enc(a)
        g("p.derivative", r.choice("mr"), [a], kind=P.kind, m=P.m)
        g("p.eval", r.choice("mr"), [a, P.c()], kind=P.kind, m=P.m)
        g("p.pow", r.choice(["m", "big", "u"]), [long(g, P.kind, 3)[0].enc(long(g, P.kind, 3)[1]) if not P.m else P.enc(long(g, "Z", 3)[1]), str(r.choice([31, 32, 33, 63, 64]))],
          kind=P.kind, m=P.m)


    for _ in range(g.pick(200, 3000)):
        P = PG(g, "Z")
        g("p.eval_at", r.choice("mr"), [P.p(r.choice([None, 3, 6])), [str(r.randint(-40, 40)), str(r.choice([1, 2, 3, 7, 60, 2**33]))]], kind="Z")


def PGm(g, kind, m):
    P = PG(g, kind, 3)
    if P.m:
        P.m = m
    return P


def P10(g, beh):
    r = g.rng
    seen = set()
    for b in pairs(g, beh, lambda k: k in ("Z", "Q")):
        for x in ("a", "b"):
            k = json.dumps(b[x])
            if k not in seen:
                seen.add(k)
                g("p.display", "", [b[x]], kind=b["kind"])
    for _ in range(g.pick(350, 4000)):
        P = PG(g, r.choice(["Z", "Q", "Z", "Q", "i8", "i64", "Q64", "ZZ", "ZZ"]))
        g("p.display", "", [P.p(r.choice([None, None, 8, 11]))], kind=P.kind)
        if P.kind == "Z":
            g("p.factor_text", "", [P.p(r.choice([None, 5])), r.choice([0, 1, 2, 10, 137])], kind="Z")
    g("p.names", "", [0, 26], kind="Z")
    g("p.names", "", [0, 750], kind="Z")
