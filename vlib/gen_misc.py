from .gen import *


def small_primes(n):
    s = bytearray([1]) * (n + 1)
    s[0:2] = b"\0\0"
    for i in range(2, int(n**.5) + 1):
        if s[i]:
            s[i * i::i] = bytearray(len(range(i * i, n + 1, i)))
    return [i for i in range(n + 1) if s[i]]


def U01(g, beh):
    r = g.rng
    P = small_primes(65535)
    top = g.pick(70000, 2_000_000)
    for lo in range(0, top, 500):
        g("x.primes", "", [str(lo), str(lo + 499)])
    nums = [p * p for p in P] + [p * p + d for p in P[-400:] for d in (-2, 2)]
    nums += [a * b for a, b in zip(P[-300:], P[-299:])] + [a * b for a, b in zip(P, P[1:])]
    nums += [P[-1] * P[-1], 2**32 - 1, 2**32 - 5, 2**31 - 1, 2**31, 2**31 + 1, 65537, 65536, 65537 * 65521, 65537 * 3]
    # strong pseudoprimes and Carmichael numbers
    nums += [2047, 1373653, 25326001, 3215031751, 561, 1105, 1729, 2465, 2821, 6601, 8911, 825265, 321197185]
    nums += [r.choice(P) * r.choice(P) for _ in range(g.pick(2000, 60000))]
    nums += [r.getrandbits(32) for _ in range(g.pick(3000, 60000))]
    nums += list(range(2**32 - 400, 2**32)) + list(range(2**31 - 200, 2**31 + 200))
    nums = [n for n in nums if 0 <= n < 2**32]
    for j in range(0, len(nums), 200):
        g("x.is_prime", "", [[str(n) for n in nums[j:j + 200]]])
    pts = list(range(0, 400)) + P[::g.pick(40, 3)] + [p + d for p in P[1::97] for d in (-1, 1)]
    # the largest gaps below 2^32, both ends and the middle
    for lo, gap in [(113, 14), (1327, 34), (31397, 72), (370261, 112), (2010733, 148), (20831323, 210), (436273009, 282), (3842610773, 336)]:
        pts += [lo - 1, lo, lo + 1, lo + gap // 2, lo + gap - 1, lo + gap, lo + gap + 1]
    pts += [p * p + d for p in P[-30:] for d in (-1, 0, 1)]
    pts += [r.getrandbits(32) for _ in range(g.pick(500, 20000))]
    pts += list(range(2**32 - 60, 2**32)) + list(range(2**31 - 40, 2**31 + 40))
    for v in pts:
        if not 0 <= v < 2**32:
            continue
        g("x.next_prime", "u32", [str(v)])
        g("x.prev_prime", "u32", [str(v)])
        if v < 2**31:
            g("x.next_prime", "i32", [str(v)])
            g("x.prev_prime", "i32", [str(v)])
    for v in (-1, -2, -3, -2**31, -2**31 + 1, -1000):
        g("x.next_prime", "i32", [str(v)])
        g("x.prev_prime", "i32", [str(v)])
    # the searches of the model, as they are and moved to the end of the real range
    half = 8
    for b in beh.get("MCSearch", []):
        half = max(half, int(b["v"]).bit_length())
    for b in beh.get("MCSearch", []):
        v, op = int(b["v"]), "x.%s_prime" % b["dir"]
        bits = half if not b["s"] else half - 1
        g(op, "i32" if b["s"] else "u32", [str(v)])
        if v >= 2**(bits - 1):
            g(op, "i32" if b["s"] else "u32", [str(v - 2**bits + 2**(31 if b["s"] else 32))])
        elif v < -2**(bits - 1):
            g(op, "i32", [str(v + 2**bits - 2**31)])
    for x in "+-":
        for y in "+-":
            g("x.sign", "", [x, y])
    for v in (0, 1, -1, 2**70, -2**70):
        g("x.sign_new", "", [str(v)])
    if g.hooks:
        for b in beh.get("MCSubsets", []):
            g("x.subsets", "", [b["size"], b["lo"], b["hi"], b["limit"]])
        for lo in (0, 1, 2, 5):
            for n in range(0, 8):
                for size in range(0, n + 2):
                    for limit in (10**6, 1, 2, 3, 7, r.randint(1, 40)):
                        g("x.subsets", "", [size, lo, lo + n, limit])
        for size, lo, hi in [(2, 3, 1), (0, 3, 1), (1, 4, 4), (3, 0, 12), (6, 0, 12), (11, 1, 12), (2, 0, 40), (38, 0, 40), (1, 0, 50)]:
            g("x.subsets", "", [size, lo, hi, 10**6])


def L01(g, beh):
    r = g.rng
    if not g.hooks:
        return
    S = lambda B: [[str(x) for x in v] for v in B]
    # all the bases of the model
    for B in beh.get("MCLattice", []):
        g("x.lll", "", [B, len(B[0])])
        if r.random() < .3:
            g("x.gram_schmidt", "", [B, len(B[0])])

    def indep(B):
        from fractions import Fraction as F
        G = []
        for v in B:
            w = [F(x) for x in v]
            for b in G:
                c = sum(x * y for x, y in zip(w, b)) / sum(y * y for y in b)
                w = [x - c * y for x, y in zip(w, b)]
            if not any(w):
                return False
            G.append(w)
        return True

    def entry(bits):
        return r.choice([r.randint(-3, 3), r.randint(-2**bits, 2**bits), 0, r.randint(-9, 9)])
    n = 0
    while n < g.pick(500, 12000):
        dim = r.randint(1, 5)
        k = r.randint(1, dim)
        bits = r.choice([2, 3, 5, 8, 16, 40])
        kind = r.random()
        if kind < .5:
            B = [[entry(bits) for _ in range(dim)] for _ in range(k)]
        elif kind < .75:
            # nearly dependent: a small basis hidden by a unimodular transformation
            B = [[int(i == j) * r.randint(1, 4) + (r.randint(-2, 2) if r.random() < .3 else 0) for j in range(dim)] for i in range(k)]
            for _ in range(3 * k):
                i, j = r.randrange(k), r.randrange(k)
                if i != j:
                    c = r.randint(-5, 5)
                    B[i] = [x + c * y for x, y in zip(B[i], B[j])]
        else:
            # integer relation: identity with a column of large numbers
            dim = k + 1
            B = [[int(i == j) for j in range(k)] + [r.randint(-2**bits, 2**bits)] for i in range(k)]
        r.shuffle(B)
        dim = len(B[0])
        if not indep(B):
            g("x.gram_schmidt", "", [S(B), dim])
            continue
        n += 1
        g("x.gram_schmidt", "", [S(B), dim])
        if r.random() < .5:
            g("x.lll", "", [S(B), dim])
        else:
            # halves give exact ties of the rounding
            g("x.lll", "delta", [S(B), dim, r.choice([["1", "2"], ["3", "4"], ["99", "100"], ["26", "100"], ["13", "50"], ["7", "8"], ["999", "1000"]])])
    # half-integral projections (rounding ties), both signs
    for a in range(-9, 10):
        for b in (1, 2, 4):
            g("x.lll", "", [S([[b, 0], [a, 1]]), 2])
            g("x.lll", "", [S([[b, 0, 0], [a, 3, 0], [a + 1, a, 5]]), 3])
    for _ in range(g.pick(100, 1000)):
        d = r.randint(0, 6)
        x, y = [[str(entry(40)) for _ in range(d)] for _ in range(2)]
        if d:
            g("x.inner", "", [x, y])
    # larger lattices: triangular (far from reduced against every earlier vector), integer relations, random
    for dim in g.pick((6, 8, 10, 12), (6, 7, 8, 9, 10, 11, 12, 14, 16)):
        for _ in range(g.pick(3, 25)):
            B = [[(1 << r.randint(0, i)) if i == j else r.randint(-2000, 2000) if j < i else 0 for j in range(dim)] for i in range(dim)]
            g("x.lll", "", [S(B), dim])
            if dim < 10:
                g("x.gram_schmidt", "", [S(B), dim])
            B = [[int(i == j) for j in range(dim - 1)] + [r.randint(-2**20, 2**20)] for i in range(dim - 1)]
            g("x.lll", "", [S(B), dim])
            if dim <= 8:
                B = [[entry(20) for _ in range(dim)] for _ in range(dim)]
                if indep(B):
                    g("x.lll", "", [S(B), dim])



# ---- polynomials over F_p, constant term first
def trim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def fmul(a, b, p):
    if not a or not b:
        return []
    o = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            o[i + j] = (o[i + j] + x * y) % p
    return trim(o)


def frem(a, b, p):
    a = a[:]
    inv = pow(b[-1], -1, p)
    while len(a) >= len(b):
        c = a[-1] * inv % p
        k = len(a) - len(b)
        for i, y in enumerate(b):
            a[k + i] = (a[k + i] - c * y) % p
        trim(a)
    return a


def fgcd(a, b, p):
    while b:
        a, b = b, frem(a, b, p)
    return a


def fpow(a, e, f, p):
    o = frem([1], f, p)
    while e:
        if e & 1:
            o = frem(fmul(o, a, p), f, p)
        a = frem(fmul(a, a, p), f, p)
        e >>= 1
    return o


def irreducible(f, p):
    d = len(f) - 1
    x = [0, 1]
    y = frem(x, f, p)
    for k in range(1, d // 2 + 1):
        y = fpow(y, p, f, p)
        z = y[:] + [0] * (2 - len(y))
        z[1] = (z[1] - 1) % p
        if len(fgcd(f, trim(z), p)) != 1:
            return False
    return True


def rand_irred(r, d, p):
    while True:
        f = [r.randrange(p) for _ in range(d)] + [1]
        if irreducible(f, p):
            return f


def F01(g, beh):
    r = g.rng
    if not g.hooks:
        return
    for b in beh.get("MCSplit", []):
        g("x.ddf", "", [b["f"]], kind=r.choice(["M.i32", "M.i64", "M.big"] + (["M.mod5"] if b["m"] == "5" else [])), m=b["m"])
    primes = [3, 5, 7, 11, 13, 17, 31, 101, 257, 7919, 46337, 65521, 65537, 1000003, 2**31 - 1]
    big = [2**61 - 1, 4294967311]
    huge = [2**89 - 1, 2**127 - 1]
    for _ in range(g.pick(350, 6000)):
        kind = r.choice(["M.i32", "M.i32", "M.i64", "M.big", "M.mod2", "M.mod5", "M.mod7"])
        p = {"M.mod2": 2, "M.mod5": 5, "M.mod7": 7}.get(kind)
        if p is None:
            p = r.choice(primes + ([2] if kind != "sdf" else []) + (big if kind != "M.i32" else []) + (huge if kind == "M.big" else []))
            if r.random() < .5:
                p = r.choice([2, 3, 5, 7, 11])
        fs = set()
        big_p = p > 100000
        for _ in range(r.randint(1, 5 if not big_p else 3)):
            fs.add(tuple(rand_irred(r, r.choice([1, 1, 1, 2, 2, 3, 4] if not big_p else [1, 1, 2, 3]), p)))
        f = [r.choice([1, 1, 1, r.randrange(1, p)])]
        for q in fs:
            f = fmul(f, list(q), p)
        g("x.ddf", "", [[str(c) for c in f]], kind=kind, m=str(p))
        if kind not in ("M.i32", "M.i64") or p == 2:
            continue
        # products of factors of one degree
        d = r.choice([1, 1, 2, 3, 4] if not big_p else [1, 2])
        n = r.randint(1, 4)
        fs = set()
        for _ in range(n):
            fs.add(tuple(rand_irred(r, d, p)))
        f = [1]
        for q in fs:
            f = fmul(f, list(q), p)
        for seed in range(g.pick(2, 4)):
            g("x.sdf", "", [[str(c) for c in f], d, str(r.getrandbits(40) if seed else seed)], kind=kind, m=str(p))
    # all products of distinct linear factors, and of irreducible quadratics, over small fields
    for p in (3, 5, 7):
        lin = [[(-a) % p, 1] for a in range(p)]
        quad = [f for f in ([c, b, 1] for b in range(p) for c in range(p)) if irreducible(f, p)]
        for fs, d in ((lin, 1), (quad, 2)):
            for mask in range(1, 1 << min(len(fs), 7)):
                if mask.bit_count() > 5 or (not g.thorough and r.random() < .3):
                    continue
                f = [1]
                for j in range(min(len(fs), 7)):
                    if mask >> j & 1:
                        f = fmul(f, fs[j], p)
                g("x.sdf", "", [[str(c) for c in f], d, str(r.getrandbits(30))], kind=r.choice(["M.i32", "M.i64"]), m=str(p))
                g("x.ddf", "", [[str(c) for c in f]], kind=r.choice(["M.i32", "M.i64", "M.big"]), m=str(p))
    # the zero polynomial and constants
    for kind in ("M.i32", "M.big"):
        g("x.ddf", "", [[]], kind=kind, m="7")
        g("x.ddf", "", [["3"]], kind=kind, m="7")
