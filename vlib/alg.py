"""Literals of real algebraic numbers for the generators: irreducible polynomials, their real roots, isolating intervals.
Nothing here judges anything; the specification checks every literal again."""
from fractions import Fraction as F
from math import gcd, isqrt


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def prim(p):
    p = trim(p)
    g = 0
    for c in p:
        g = gcd(g, c)
    if p[-1] < 0:
        g = -g
    return [c // g for c in p]


def mul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def taylor(p, s):
    """p(x + s)"""
    r = [0]
    for c in reversed(p):
        r = mul(r, [s, 1])
        r[0] += c
    return trim(r)


def scale(p, n, d):
    """polynomial whose roots are n/d times the roots of p"""
    m = len(p) - 1
    return prim([c * d**i * n**(m - i) for i, c in enumerate(p)])


def sgn_at(p, x):
    n, d = x.numerator, x.denominator
    r, e = 0, 1
    for c in reversed(p):
        r = r * n + c * e
        e *= d
    return (r > 0) - (r < 0)


def sturm(p):
    ch = [p, [i * c for i, c in enumerate(p)][1:]]
    while len(ch[-1]) > 1:
        a, b = list(ch[-2]), ch[-1]
        lb = b[-1]
        while len(a) >= len(b):
            f = a[-1]
            s = abs(lb)
            t = f * (1 if lb > 0 else -1)
            k = len(a) - len(b)
            a = [c * s for c in a]
            for i, c in enumerate(b):
                a[k + i] -= t * c
            a = trim(a)
        if not a:
            break
        g = 0
        for c in a:
            g = gcd(g, c)
        ch.append([-c // g for c in a])
    return ch


def var_at(ch, x):
    v, last = 0, 0
    for q in ch:
        s = sgn_at(q, x)
        if s:
            if last and s != last:
                v += 1
            last = s
    return v


class Root:
    """a real root of an irreducible polynomial, enclosed as tightly as wanted"""

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi
        self.left = self.right = None      # neighbours

    def refine(self, eps):
        if len(self.p) == 2:
            self.lo = self.hi = F(-self.p[0], self.p[1])
            return self
        s = sgn_at(self.p, self.lo)
        while self.hi - self.lo > eps:
            m = (self.lo + self.hi) / 2
            if sgn_at(self.p, m) == s:
                self.lo = m
            else:
                self.hi = m
        return self

    def approx(self):
        return float(self.refine(F(1, 2**40)).lo)


def roots(p):
    """real roots of an irreducible polynomial, in order"""
    if len(p) == 2:
        x = F(-p[0], p[1])
        return [Root(p, x, x)]
    ch = sturm(p)
    B = 1
    while B <= max(abs(c) for c in p) // abs(p[-1]) + 1:
        B *= 2
    B = F(2 * B)
    out = []

    def go(a, b, va, vb):
        if va == vb:
            return
        if va - vb == 1:
            out.append(Root(p, a, b))
            return
        m = (a + b) / 2
        vm = var_at(ch, m)
        go(a, m, va, vm)
        go(m, b, vm, vb)
    go(-B, B, var_at(ch, -B), var_at(ch, B))
    for a, b in zip(out, out[1:]):
        a.right, b.left = b, a
    return out


def floor_k(x, k):
    return (x.numerator << k) // x.denominator


def ceil_k(x, k):
    return -((-x.numerator << k) // x.denominator)


def lit(p, lo, hi, k):
    return {"p": [str(c) for c in p], "lo": str(lo), "hi": str(hi), "k": k}


def tight(r, k):
    """the narrowest interval with denominator 2^k, if it isolates the root; else a finer one"""
    while True:
        r.refine(F(1, 2**(k + 12)))
        lo, hi = floor_k(r.lo, k), ceil_k(r.hi, k)
        if isolates(r, F(lo, 2**k), F(hi, 2**k)):
            return lo, hi, k
        k += 1


def isolates(r, lo, hi):
    """no neighbour in [lo, hi] (neighbours are refined as needed)"""
    for n, below in ((r.left, True), (r.right, False)):
        if n is None:
            continue
        while True:
            if below and n.hi < lo or not below and n.lo > hi:
                break
            if below and n.lo >= lo or not below and n.hi <= hi:
                return False
            w = n.hi - n.lo
            if len(n.p) == 2:
                return False
            n.refine(w / 16)
    return True


def interval(r, rng, k=None, mode=None):
    """an isolating interval of the root: lo, hi, k"""
    mode = mode or rng.choice(["tight", "tight", "wide", "wide", "rand", "zero", "int", "big"])
    k = rng.choice([0, 0, 1, 2, 3, 4, 8, 20]) if k is None else k
    lo, hi, k = tight(r, k)
    if mode == "tight":
        return lo, hi, k

    def ok(a, b):
        return a <= lo and hi <= b and isolates(r, F(a, 2**k), F(b, 2**k))

    def reach(d, limit):
        """as far as possible from the root in one direction, at most limit steps"""
        step, n = 1, 0
        while step <= limit:
            t = n + step
            if t <= limit and (ok(lo - t, hi) if d < 0 else ok(lo, hi + t)):
                n = t
                step *= 2
            elif step == 1:
                break
            else:
                step = 1 if step == 1 else step // 2
                while step >= 1:
                    t = n + step
                    if t <= limit and (ok(lo - t, hi) if d < 0 else ok(lo, hi + t)):
                        n = t
                    step //= 2
                break
        return n
    lim = 2**k * (64 if mode == "big" else 4)
    dl, dr = reach(-1, lim), reach(1, lim)
    if mode in ("wide", "big"):
        if rng.random() < .3:
            dl = 0
        elif rng.random() < .3:
            dr = 0
        return lo - dl, hi + dr, k
    if mode == "zero":
        # a bound at zero, or an interval around zero
        c = [(0, hi + rng.randint(0, dr)), (lo - rng.randint(0, dl), 0), (-rng.randint(0, 3), hi + rng.randint(0, dr)),
             (lo - rng.randint(0, dl), rng.randint(0, 3))]
        c = [(a, b) for a, b in c if lo - dl <= a <= lo and hi <= b <= hi + dr]
        if c:
            return rng.choice(c) + (k,)
    if mode == "int":
        # bounds at integers
        a, b = (lo >> k) << k, -((-hi >> k) << k)
        c = [(a, b), (a, hi), (lo, b)]
        c = [(a, b) for a, b in c if lo - dl <= a <= lo and hi <= b <= hi + dr]
        if c:
            return rng.choice(c) + (k,)
    return lo - rng.randint(0, dl), hi + rng.randint(0, dr), k


def is_square(n):
    return n >= 0 and isqrt(n)**2 == n


COS = {5: [-1, 1, 1], 7: [-1, -2, 1, 1], 9: [1, -3, 0, 1], 11: [1, 3, -3, -4, 1, 1], 13: [-1, 3, 6, -4, -5, 1, 1],
       15: [1, 4, -4, -1, 1], 16: [2, 0, -4, 0, 1], 20: [5, 0, -5, 0, 1], 24: [1, 0, -4, 0, 1]}


def poly(rng, deg=None, bits=4):
    """an irreducible primitive polynomial with positive leading coefficient"""
    deg = deg or rng.choice([2, 2, 2, 3, 3, 4])
    while True:
        kind = rng.choice(["quad", "eis", "eis", "pow", "cos", "bi", "mig"])
        if deg == 2 and kind == "quad" or deg == 2 and rng.random() < .5:
            p = [rng.randint(-2**bits, 2**bits) for _ in range(2)] + [rng.randint(1, rng.choice([1, 1, 2, 2**bits]))]
            if is_square(p[1]**2 - 4 * p[0] * p[2]) or p[1]**2 - 4 * p[0] * p[2] < 0:
                continue
        elif kind == "eis":
            q = rng.choice([2, 2, 3, 5, 7])
            p = [q * rng.randint(-2**bits // q - 1, 2**bits // q + 1) for _ in range(deg)] + [rng.choice([1, 1, 1, 2, 3, 4, 5, 9])]
            if p[0] % (q * q) == 0 or p[-1] % q == 0:
                continue
        elif kind == "pow":
            p = [-rng.choice([2, 3, 5, 6, 7, 10])] + [0] * (deg - 1) + [1]
        elif kind == "cos":
            c = [n for n in COS if len(COS[n]) == deg + 1]
            if not c:
                continue
            p = COS[rng.choice(c)]
        elif kind == "bi" and deg == 4:
            a, b = rng.sample([2, 3, 5, 6, 7, 10], 2)
            if is_square(a * b):
                continue
            p = [(a - b)**2, 0, -2 * (a + b), 0, 1]        # sqrt(a) + sqrt(b)
        elif kind == "mig" and deg >= 3:
            c = rng.choice([2, 3, 5, 10, 100])
            p = [0] * (deg + 1)
            p[deg] = 1
            for i, v in enumerate(mul([-1, c], [-1, c])):
                p[i] -= 2 * v
        else:
            continue
        p = prim(p)
        t = rng.random()
        if t < .2:
            p = prim(taylor(p, rng.randint(-3, 3)))
        elif t < .3:
            p = prim(p[::-1])
        elif t < .4:
            p = prim([c if i % 2 == 0 else -c for i, c in enumerate(p)])
        elif t < .5:
            p = scale(p, rng.randint(1, 4), rng.randint(1, 4))
        rs = roots(p)
        if rs and len(p) == deg + 1:
            return p, rs


def number(rng, deg=None, bits=4, mode=None, k=None, sign=None):
    while True:
        p, rs = poly(rng, deg, bits)
        r = rng.choice(rs)
        if sign is not None and (r.approx() > 0) != (sign > 0):
            continue
        return lit(p, *interval(r, rng, k, mode))


def rational(rng, n=None, d=None, bits=4):
    if n is None:
        n = rng.choice([0, 0, 1, -1, 2, rng.randint(-2**bits, 2**bits), rng.randint(-2**bits, 2**bits)])
        d = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, rng.randint(1, 2**bits)])
    x = F(n, d)
    p = [-x.numerator, x.denominator]
    return lit(p, *interval(Root(p, x, x), rng))
