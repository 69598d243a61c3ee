from math import gcd, isqrt
from .gen import *
KINDS = list(INTS) + ["BigInt", "BigUint"]


def S(t):
    return [str(v) for v in t]


def canon(t):
    """canonical terms, None if there is no such number (only used to choose arguments)"""
    c, b, a = t
    if a == 0:
        if b == 0:
            return None
        n, d = -c, b
    else:
        D = b * b - 4 * a * c
        if D < 0:
            return None
        s = isqrt(D)
        if s * s != D:
            g = gcd(gcd(a, b), c)
            return (c // g, b // g, a // g)
        n, d = s - b, 2 * a
    g = gcd(n, d)
    g = -g if d < 0 else g
    return (-n // g, d // g, 0)


def terms(g):
    r = g.rng
    k = r.random()
    bits = r.choice([1, 2, 2, 3, 3, 4, 8, 20, 40, 64, 100])
    n = lambda: g.integer(bits)
    if k < .35:
        return (n(), n(), n())
    if k < .45:
        # square discriminant: (p*X - q)*(u*X - v)
        p, q, u, v = n(), n(), n(), n()
        return (q * v, -(p * v + q * u), p * u)
    if k < .55:
        return (n(), n(), 0)
    if k < .65:
        f = n()
        return tuple(f * v for v in (n(), n(), r.choice([0, 1, -1, n()])))
    if k < .8:
        # discriminant next to a square: roots next to a ratio
        b, a = 2 * n(), r.choice([1, -1, 2, n()])
        m = abs(n())
        c = (b * b - m * m) // (4 * a) if a else n()
        return (c + r.choice([-1, 0, 1]), b, a)
    if k < .9:
        return (n(), 0, n())
    # discriminant 0, 1 or a little negative
    b, a = n(), n()
    c = (b * b) // (4 * a) if a else n()
    return (c + r.choice([-1, 0, 0, 1]), b, a)


def number(g):
    while True:
        t = canon(terms(g))
        if t:
            return t


def irrational(g):
    while True:
        t = number(g)
        if t[2]:
            return t


def rational(g):
    r = g.rng
    bits = r.choice([1, 2, 3, 8, 40, 70])
    return canon((g.integer(bits), r.choice([1, 1, abs(g.integer(bits)) or 1]), 0))


def ratio_near(g, t):
    """a ratio close to the number"""
    r = g.rng
    c, b, a = t
    k = r.choice([0, 1, 2, 5, 20, 60])
    d = r.choice([1, 1, 2 ** k, 2 ** k + 1])
    if a == 0:
        n = -c * d // b
    else:
        D = b * b - 4 * a * c
        s = isqrt(D << (2 * k)) * d // 2 ** k
        n = (-b * d + s) // (2 * a)
        if r.random() < .2:
            # the vertex, and the same distance beyond it
            n, d = r.choice([(-b, 2 * a), (-b - isqrt(D), 2 * a), (-b + isqrt(D) + 1, 2 * a)])
    n += r.choice([-1, 0, 0, 1, 2])
    if d < 0:
        n, d = -n, -d
    f = r.choice([1, 1, 3])
    return n * f, d * f


def partner(g, t):
    """a number related to t"""
    r = g.rng
    c, b, a = t
    k = r.random()
    if k < .15:
        v = (-c, -b, -a)                              # the other root
    elif k < .3:
        v = (-c, b, -a)                               # negated
    elif k < .5:
        v = (c + r.choice([-1, 0, 1]), b + r.choice([-1, 0, 1]), a + r.choice([-1, 0, 1]))
    elif k < .65:
        n, d = r.choice([(1, 1), (-1, 1), (1, 2), (1, 1000003)])
        v = (c * d * d - b * n * d + a * n * n, b * d * d - 2 * a * n * d, a * d * d)     # shifted
    elif k < .8:
        m = 2 ** r.choice([10, 40, 80])               # very close
        v = (c * m + r.choice([-1, 1]), b * m + r.choice([0, 0, 1]), a * m + r.choice([0, 0, 1]))
    elif k < .9:
        n = r.randint(2, 5)                           # same square root, another multiple
        v = (c * n * n, b * n, a)
    else:
        v = number(g)
    return canon(v) or number(g)


def Q01(g, beh):
    r = g.rng
    if not g.hooks:
        return
    b = beh.get("MCQuadratic", [])
    if len(b) > g.pick(20000, 200000):
        b = r.sample(b, g.pick(20000, 200000))
    seen = set()
    for x in b:
        g("q.cmp", "", [x["x"], x["y"]])
        if x["y"][2] == "0":
            n = [str(-int(x["y"][0])), x["y"][1]]
            g("q.cmp_ratio", "", [x["x"], n])
            g("q.add", "f", [x["x"], x["y"]])
            g("q.sub", "f", [x["y"], x["x"]])
        if str(x["x"]) not in seen:
            seen.add(str(x["x"]))
            for op, f in (("neg", "m"), ("neg", "r"), ("abs", ""), ("signum", ""), ("query", ""), ("poly", "")):
                g("q." + op, f, [x["x"]])
            if x["x"][2] == "0":
                g("q.recip", "c", [x["x"]])
    if beh.get("MCQuadratic"):
        w = g.pick(4, 9)
        for a_ in range(-w, w + 1):
            for b_ in range(-w, w + 1):
                for c_ in range(-w, w + 1):
                    t = S((c_, b_, a_))
                    g("q.new", "ck", [t])
                    g("q.poly", "", [t])
        for op in ("default", "zero", "one"):
            g("q." + op)
        for n in range(-6, 7):
            for d in range(-6, 7):
                for f in ("ck", ""):
                    g("q.from_ratio", f, [str(n), str(d)])
    for _ in range(g.pick(150, 3000)):
        g("q.new", "ck", [S(terms(g))])
        g("q.poly", "", [S(terms(g))])
    for _ in range(g.pick(300, 6000)):
        x = number(g)
        y = partner(g, x)
        if r.random() < .5:
            x, y = y, x
        g("q.cmp", "", [S(x), S(y)])
        g("q.cmp_ratio", "", [S(x), S(ratio_near(g, x))])
        z = irrational(g)
        g("q.cmp_ratio", "", [S(z), S(ratio_near(g, z))])
        g("q.cmp", "", [S(z), S(partner(g, z))])
    for _ in range(g.pick(60, 1200)):
        x = number(g)
        g("q.query", "", [S(x)])
        g("q.neg", r.choice("mr"), [S(x)])
        g("q.abs", "", [S(x)])
        g("q.signum", "", [S(x)])
        g("q.from_integer", "", [str(g.integer())])
        g("q.from_ratio", r.choice(["ck", ""]), [str(g.integer()), str(r.choice([g.integer(), g.integer(), 0]))])
        q = rational(g)
        g("q.recip", "c", [S(q)])
        for op in ("add", "sub"):
            x = number(g)
            if r.random() < .2:
                # cancels
                x = canon((-q[0] if op == "add" else q[0], q[1], 0))
            a = [S(x), S(q)] if r.random() < .5 else [S(q), S(x)]
            g("q." + op, r.choice(["mm", "mr", "rm", "rr", "c", "f"]), a)
    for k in KINDS:
        for _ in range(g.pick(3, 40)):
            if k in INTS:
                n, d = g.in_type(k), g.in_type(k)
            else:
                n, d = g.integer(), g.integer()
                if k == "BigUint":
                    n, d = abs(n), abs(d)
            g("q.from_int", "", [str(n)], kind=k)
            g("q.from_ratio_kind", "", [str(n), str(d)], kind=k)
    # programs: a sum taken back step by step, compared on the way
    for _ in range(g.pick(20, 400)):
        g.session()
        x = irrational(g)
        g("q.new", "ck", [S(x)], d="x")
        cur = "x"
        qs = [rational(g) for _ in range(r.randint(1, 4))]
        for n, q in enumerate(qs):
            g("q.add", "rr", [{"r": cur}, S(q)], d="t%d" % n)
            g("q.cmp", "", [{"r": cur}, {"r": "t%d" % n}])
            cur = "t%d" % n
        g("q.neg", "r", [{"r": cur}], d="n")
        for n, q in enumerate(qs):
            g("q.add", "mm", [{"r": "n"}, S(q)], d="n")
        g("q.neg", "m", [{"r": "n"}], d="y")
        g("q.cmp", "", [{"r": "x"}, {"r": "y"}])
        g("q.query", "", [{"r": "y"}])
        g.end()
