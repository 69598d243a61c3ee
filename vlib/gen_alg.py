"""Commands for real algebraic numbers."""
from . import alg
from .alg import number, rational, lit, roots, interval, prim, scale, taylor, F
from .gen import BIN, DIVX, INTS

OPS = ["add", "sub", "mul"]


def any_number(g, deg=None, bits=4):
    r = g.rng
    if deg == 1 or deg is None and r.random() < .25:
        return rational(r, bits=bits)
    return number(r, deg, bits)


def degrees(r, limit):
    while True:
        a, b = r.choice([1, 2, 2, 2, 3, 3, 4, 5, 6]), r.choice([1, 2, 2, 2, 3, 3, 4, 5, 6])
        if a * b <= limit:
            return a, b


def reinterval(r, rt):
    return lit(rt.p, *interval(rt, r))


def related(r):
    """two numbers of one field: conjugates, the same number, the negative, the reciprocal, a rational translate or multiple"""
    p, rs = alg.poly(r)
    x = r.choice(rs)
    a = reinterval(r, x)
    k = r.randrange(7)
    if k == 0:
        return a, reinterval(r, r.choice(rs))
    if k == 1:
        return a, reinterval(r, x)
    idx = rs.index(x)
    if k == 2:
        q = prim([c if i % 2 == 0 else -c for i, c in enumerate(p)])
        qs = roots(q)
        return a, reinterval(r, qs[len(qs) - 1 - idx])
    if k == 3:
        q = prim(p[::-1])
        # 1/x
        v = 1 / x.refine(F(1, 2**60)).lo if x.approx() else None
        qs = roots(q)
        if v is None:
            return a, a
        return a, reinterval(r, min(qs, key=lambda y: abs(y.refine(F(1, 2**60)).lo - v)))
    if k == 4:
        s = r.randint(-3, 3)
        return a, reinterval(r, roots(prim(taylor(p, s)))[idx])
    if k == 5:
        n, d = r.randint(1, 4), r.randint(1, 4)
        return a, reinterval(r, roots(scale(p, n, d))[idx])
    q = prim([c if i % 2 == 0 else -c for i, c in enumerate(p)])
    return a, reinterval(r, r.choice(roots(prim(taylor(q, r.randint(-2, 2))))))


def close(r, j=None):
    """a number with a conjugate only 2^(-5j/2) away: x^3 - 2(ax-1)^2, irreducible by Eisenstein's criterion"""
    a = 2**(j or r.choice([3, 8, 20, 30, 45])) + r.choice([0, 1, -1, 5])
    p = [-2, 4 * a, -2 * a * a, 1]
    if r.random() < .4:
        p = [c * (-1)**i for i, c in enumerate(p)]
        p = prim(p)
    rs = sorted(roots(p), key=lambda x: abs(x.approx()))
    return reinterval(r, r.choice(rs[:2]))


def tall(r):
    """a number of large degree"""
    d = r.randint(8, 15)
    q = r.choice([2, 3, 5])
    p = [-q] + [q * r.choice([0, 0, 0, 1, -1, 2]) for _ in range(d - 1)] + [1]
    return reinterval(r, r.choice(roots(p))) if roots(p) else tall(r)


def A01(g, beh):
    r = g.rng
    replay(g, beh)
    for _ in range(g.pick(60, 250)):
        a = close(r)
        b = r.choice([close(r, 8), number(r, 2), rational(r, bits=r.choice([3, 40])), a])
        x = [a, b]
        r.shuffle(x)
        g("a." + r.choice(OPS), r.choice(BIN), x)
        g("a.neg", r.choice("mr"), [r.choice([tall(r), close(r)])])
        g("a." + r.choice(OPS), r.choice(BIN), [tall(r), rational(r)])
        g("a." + r.choice(OPS), r.choice(BIN), [rational(r, bits=r.choice([100, 300])), rational(r, bits=r.choice([3, 200]))])
    for _ in range(g.pick(2100, 8000)):
        da, db = degrees(r, g.pick(12, 20))
        bits = r.choice([2, 3, 4, 4, 10, 40])
        a, b = any_number(g, da, bits), any_number(g, db, bits)
        g("a." + r.choice(OPS), r.choice(BIN), [a, b])
    for _ in range(g.pick(1200, 4000)):
        a, b = related(r)
        g("a." + r.choice(OPS), r.choice(BIN), [a, b])
    for _ in range(g.pick(450, 1000)):
        g("a.neg", r.choice("mr"), [any_number(g, r.choice([1, 2, 3, 4, 5, 6, 7]), 8)])
    # each form of each operation, with each special operand
    for op in OPS:
        for f in BIN:
            for s in ([0, 1], [1, 1], [-1, 1], [1, 2], [-3, 4], None):
                x = number(r, 2)
                y = rational(r, *s) if s else number(r, 2)
                g("a." + op, f, [x, y])
                g("a." + op, f, [y, x])
    programs(g, g.pick(120, 600), ["add", "sub", "mul", "neg"])


def programs(g, n, ops, limit=12):
    """random programs: results feed later operations"""
    r = g.rng
    for _ in range(n):
        g.session()
        regs = []       # (name, bound of the degree)
        # a small field, so that programs can be long: values from one or two quadratic/cubic numbers
        base = []
        for _ in range(r.choice([1, 1, 2])):
            d = r.choice([2, 2, 3])
            p, rs = alg.poly(r, d)
            base.append((p, rs, d))
        fld = 1
        for p, rs, d in base:
            fld *= d if len(rs) == 1 or d == 2 else 6
        if fld > limit:
            base, fld = base[:1], base[0][2] if base[0][2] == 2 or len(base[0][1]) == 1 else 6
        for p, rs, d in base:
            for x in rs[:2]:
                nm = "v%d" % len(regs)
                g("a.lit", "", [reinterval(r, x)], d=nm)
                regs.append(nm)
        nm = "v%d" % len(regs)
        g("a.lit", "", [rational(r)], d=nm)
        regs.append(nm)
        for _ in range(r.randint(3, 7)):
            op = r.choice(ops)
            nm = "v%d" % len(regs)
            x, y = {"r": r.choice(regs)}, {"r": r.choice(regs)}
            if op in ("neg",):
                g("a.neg", r.choice("mr"), [x], d=nm)
            elif op == "recip":
                g("a.recip", "c", [x], d=nm)
            elif op == "div":
                g("a.div", r.choice(BIN + DIVX), [x, y], d=nm)
            elif op in ("cmp", "abs_sub"):
                g("a." + op, "", [x, y])
                continue
            elif op in ("sign", "class"):
                g("a." + op, "", [x])
                continue
            elif op in ("fract", "floor"):
                g("a." + op, r.choice("mr"), [x], d=nm)
            elif op == "abs":
                g("a.abs", "", [x], d=nm)
            elif op == "pow":
                g("a.pow", r.choice(["cm", "cr"]), [x, [str(r.choice([2, 2, 3, -2])), "1"]], d=nm)
            else:
                g("a." + op, r.choice(BIN), [x, y], d=nm)
            regs.append(nm)
        g.end()


def replay(g, beh):
    for name in sorted(beh):
        g.sessions(beh[name])


ALLDIV = BIN + DIVX


def near_zero(r, k=None):
    """a number close to zero, or an interval that touches or holds zero"""
    t = r.randrange(4)
    if t == 0:
        return number(r, r.choice([2, 3]), mode="zero", k=r.choice([0, 1, 4]))
    if t == 1:
        # x with n*x^2 = small: 2^-j * sqrt(2)
        j = r.choice([1, 5, 20, 60])
        p = scale([-r.choice([2, 3, 5]), 0, 1], 1, 2**j)
        return reinterval(r, r.choice(roots(p)))
    if t == 2:
        # sqrt(n^2 + 1) - n
        n = r.choice([1, 2, 10, 1000, 2**30])
        return reinterval(r, r.choice(roots([-1, r.choice([-2, 2]) * n, 1])))
    return number(r, r.choice([3, 4]), mode=r.choice(["wide", "zero", "big"]), k=0)


def zero(r):
    return lit([0, 1], -r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 5]), r.choice([0, 0, 2]))


def A02(g, beh):
    r = g.rng
    replay(g, beh)
    for f in ALLDIV:
        for _ in range(2):
            g("a.div", f, [any_number(g), zero(r)])
            g("a.div", f, [zero(r), any_number(g, 2)])
        g("a.div", f, [zero(r), zero(r)])
        for s in ([1, 1], [-1, 1], [2, 3], [-8, 1]):
            g("a.div", f, [number(r, 2), rational(r, *s)])
            g("a.div", f, [rational(r, *s), number(r, 2)])
            g("a.div", f, [rational(r), rational(r, *s)])
    for f in "cu":
        for _ in range(6):
            g("a.recip", f, [zero(r)])
        for _ in range(g.pick(450, 1500)):
            g("a.recip", f, [rational(r, bits=r.choice([3, 10, 70, 200]))])
            g("a.recip", f, [near_zero(r)])
            g("a.recip", f, [any_number(g, r.choice([2, 2, 3, 4, 5, 6]), r.choice([3, 6, 30]))])
    for _ in range(g.pick(1200, 5000)):
        da, db = degrees(r, g.pick(10, 18))
        a = any_number(g, da, r.choice([2, 3, 4, 10]))
        b = near_zero(r) if r.random() < .4 and da <= 3 else any_number(g, db, r.choice([2, 3, 4, 10]))
        g("a.div", r.choice(ALLDIV), [a, b])
    for _ in range(g.pick(750, 2500)):
        a, b = related(r)
        g("a.div", r.choice(ALLDIV), [a, b])
    for _ in range(g.pick(50, 200)):
        g("a.recip", r.choice("cu"), [r.choice([close(r), tall(r)])])
        g("a.div", r.choice(ALLDIV), [number(r, 2), close(r)])
        g("a.div", r.choice(ALLDIV), [close(r), rational(r)])
    programs(g, g.pick(100, 500), ["add", "sub", "mul", "div", "div", "recip", "neg"])


def A03(g, beh):
    r = g.rng
    replay(g, beh)
    for _ in range(g.pick(180, 600)):
        g("a.class", "", [any_number(g, r.choice([1, 1, 2, 3, 4, 5, 6]), r.choice([1, 3, 30]))])
    for _ in range(g.pick(120, 300)):
        t = r.choice(list(INTS))
        n = g.in_type(t)
        d = 0
        while d == 0 or n == INTS[t][0] and INTS[t][0] < 0:
            n, d = g.in_type(t), g.in_type(t)
            if INTS[t][0] < 0 and d == INTS[t][0]:
                d = 0
        g.session()
        g("a.from_ratio", "", [[str(n), str(d)]], kind=t, d="x")
        g("a.class", "", [{"r": "x"}])
        g("a.neg", "r", [{"r": "x"}], d="y")
        g("a.class", "", [{"r": "y"}])
        g("a.recip", "c", [{"r": "y"}], d="z")
        g.end()
    for n in (0, 1, -1, 2, -7):
        for f in ("zero", "one", "neg1"):
            g("a.set", f, [rational(r, n, 3)])
    for _ in range(g.pick(100, 400)):
        a, b = related(r)
        g("a.rep", "", [a, r.choice([a, b])])
    for _ in range(g.pick(450, 1500)):
        g("a.neg", r.choice("mr"), [any_number(g, r.choice([1, 2, 3, 4, 5, 6, 7]), 8)])
        g("a.recip", "c", [any_number(g, r.choice([1, 2, 3, 4, 5]), 8)])
    for _ in range(g.pick(6, 40)):
        g("a.neg", r.choice("mr"), [any_number(g, r.choice([8, 9, 10, 11, 12]), 4)])
        g("a.recip", "c", [any_number(g, r.choice([6, 7, 8, 9]), 4)])
    for _ in range(g.pick(1050, 3500)):
        a, b = related(r)
        g("a." + r.choice(OPS), r.choice(BIN), [a, b])
        if r.random() < .4:
            g("a.div", r.choice(ALLDIV), [a, b])
    for _ in range(g.pick(900, 3000)):
        da, db = degrees(r, g.pick(10, 18))
        g("a." + r.choice(OPS + ["div"]), r.choice(BIN), [any_number(g, da, 4), any_number(g, db, 4)])
    for _ in range(g.pick(40, 200)):
        g("a.neg", r.choice("mr"), [r.choice([tall(r), close(r)])])
        g("a.recip", "c", [r.choice([tall(r), close(r)])])
        g("a." + r.choice(OPS + ["div"]), r.choice(BIN), [close(r), number(r, 2)])
        g("a.class", "", [rational(r, bits=200)])
    for _ in range(g.pick(300, 1000)):
        a, e = pow_case(r)
        g("a.pow", "cr", [a, e])
    for _ in range(g.pick(300, 1000)):
        g("a." + r.choice(["fract", "floor", "ceil", "trunc"]), r.choice("mr"), [any_number(g, r.choice([1, 2, 3, 4]))])
    programs(g, g.pick(120, 600), ["add", "sub", "mul", "div", "recip", "neg", "pow", "fract", "class", "abs"])


def close_pair(r):
    """two numbers that agree to many bits, or are equal"""
    p, rs = alg.poly(r, r.choice([2, 2, 3]))
    x = r.choice(rs)
    bits = r.choice([1, 4, 16, 64, 64, 200])
    a = reinterval(r, x)
    t = r.randrange(4)
    if t == 0:
        # a rational next to it
        x.refine(F(1, 2**(bits + 5)))
        v = F(alg.floor_k(x.lo, bits) + r.choice([0, 1]), 2**bits)
        return a, rational(r, v.numerator, v.denominator)
    if t == 1:
        # best rational approximation
        v = x.refine(F(1, 2**(2 * bits + 10))).lo.limit_denominator(2**bits)
        return a, rational(r, v.numerator, v.denominator)
    if t == 2:
        # a root of a slightly different polynomial with the same structure
        for _ in range(30):
            c = 2**bits
            q = [v * c for v in p]
            q[0] += r.choice([-1, 1])
            q = prim(q)
            if len(q) == 3 and not alg.is_square(q[1]**2 - 4 * q[0] * q[2]) or len(q) == 4 and no_rational_root(q):
                qs = roots(q)
                if len(qs) == len(rs):
                    y = qs[rs.index(x)]
                    return a, reinterval(r, y)
            bits += 1
        return a, a
    return a, reinterval(r, x)


def no_rational_root(p):
    """cheap sufficient test: irreducible modulo a small prime"""
    for q in (5, 7, 11, 13, 17, 19, 23):
        if p[-1] % q and all(sum(c * pow(x, i, q) for i, c in enumerate(p)) % q for x in range(q)):
            return True
    return False


def A04(g, beh):
    r = g.rng
    replay(g, beh)
    two = ["cmp", "cmp", "cmp", "abs_sub", "max", "min"]
    for _ in range(g.pick(1050, 4000)):
        a, b = close_pair(r)
        if r.random() < .5:
            a, b = b, a
        g("a." + r.choice(two), "", [a, b])
    for _ in range(g.pick(900, 3000)):
        a, b = related(r)
        g("a." + r.choice(two), "", [a, b])
    for _ in range(g.pick(600, 2500)):
        da, db = degrees(r, g.pick(9, 16))
        g("a." + r.choice(two), "", [any_number(g, da), any_number(g, db)])
    for _ in range(g.pick(180, 500)):
        a, b = rational(r), rational(r)
        g("a.cmp", "", [a, b])
        g("a." + r.choice(two), "", [a, b])
    for _ in range(g.pick(750, 2500)):
        x = r.choice([lambda: near_zero(r), lambda: rational(r), lambda: zero(r), lambda: any_number(g, r.choice([2, 3, 4, 5, 6])),
                      lambda: number(r, r.choice([2, 3, 4]), mode="zero", k=r.choice([0, 1, 3]))])()
        g("a.sign", "", [x])
        g("a." + r.choice(["abs", "signum"]), "", [x])
    for f in ("zero", "one", "neg1"):
        g("a.const", f, [])
        g("a.set", f, [number(r)])
    # the same value reached on different ways
    programs(g, g.pick(120, 600), ["add", "sub", "mul", "neg", "cmp", "cmp", "sign", "abs", "abs_sub"])
    for _ in range(g.pick(90, 300)):
        x, y = r.sample([2, 3, 5, 6, 7], 2)
        g.session()
        g("a.from_int", "", [str(x)], kind="i32", d="x")
        g("a.from_int", "", [str(y)], kind="i32", d="y")
        g("a.pow", "cr", [{"r": "x"}, ["1", "2"]], d="rx")
        g("a.pow", "cr", [{"r": "y"}, ["1", "2"]], d="ry")
        g("a.add", "rr", [{"r": "rx"}, {"r": "ry"}], d="s")
        g("a.mul", "rr", [{"r": "s"}, {"r": "s"}], d="s2")         # x + y + 2 sqrt(xy)
        g("a.mul", "rr", [{"r": "rx"}, {"r": "ry"}], d="xy")
        g("a.add", "rr", [{"r": "xy"}, {"r": "xy"}], d="xy2")
        g("a.add", "rr", [{"r": "x"}, {"r": "y"}], d="t")
        g("a.add", "rr", [{"r": "t"}, {"r": "xy2"}], d="u")
        g("a.cmp", "", [{"r": "u"}, {"r": "s2"}])
        g("a.cmp", "", [{"r": "s"}, {"r": "u"}])
        g("a.sub", "rr", [{"r": "u"}, {"r": "s2"}], d="z")
        g("a.sign", "", [{"r": "z"}])
        g.end()


def near_integer(r, span=None):
    """an irrational number within a tiny distance of an integer"""
    n = r.choice([0, 1, 2, 3, 7, 100, 2**20, 2**64, 10**30])
    t = r.randrange(4)
    if t == 0 and n > 1:
        p = [-(n * n + r.choice([-1, 1])), 0, 1]
    elif t == 1 and n > 1:
        p = [-(n**3 + r.choice([-1, 1])), 0, 0, 1]
    elif t == 2:
        # sqrt(2) / 2^j + n
        j = r.choice([1, 10, 50, 120])
        p = prim(taylor(scale([-2, 0, 1], 1, 2**j), r.choice([-1, 1]) * n))
    else:
        j = r.choice([1, 2, 5, 40])
        p = prim(taylor(scale([-3, 0, 0, 1], 1, 3**j), r.choice([-1, 1]) * n))
    x = r.choice(roots(p))
    return lit(p, *interval(x, r, k=r.choice([0, 0, 1, 3]), mode=r.choice(["int", "wide", "tight", "rand"])))


def A05(g, beh):
    r = g.rng
    replay(g, beh)
    one = ["ifloor", "iceil", "itrunc", "floor", "ceil", "trunc", "fract"]
    for op in one:
        for f in "mr":
            for _ in range(g.pick(54, 200)):
                g("a." + op, f, [near_integer(r)])
                g("a." + op, f, [any_number(g, r.choice([2, 3, 4, 5]), r.choice([3, 20]))])
                g("a." + op, f, [near_zero(r)])
            for _ in range(g.pick(42, 150)):
                g("a." + op, f, [rational(r, bits=r.choice([3, 5, 70, 200]))])
                g("a." + op, f, [rational(r, r.choice([-1, 1]) * r.getrandbits(r.choice([70, 140, 300])), r.choice([1, 2, 3, 7, 1000]))])
            for _ in range(g.pick(4, 20)):
                g("a." + op, f, [r.choice([close(r), tall(r)])])
            for n in (-7, -6, -4, -3, -2, -1, 0, 1, 2, 3, 5, 8):
                g("a." + op, f, [rational(r, n, 4)])
    for f in BIN:
        g("a.rem", f, [number(r, 2), zero(r)])
        g("a.rem", f, [zero(r), number(r, 2)])
        for a in (7, -7, 6, -6, 1, 0):
            for b in (3, -3, 2):
                g("a.rem", f, [rational(r, a, 2), rational(r, b, 2)])
    for _ in range(g.pick(450, 2000)):
        da, db = degrees(r, g.pick(4, 6))
        g("a.rem", r.choice(BIN), [any_number(g, da, r.choice([2, 4, 7])), any_number(g, db, r.choice([1, 2, 4]))])
    for _ in range(g.pick(60, 300)):
        # large quotients
        g("a.rem", r.choice(BIN), [rational(r, r.choice([-1, 1]) * r.getrandbits(r.choice([70, 140])), r.choice([1, 2, 3, 7])), rational(r)])
        x = reinterval(r, r.choice(roots(scale([-2, 0, 1], r.getrandbits(r.choice([40, 70, 100])) + 1, r.choice([1, 3])))))
        g("a.rem", r.choice(BIN), [x, r.choice([rational(r, r.randint(1, 9), r.randint(1, 9)), number(r, 2, 2)])])
    for _ in range(g.pick(360, 1500)):
        # exact multiples, and just off them
        x = number(r, r.choice([2, 2, 3]))
        p = [int(c) for c in x["p"]]
        rs = roots(p)
        y = r.choice(rs)
        m = r.choice([1, 2, 3, 7])
        q = scale(p, m, r.choice([1, 1, 2]))
        z = r.choice(roots(q))
        g("a.rem", r.choice(BIN), [reinterval(r, z), reinterval(r, y)])
    programs(g, g.pick(50, 300), ["add", "mul", "fract", "floor", "neg", "fract"])


def pow_case(r):
    """base and exponent of moderate size"""
    t = r.randrange(8)
    n, d = r.choice([1, 1, 2, 3, 4, 5, 6]), r.choice([1, 1, 2, 2, 3, 4, 5])
    if r.random() < .4:
        n = -n
    if t <= 2:
        # rational bases, also exact powers
        b = r.choice([2, 3, 4, 8, 9, 16, 27, 32, 64, 36, 5, 6, 1000, 1, 7])
        c = r.choice([1, 1, 4, 8, 9, 27, 5, 7])
        s = -1 if r.random() < .3 else 1
        return rational(r, s * b, c), [str(n), str(d)]
    if t == 3:
        # the square, cube of a quadratic number: its root is of lower degree than expected
        x = number(r, 2, 2)
        p = [int(v) for v in x["p"]]
        # minimal polynomial of x^2 for p = [c, b, a]:  a^2 y^2 - (b^2 - 2ac) y + c^2
        c, b, a = p
        q = prim([c * c, -(b * b - 2 * a * c), a * a])
        if b == 0:
            return x, [str(n), str(r.choice([1, 2]))]
        return reinterval(r, r.choice(roots(q))), [str(r.choice([1, -1, 3])), "2"]
    if t == 4:
        return near_zero(r), [str(r.choice([2, 3, -1, -2, 1])), str(r.choice([1, 1, 2]))]
    if t == 5:
        return number(r, r.choice([3, 4]), 3), [str(r.choice([2, 3, -2, -3, 1])), str(r.choice([1, 1, 2, 3]))]
    if t == 6:
        return number(r, 2, 3, sign=-1), [str(n), str(r.choice([1, 1, 1, 2, 3]))]
    return number(r, 2, 3), [str(n), str(r.choice([1, 2, 3]))]


UNS = ["u8", "u16", "u32", "u64", "u128", "usize", "BigUint"]
SIG = ["i8", "i16", "i32", "i64", "i128", "isize", "BigInt"]


def A06(g, beh):
    r = g.rng
    replay(g, beh)
    for _ in range(g.pick(1350, 5000)):
        a, e = pow_case(r)
        kinds = [("cm", ""), ("cr", ""), ("cr", "pair"), ("cr", "ref"), ("cr", "r64"), ("m", ""), ("r", "")]
        if e[1] == "1":
            kinds.append(("cr", "i64"))
        f, k = r.choice(kinds)
        g("a.pow", f, [a, e], kind=k)
    # special bases with every kind of exponent, also very large ones
    for b in (0, 1, -1, 2, -2):
        for e in (["0", "1"], ["1", "1"], ["-1", "1"], ["2", "1"], ["3", "1"], ["-2", "1"], ["-3", "1"], ["1", "2"], ["-1", "2"],
                  ["1", "3"], ["-2", "3"], ["2", "4"], ["6", "3"], ["-4", "2"], ["4", "-2"], ["0", "5"],
                  [str(10**30), "1"], [str(-10**30 - 1), "1"], [str(10**30 + 1), "1"], [str(10**30 + 1), "2"], ["1", str(10**25)]):
            if abs(b) == 2 and max(len(e[0]), len(e[1])) > 20:
                continue
            for f in ("cm", "cr", "m", "r"):
                x = zero(r) if b == 0 else rational(r, b, 1)
                g("a.pow", f, [x, e])
            if len(e[0]) < 18 and len(e[1]) < 18:
                g("a.pow", "cr", [x, e], kind="r64")
                g("a.pow", "cr", [x, e], kind="pair")
    # exponents of every machine type and ratios of them, up to the ends of their ranges
    for t in UNS + SIG:
        w = {"usize": 64, "isize": 64, "BigUint": 200, "BigInt": 200}.get(t) or int(t[1:])
        lo, hi = (0, 2**w - 1) if t in UNS else (-2**(w - 1), 2**(w - 1) - 1)
        for e in (hi, hi - 1, lo, lo + 1, r.randint(lo, hi)):
            g("a.pow", "cr", [rational(r, r.choice([-1, -1, 1]), 1), [str(e), "1"]], kind="i:" + t)
        for e in (0, 1, 2, 3, 5, max(lo, -1), max(lo, -2), max(lo, -3)):
            g("a.pow", "cr", [r.choice([number(r, 2, 2), rational(r, bits=3)]), [str(e), "1"]], kind="i:" + t)
            if e:
                g("a.pow", "cr", [number(r, 2, 2, sign=r.choice([1, 1, -1])), [str(e), r.choice("123")]], kind="q:" + t)
        g("a.pow", "cr", [rational(r, r.choice([-1, 1]), 1), [str(hi), str(hi - 1)]], kind="q:" + t)
    for _ in range(g.pick(90, 300)):
        # powers of rationals, moderately large
        g("a.pow", r.choice(["cr", "cm"]), [rational(r, bits=6), [str(r.choice([7, 13, 20, -11, -30])), "1"]])
        g("a.pow", r.choice(["cr", "cm"]), [rational(r, bits=2), [str(r.choice([-1, 1]) * r.randint(30, 400)), "1"]])
    for _ in range(g.pick(40, 150)):
        # roots of high order, high powers of irrational numbers
        g("a.pow", "cr", [rational(r, r.choice([2, 3, 5, 2**10, 3**12, 6, 7]), r.choice([1, 1, 3, 4])), [str(r.choice([1, 1, -1, 5, 7])), str(r.randint(6, 16))]])
        g("a.pow", "cr", [number(r, 2, 2), [str(r.choice([-1, 1]) * r.randint(7, 24)), "1"]])
        g("a.pow", "cr", [close(r, r.choice([3, 8, 20])), [str(r.choice([2, 3, -2])), str(r.choice([1, 1, 2]))]])
    for _ in range(g.pick(45, 200)):
        # (x^(1/d))^d, (x^n)^(1/n)
        d = r.choice([2, 3, 4])
        g.session()
        g("a.lit", "", [number(r, 2, 2, sign=1) if r.random() < .5 else rational(r, r.randint(1, 30), r.randint(1, 9))], d="x")
        g("a.pow", "cr", [{"r": "x"}, ["1", str(d)]], d="y")
        g("a.pow", "cr", [{"r": "y"}, [str(d), "1"]], d="z")
        g("a.cmp", "", [{"r": "x"}, {"r": "z"}])
        g("a.pow", "cr", [{"r": "x"}, [str(-d), "1"]], d="u")
        g("a.pow", "cr", [{"r": "u"}, ["-1", str(d)]], d="v")
        g("a.cmp", "", [{"r": "x"}, {"r": "v"}])
        g.end()


def near_pow2(r):
    j = r.choice([-600, -300, -100, -40, -3, -2, -1, 0, 1, 2, 3, 10, 70, 140, 270, 520])
    t = r.randrange(4)
    if t == 0:
        c = 4**abs(j)
        # sqrt(c +- 1), its reciprocal, or scaled
        p = [-(c + r.choice([-1, 1])), 0, 1] if c > 2 else [-(16 + r.choice([-1, 1])), 0, 1]
        if j < 0:
            p = prim(p[::-1])
    elif t == 1:
        # 2^j + sqrt(2) / 2^m
        m = r.choice([5, 60, 150])
        p = prim(taylor(scale([-2, 0, 1], 1, 2**m), -1))
        p = scale(p, 2**max(j, 0), 2**max(-j, 0))
    elif t == 2:
        p = scale([-2, 0, 0, 1], 2**max(j, 0), 2**max(-j, 0))
    else:
        return number(r, r.choice([2, 3, 4]), sign=1)
    x = r.choice([y for y in roots(p) if y.approx() > 0 or y.refine(F(1, 2**800)).lo > 0])
    return lit(p, *interval(x, r, k=r.choice([0, 1, 4]), mode=r.choice(["wide", "zero", "int", "tight", "big"])))


def A07(g, beh):
    r = g.rng
    replay(g, beh)
    for t in list(INTS) + ["BigInt", "BigUint"]:
        lo, hi = INTS.get(t, (0 if t == "BigUint" else -2**200, 2**200))
        vals = {lo, lo + 1, hi, hi - 1, 0, 1, 2, hi // 2, hi // 2 + 1, (lo + hi) // 3} | {r.randint(lo, hi) for _ in range(g.pick(12, 60))}
        if lo < 0:
            vals |= {-1, -2}
        for v in sorted(vals):
            g.session()
            g("a.from_int", "", [str(v)], kind=t, d="x")
            g("a.class", "", [{"r": "x"}])
            if r.random() < .4:
                g("a.log2", "", [{"r": "x"}])
                g("a.floor_log2", "m", [{"r": "x"}])
                g("a.ceil_log2", "r", [{"r": "x"}])
            g.end()
        # Ratio::new(n, d) itself overflows for the least value of a signed type with a negative partner
        rl = lo + 1 if lo < 0 else lo
        for _ in range(g.pick(42, 200)):
            n, d = (r.choice([rl, hi, 0, 1, 2, hi - 1, hi // 2, r.randint(rl, hi), r.randint(max(rl, -9), 9)]) for _ in range(2))
            if d == 0:
                d = 1
            g.session()
            g("a.from_ratio", "", [[str(n), str(d)]], kind=t, d="x")
            g("a.class", "", [{"r": "x"}])
            g("a." + r.choice(["log2", "floor_log2", "ceil_log2"]), "r", [{"r": "x"}])
            g.end()
        if lo < 0 and t != "BigInt":
            for d in (1, 2, 3, hi):
                g("a.from_ratio", "", [[str(lo), str(d)]], kind=t)
    ops = ["log2", "floor_log2", "ceil_log2"]
    for _ in range(g.pick(900, 4000)):
        g("a." + r.choice(ops), r.choice("mr"), [near_pow2(r)])
    for j in list(range(-70, 71, g.pick(5, 1))) + [s * k for s in (1, -1) for k in (126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1000, 1100)]:
        for op in ops:
            n, d = 2**max(j, 0), 2**max(-j, 0)
            g("a." + op, r.choice("mr"), [rational(r, n, d)])
            g("a." + op, r.choice("mr"), [rational(r, -n, d)])
            e = r.choice([-1, 1])
            g("a." + op, r.choice("mr"), [rational(r, 3 * n + e, 3 * d)])
            g("a." + op, r.choice("mr"), [rational(r, n * 2**30 + e, d * 2**30)])
    for _ in range(g.pick(120, 400)):
        for op in ops:
            g("a." + op, r.choice("mr"), [number(r, r.choice([2, 3]), sign=-1)])
            g("a." + op, r.choice("mr"), [rational(r)])
            g("a." + op, r.choice("mr"), [near_zero(r)])
            g("a." + op, r.choice("mr"), [zero(r)])
