from decimal import Decimal, localcontext

from .gen import *


def iv(lo, hi, k):
    return {"lo": str(lo), "hi": str(hi), "k": k}


def numer(g, bits=None):
    r = g.rng
    b = bits if bits is not None else r.choice([1, 2, 3, 4, 6, 8, 16, 32, 64, 90, r.choice([127, 128, 129, 200, 256, 300, 520, 700])])
    return r.choice([-1, 1]) * r.choice([r.getrandbits(b), r.getrandbits(b), 2**b, 2**b - 1, 2**b + 1, 0, 1])


def rand_iv(g, k=None, bits=None, nz=False, pos=False, point=None):
    r = g.rng
    while True:
        kk = r.choice([0, 0, 1, 2, 3, 5, 8, 16, 33, 64, 71, r.choice([127, 128, 129, 160, 255, 256, 300, 600])]) if k is None else k
        a = numer(g, bits)
        mode = r.random()
        if point or (point is None and mode < .2):
            b = a
        elif mode < .5:
            b = a + r.choice([1, 1, 2, 3, 7])
        else:
            b = numer(g, bits)
        if a > b:
            a, b = b, a
        if pos:
            a, b = sorted((abs(a), abs(b)))
        if nz and a <= 0 <= b:
            continue
        return iv(a, b, kk)


def rat(g, nz=False):
    r = g.rng
    while True:
        n, d = numer(g), abs(numer(g)) or 1
        if r.random() < .3:
            d = r.choice([1, 2, 3, 4, 7, 8, 1024, 1000])
        if n or not nz:
            return [str(n), str(d)]


def operand(g, op):
    """right operand: (kind, value)"""
    r = g.rng
    c = r.random()
    nz = op == "div" and r.random() < .97
    if c < .5:
        return "I", rand_iv(g, nz=nz)
    kind = r.choice(list(INTS) + ["BigInt", "BigInt", "BigUint"])
    if kind in INTS:
        f = lambda: g.in_type(kind)
    elif kind == "BigUint":
        f = lambda: abs(numer(g))
    else:
        f = lambda: numer(g)
    v = f()
    while nz and v == 0:
        v = f()
    if r.random() < .45:
        while True:
            d = f()
            if d != 0:
                break
        if kind in INTS and INTS[kind][0] < 0 and INTS[kind][0] in (v, d):
            # reducing a ratio with the minimum overflows inside num_rational
            v, d = 3, 7
        return kind, [str(v), str(d)]
    return kind, str(v)


def I01(g, beh):
    r = g.rng
    g.sessions(beh.get("MCInterval", []))
    for b in beh.get("MCPowerIv", []):
        g("i.pow", r.choice("mr"), [{"lo": b["b"][0], "hi": b["b"][1], "k": b["m"]}, b["e"]], r.choice(["i64", "BigInt"]))
    # every sign pattern of both operands, mixed precisions
    pats = [(-5, -3), (-5, 0), (-5, 3), (-3, 5), (0, 0), (0, 5), (3, 5), (3, 3), (-3, -3), (-4, 4)]
    for a in pats:
        for b in pats:
            for ka, kb in [(0, 0), (1, 3), (3, 1), (2, 2)] if g.thorough else [(1, 1), (1, 3), (3, 1)]:
                for op in ["add", "sub", "mul", "div"]:
                    g("i." + op, r.choice(BIN + (DIVX if op == "div" else [])), [iv(*a, ka), iv(*b, kb)], "I")
    for a in pats:
        for k in (0, 1, 2, 7):
            for n in list(range(-5, 10)) + [13, 16, 31]:
                g("i.pow", r.choice(["m", "r"]), [iv(*a, k), str(n)], r.choice(["i64", "BigInt"]))
            for n in (0, 1, 2, 3, 6):
                g("i.pow", "m", [iv(*a, k), str(n)], r.choice(["u32", "usize", "i8"]))
            g("i.square", r.choice("mra"), [iv(*a, k)], "I")
            g("i.recip", r.choice(["c", "u"]), [iv(*a, k)], "I")
            g("i.neg", r.choice("mr"), [iv(*a, k)], "I")
    for _ in range(g.pick(4000, 60000)):
        op = r.choice(["add", "sub", "mul", "div", "mul", "div"])
        kind, b = operand(g, op)
        form = r.choice(BIN)
        if op == "div" and kind == "I" and r.random() < .5:
            form = r.choice(DIVX)
        g("i." + op, form, [rand_iv(g), b], kind)
    for _ in range(g.pick(800, 12000)):
        g("i.square", r.choice("mra"), [rand_iv(g)], "I")
        g("i.neg", r.choice("mr"), [rand_iv(g)], "I")
        g("i.recip", r.choice(["c", "u"]), [rand_iv(g)], "I")
        g("i.pow", r.choice("mr"), [rand_iv(g, bits=r.choice([3, 5, 9, 20])), str(r.randint(-12, 40))], "i64")
    # programs
    for _ in range(g.pick(150, 3000)):
        g.session()
        g("i.lit", "", [rand_iv(g, bits=r.choice([3, 8, 16]))], "I", d="x")
        for _ in range(6):
            op = r.choice(["add", "sub", "mul", "mul", "div", "neg", "square", "recip"])
            if op in ("neg", "square"):
                g("i." + op, "m", [{"r": "x"}], "I", d="x")
            elif op == "recip":
                g("i.recip", "c", [{"r": "x"}], "I", d="y")
            else:
                g("i." + op, r.choice(BIN), [{"r": "x"}, rand_iv(g, bits=r.choice([3, 8, 16]), nz=op == "div")], "I", d="x")
        g.end()


# arguments whose exponential lies within a few units of the working precision of a representable number
# (the ones that exposed the reduction of negative bounds with the wrong ends of ln 2)
HARD_EXP = [
    (300, -105745405400958912888389940114326195864032343917760256277426365916997337718847696941607605271),
    (300, -104902852699721355760608551502429852945067511663927288516418842775808261876701030443843620174),
    (300, -84706060792212048104855603584556450692277476371900257448766395089681233090176475949777665225),
    (300, -84490897451181182357783971713061755553562895373101285423145716938007383250117649870420438639),
    (200, -43641916059963789739106220252990627802274949897421873634357468),
    (400, -213719157569647277212169769585367050542818496516117676420386943923298895322812985600832076464611977231984401110708568108312),
]


def near_grid(g, n):
    """Arguments of exp and log whose exact results are extremely close to a representable number."""
    r = g.rng
    for _ in range(n):
        k = r.choice([8, 16, 24, 40, 64, 100, 180])
        with localcontext() as c:
            c.prec = 200
            c.Emax, c.Emin = 10**6, -10**6
            two = Decimal(2)
            # exp: x just below and above ln(m / 2^k), m with few bits: e^x moves by a small part of a unit per step of x
            m = r.getrandbits(r.randint(1, max(2, k - 4))) | 1
            x = int(((Decimal(m).ln() - k * two.ln()) * two**k).to_integral_value("ROUND_FLOOR"))
            # log: p just below and above 2^k e^(m / 2^k), with many more bits than k
            j = r.choice([5, 20, 40, 70])
            mm = r.randint(max(1, (j - 3) << k), (j + 3) << k)
            p = int(((Decimal(mm) / two**k).exp() * two**k).to_integral_value("ROUND_FLOOR"))
        for a in ((x, x), (x + 1, x + 1), (x, x + 1)):
            g("i.exp", r.choice("mr"), [iv(*a, k)], "I")
        for a in ((p, p), (p + 1, p + 1), (p, p + 1)):
            g("i.log", "", [iv(*a, k)], "I")


def I02(g, beh):
    r = g.rng
    for b in beh.get("MCIter", []):
        g(b["op"], "" if b["op"] == "i.log" else r.choice("mr"), b["a"], "I")
    for k, x in HARD_EXP:
        g("i.exp", "r", [iv(x, x + 1, k)], "I")
        g("i.exp", "m", [iv(x, x, k)], "I")
        g("i.exp", "m", [iv(x + 1, x + 1, k)], "I")
    near_grid(g, g.pick(120, 2500))

    def pt(x, k):
        return iv(x, x, k)
    ks = [0, 1, 2, 5, 16, 40, 64, 90] + g.pick([150], [150, 300, 600])
    for k in ks:
        one = 1 << k
        # exp: around the multiples of ln 2 and zero, both signs
        xs = [0, 1, -1, one, -one, one // 2, -one // 2, 2 * one + 1, -3 * one - 1, 11 * one, -20 * one, 40 * one + 7]
        ln2 = 14243917
        for n in range(-6, 12):
            v = (n * 693147180559945309 << k) // 10**18
            xs += [v, v + 1]
        for x in xs:
            g("i.exp", r.choice("mr"), [pt(x, k)], "I")
        # far to the left: beyond the powers of two a machine word can count
        for e in (10, 31, 33, 62, 64, 65, 70, 130):
            x = -(one << e) - r.choice([0, 1, one // 3])
            g("i.exp", r.choice("mr"), [pt(x, k)], "I")
            for y in (x + 1, x // 2, -30 * one - 1, -1, 0, one + 1):
                g("i.exp", r.choice("mr"), [iv(x, y, k)], "I")
        for x in [1, 2, 3, one, one + 1, one - 1, one * 3 // 2, one * 3 // 2 - 1, one * 3 // 2 + 1, one * 2 - 1, one * 2, one * 3, one * 1000 + 1, one * 2**40, one // 2, one // 3, one // 1000]:
            if x > 0:
                g("i.log", "", [pt(x, k)], "I")
        for x in [0, 1, 2, 3, 4, one, one + 1, 2 * one, 4 * one, 9 * one, one // 4, (one << k) if k < 40 else 5, one * 3 + 1]:
            g("i.sqrt", r.choice("mra"), [pt(x, k)], "I")
        for x, y in [(one, one), (one, 2 * one), (2 * one, one), (one, one + 1), (0, one), (one, 0), (0, 0), (one, 16 * one), (3 * one + 1, 5 * one), (one // 2 + 1, one)]:
            g("i.agm", r.choice("mr"), [pt(x, k), pt(y, k)], "I")
            g("i.agm", r.choice("mr"), [pt(x, k), pt(y << 3, k + 3)], "I")
    # outside the domain
    for k in (0, 4):
        for a in [(-1, -1), (-1, 3), (0, 3), (0, 0), (-5, 0)]:
            g("i.log", "", [iv(*a, k)], "I")
            g("i.sqrt", r.choice("mra"), [iv(*a, k)], "I")
            g("i.agm", r.choice("mr"), [iv(*a, k), iv(1, 2, k)], "I")
            g("i.agm", r.choice("mr"), [iv(1, 2, k), iv(*a, k)], "I")
    for _ in range(g.pick(500, 6000)):
        k = r.choice([0, 1, 3, 8, 20, 33, 70] + ([200] if r.random() < .1 else []))
        point = r.random() < .6
        b = k + r.choice([-3, 0, 2, 4, 30])
        g("i.log", "", [fix_pos(rand_iv(g, k, max(1, b), pos=True, point=point))], "I")
        b = max(1, k + r.choice([-3, 0, 2, 4, 5]))
        g("i.exp", r.choice("mr"), [rand_iv(g, k, b, point=point)], "I")
        g("i.agm", r.choice("mr"), [rand_iv(g, k, b, pos=True, point=point), rand_iv(g, r.choice([k, k + 5]), b, pos=True, point=point)], "I")
        a = max(1, (1 << max(0, k - 2)) + r.getrandbits(k + 4))
        c = r.randint(max(1, a >> 4), a << 4)
        g("i.agm", r.choice("mr"), [pt(a, k), pt(c, k)], "I")
    for _ in range(g.pick(1500, 20000)):
        g("i.sqrt", r.choice("mra"), [rand_iv(g, pos=r.random() < .97)], "I")
    # exact squares and their neighbours
    for _ in range(g.pick(300, 3000)):
        k = r.choice([0, 2, 4, 8, 32])
        s = r.getrandbits(r.choice([2, 5, 20, 60]))
        q = s * s + r.choice([-1, 0, 0, 1])
        if q >= 0:
            g("i.sqrt", r.choice("mra"), [iv(q, q, k)], "I")
            g("i.sqrt", r.choice("mra"), [iv(q << k, q << k, k)], "I")


def fix_pos(v):
    if int(v["lo"]) <= 0:
        v["lo"] = "1"
        v["hi"] = str(max(1, int(v["hi"])))
    return v


def I03(g, beh):
    r = g.rng
    g.sessions(beh.get("MCInterval", []))
    B = g.pick(6, 9)
    ks = [0, 1, 2, 3]
    for a in range(-B, B + 1):
        for b in range(-B, B + 1):
            for k in ks if g.thorough else [1, 2]:
                if a <= b:
                    v = iv(a, b, k)
                    for nk in ([0, 1, 2, 4] if g.thorough else [0, 1, 3]):
                        g("i.convert", r.choice("mra"), [v, nk], "I")
                        g("i.floor", r.choice("mra"), [v, nk], "I")
                        g("i.ceil", r.choice("mra"), [v, nk], "I")
                    g("i.abs", r.choice("mra"), [v], "I")
                    g("i.read", "", [v], "I")
                    g("i.set", r.choice(["zero", "one", "neg1", "to_lo", "to_hi", "lo0", "hi0"]), [v], "I")
                    g("i.set", "lo", [v, str(r.randint(a - 2, b + 2))], "I")
                    g("i.set", "hi", [v, str(r.randint(a - 2, b + 2))], "I")
                if k == ks[1]:
                    g("i.new", "", [str(a), str(b), k], "I")
                    g("i.from_int_range", "", [str(a), str(b), k], "I")
                    g("i.from_ratio_range", "", [[str(a), "3"], [str(b), "5"], k], "I")
    for _ in range(g.pick(700, 12000)):
        v = rand_iv(g)
        g("i.convert", r.choice("mra"), [v, r.choice([0, 1, 2, 7, 40, 64, 100, v["k"], r.choice([127, 128, 130, 256, 300, 700])])], "I")
        g("i.floor", r.choice("mra"), [v, r.choice([0, 1, 7, 64, r.choice([127, 128, 130, 256, 300, 700])])], "I")
        g("i.ceil", r.choice("mra"), [v, r.choice([0, 1, 7, 64, r.choice([127, 128, 130, 256, 300, 700])])], "I")
        g("i.abs", r.choice("mra"), [v], "I")
        g("i.union", r.choice(BIN), [v, rand_iv(g)], "I")
        g("i.read", "", [v], "I")
        g("i.is_same", "", [v, r.choice([v, rand_iv(g), dict(v, k=v["k"] + 1), dict(v, hi=str(int(v["hi"]) + 1))])], "I")
        x, y = rat(g), rat(g)
        g("i.from_ratio_range", "", [x, y, r.choice([0, 1, 5, 33, 64, 130, 260])], "I")
        g("i.from_ratio", "", [x, r.choice([0, 1, 5, 33, 64, 130, 260])], "I")
        g("i.from_int", "", [str(numer(g)), r.choice([0, 1, 5, 64, 130, 260])], "I")
        g("i.from_dyadic", "", [str(numer(g)), r.choice([0, 1, 5, 64, 130, 260])], "I")
        g("i.from_int_range", "", [str(numer(g)), str(numer(g)), r.choice([0, 3, 64, 130, 260])], "I")
        g("i.new", "", [str(numer(g)), str(numer(g)), r.choice([0, 3, 64, 130, 260])], "I")
        g("i.const", r.choice(["zero", "one", "neg1"]), [r.choice([0, 1, 9, 70, 130, 260])], "I")
    # histories of mutators on one interval
    for _ in range(g.pick(150, 2500)):
        g.session()
        g("i.lit", "", [rand_iv(g, bits=r.choice([3, 8]), k=r.choice([0, 2, 5]))], "I", d="x")
        for _ in range(8):
            op = r.choice(["set", "set", "convert", "abs", "union", "floor", "ceil", "neg"])
            if op == "set":
                f = r.choice(["to_lo", "to_hi", "lo", "hi", "lo0", "hi0", "lo", "hi", "zero", "one", "neg1"])
                a = [{"r": "x"}] + ([str(numer(g, 6))] if f in ("lo", "hi") else [])
                # a refused mutation leaves no value to go on with: keep the old one
                g("i.set", f, a, "I", d="y")
                if r.random() < .5 and f not in ("lo", "hi", "lo0", "hi0"):
                    g("i.set", f, a, "I", d="x")
            elif op in ("convert", "floor", "ceil"):
                g("i." + op, "a", [{"r": "x"}, r.choice([0, 1, 2, 5, 9])], "I", d="x")
            elif op == "union":
                g("i.union", r.choice(BIN), [{"r": "x"}, rand_iv(g, bits=4)], "I", d="x")
            else:
                g("i." + op, "m", [{"r": "x"}], "I", d="x")
        g.end()


def I04(g, beh):
    r = g.rng
    # every schedule of the model, through a cache of its own
    if g.hooks:
        b = beh.get("MCCache", []) + beh.get("MCCache3", [])
        for x in b:
            sched = [t - 1 for t in x["s"]] + list(range(len(x["r"]))) * (2 * len(x["r"][0]))
            # the same schedule with other precisions of the same order
            for m in r.sample([{5: 5, 40: 40, 300: 300}, {5: 0, 40: 33, 300: 64}, {5: 31, 40: 32, 300: 33}, {5: 49, 40: 50, 300: 1000},
                               {5: 1, 40: 2000, 300: 2001}, {5: 62, 40: 63, 300: 80}], g.pick(1, 5)):
                g("x.cache", "", [[[m[k] for k in q] for q in x["r"]], sched])
        # long random histories
        for _ in range(g.pick(150, 3000)):
            n = r.randint(1, 4)
            reqs = [[r.choice([r.randint(0, 40), r.randint(0, 300), r.randint(0, 3000), 2**r.randint(0, 11) - r.randint(0, 2)]) for _ in range(r.randint(1, 6))]
                    for _ in range(n)]
            reqs = [[max(0, k) for k in q] for q in reqs]
            sched = [t for t in range(n) for _ in range(2 * len(reqs[t]))]
            r.shuffle(sched)
            g("x.cache", "", [reqs, sched + [t for t in range(n) for _ in range(2 * len(reqs[t]))]])
    # histories of the real constants, each in a process of its own (see shards)
    def history(n):
        g.session()
        kind = n % 6
        top = g.pick(700, 2600)
        if kind == 0:
            ks = list(range(0, top, 3))
        elif kind == 1:
            ks = list(range(top, -1, -3))
        elif kind == 2:
            ks = [r.randint(0, top) for _ in range(top // 3)]
        elif kind == 3:
            ks = [k for j in range(11) for k in (2**j - 1, 2**j, 2**j + 1, 2**j - 2) if k >= 0] + list(range(1, top, 5))
        elif kind == 4:
            ks = [k for j in range(0, top // 2, 4) for k in (j, top - j)]
        else:
            ks = sorted({int(2 ** (j / 6)) + d for j in range(1, 66) for d in (-1, 0, 1)}, key=lambda k: r.random())
        for k in ks:
            for c in ("sqrt_2", "ln_2"):
                if r.random() < .8:
                    g("i." + c, "", [k], "I")
        g.end()

    def storm(n):
        g.session()
        for c in ("sqrt_2", "ln_2"):
            t = r.randint(2, 6)
            reqs = [[r.choice([r.randint(0, 100), r.randint(0, 700), 2**r.randint(0, 9)]) for _ in range(r.randint(1, 12))] for _ in range(t)]
            g("i.consts", c, [reqs], "I")
        for k in range(0, 60):
            g("i.sqrt_2", "", [k * 11], "I")
            g("i.ln_2", "", [k * 7], "I")
        g.end()
    n = 24
    for j in range(n):
        (history if j % 2 else storm)(j // 2)
    if g.thorough:
        g.session()
        for k in range(0, 2600):
            g("i.sqrt_2", "", [k], "I")
            if k % 3 == 0:
                g("i.ln_2", "", [k], "I")
        g.end()
