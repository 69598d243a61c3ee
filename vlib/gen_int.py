from .gen import *
KINDS = list(INTS) + ["BigInt", "BigUint"]
SG = ["i8", "i16", "i32", "i64", "i128", "isize", "BigInt"]
DX = ["cmm", "cmr", "crm", "crr", "cam", "car", "emm", "emr", "erm", "err", "eam", "ear"]


def value(g, kind):
    r = g.rng
    if kind in ("BigInt", "BigUint"):
        v = g.integer(r.choice([1, 3, 8, 31, 32, 63, 64, 65, 127, 128, 200, 1000]))
        return abs(v) if kind == "BigUint" else v
    lo, hi = INTS[kind]
    c = r.random()
    if c < .4:
        b = r.randint(0, hi.bit_length())
        v = 2**b + r.choice([-1, 0, 0, 1])
        if lo < 0 and r.random() < .5:
            v = -v
    elif c < .7:
        v = r.getrandbits(r.randint(1, hi.bit_length()))
        if lo < 0 and r.random() < .5:
            v = -v
    else:
        v = g.in_type(kind)
    return min(hi, max(lo, v))


def inr(kind, v):
    if kind == "BigInt":
        return True
    if kind == "BigUint":
        return v >= 0
    return INTS[kind][0] <= v <= INTS[kind][1]


def T01(g, beh):
    r = g.rng
    # every value of the small types
    for k in ("u8", "i8"):
        for v in range(INTS[k][0], INTS[k][1] + 1):
            g("t.log2", "", [str(v)], kind=k)
    for k in INTS:
        lo, hi = INTS[k]
        for b in range(hi.bit_length() + 1):
            for d in (-1, 0, 1):
                for s in (1, -1) if lo < 0 else (1,):
                    if inr(k, s * (2**b + d)):
                        g("t.log2", "", [str(s * (2**b + d))], kind=k)
    for b in range(0, g.pick(260, 1100)):
        for d in (-1, 0, 1):
            g("t.log2", "", [str(2**b + d)], kind=r.choice(["BigInt", "BigUint"]))
            if r.random() < .2:
                g("t.log2", "", [str(-2**b + d)], kind="BigInt")
    # the pairs of the Euclid machine
    for b in beh.get("MCEuclid", []):
        x, y = b["x"], b["y"]
        if x[1] == y[1] == "1":
            ks = SG if "-" in x[0] + y[0] else KINDS
            for op in ("gcd", "lcm", "gcd_lcm", "egcd", "egcd_lcm"):
                g("t." + op, "", [x[0], y[0]], kind=r.choice(SG if op[0] == "e" else ks))
        for op in ("gcd", "lcm", "egcd_lcm"):
            g("t." + op, "", [x, y], kind=r.choice(["Q", "Q64", "Q32"]))
        g("t.exact_div", r.choice(["emm", "err", "cmm", "crr", "cmr", "crm", "eam", "cam"]), [x, y], kind=r.choice(["Q", "Q64", "Q32"]))
    # all pairs of a small grid with the extreme values
    for k in KINDS:
        pts = [0, 1, 2, 3, 4, 6, 9] + ([-1, -2, -6] if k in SG else [])
        if k in INTS:
            pts += [INTS[k][1], INTS[k][1] - 1, INTS[k][0], INTS[k][0] + 1]
        pts = sorted(set(p for p in pts if inr(k, p)))
        for x in pts:
            for y in pts:
                g("t.exact_div", r.choice(DX), [str(x), str(y)], kind=k)
                g("t." + r.choice(["gcd", "gcd_lcm", "lcm"]), "", [str(x), str(y)], kind=k)
                if k in SG and abs(x) < 10 and abs(y) < 10:
                    g("t." + r.choice(["egcd", "egcd_lcm"]), "", [str(x), str(y)], kind=k)
    for _ in range(g.pick(5000, 80000)):
        k = r.choice(KINDS)
        op = r.choice(["gcd", "lcm", "gcd_lcm", "exact_div", "exact_div", "log2", "egcd", "egcd_lcm"])
        x, y = value(g, k), value(g, k)
        if op in ("gcd", "lcm", "gcd_lcm", "egcd", "egcd_lcm"):
            if op in ("egcd", "egcd_lcm") and k not in SG:
                continue
            if r.random() < .6:
                # a common factor, sizes such that the product fits
                w = 200 if k[0] == "B" else INTS[k][1].bit_length()
                c = r.getrandbits(r.randint(1, max(1, w // 3))) + 1
                x, y = c * r.getrandbits(r.randint(1, max(1, w // 3))), c * r.getrandbits(r.randint(1, max(1, w // 3)))
                if k in SG:
                    x, y = r.choice([x, -x]), r.choice([y, -y])
            if op in ("egcd", "egcd_lcm") and k in INTS and (x == INTS[k][0] or y == INTS[k][0]):
                continue
            if not (inr(k, x) and inr(k, y)):
                continue
            g("t." + op, "", [str(x), str(y)], kind=k)
        elif op == "log2":
            g("t.log2", "", [str(x)], kind=k)
        else:
            if r.random() < .6:
                w = 200 if k[0] == "B" else INTS[k][1].bit_length()
                b = r.randint(0, w)
                y, q = r.getrandbits(b or 1), r.getrandbits((w - b) or 1)
                x = y * q
                if k in SG:
                    x, y = r.choice([(x, y), (-x, y), (x, -y), (-x, -y)])
                if r.random() < .3:
                    x += r.choice([-1, 1])
                if not (inr(k, x) and inr(k, y)):
                    continue
            g("t.exact_div", r.choice(DX), [str(x), str(y)], kind=k)
    for _ in range(g.pick(1200, 20000)):
        k = r.choice(["Q", "Q", "Q64", "Q32"])
        w = {"Q": 60, "Q64": 12, "Q32": 6}[k]
        q = lambda: [str(r.choice([0, 1, -1, r.getrandbits(w), -r.getrandbits(w), r.randint(-9, 9)])), str(r.choice([1, 2, 3, 6, r.getrandbits(w) + 1]))]
        op = r.choice(["gcd", "lcm", "egcd_lcm", "exact_div", "exact_div", "exact_divi"])
        if op == "exact_div":
            g("t.exact_div", r.choice(["emm", "err", "cmm", "crr", "cmr", "crm", "eam", "cam"]), [q(), q()], kind=k)
        elif op == "exact_divi":
            g("t.exact_divi", r.choice(["emm", "emr", "erm", "err", "cmm", "crr"]), [q(), str(r.choice([0, 1, -1, 2, -3, r.getrandbits(w)]))], kind=k)
        else:
            g("t." + op, "", [q(), q()], kind=k)


def T02(g, beh):
    r = g.rng
    if not g.hooks:
        return
    F = ["c", "c", "p"]
    for b in beh.get("MCNearest", []):
        for k in SG:
            g("t.nearest", r.choice(F), [b["a"], b["b"]], kind=k)
        if "-" not in b["a"] + b["b"]:
            for k in KINDS:
                if k not in SG:
                    g("t.nearest", r.choice(F), [b["a"], b["b"]], kind=k)
    if beh.get("MCNearest"):
        # every divisor of the eight-bit type with every dividend next to a multiple of half the divisor, and the extreme ones
        for y in range(-128, 128):
            xs = set(range(-128, 128)) if g.thorough or abs(y) <= 2 or y in (-128, -127, 127) else \
                {x for m in range(-6, 7) for x in (m * y // 2 - 1, m * y // 2, m * y // 2 + 1)} | {-128, -127, 126, 127}
            for x in sorted(xs):
                if -128 <= x <= 127:
                    g("t.nearest", r.choice(F), [str(x), str(y)], kind="i8")
        for k in KINDS:
            pts = [0, 1, 2, 3, 4, 5, 8, 9] + ([-1, -2, -3, -4, -5, -8, -9] if k in SG else [])
            if k in INTS:
                pts += [INTS[k][1], INTS[k][1] - 1, INTS[k][1] // 2, INTS[k][0], INTS[k][0] + 1, INTS[k][0] // 2]
            pts = sorted(set(p for p in pts if inr(k, p)))
            for x in pts:
                for y in pts:
                    g("t.nearest", r.choice(F), [str(x), str(y)], kind=k)
    for _ in range(g.pick(600, 30000)):
        k = r.choice(KINDS + ["BigInt"] * 4)
        x, y = value(g, k), value(g, k)
        if y and r.random() < .7:
            # next to a half-integral multiple
            q = value(g, k) >> r.randint(0, 130)
            x = (2 * q + 1) * y // 2 + r.choice([-1, 0, 0, 1]) if r.random() < .7 else q * y + r.choice([-1, 0, 1])
        if inr(k, x) and inr(k, y):
            g("t.nearest", r.choice(F), [str(x), str(y)], kind=k)
    for _ in range(g.pick(60, 2000)):
        k = r.choice(["Q", "Q", "Q64", "Q32"])
        w = {"Q": 60, "Q64": 12, "Q32": 6}[k]
        q = lambda: [str(r.choice([0, 1, -1, r.getrandbits(w), -r.getrandbits(w), r.randint(-9, 9)])), str(r.choice([1, 2, 3, 6, r.getrandbits(w) + 1]))]
        g("t.nearest", r.choice(F), [q(), q()], kind=k)
