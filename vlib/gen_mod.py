from .gen import *
from math import gcd
DIVF = BIN + [f for f in DIVX if f not in ("cmr", "crm")] + ["ck"]
SRC = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "BigInt", "BigUint"]
SIGNED = ["i8", "i16", "i32", "i64", "i128", "isize", "BigInt", "kp64", "s.i8", "s.i64"]
KINDS = ["u8", "u16", "u32", "u64", "u128", "usize", "BigUint"] + SIGNED
PRIME64 = [3, 5, 7, 13, 101, 65537, 2147483647, 4294967311, 9223372036854775783, 9223372036854775643]
PRIMEW = {"i8": [2, 3, 127, 113, 13], "i16": [2, 32749, 32719, 257], "i32": [2, 2147483647, 2147483629, 46337, 46349, 65537],
          "i64": PRIME64, "isize": PRIME64, "i128": [2**127 - 1, 2**61 - 1, 2**89 - 1], "BigInt": [2**127 - 1, 2**521 - 1, 2**61 - 1, 3],
          "kp64": PRIME64}


def modulus(g, kind):
    r = g.rng
    if kind == "kp64":
        return r.choice(PRIME64)
    if kind in ("s.i8", "s.i64"):
        return r.randint(1, 16)
    if kind in PRIMEW and r.random() < .3:
        return r.choice(PRIMEW[kind])
    if kind in ("BigInt", "BigUint"):
        return max(1, abs(g.integer()))
    hi = INTS[kind][1]
    h = hi.bit_length() // 2
    return r.choice([1, 2, 3, 4, 6, 12, hi, hi, hi - 1, hi - 1, hi // 2, hi // 2 + 1, hi // 2 + 2, 2**h, 2**h - 1, 2**h + 1,
                     r.randint(1, hi), r.randint(1, hi), r.randint(hi // 2, hi), r.randint(hi // 2, hi), r.randint(1, min(hi, 60))])


def base(kind):
    return {"kp64": "i64", "s.i8": "i8", "s.i64": "i64"}.get(kind, kind)


def residue(g, m):
    r = g.rng
    return r.choice([0, 1, m - 1, m - 2, m // 2, m // 2 + 1, r.randrange(m), r.randrange(m), r.randrange(m)]) % m


def anyval(g, kind, m):
    """any integer of the type, often next to a multiple of m"""
    r = g.rng
    t = base(kind)
    if t in ("BigInt", "BigUint"):
        v = g.integer() if r.random() < .5 else r.randint(-3, 3) * m + r.randint(-1, 1)
        return abs(v) if t == "BigUint" else v
    lo, hi = INTS[t]
    v = r.randint(-3, 3) * m + r.randint(-1, 1) if r.random() < .4 else g.in_type(t)
    return v if lo <= v <= hi else g.in_type(t)


def small_sessions(g, beh, ops, kinds):
    r = g.rng
    for b in beh.get("MCResidue", []):
        h = b["hist"]
        if not any(o in ops for o in h[1:]):
            continue
        kind = r.choice(kinds)
        if kind == "kp64" and b["m"] not in ("3", "5", "7", "11", "13"):
            kind = "i8"
        kw = dict(kind=kind, m=b["m"])
        g.session()
        g("m.new", "", [h[0]], d="a", **kw)
        for o in h[1:]:
            ra = {"r": "a"}
            if o in ("inv", "div") and kind not in SIGNED:
                continue
            if o == "neg":
                g("m.neg", r.choice(["m", "r", "a"]), [ra], d="a", **kw)
            elif o == "inv":
                g("m.inv", r.choice("cu"), [ra], d="a", **kw)
            elif o == "div":
                g("m.div", r.choice(DIVF), [ra, b["b"]], d="a", **kw)
            else:
                g("m." + o, r.choice(BIN + ["ck"]), [ra, b["b"]], d="a", **kw)
        g.end()


def M01(g, beh):
    r = g.rng
    small_sessions(g, beh, ("add", "sub", "mul", "neg"), KINDS)
    for m in range(1, 17):
        g("m.new", "", ["5"], kind="s.i8", m=str(m))
        g("m.new", "", ["-1"], kind="s.i64", m=str(m))
    for m in [2, 3, 4, 5, 7, 8, 9, 11, 13, 16]:
        g("m.info", "", [], kind="static", m=str(m))
    for m in [2, 3, 5, 7, 11, 101, 127, 131, 251]:
        g("m.wrap", "", [], kind="static", m=str(m))
    for _ in range(g.pick(6000, 90000)):
        kind = r.choice(KINDS)
        m = modulus(g, kind)
        M = str(m)
        op = r.choice(["new", "add", "add", "sub", "sub", "mul", "mul", "neg", "eq", "conv", "reduce", "mixed"])
        x, y = anyval(g, kind, m), anyval(g, kind, m)
        if r.random() < .6:
            x, y = residue(g, m), residue(g, m)
        x, y = str(x), str(y)
        if op == "new":
            g("m.new", r.choice(["", "from", "into"]), [x], kind=kind, m=M)
        elif op in ("add", "sub", "mul"):
            g("m." + op, r.choice(BIN + ["ck"]), [x, y], kind=kind, m=M)
        elif op == "neg":
            g("m.neg", r.choice(["m", "r", "a"]), [x], kind=kind, m=M)
        elif op == "eq":
            g("m.eq", "", [x, r.choice([x, y])], kind=kind, m=M)
            g("m.text", "", [x], kind=kind, m=M)
        elif op == "conv":
            src = r.choice(SRC)
            if src in ("BigInt", "BigUint"):
                v = g.integer()
                v = abs(v) if src == "BigUint" else v
            else:
                v = g.in_type(src)
            g("m.conv", src, [str(v)], kind=kind, m=M)
        elif op == "reduce":
            f = r.choice(["reduce", "reduce", "reduce_assign", "add_rr", "add_rm", "sub_rr", "sub_mm", "sub_mr", "sub_rm", "mul_rr", "mul_rm", "neg_r"])
            if not f.startswith("reduce"):
                x, y = str(residue(g, m)), str(residue(g, m))
            g("m.reduce", f, [x, y], kind=kind, m=M)
        elif kind[:2] != "s.":
            m2 = modulus(g, kind)
            if m2 != m:
                g("m." + r.choice(["add", "sub", "mul"]), r.choice(BIN + ["ck"]), [x, y], kind=kind, m=[M, str(m2)])
                g("m.eq", "", [x, x], kind=kind, m=[M, str(m2)])


def M02(g, beh):
    r = g.rng
    small_sessions(g, beh, ("inv", "div"), SIGNED)
    # the tasks of the squaring machine
    for b in beh.get("MCPowerRes", []):
        kind = r.choice(KINDS[:7] + SIGNED[:7])
        f = r.choice(["usize", "BigUint"] if kind == "BigUint" else ["u8", "u64", "usize", "BigInt", "BigUint"] + (["i8"] if kind != "BigInt" else []))
        g("m.pow", f, [b["b"], b["e"]], kind=kind, m=b["m"])
    # every residue and exponent for small moduli
    for m in range(1, g.pick(14, 40)):
        for v in range(m):
            g("m.inv", r.choice("cu"), [str(v)], kind=r.choice(SIGNED[:7]), m=str(m))
            for n in r.sample(range(0, 12), 4):
                g("m.pow", r.choice(["u8", "i8", "u64", "usize", "BigInt", "BigUint"]), [str(v), str(n)], kind=r.choice(["u8", "i16", "u32", "i64", "u128", "i128"]), m=str(m))
    for _ in range(g.pick(4500, 70000)):
        op = r.choice(["inv", "div", "div", "pow", "pow"])
        kind = r.choice(SIGNED if op != "pow" else KINDS)
        m = modulus(g, kind)
        M = str(m)
        x, y = anyval(g, kind, m), anyval(g, kind, m)
        if r.random() < .6:
            x, y = residue(g, m), residue(g, m)
        if op in ("inv", "div") and r.random() < .25 and m > 3 and kind in ("i8", "i16", "i32", "i64", "i128", "isize", "BigInt"):
            # share a factor with the modulus
            f = next((p for p in (2, 3, 5, 7, 11, 13) if m % p == 0), None)
            if f:
                y = f * r.randrange(m // f)
        if op == "inv":
            g("m.inv", r.choice("cu"), [str(y)], kind=kind, m=M)
        elif op == "div":
            g("m.div", r.choice(DIVF), [str(x), str(y)], kind=kind, m=M)
            if r.random() < .1 and kind[:2] != "s.":
                m2 = modulus(g, kind)
                if m2 != m:
                    g("m.div", r.choice(DIVF), [str(x), str(y)], kind=kind, m=[M, str(m2)])
        else:
            f = r.choice(["u8", "i8", "u64", "usize", "BigInt", "BigUint"])
            if kind == "BigInt":
                f = r.choice(["u8", "u64", "usize", "BigInt", "BigUint"])
            if kind == "BigUint":
                f = r.choice(["usize", "BigUint"])
            if f[:3] == "Big":
                n = abs(g.integer(r.choice([1, 3, 8, 64, 130])))
            else:
                n = abs(g.in_type(f))
                if n > INTS[f][1]:
                    n = INTS[f][1]
            g("m.pow", f, [str(x), str(n)], kind=kind, m=M)
