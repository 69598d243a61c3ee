from .gen import *


def grid(g, x, y):
    return {"x": x, "y": y, "d": [g.rng.randint(-99, 99) for _ in range(x * y)]}


def bound(g, n, bad=.06):
    r = g.rng
    if r.random() < bad:
        a, b = r.randint(0, n + 2), r.randint(0, n + 2)
    else:
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
    k = r.choice(["full", "at", "range", "range", "from", "to", "incl", "toincl", "between"])
    if k == "full":
        return ["full"], (0, n)
    if k == "at":
        return ["at", a], (a, a + 1)
    if k == "range":
        return [k, a, b], (a, b)
    if k == "from":
        return [k, a], (a, n)
    if k == "to":
        return [k, b], (0, b)
    if k == "incl":
        b = max(b - 1, 0)
        return [k, a, b], (a, b + 1)
    if k == "toincl":
        b = max(b - 1, 0)
        return [k, b], (0, b + 1)
    a = max(a - 1, 0)
    return [k, a, b], (a + 1, b)


def path(g, x, y, depth):
    """bounds and the size of the view, None if out of range"""
    p = []
    ok = True
    for _ in range(depth):
        bx, ex = bound(g, x if ok else 3)
        by, ey = bound(g, y if ok else 3)
        p.append([bx, by])
        if ok:
            ok = ex[0] <= ex[1] <= x and ey[0] <= ey[1] <= y
            x, y = ex[1] - ex[0], ey[1] - ey[0]
    return p, (x, y) if ok else None


def ends(g, n):
    r = g.rng
    m = r.choice([n, n + 1, n + 2, r.randint(0, n + 2)])
    k = r.random()
    if k < .1:
        return [True] * m
    if k < .2:
        return [False] * m
    if k < .3:
        return [bool(j & 1) for j in range(m)]
    q = r.random()
    return [r.random() < q for _ in range(m)]


WALKS = ["iter", "iter_mut", "ref_into", "mut_into", "slice_into", "mut_slice_into", "into"]


def D01(g, beh):
    r = g.rng
    if not g.hooks:
        return
    b = beh.get("MCGrid", [])
    if len(b) > g.pick(3000, 30000):
        b = r.sample(b, g.pick(3000, 30000))
    for x in b:
        g("g.view", "", [x["g"], x["p"], x["e"]])
        g("g.edit", "", [x["g"], x["p"], [["fill", 1000, x["e"]]]])
    sizes = [(x, y) for x in range(5) for y in range(5)]
    for x, y in sizes:
        g("g.filled", "", [x, y, 7])
        g("g.generated", "", [x, y])
        q = grid(g, x, y)
        for d in (-1, 0, 1):
            if x * y + d >= 0:
                g("g.from_data", "", [x, y, [r.randint(0, 9) for _ in range(x * y + d)]])
        g("g.into_data", "", [q])
        for px in range(x + 2):
            for py in range(y + 2):
                g("g.get", "", [q, px, py])
                g("g.set", "", [q, px, py, 5])
                g("g.swap", "", [q, px, py, r.randint(0, x), r.randint(0, y)])
                g("g.swap", "", [q, r.randint(0, x), r.randint(0, y), px, py])
        for x0 in range(x + 2):
            for x1 in range(x + 2):
                for y0 in range(y + 2):
                    for y1 in range(y + 2):
                        if r.random() < g.pick(.15, 1):
                            g("g.cut", "", [q, x0, x1, y0, y1])
                            g("g.visit", "", [q, x0, x1, y0, y1, ends(g, x * y)])
                            g("g.fill", "", [q, x0, x1, y0, y1, 500, ends(g, x * y)])
        for _ in range(6):
            g("g.into_visit", "", [q, ends(g, x * y)])
    for _ in range(g.pick(2500, 40000)):
        x, y = r.choice([(r.randint(0, 6), r.randint(0, 6)), (1, r.randint(0, 9)), (r.randint(0, 9), 1), (r.randint(2, 5), r.randint(2, 5))])
        q = grid(g, x, y)
        p, s = path(g, x, y, r.choice([0, 1, 1, 2, 2, 3]))
        n = s[0] * s[1] if s else 4
        if r.random() < .5:
            g("g.view", "", [q, p, ends(g, n)])
        else:
            w, h = s or (2, 2)
            pos = lambda: [r.randint(0, max(w - (r.random() < .95), 0)), r.randint(0, max(h - (r.random() < .95), 0))]
            ed = []
            for _ in range(r.randint(1, 4)):
                k = r.random()
                if k < .35 and w * h:
                    ed.append(["set"] + pos() + [r.randint(100, 999)])
                elif k < .7 and w * h:
                    ed.append(["swap"] + pos() + pos())
                else:
                    ed.append(["fill", 1000, ends(g, n)])
            g("g.edit", "", [q, p, ed])
    # every iterator, with and without positions, and the text
    for n in range(g.pick(1400, 25000)):
        x, y = r.choice([(r.randint(0, 6), r.randint(0, 6)), (1, r.randint(0, 9)), (r.randint(0, 9), 1), (r.randint(2, 5), r.randint(2, 5))])
        q = grid(g, x, y)
        p, s = path(g, x, y, r.choice([0, 1, 1, 2]))
        e = ends(g, s[0] * s[1] if s else 4)
        i, j = sorted([r.choice([0, r.randint(0, len(e))]), r.choice([len(e), r.randint(0, len(e))])])
        g("g.walk", WALKS[n % len(WALKS)], [q, p, e[:i], e[i:j], e[j:], 1000])
        q = dict(q, d=[v * r.choice([-1, 1, 10, 12345]) for v in q["d"]])
        g("g.text", r.choice(["", "ruled"]), [q, p])
    for x, y in sizes:
        for k in range(0, x * y + 1, 3):
            g("g.data_mut", "", [grid(g, x, y), k, 4711])
    # histories on one array
    for _ in range(g.pick(120, 3000)):
        g.session()
        x, y = r.randint(1, 5), r.randint(1, 5)
        g("g.lit", "", [grid(g, x, y)], d="g")
        R = {"r": "g"}
        for _ in range(12):
            k = r.choice(["set", "swap", "edit", "fill", "view", "get"])
            px, py, qx, qy = r.randrange(x), r.randrange(y), r.randrange(x), r.randrange(y)
            if k == "set":
                g("g.set", "", [R, px, py, r.randint(0, 99)], d="g")
            elif k == "swap":
                g("g.swap", "", [R, px, py, qx, qy], d="g")
            elif k == "fill":
                (a, b), (c, d) = sorted((px, qx)), sorted((py, qy))
                g("g.fill", "", [R, a, b + 1, c, d + 1, 200, ends(g, 4)], d="g")
            elif k == "get":
                g("g.get", "", [R, px, py])
            elif k == "view":
                p, s = path(g, x, y, 2)
                g("g.view", "", [R, p, ends(g, s[0] * s[1] if s else 2)])
            else:
                p, s = path(g, x, y, 1)
                if s:
                    g("g.edit", "", [R, p, [["fill", 300, ends(g, s[0] * s[1])]]], d="g")
        g.end()
