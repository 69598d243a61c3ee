"""Command generators: common part."""
import json, random
BIN = ["mm", "mr", "rm", "rr", "am", "ar"]
DIVX = ["cmm", "cmr", "crm", "crr", "cam", "car", "emm", "emr", "erm", "err", "eam", "ear"]
INTS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
        "usize": (0, 2**64 - 1), "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
        "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1)}


class Gen:
    """collects commands; every command is a session of its own unless a session is opened"""

    def __init__(self, prop, seed, tier):
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.cmds, self.n, self.cur = [], 0, None

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def session(self):
        self.n += 1
        self.cur = "s%d" % self.n
        return self

    def end(self):
        self.cur = None

    def __call__(self, op, form="", a=(), kind="", m=None, d=None, sel=None):
        if self.cur is None:
            self.n += 1
            s = "s%d" % self.n
        else:
            s = self.cur
        c = {"s": s, "op": op, "form": form, "kind": kind, "a": list(a)}
        if m is not None:
            c["m"] = m
        if d is not None:
            c["d"] = d
        if sel is not None:
            c["sel"] = sel
        self.cmds.append(c)
        return c

    def sessions(self, lists):
        """whole sessions, e.g. behaviours written by TLC"""
        for l in lists:
            self.n += 1
            for c in l:
                c = dict(c)
                c["s"] = "s%d" % self.n
                self.cmds.append(c)

    def more(self, gen, beh, reps):
        """further rounds with other random choices; sessions that were there already are left out"""
        def split(cmds):
            out = {}
            for c in cmds:
                out.setdefault(c["s"], []).append(c)
            return {json.dumps([{k: v for k, v in c.items() if k != "s"} for c in l]): l for l in out.values()}
        if reps <= 0:
            return
        seen, all_, seed = set(split(self.cmds)), self.cmds, self.rng.random()
        for k in range(reps):
            self.rng, self.cmds, self.cur = random.Random("%s/%r/%d" % (self.prop, seed, k)), [], None
            gen(self, beh)
            for key, l in split(self.cmds).items():
                if key not in seen:
                    seen.add(key)
                    all_.extend(l)
        self.cmds = all_

    # ---- integers
    def integer(self, bits=None):
        r = self.rng
        bits = bits if bits is not None else r.choice([1, 2, 3, 5, 8, 16, 31, 33, 64, 100, 130])
        v = r.choice([r.getrandbits(bits), r.getrandbits(bits), 2**bits, 2**bits - 1, 2**bits + 1, 0, 1])
        return -v if r.random() < .5 else v

    def in_type(self, t):
        lo, hi = INTS[t]
        r = self.rng
        c = [lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, hi // 2, lo // 2 if lo else 5, r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -20), 20)]
        if lo < 0:
            c += [-1, -2, -3]
        return r.choice(c)


def read_behaviours(path):
    out, seen = [], set()
    try:
        with open(path) as f:
            for l in f:
                if l in seen or not l.strip():
                    continue
                seen.add(l)
                v = json.loads(l)
                if isinstance(v, str):
                    v = json.loads(v)
                out.append(v)
    except FileNotFoundError:
        pass
    # TLC's workers write in any order
    out.sort(key=lambda v: json.dumps(v, sort_keys=True))
    return out
