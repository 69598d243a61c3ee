"""Development: shows that the trace specifications bind.  Records the traces of a property, changes the output of one event
in each session and asks TLC; lists, per operation, how many changed events were rejected and samples that were not.
  corrupt.py PROP [n]"""
import copy, json, os, random, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vlib.core import *
from vlib.gen import Gen
from vlib.props import PROPS
from check import run_models
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 3000
p = PROPS[prop]
rng = random.Random(5)
tmp = tempfile.mkdtemp()
res = {"states": 0, "transitions": 0, "models": {}, "beh": {}}
run_models(p, "quick", tmp, res)
binary, hooks = build_harness(p.get("hook", MAIN))
g = Gen(prop, 1, "quick")
g.hooks = hooks
p["gen"](g, res["beh"])
shards = run_harness(binary, g.cmds, 120)


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for k in range(len(v)):
            yield from leaves(v[k], path + (k,))
        yield path + ("len",)
    else:
        yield path


def corrupt(e):
    e = copy.deepcopy(e)
    if e["out"]["k"] != "ok":
        e["out"] = {"k": rng.choice([k for k in ("panic", "none", "hang") if k != e["out"]["k"]]), "v": ""}
        return e, "outcome"
    if rng.random() < .1:
        e["out"] = {"k": "panic", "v": ""}
        return e, "outcome"
    ls = list(leaves(e["out"]["v"]))
    path = rng.choice(ls)
    box = e["out"]
    steps = ("v",) + path
    if steps[-1] == "len":
        for s in steps[:-1]:
            box = box[s]
        if box and rng.random() < .5:
            box.pop()
        else:
            box.append(copy.deepcopy(box[-1]) if box else "1")
        return e, "length"
    for s in steps[:-1]:
        box = box[s]
    v = box[steps[-1]]
    if isinstance(v, bool):
        v = not v
    elif isinstance(v, int):
        v += rng.choice([-1, 1])
    else:
        try:
            v = str(int(v) + rng.choice([-1, 1]))
        except ValueError:
            v = v + "1"
    box[steps[-1]] = v
    return e, "leaf"


bad = []
for s in shards:
    out, seen = [], set()
    for e in s:
        if e["out"]["k"] == "unsupported":
            continue
        c, how = corrupt(e)
        if "d" in c:        # keep later events of the session consistent: drop them
            pass
        c = dict(c, s="x%d" % len(out))
        c["r"] = [""] * len(c["a"])
        out.append(c)
    rng.shuffle(out)
    bad.append(out[:n // len(shards)])
rej, _, _ = validate(p["trace"], bad, prop)
hit = {(id(ev), k) for ev, k, _ in rej}
st = {}
for ev in bad:
    for k, e in enumerate(ev):
        a = st.setdefault(e["op"], [0, 0, []])
        a[0] += 1
        if (id(ev), k) in hit:
            a[1] += 1
        else:
            a[2].append(e)
for op, (t, h, miss) in sorted(st.items()):
    print("%-16s %5d changed, %5d rejected" % (op, t, h))
    for e in miss[:int(sys.argv[3]) if len(sys.argv) > 3 else 1]:
        print("      not rejected:", json.dumps({k: e[k] for k in ("form", "kind", "a", "out")})[:600])
shutil.rmtree(tmp)
