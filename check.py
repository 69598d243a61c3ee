#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property
   check.py --replay FILE                        judge one recorded violation again
   check.py --setup                              build everything"""
import json, os, sys, tempfile, threading, time, shutil, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib.core import *
from vlib.gen import Gen, read_behaviours
from vlib.props import PROPS
KNOWN = os.path.join(HERE, "known-findings.txt")
EVID = os.path.join(HERE, "evidence")


def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <what fails>'"""
    out = {}
    try:
        for l in open(KNOWN):
            if l.startswith("finding: property=%s key=" % prop):
                rest = l.split("key=", 1)[1].rstrip("\n")
                key, _, what = rest.partition(" ")
                out[key] = what
    except FileNotFoundError:
        pass
    return out


def key_of(e):
    import hashlib
    c = [e["op"], e.get("form"), e.get("kind"), e.get("m"), e["a"]]
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def write_evidence(prop, tier, seed, cov, wall, violations, notes):
    os.makedirs(EVID, exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
         "assumptions": ["TLC evaluates the specification correctly; the Java evaluation of big numbers agrees with the TLA+ "
                         "definitions (compared by spec/SelfTest.tla)",
                         "the harness passes arguments and results on faithfully"] + notes,
         "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)


def run_models(p, tier, tmp, res):
    try:
        run = []
        for m in p["models"] + (p.get("models_thorough", []) if tier == "thorough" else []):
            mod, m = m if isinstance(m, tuple) else (m, m)
            cfg = "%s_%s" % (m, tier)
            if not os.path.exists(os.path.join(SPEC, cfg + ".cfg")):
                cfg = "%s_quick" % m
            out = os.path.join(tmp, m + ".beh")
            args = list(p.get("margs", {}).get(m, []))
            run.append((m, out, Tlc(mod, cfg, env={"OUT": out}, workers=4, args=args, heap="6g")))
        for m, out, t in run:
            r = t.wait()
            if r["rc"] != 0:
                raise ToolError("model %s: TLC exit %d\n%s" % (m, r["rc"], err_text(r["text"])))
            res["states"] += r["distinct"]
            res["transitions"] += r["states"]
            res["models"][m] = {"states": r["distinct"], "transitions": r["states"]}
            res["beh"][m] = read_behaviours(out)
    except Exception as e:      # handed to the main thread
        res["error"] = e


def decide(prop, tier, seed):
    t0 = time.time()
    p = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="check-%s-" % prop)
    try:
        build_java()
        res = {"states": 0, "transitions": 0, "models": {}, "beh": {}}
        th = threading.Thread(target=run_models, args=(p, tier, tmp, res))
        th.start()
        binary, hooks = build_harness(p.get("hook", MAIN))
        th.join()
        if "error" in res:
            raise res["error"]
        notes = []
        if not hooks:
            notes.append("the hooks of /repo did not compile with the present tree; checked through the public interface only")
        g = Gen(prop, seed, tier)
        g.hooks = hooks
        p["gen"](g, res["beh"])
        reps = int(os.environ.get("VERIF_REPS", 0)) or (p.get("reps", 1) if tier == "quick" else 1)
        g.more(p["gen"], {k: [] for k in res["beh"]}, reps - 1)
        hang = p.get("hang", 120) * (1 if tier == "quick" else 5)
        t1 = time.time()
        shards = run_harness(binary, g.cmds, hang, p.get("shards"), 350 if tier == "quick" else 1e9)
        t2 = time.time()
        events = sum(map(len, shards))
        uns = [e for s in shards for e in s if e["out"]["k"] == "unsupported"]
        if uns and hooks:
            raise ToolError("the harness cannot perform %s" % json.dumps(uns[0])[:500])
        shards = [[e for e in s if e["out"]["k"] != "unsupported"] for s in shards]
        rejects, st, tr = validate(p["trace"], shards, prop, timeout=3300 if tier == "thorough" else 800)
        res["states"] += st
        res["transitions"] += tr
        known = known_findings(prop)
        hits, bad = {}, []
        for ev, n, why in rejects:
            k = key_of(ev[n])
            if k in known:
                hits[k] = known[k]
            else:
                bad.append((ev, n, why))
        ok_events = [e for s in shards for e in s]
        nsess = len({(x, e["s"]) for x, s in enumerate(shards) for e in s})
        outs = {}
        for e in ok_events:
            k = e["op"] + "/" + e["out"]["k"]
            outs[k] = outs.get(k, 0) + 1
        samp = [ok_events[(len(ok_events) * q) // 4] for q in range(4)] if ok_events else []
        samp = [s for s in samp if len(json.dumps(s)) < 4000]
        cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": nsess,
               "events_validated_against_impl": len(ok_events), "outcomes": outs, "models": res["models"],
               "behaviours_from_models": sum(len(b) for b in res["beh"].values()), "samples": samp, "hooks": hooks,
               "harness_s": round(t2 - t1, 1), "tlc_s": round(time.time() - t2, 1)}
        write_evidence(prop, tier, seed, cov, time.time() - t0, len(bad), notes)
        for k, what in sorted(hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        for ev, n, why in bad[:5]:
            e = ev[n]
            f = os.path.join(EVID, "replay-%s-%s.json" % (prop, key_of(e)))
            sess = [x for x in ev[:n + 1] if x["s"] == e["s"]]
            with open(f, "w") as o:
                json.dump({"property": prop, "trace": p["trace"], "why": why, "event": e, "session": sess,
                           "again": "python3 check.py --replay " + f}, o, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print("  %s %s kind=%s: %s" % (e["op"], e.get("form", ""), e.get("kind", ""), why[:300]))
        if len(bad) > 5:
            print("  and %d more rejected events" % (len(bad) - 5))
        print("%s %s: %d events in %d traces, %d states, %d violations, %.1f s" %
              (prop, tier, len(ok_events), nsess, res["states"], len(bad), time.time() - t0))
        if not ok_events:
            if hooks:
                raise ToolError("no events")
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    build_java()
    binary, _ = build_harness(PROPS[d["property"]].get("hook", MAIN))
    cmds = []
    for e in d["session"]:
        c = {k: v for k, v in e.items() if k not in ("out", "r")}
        c["a"] = [{"r": r} if r else v for v, r in zip(e["a"], e["r"])]
        cmds.append(c)
    rejects, _, _ = validate(d["trace"], run_harness(binary, cmds, 300, 1), d["property"])
    for ev, n, why in rejects:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print(" ", json.dumps(ev[n])[:2000], why)
    return 1 if rejects else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            build_java()
            build_harness()
            r = Tlc("SelfTest", workers=4).wait()
            if '"SELFTEST OK"' not in r["text"]:
                raise ToolError("self test of the specification library failed:\n" + err_text(r["text"]))
            print("setup done")
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return decide(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
