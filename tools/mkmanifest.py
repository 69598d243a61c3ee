"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vlib.props import PROPS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    m = " + ".join(dict.fromkeys(x if isinstance(x, str) else x[0] for x in p["models"]))
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked by TLC%s, traces of the real code validated against spec/%s.tla"
                     % (" (spec/%s.tla), its behaviours replayed into the real code" % m if m else "", p["trace"]),
        "level": "model_checking",
        "level_note": p.get("note") or ("Every event recorded from the real code is judged by the TLA+ definition of its operation over unbounded "
                      "integers; the behaviours of the bounded model are replayed exhaustively%s, larger inputs are generated. Bounded: inputs not "
                      "generated are not covered. Trusts TLC, the Java evaluation of the number library (compared with its TLA+ definitions "
                      "in SelfTest) and the harness." % ("" if m else " where there is one")),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "cfg(algebraics_verif), cfg(algebraics_verif_quadratic)", "enable": "RUSTFLAGS='--cfg algebraics_verif --cfg algebraics_verif_quadratic' when building /verif/harness",
                     "source_commits": ["d008658", "e412763", "f42ac5e", "5dbe99b", "dec9926", "1b4f05e"]},
           "checks": checks,
           "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS],
           "notes": "Specification language: TLA+ (TLC). See DESIGN.md."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
