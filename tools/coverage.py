"""Development: which lines of /repo's source the recorded runs reach.  coverage.py [PROP ...] (default: all), without the behaviours
of the models.  Prints, per source file, the uncovered lines that are code."""
import glob, json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vlib.core import *
from vlib.gen import Gen
from vlib.props import PROPS
D = os.path.join(BUILD, "target-cov")
B = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable*/lib/rustlib/*/bin"))[0]
env = dict(os.environ, RUSTFLAGS="-Cinstrument-coverage --cfg %s --cfg %s" % (MAIN, QUAD))
r = sh(["cargo", "build", "--release", "--offline", "--target-dir", D], cwd=os.path.join(H, "harness"), env=env)
assert r.returncode == 0, r.stdout
prof = os.path.join(D, "prof")
os.makedirs(prof, exist_ok=True)
for f in glob.glob(prof + "/*"):
    os.remove(f)
os.environ["LLVM_PROFILE_FILE"] = prof + "/%p-%m.profraw"
binary = os.path.join(D, "release", "harness")
for prop in sys.argv[1:] or PROPS:
    g = Gen(prop, 1, "quick")
    g.hooks = True
    PROPS[prop]["gen"](g, {})
    n, parts = 6, [[] for _ in range(6)]
    for c in g.cmds:
        c.setdefault("form", "")
        c.setdefault("kind", "")
        parts[hash(c["s"]) % n].append(json.dumps(c))
    ps = []
    for k, c in enumerate(parts):
        f = "%s/%s.%d.cmds" % (prof, prop, k)
        open(f, "w").write("\n".join(c) + "\n")
        ps.append(subprocess.Popen([binary], stdin=open(f), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for x in ps:
        x.wait()
    print(prop, len(g.cmds), file=sys.stderr)
out = os.path.join(D, "all.profdata")
subprocess.run([B + "/llvm-profdata", "merge", "-sparse", "-o", out] + glob.glob(prof + "/*.profraw"), check=True)
j = json.loads(subprocess.run([B + "/llvm-cov", "export", "-format=text", "-instr-profile", out, binary],
                              check=True, capture_output=True, text=True).stdout)
for f in j["data"][0]["files"]:
    if not f["filename"].startswith("/repo/src") or "verif" in f["filename"]:
        continue
    src = open(f["filename"]).read().split("\n")
    # segments: line, col, count, has_count, is_region_entry, is_gap
    un, segs = set(), f["segments"]
    for a, b in zip(segs, segs[1:]):
        if a[3] and a[2] == 0 and not a[5]:
            for l in range(a[0], b[0] + 1):
                if l < b[0] or b[1] > 1:
                    un.add(l)
    print("== %s: %d of %d lines" % (f["filename"], len(un), f["summary"]["lines"]["count"]))
    for l in sorted(un):
        if src[l - 1].strip() not in ("", "}", "{"):
            print("%5d %s" % (l, src[l - 1][:110]))
