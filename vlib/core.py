"""Building, running the harness, and running TLC."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    """the check itself could not do its work; says nothing about the code"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ---------------------------------------------------------------- building
def build_java():
    cls = os.path.join(BUILD, "classes")
    src = sorted(os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java"))
    stamp = os.path.join(cls, ".stamp")
    want = "".join("%s %d\n" % (f, os.stat(f).st_mtime_ns) for f in src)
    if os.path.exists(stamp) and open(stamp).read() == want:
        return cls
    os.makedirs(cls, exist_ok=True)
    r = sh(["javac", "-cp", JARS, "-d", cls] + src)
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout)
    open(stamp, "w").write(want)
    return cls


MAIN, QUAD = "algebraics_verif", "algebraics_verif_quadratic"


def build_harness(need=MAIN):
    """path of the harness binary built from /repo's working tree, and whether the hooks needed are in.
    A change of /repo that breaks one of the hook files only loses that file."""
    last = ""
    for cfgs in ((MAIN, QUAD), (need,), ()):
        env = dict(os.environ)
        env.pop("RUSTC_WRAPPER", None)
        env["RUSTFLAGS"] = " ".join("--cfg " + c for c in cfgs)
        # separate directories, so that falling back does not rebuild everything every time
        d = os.path.join(BUILD, "target" + ("" if len(cfgs) == 2 else "-" + ("".join(cfgs) or "nohooks")))
        r = sh(["cargo", "build", "--release", "--offline", "--target-dir", d],
               cwd=os.path.join(HERE, "harness"), env=env)
        if r.returncode == 0:
            b = os.path.join(d, "release", "harness")
            v = sh([b, "--hooks"]).stdout.split()
            return b, need in v
        last = r.stdout
    errs = "\n".join(l for l in last.splitlines() if l.startswith("error"))
    raise ToolError("the harness does not build against /repo:\n%s\n%s" % (errs, last[-3000:]))


# ---------------------------------------------------------------- harness
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_shard(binary, cmds, out, hang_s, deadline):
    """run the commands in one harness process; restarts after a hang or an abort"""
    pos = 0
    restarts = 0
    while pos < len(cmds):
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             preexec_fn=_limits)
        todo = cmds[pos:]

        def feed(p=p, todo=todo):
            try:
                for c in todo:
                    p.stdin.write((json.dumps(c) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        threading.Thread(target=feed, daemon=True).start()
        q = queue.Queue()

        def read(p=p, q=q):
            for l in p.stdout:
                q.put(l)
            q.put(None)
        threading.Thread(target=read, daemon=True).start()
        why = None
        while pos < len(cmds):
            if time.time() > deadline:          # what was done is judged, the rest is not
                p.kill()
                p.wait()
                return
            try:
                l = q.get(timeout=hang_s)
            except queue.Empty:
                why = "hang"
                break
            if l is None:
                why = "abort"
                break
            e = json.loads(l)
            if "skip" not in e:
                out.append(e)
            pos += 1
        p.kill()
        p.wait()
        if why and pos < len(cmds):
            # the command that was under way
            e = dict(cmds[pos])
            e["a"] = [x if not (isinstance(x, dict) and set(x) == {"r"}) else {"r": x["r"]} for x in e["a"]]
            e["r"] = ["" for _ in e["a"]]
            e["out"] = {"k": why, "v": ""}
            out.append(e)
            s = e["s"]
            pos += 1
            while pos < len(cmds) and cmds[pos]["s"] == s:
                pos += 1
            restarts += 1
            if restarts >= 2:       # enough evidence from this shard
                break


def run_harness(binary, cmds, hang_s=120, shards=None, limit=1e9):
    """executes the commands (grouped by session) and returns the events, in shards"""
    shards = shards or NPROC
    sessions = {}
    for c in cmds:
        c.setdefault("form", "")
        c.setdefault("kind", "")
        sessions.setdefault(c["s"], []).append(c)
    parts = [[] for _ in range(shards)]
    for n, s in enumerate(sessions.values()):
        parts[n % shards].extend(s)
    outs = [[] for _ in parts]
    ts = [threading.Thread(target=_run_shard, args=(binary, p, o, hang_s, time.time() + limit)) for p, o in zip(parts, outs) if p]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return outs


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, module, cfg=None, env=None, workers=1, args=(), heap="3g", timeout=3000):
        self.module, self.cfg = module, cfg or module
        self.dir = tempfile.mkdtemp(prefix="tlc-")
        self.log = os.path.join(self.dir, "log")
        e = dict(os.environ)
        e.update(env or {})
        cls = os.path.join(BUILD, "classes")
        cmd = ["timeout", str(timeout), "java", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + self.dir, "-DTLA-Library=%s:%s" % (os.path.join(SPEC, "lib"), SPEC), "-cp", cls + ":" + JARS,
               "tlc2.TLC", "-metadir", os.path.join(self.dir, "meta"), "-noGenerateSpecTE", "-workers", str(workers),
               "-config", os.path.join(SPEC, self.cfg + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        self.f = open(self.log, "w")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, env=e, cwd=self.dir)

    def wait(self):
        rc = self.p.wait()
        self.f.close()
        t = open(self.log, errors="replace").read()
        shutil.rmtree(self.dir, ignore_errors=True)
        r = {"rc": rc, "text": t, "states": 0, "distinct": 0}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t)
        if m:
            r["states"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", t)
            if m:
                r["states"] = r["distinct"] = int(m[-1])
        return r


def err_text(t):
    ls = [l for l in t.splitlines() if not l.startswith(("Loading", "Semantic", "Parsing", "Linting"))]
    for n, l in enumerate(ls):
        if "Error" in l or "rror:" in l:
            return "\n".join(ls[n:n + 30])
    return "\n".join(ls[-30:])


def validate(module, shards, prop="", timeout=3000):
    """checks the events of each shard against the trace specification; returns rejects and totals"""
    tmp = tempfile.mkdtemp(prefix="trace-")
    runs = []
    try:
        for n, ev in enumerate(shards):
            if not ev:
                continue
            f = os.path.join(tmp, "t%d.ndjson" % n)
            with open(f, "w") as o:
                for e in ev:
                    o.write(json.dumps(e) + "\n")
            runs.append((ev, Tlc(module, env={"TRACE": f, "PROP": prop}, timeout=timeout)))
        rejects, states, trans = [], 0, 0
        for ev, t in runs:
            r = t.wait()
            m = re.search(r'^"CONSUMED (\d+)"$', r["text"], re.M)
            if r["rc"] != 0 or not m or int(m.group(1)) != len(ev):
                raise ToolError("TLC could not judge the trace with %s (exit %d):\n%s" % (module, r["rc"], err_text(r["text"])))
            states += r["distinct"]
            trans += max(0, r["states"] - 1)
            for n, why in re.findall(r'^"REJECT (\d+) (.*)"$', r["text"], re.M):
                rejects.append((ev, int(n) - 1, why))
        return rejects, states, trans
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
