"""Shared machinery: build the executor from /repo's current tree, drive it, let TLC judge the
recorded behaviour against the specification, and report."""
import hashlib, json, os, random, re, selectors, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KERIDE_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.environ.get("KEXEC_TARGET", os.path.join(HARNESS, "target"))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------------------------------- build
def build_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + env.get("PATH", "")
    return env


def source_hash():
    h = hashlib.sha256()
    paths = [os.path.join(REPO, "Cargo.toml")]
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in os.walk(root):
            paths += [os.path.join(d, f) for f in fs]
    paths.append(os.path.join(HARNESS, "Cargo.toml"))
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build():
    """cargo goes by mtimes; the stamp makes the build go by contents"""
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "vf-source.sha256")
    now = source_hash()
    exe = os.path.join(TARGET, "debug", "kexec")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now or not os.path.exists(exe):
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("keride-"):
                    shutil.rmtree(os.path.join(fp, d))
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=build_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(now)
    log(f"build: {time.time() - t0:.1f}s")
    return exe


# -------------------------------------------------------------------------------------- executor
class Exec:
    """The real library in a process of its own; a panic is an answer, an abort or a hang too."""

    def __init__(self, exe, timeout=60):
        self.exe, self.timeout, self.p = exe, timeout, None
        self.calls = 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.p = None

    def call(self, req):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        self.calls += 1
        line = json.dumps(req).encode() + b"\n"
        try:
            self.p.stdin.write(line)
        except BrokenPipeError:
            pass
        deadline = time.time() + self.timeout
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        while b"\n" not in self.buf:
            left = deadline - time.time()
            if left <= 0 or not sel.select(left):
                self.stop()
                return {"ok": False, "kind": "hang", "msg": f"no answer in {self.timeout}s"}
            chunk = os.read(self.p.stdout.fileno(), 1 << 20)
            if not chunk:
                rc = self.p.wait()
                self.stop()
                if rc == 3:
                    raise ToolError(f"executor refused request {line[:300]!r}")
                return {"ok": False, "kind": "abort", "msg": f"process died with {rc}"}
            self.buf += chunk
        out, self.buf = self.buf.split(b"\n", 1)
        return json.loads(out)


class Trace:
    """Recorded calls of one suite: request fields plus the observed result."""

    def __init__(self, ex, name):
        self.ex, self.name, self.events, self.models = ex, name, [], []

    def do(self, op, tag="", **kw):
        req = dict(op=op, **kw)
        res = self.ex.call(req)
        res.pop("msg", None) if res.get("ok") else None
        self.events.append(dict(req, tag=tag, res=res))
        return res

    def note(self, op, **kw):
        """an event with no call behind it (environment facts)"""
        self.events.append(dict(op=op, **kw))

    def plain(self, op, **kw):
        """a call not recorded (oracle services of the executor)"""
        return self.ex.call(dict(op=op, **kw))


# ------------------------------------------------------------------------------------------- TLC
def scrub(v):
    """what TLC sees: no nulls, no free-text messages"""
    if isinstance(v, dict):
        return {k: scrub(x) for k, x in v.items() if x is not None and k not in ("msg",)}
    if isinstance(v, list):
        return [scrub(x) for x in v]
    return v


class TlcResult:
    pass


def run_tlc(module, cfg, env=None, workers=4, heap="3g", timeout=600, extra=(), workdir=None):
    """runs TLC on spec/<module>.tla with the given cfg text; returns its statistics and output"""
    wd = workdir or tempfile.mkdtemp(prefix="vf-tlc-")
    try:
        cfgp = os.path.join(wd, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-cp", JARS, "tlc2.TLC", "-config", cfgp,
               "-metadir", os.path.join(wd, "states"), "-workers", str(workers), "-noGenerateSpecTE", *extra,
               os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} did not end in {timeout}s")
        r = TlcResult()
        r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        r.generated = int(m[-1][0].replace(",", "")) if m else 0
        r.distinct = int(m[-1][1].replace(",", "")) if m else 0
        return r
    finally:
        if not workdir:
            shutil.rmtree(wd, ignore_errors=True)


def model_check(module, cfg, workers=4, timeout=800, heap="3g", extra=()):
    """design-level exhaustive check: the specification must satisfy its own invariants"""
    r = run_tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
    if r.rc != 0:
        raise ToolError(f"model {module} failed in TLC (rc {r.rc}):\n{r.out[-3000:]}")
    log(f"model {module}: {r.distinct} distinct states, {r.generated} generated, {r.wall:.1f}s")
    return r


class Oracle:
    """Values of the algorithms the specification leaves uninterpreted, computed without keride:
    hashlib where it has the algorithm, otherwise the algorithm's crate called directly."""
    LIB = {"F": lambda b: hashlib.blake2b(b, digest_size=32), "G": hashlib.blake2s, "H": hashlib.sha3_256,
           "I": hashlib.sha256, "0E": hashlib.blake2b, "0F": hashlib.sha3_512, "0G": hashlib.sha512}

    def __init__(self, ex):
        self.ex, self.memo = ex, {}

    def value(self, n):
        key = json.dumps(n, sort_keys=True)
        if key not in self.memo:
            kind, code, arg = n["k"], n["c"], n["p"]
            if kind == "hash" and code in self.LIB:
                self.memo[key] = list(self.LIB[code](bytes(arg)).digest())
            else:
                r = self.ex.call({"op": "oracle", "k": kind, "c": code, "p": arg})
                if not r["ok"]:
                    raise ToolError(f"oracle {kind} {code}: {r}")
                self.memo[key] = r["d"]
        return self.memo[key]


def validate2(module, events, oracle, consts="", **kw):
    """two passes: ask the specification what it needs, supply it, validate"""
    needs = validate(module, events, consts, gather=True, **kw).needs
    full = [dict(e, h=[dict(n, d=oracle.value(n)) for n in needs.get(i, [])]) for i, e in enumerate(events, 1)]
    return validate(module, full, consts, **kw)


def validate(module, events, consts="", timeout=800, heap="3g", stateful=False, gather=False, **kw):
    """TLC checks every recorded event against the specification; returns rejected event numbers"""
    lines = [json.dumps(scrub(e), separators=(",", ":")) for e in events]
    # long traces in parts, side by side: reading a trace is most of the work
    n = 1 if stateful else min(4, 1 + sum(map(len, lines)) // 1500000, len(lines) or 1)
    cuts = [len(lines) * i // n for i in range(n + 1)]
    jobs = [(cuts[i], lines[cuts[i]:cuts[i + 1]]) for i in range(n)]
    t0 = time.time()
    with ThreadPoolExecutor(n) as pool:
        rs = list(pool.map(lambda j: validate_part(module, j[1], j[0], consts, max(2, 8 // n), timeout, heap, stateful, gather), jobs))
    r = rs[0]
    for q in rs[1:]:
        r.rejected += q.rejected
        r.generated += q.generated
        r.distinct += q.distinct
        r.needs.update(q.needs)
    r.wall = time.time() - t0
    log(f"trace {module}: {len(events)} events, {len(r.rejected)} rejected, {r.wall:.1f}s")
    return r


def validate_part(module, lines, base, consts, workers, timeout, heap, stateful, gather):
    wd = tempfile.mkdtemp(prefix="vf-trace-")
    try:
        path = os.path.join(wd, "trace.ndjson")
        with open(path, "w") as f:
            f.writelines(x + "\n" for x in lines)
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\n" + consts
        env = {"KTRACE": path, "KCHUNK": str(1 if stateful else max(1, -(-len(lines) // (8 * workers)))),
               "KPASS": "1" if gather else "2", "KNEED": os.path.join(wd, "need-")}
        r = run_tlc(module, cfg, env=env, workers=1 if stateful else workers, timeout=timeout, heap=heap)
        if r.rc != 0 or r.distinct != len(lines) + 1:
            raise ToolError(f"trace check {module} failed (rc {r.rc}, {r.distinct} states for {len(lines)} events):\n"
                            + r.out[-3000:])
        r.rejected = sorted({base + int(x) for x in re.findall(r'<<"REJECT", (\d+)', r.out)})
        r.needs = {}
        for f in os.listdir(wd):
            if f.startswith("need-"):
                with open(os.path.join(wd, f)) as h:
                    r.needs[base + int(f[5:])] = [json.loads(x) for x in h]
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)


# ---------------------------------------------------------------------------------------- report
KNOWN = os.path.join(VERIF, "known_findings.json")


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def request_of(e):
    return {k: v for k, v in e.items() if k not in ("res", "tag")}


def told(e):
    """the start of a long call, byte lists written as text"""
    def f(x):
        if isinstance(x, list) and x and all(isinstance(b, int) and 0 <= b < 256 for b in x):
            return bytes(x).decode("latin-1")
        if isinstance(x, list):
            return [f(y) for y in x[:4]]
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        return x
    return json.dumps(f(e))[:2500]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.violations, self.known, self.samples, self.parts, self.assumptions = [], [], [], [], []
        self.rng = random.Random(f"{prop}-{seed}-{tier}")
        self.exe = None
        self.thorough = tier == "thorough"

    def executor(self):
        if self.exe is None:
            self.exe = build()
        return Exec(self.exe)

    def model(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": f"model {name}", "distinct_states": r.distinct, "states_generated": r.generated,
                           "seconds": round(r.wall, 1)})

    def trace(self, name, events, r, relevant=None):
        """fold a validated trace in; `relevant` restricts which events speak about this property"""
        rej = set(r.rejected)
        tags = {}
        n = 0
        for i, e in enumerate(events, 1):
            if "res" not in e:
                continue
            # one event may stand for many calls
            k = len(e["inputs"]) * len(e["calls"]) if "inputs" in e else 1
            n += k
            tags[e.get("tag", "")] = tags.get(e.get("tag", ""), 0) + k
            if i in rej:
                self.report(e)
        self.validated += n
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"part": f"trace {name}", "recorded_calls": n, "rejected": len(rej), "by_kind": tags,
                           "seconds": round(r.wall, 1)})
        shown = 0
        for e in events:
            if len(self.samples) >= 6:
                break
            if "res" in e and (self.rng.random() < 0.02 or len(events) < 300):
                s = json.dumps(e)
                if len(s) < 3000:
                    self.samples.append(e)
                elif not shown:
                    self.samples.append({"tag": e.get("tag"), "op": e.get("op"), "length": len(s), "begins": told(e)})
                    shown += 1

    def report(self, e):
        req = request_of(e)
        for k in known_findings(self.prop):
            if k["request"] == req:
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append(e)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or [{"note": "no sample drawn"}],
                "parts": self.parts,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "rejected": self.violations[:200]}, f, indent=1)
            for e in self.violations[:8]:
                print("rejected:", json.dumps(e)[:1500])
            print(f"{len(self.violations)} recorded behaviours are not allowed by the specification")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"property={self.prop} held: {self.validated} recorded calls validated, {self.states} states, "
              f"{time.time() - self.t0:.0f}s")
        return 0
