"""Infrastructure shared by every check: build /repo out of tree, run harnesses,
run TLC (model checking, behaviour generation, trace validation), report."""
import os, sys, json, subprocess, hashlib, time, shutil, tempfile, re, random, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = max(1, min(8, os.cpu_count() or 1))
LIBS = "-lxml2 -lpam -lgcrypt -lgnutls -lpthread -lsqlite3 -lhiredis -lsystemd -lrt -lm -ldl".split()


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
VARIANTS = {
    "plain": ("gcc", "-O1 -g -Wno-error -w"),
    "asan": ("gcc", "-O1 -g -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE -Wno-error -w"),
    # every memory access of the library becomes a scheduling point of our own runtime (harness/vsched.c)
    "sched": ("gcc", "-O1 -g -fsanitize=thread -Wno-error -w"),
}


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_built = {}


def build(variant="asan", targets=("onion_static",)):
    """Configure and build /repo's current working tree in .build/<variant>."""
    key = (variant, tuple(targets))
    if key in _built:
        return _built[key]
    cc, flags = VARIANTS[variant]
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ, CC=cc, CXX="g++", CCACHE_DISABLE="1", LANG="C.UTF-8")
    ldf = {"asan": "-fsanitize=address", "plain": ""}.get(variant, "")
    r = None
    for attempt in (0, 1):
        r = run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DONION_USE_TESTS=false", "-DONION_EXAMPLES=false",
                 "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags,
                 "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-g", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-g",
                 "-DCMAKE_EXE_LINKER_FLAGS=" + ldf, "-DCMAKE_SHARED_LINKER_FLAGS=" + ldf,
                 "-Wno-dev"], env=env)
        if r.returncode == 0:
            r = run(["ninja", "-C", bdir] + list(targets), env=env)
            if r.returncode == 0:
                break
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir, exist_ok=True)
    if r.returncode != 0:
        raise CheckError("build of /repo failed:\n" + r.stdout[-4000:])
    _built[key] = bdir
    return bdir


def harness(name, variant="asan", sources=None, cflags=(), ldflags=(), cxx=False, objs=()):
    """Compile harness/<name>.c against the library built from /repo."""
    bdir = build(variant)
    out = os.path.join(bdir, "h_" + name)
    srcs = [os.path.join(HARN, s) for s in (sources or [name + ".c"])]
    flags = VARIANTS[variant][1].split()
    if variant == "sched":
        flags = [f for f in flags if not f.startswith("-fsanitize")]
    cmd = (["g++"] if cxx else ["gcc"]) + flags + ["-D_GNU_SOURCE", "-Werror=implicit-function-declaration", "-DHAVE_PTHREADS", "-DHAVE_GNUTLS", "-DHAVE_WEBDAV", "-DHAVE_PAM", "-DHAVE_SQLITE3", "-DHAVE_REDIS", "-I" + REPO + "/src", "-I" + bdir + "/src", "-I" + HARN,
           "-I/usr/include/libxml2"] + list(cflags) + ["-o", out] + srcs + list(objs) + \
          [bdir + "/src/onion/libonion_static.a"] + list(ldflags) + LIBS
    r = run(cmd)
    if r.returncode != 0:
        raise CheckError("harness build failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:])
    return out


# ---------------------------------------------------------------- scenarios
def enc(b):
    """argument of a scenario command: hex of the bytes ('-' when empty)"""
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"


def rle(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    out = []
    for x in b:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def unrle(r):
    return b"".join(bytes([b]) * n for b, n in r)


def scratch(prefix="vp"):
    base = os.path.join(BUILD, "tmp")
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def run_scenarios(exe, scenarios, args=(), timeout=20, env=None, jobs=None, pre=()):
    """scenarios: list of lists of command strings.  Each scenario runs in its own
    forked child of the harness; returns one list of events per scenario. A death or hang of the
    child appears as a final event {"e":"crash"...}/{"e":"hang"}."""
    jobs = jobs or NCPU
    n = len(scenarios)
    if n == 0:
        return []
    per = (n + jobs - 1) // jobs
    chunks = [(i, scenarios[i:i + per]) for i in range(0, n, per)]
    d = scratch("run")
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="halt_on_error=1", ONION_LOG="noinfo nodebug noerror nocolor", VH_TIMEOUT=str(timeout), LC_ALL="C.UTF-8")
    if env:
        e.update(env)

    def one(ci):
        i, sc = chunks[ci]
        p = os.path.join(d, "in%d" % i)
        o = os.path.join(d, "out%d" % i)
        with open(p, "w") as f:
            for k, s in enumerate(sc):
                f.write("S %d\n" % k)
                for c in s:
                    f.write(c + "\n")
                f.write("E\n")
        with open(os.path.join(d, "err%d" % i), "w") as ef:
            r = subprocess.run(list(pre) + [exe, p, o] + list(args), env=e, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL,
                               timeout=600 + timeout * len(sc), cwd=d)
        if r.returncode != 0:
            raise CheckError("harness %s exited %d: %s" % (exe, r.returncode, open(os.path.join(d, "err%d" % i), errors="replace").read()[-3000:]))
        res = []
        with open(o, errors="replace") as f:
            for line in f:
                line = line.strip()
                if line:
                    try:
                        res.append(json.loads(line))
                    except ValueError:
                        raise CheckError("bad harness output: " + line[:2000])
        if len(res) != len(sc):
            raise CheckError("harness %s: %d results for %d scenarios" % (exe, len(res), len(sc)))
        return res

    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            out = []
            for r in ex.map(one, range(len(chunks))):
                out.extend(r)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(s):
        s.states = 0
        s.distinct = 0
        s.depth = 0
        s.out = ""
        s.rc = None


def _java(mem):
    return ["java", "-Xmx%s" % mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
            "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC"]


def tlc(module, cfg, env=None, args=(), workers=1, timeout=700, mem="3g"):
    d = scratch("tlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, "_run.cfg")
        if "\n" in cfg:
            open(cfgp, "w").write(cfg)
        else:
            shutil.copy(os.path.join(SPEC, cfg), cfgp)
        cmd = _java(mem) + ["-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-nowarning"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on %s" % module)
        t = TlcResult()
        t.rc = r.returncode
        t.out = r.stdout
        m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?,? (\d[\d,]*) distinct states", r.stdout)
        if m:
            t.states = int(m[-1][0].replace(",", ""))
            t.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.stdout)
        if m:
            t.depth = int(m[-1])
        m = re.findall(r"(?:The number of states generated: |Progress: )(\d[\d,]*)", r.stdout)
        if not t.states and m:
            t.states = int(m[-1].replace(",", ""))
        return t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg, timeout=600, workers=NCPU, mem="8g", args=()):
    """Exhaustive check of the specification itself. A failure here is an error of the
    specification, never of the code."""
    t = tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, args=args)
    if t.rc != 0:
        raise CheckError("model checking %s/%s failed (rc %s):\n%s" % (module, cfg.strip().splitlines()[0], t.rc, t.out[-3000:]))
    return t


def generate(module, cfg, env=None, simulate=None, depth=None, seed=None, timeout=600, mem="3g", workers=1):
    """Behaviours of the specification, one JSON value per line written by the spec to IOEnv.OUT."""
    d = scratch("gen")
    try:
        out = os.path.join(d, "beh.ndjson")
        args = []
        if simulate:
            args += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(seed if seed is not None else SEED)]
        t = tlc(module, cfg, env=dict(env or {}, OUT=out), args=args, timeout=timeout, mem=mem, workers=workers)
        if t.rc != 0:
            raise CheckError("generation from %s failed (rc %s):\n%s" % (module, t.rc, t.out[-3000:]))
        res = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        x = json.loads(line)
                        res.append(json.loads(x) if isinstance(x, str) else x)
        t.behaviours = res
        return t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one_per_prefix(behaviours, ops):
    """-simulate evaluates constraints on every successor of the last state, so each random walk is
    written once per possible last step; keep one of each."""
    d = {}
    for b in behaviours:
        d[json.dumps(ops(b)[:-1])] = b
    return list(d.values())


TRACECFG = "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"


def _validate_shard(module, traces, cfg, timeout, mem, extra_env):
    d = scratch("val")
    try:
        tp = os.path.join(d, "traces.ndjson")
        op = os.path.join(d, "out.json")
        with open(tp, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        t = tlc(module, cfg, env=dict(extra_env or {}, TRACES=tp, OUT=op), timeout=timeout, mem=mem)
        if not os.path.exists(op) or t.rc != 0:
            return t, None
        with open(op) as f:
            return t, json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Validation:
    def __init__(s):
        s.states = 0
        s.distinct = 0
        s.traces = 0
        s.events = 0
        s.unique = None
        s.rejected = []   # (index, event number (0 based) at which no transition was possible, note)


def validate(module, traces, cfg=TRACECFG, timeout=600, mem="2g", jobs=None, env=None):
    """Trace validation: which of the recorded traces are behaviours of the specification?"""
    v = Validation()
    jobs = jobs or NCPU
    n = len(traces)
    if not n:
        return v
    # identical traces are validated once
    first, same, uniq = {}, [], []
    for i, t in enumerate(traces):
        k = hashlib.sha1(json.dumps(t, sort_keys=True).encode()).digest()
        if k not in first:
            first[k] = len(uniq)
            uniq.append(i)
        same.append(first[k])
    if len(uniq) < n:
        u = validate(module, [traces[i] for i in uniq], cfg=cfg, timeout=timeout, mem=mem, jobs=jobs, env=env)
        bad = {r[0]: r for r in u.rejected}
        u.rejected = [(i, bad[same[i]][1], bad[same[i]][2]) for i in range(n) if same[i] in bad]
        u.traces, u.events = n, sum(len(t) for t in traces)
        u.unique = len(uniq)
        return u
    # balance shards by size
    order = sorted(range(n), key=lambda i: -len(json.dumps(traces[i])))
    k = max(1, min(jobs, n))
    shards = [[] for _ in range(k)]
    for j, i in enumerate(order):
        shards[j % k].append(i)

    errs = []

    def handle(idx):
        res = []
        if len(errs) >= 6:      # enough traces the specification cannot even read
            return res, [0, 0]
        t, prog = _validate_shard(module, [traces[i] for i in idx], cfg, timeout, mem, env)
        st = [t.states, t.distinct]
        if prog is None:
            if "semantic analysis failed" in t.out or "Could not parse" in t.out or "ConfigFileException" in t.out:
                raise CheckError("specification %s: %s" % (module, t.out[-3000:]))
            if len(idx) == 1:
                if "OutOfMemory" in t.out or "java.lang.StackOverflow" in t.out or t.rc in (None, 137):
                    raise CheckError("TLC failed: " + t.out[-3000:])
                errs.append(idx[0])
                return [(idx[0], -1, "specification cannot take this trace: " + _errline(t.out))], st
            # find the culprit(s)
            h = len(idx) // 2
            for part in (idx[:h], idx[h:]):
                r, s2 = handle(part)
                res += r
                st = [a + b for a, b in zip(st, s2)]
            if not res and not errs:
                raise CheckError("TLC failed on a shard but not on its parts:\n" + t.out[-3000:])
            return res, st
        for i, p in zip(idx, prog):
            if p != len(traces[i]) + 1:
                res.append((i, p - 1, "no transition of the specification explains this event"))
        return res, st

    with cf.ThreadPoolExecutor(k) as ex:
        for r, st in ex.map(handle, shards):
            v.rejected += r
            v.states += st[0]
            v.distinct += st[1]
    v.traces = n
    v.events = sum(len(t) for t in traces)
    v.rejected.sort()
    return v


def _errline(o):
    m = re.findall(r"Error: (.*)", o)
    return " | ".join(m[:3])[:600] if m else o[-600:]


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = 0
        self.known_hits = {}
        shutil.rmtree(os.path.join(VERIF, "replay", pid), ignore_errors=True)
        self.known = self._load_known()
        self.rng = random.Random("%s-%d" % (pid, SEED))

    def _load_known(self):
        p = os.path.join(VERIF, "known", "findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get("property") == self.pid and k.get("status") == "known"]

    def add_model(self, name, t):
        self.states += t.distinct
        self.transitions += t.states
        self.extra.setdefault("models", {})[name] = {"distinct": t.distinct, "generated": t.states, "depth": t.depth}

    def add_validation(self, name, v):
        self.states += v.distinct
        self.transitions += v.states
        self.traces += v.traces
        m = self.extra.setdefault("validated", {}).setdefault(name, {"traces": 0, "events": 0})
        m["traces"] += v.traces
        m["events"] += v.events
        m["different"] = m.get("different", 0) + (v.unique if v.unique is not None else v.traces)

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def violation(self, what, replay):
        self.violations += 1
        rd = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "v%d.json" % self.violations)
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1)
        if self.violations <= 20:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            print("  " + what[:1500].replace("\n", " "), flush=True)

    def known_finding(self, fid, desc):
        if fid not in self.known_hits:
            self.known_hits[fid] = 0
            print("KNOWN-FINDING: property=%s %s" % (self.pid, desc), flush=True)
        self.known_hits[fid] += 1

    def judge(self, module, scenarios, runner, name=None, cfg=TRACECFG, known=None, describe=None, env=None, mem="2g", timeout=600, prep=None):
        """run the scenarios on the code, validate the traces against `module`; re-run rejected
        ones and report only rejections that repeat.  `runner(list of scenarios) -> list of traces`.
        `known(scenario, trace, evno)` -> id of a known finding or None."""
        name = name or module
        traces = runner(scenarios)
        v = validate(module, [prep(t) if prep else t for t in traces], cfg=cfg, env=env, mem=mem, timeout=timeout)
        self.add_validation(name, v)
        for i in (0, len(traces) // 2):
            if traces:
                self.sample({"kind": name, "scenario": scenarios[i] if not callable(scenarios[i]) else None, "trace": traces[i][:12]})
        if not v.rejected:
            return traces
        log("%s: %d of %d traces rejected, re-running" % (name, len(v.rejected), len(traces)))
        rej = v.rejected[:60]
        idx = [r[0] for r in rej]
        again = runner([scenarios[i] for i in idx])
        v2 = validate(module, [prep(t) if prep else t for t in again], cfg=cfg, env=env, mem=mem, timeout=timeout)
        bad2 = {r[0]: r for r in v2.rejected}
        for j, (i, evno, note) in enumerate(rej):
            if j not in bad2:
                log("rejection of scenario %d did not repeat; ignored" % i)
                self.extra["unrepeated_rejections"] = self.extra.get("unrepeated_rejections", 0) + 1
                continue
            _, evno, note = bad2[j]
            tr = again[j]
            ev = tr[evno] if 0 <= evno < len(tr) else None
            k = known(scenarios[i], tr, evno) if known else None
            if k:
                desc = next((x["what"] for x in self.known if x["id"] == k), None)
                if desc:
                    self.known_finding(k, desc)
                    continue
            what = "%s: event %d %s: %s" % (name, evno, json.dumps(ev)[:500], note)
            if describe:
                what += " | " + describe(scenarios[i])
            self.violation(what, {"module": module, "scenario": scenarios[i], "trace": tr, "event": evno})
        return traces

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": dict({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                                "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(os.path.join(BUILD, "tmp"), ignore_errors=True) if os.environ.get("VP_CLEAN") else None
        log("%s: %s in %.1fs (%d states, %d transitions, %d traces)" % (self.pid, "VIOLATED" if self.violations else "held", time.time() - self.t0,
                                                                       self.states, self.transitions, self.traces))
        return 1 if self.violations else 0


def main(fn, pid):
    c = Check(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        if c.violations:
            c.finish()
            sys.exit(1)
        log("CHECK ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
