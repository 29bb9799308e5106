"""Shared machinery of every check: build /repo's working tree, run drivers, run TLC, judge, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, random, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
OBJ = os.path.join(CACHE, "obj")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CXX = "clang++-18"
BASE_FLAGS = ["-std=c++20", "-fPIC", "-O0", "-w", "-DSQLITE_ENABLE_NORMALIZE", "-DGIT_REVISION=aaaaaaaaaa",
              "-I" + REPO, "-I" + os.path.join(REPO, "mbedtls/include"), "-I" + os.path.join(HARNESS, "shim"), "-I" + HARNESS,
              "-include", os.path.join(HARNESS, "shim/prelude.h")]
WRAPS = ["sqlite3_prepare_v2", "sqlite3_prepare_v3", "sqlite3_step", "sqlite3_extended_errcode", "sqlite3_total_changes",
         "sqlite3_close", "sqlite3_open_v2", "sqlite3_set_authorizer", "sqlite3_get_autocommit"]
SCHED_WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_cond_clockwait", "pthread_cond_timedwait", "poll",
               "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv",
               "_ZNSt18condition_variable10notify_allEv", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6thread4joinEv",
               "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"]
LIBS = ["-lsqlite3", "-ldl", "-lpcre2-8", "-lpthread", "-lmbedtls", "-lmbedx509", "-lmbedcrypto", "-lz", "-lzstd", "-lm"]

T0 = time.time()


class CheckError(Exception):
    """The check itself could not be carried out: neither a pass nor a violation."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def fhash(path):
    h = hashlib.sha1()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def repo_sources():
    """Everything that makes up libbedrock + libstuff (as the Makefile globs it), without the test programs."""
    s = []
    for d in ("", "libstuff", "plugins", "sqlitecluster"):
        s += sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))
    s = [f for f in s if os.path.basename(f) != "main.cpp"]
    s += sorted(f for f in glob.glob(os.path.join(REPO, "libstuff", "*.c")) if os.path.basename(f) != "sqlite3.c")
    return s


def compile_one(src, extra):
    flags = [f for f in BASE_FLAGS if True] + list(extra)
    isc = src.endswith(".c")
    if isc:
        flags = ["-fPIC", "-O0", "-w", "-I" + REPO]
    cc = "clang-18" if isc else CXX
    key = hashlib.sha1(("\0".join([cc, src] + flags)).encode()).hexdigest()[:20]
    obj = os.path.join(OBJ, key + ".o")
    dep = os.path.join(OBJ, key + ".json")
    if os.path.exists(obj) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(os.path.exists(p) and fhash(p) == h for p, h in d.items()):
                return obj
        except Exception:
            pass
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    md = tmp + ".d"
    r = subprocess.run([cc] + flags + ["-MD", "-MF", md, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("compiling %s failed:\n%s" % (src, (r.stderr or "")[-4000:]))
    deps = open(md).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [p for p in deps if p.startswith(REPO) or p.startswith(VERIF) or p == src]
    json.dump({p: fhash(p) for p in deps}, open(dep, "w"))
    os.replace(tmp, obj)
    os.unlink(md)
    return obj


def build(name, sources, wraps=(), flags=(), libs=(), only=None, defines_repo=(), link=()):
    """Builds /verif/harness/<sources> together with every library source of /repo's working tree.
    only: restrict the repo sources (basenames) for small drivers; everything else is not compiled."""
    os.makedirs(OBJ, exist_ok=True)
    t = time.time()
    rs = repo_sources()
    if only is not None:
        rs = [f for f in rs if os.path.relpath(f, REPO) in only]
        missing = set(only) - set(os.path.relpath(f, REPO) for f in rs)
        if missing:
            raise CheckError("source files gone: %s" % sorted(missing))
    hs = [os.path.join(HARNESS, s) for s in sources]
    hs.append(os.path.join(HARNESS, "shim/sqlite_shim.cpp"))
    jobs = [(s, list(flags)) for s in hs] + [(s, list(defines_repo)) for s in sorted(rs, key=lambda f: -os.path.getsize(f))]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = hashlib.sha1(("\0".join([name] + [o + fhash(o) for o in objs] + list(wraps) + list(libs) + list(link))).encode()).hexdigest()[:16]
    exe = os.path.join(CACHE, "bin", name + "-" + key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(CACHE, "bin", name + "-*")):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [CXX, "-o", tmp] + objs + ["-Wl,--wrap=" + w for w in list(WRAPS) + list(wraps)] + list(link) + ["-rdynamic"] + list(libs) + LIBS
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.replace(tmp, exe)
    log("built %s in %.1fs" % (name, time.time() - t))
    return exe


# ---------------------------------------------------------------------------------------------------------------- TLC
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCResult:
    def __init__(self):
        self.ok = False; self.rc = None; self.out = ""; self.generated = 0; self.distinct = 0; self.kind = ""; self.behaviours = []


def scratch(prefix="vf"):
    os.makedirs("/tmp", exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + "-")


_scratch_dirs = []


def workdir(name):
    d = scratch("vf-" + name)
    os.chmod(d, 0o777)
    _scratch_dirs.append(d)
    return d


def cleanup():
    for d in _scratch_dirs:
        if d.startswith("/tmp/vf-"):
            shutil.rmtree(d, ignore_errors=True)


def tlc(module, cfg, env=None, workers=None, timeout=600, simulate=None, depth=None, heap="4g", deque=False, extra=(), seed=None):
    """Runs TLC on spec/<module>.tla with the text or file `cfg`. Returns a TLCResult; raises CheckError if TLC itself failed."""
    d = workdir("tlc")
    if "\n" in cfg or not cfg.endswith(".cfg"):
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    w = workers or (os.cpu_count() or 8)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", TLA_CP, "tlc2.TLC", "-config", cfgp, "-workers", str(w), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50), "-seed", str(seed if seed is not None else SEED)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    r = TLCResult()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC on %s did not finish in %ds" % (module, timeout))
    r.rc = p.returncode
    r.out = p.stdout + p.stderr
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", r.out)
        if m:
            r.generated = r.distinct = int(m[-1].replace(",", ""))
    shutil.rmtree(d, ignore_errors=True)
    if r.rc == 0:
        r.ok = True
        return r
    if "Deadlock reached" in r.out:
        r.kind = "deadlock"
    elif "is violated" in r.out or "was violated" in r.out or "were violated" in r.out or "properties were violated" in r.out:
        r.kind = "violated"
    elif "POSTCONDITION" in r.out or "Postcondition" in r.out or "postcondition" in r.out:
        r.kind = "postcondition"
    else:
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, r.rc, r.out[-3500:]))
    return r


def tlc_model(ctx, module, cfg, **kw):
    """Exhaustive (or simulated) check of the design. A violation here means the specification is broken, not the code."""
    t = time.time()
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise CheckError("the specification %s does not satisfy its own properties (%s):\n%s" % (module, r.kind, r.out[-4000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    log("TLC %s: %d distinct states, %d transitions in %.1fs" % (module, r.distinct, r.generated, time.time() - t))
    ctx.models.append(dict(module=module, distinct=r.distinct, generated=r.generated, simulated=bool(kw.get("simulate"))))
    return r


def tlc_must_fail(ctx, module, cfg, **kw):
    """Vacuity guard: with a known mistake switched on in the design, TLC has to find it."""
    r = tlc(module, cfg, **kw)
    if r.ok:
        raise CheckError("the specification %s does not notice a planted design mistake" % module)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return r


def tlc_behaviours(ctx, module, cfg, num, depth, seed=None, timeout=300, **kw):
    """Simulates the specification; behaviours are printed by the module as  BEHAVIOUR <json>  (hist variable)."""
    r = tlc(module, cfg, simulate=num, depth=depth, workers=1, timeout=timeout, seed=seed, **kw)
    if not r.ok:
        raise CheckError("simulation of %s failed: %s\n%s" % (module, r.kind, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    out = []
    for m in re.finditer(r'<<"BEHAVIOUR", "(.*)">>', r.out):
        out.append(json.loads(m.group(1).encode().decode("unicode_escape")))
    if not out:
        raise CheckError("simulation of %s gave no behaviours\n%s" % (module, r.out[-2000:]))
    return out


class Rejection:
    def __init__(self, trace_index, line, event, detail=""):
        self.trace_index = trace_index; self.line = line; self.event = event; self.detail = detail


def validate(ctx, module, traces, cfg=None, det=True, timeout=600, constants="", invariants=(), batch=None, heap="6g", deque=False, count=True):
    """Checks recorded traces (a list of lists of event records) against spec/<module>.tla.
    Returns None if all are behaviours of the specification, else a Rejection."""
    if not traces:
        raise CheckError("no traces to validate against " + module)
    d = workdir("tr")
    f = os.path.join(d, "traces.json")
    json.dump(traces, open(f, "w"))
    t = time.time()
    if cfg is None:
        cfg = "SPECIFICATION TraceSpec\n" + constants + "\n" + "".join("INVARIANT %s\n" % i for i in invariants)
        cfg += "CHECK_DEADLOCK TRUE\n" if det else "CHECK_DEADLOCK FALSE\nCONSTRAINT TraceProgress\nPOSTCONDITION TraceAccepted\n"
    r = tlc(module, cfg, env={"TRACE_FILE": f}, workers=None if det else 1, timeout=timeout, heap=heap, deque=deque)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    shutil.rmtree(d, ignore_errors=True)
    if r.ok:
        if count:
            ctx.traces += len(traces)
        log("validated %d traces (%d events) against %s: %d states in %.1fs" % (len(traces), sum(map(len, traces)), module, r.distinct, time.time() - t))
        return None
    if r.kind == "postcondition":
        m = re.findall(r'<<"REJECTED", (\d+), (\d+)>>', r.out)
        if not m:
            raise CheckError("TLC: postcondition without rejection info\n" + r.out[-3000:])
        ti, ln = int(m[0][0]), int(m[0][1])
    else:
        ti = [int(x) for x in re.findall(r"/\\ tr = (\d+)", r.out)]
        ln = [int(x) for x in re.findall(r"/\\ l = (\d+)", r.out)]
        if not ti or not ln:
            raise CheckError("TLC rejected a trace but the position is unknown\n" + r.out[-3000:])
        ti, ln = ti[-1], ln[-1]
        if r.kind == "violated":
            ln = ln - 1   # the state *after* event l-1 violates an invariant
    ev = traces[ti - 1][ln - 1] if 0 < ln <= len(traces[ti - 1]) else None
    tail = r.out[r.out.find("Error:"):][-3000:] if "Error:" in r.out else r.out[-2000:]
    return Rejection(ti - 1, ln - 1, ev, "%s: %s" % (r.kind, tail))


# ------------------------------------------------------------------------------------------------------------- drivers
class DriverResult:
    def __init__(self, rc, out, err, timed_out):
        self.rc = rc; self.out = out; self.err = err; self.timed_out = timed_out


def drop_privileges():
    """Run as nobody: Bedrock appends to /var/log on shutdown; nothing outside the scratch directory may be touched."""
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass


def run_driver(exe, args=(), stdin="", timeout=120, cwd=None, env=None, drop=True):
    d = cwd or workdir("drv")
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault("VERIF_SEED", str(SEED))
    p = subprocess.Popen([exe] + [str(a) for a in args], cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=drop_privileges if drop else None)
    try:
        out, err = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        to = True
    return DriverResult(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), to)


def parse_events(text):
    """One JSON record per line; lines not starting with '{' are ignored. A record {"e":"begin"} starts a new trace."""
    traces = []
    for line in text.splitlines():
        if not line.startswith("{"):
            continue
        try:
            ev = json.loads(line)
        except ValueError:
            continue  # torn last line of a killed driver
        if ev.get("e") == "begin" or not traces:
            traces.append([])
        traces[-1].append(ev)
    return traces


# -------------------------------------------------------------------------------------------------------------- checks
class Violation(Exception):
    def __init__(self, msg, payload=None):
        super().__init__(msg)
        self.msg = msg
        self.payload = payload


class Ctx:
    def __init__(self, prop):
        self.prop = prop; self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []; self.models = []
        self.extra = {}; self.assumptions = []; self.rng = random.Random("%s-%s" % (SEED, prop)); self.level = "model_checking"
        self.known = []

    def sample(self, x, n=3):
        if len(self.samples) < n:
            self.samples.append(x)

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "open"]


def write_evidence(ctx, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples or ["(none)"], models=ctx.models)
    cov.update(ctx.extra)
    ev = dict(property=ctx.prop, tier="thorough" if THOROUGH else "quick", seed=SEED, level=ctx.level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - T0, 2), violations=violations)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)


def report(ctx, v):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (ctx.prop, int(time.time())))
    json.dump(dict(property=ctx.prop, seed=SEED, tier=TIER, message=v.msg, payload=v.payload), open(path, "w"), indent=1, default=str)
    print("--- " + v.msg[:3000], flush=True)
    print("VIOLATION property=%s replay=%s" % (ctx.prop, path), flush=True)


def main(prop, fn):
    ctx = Ctx(prop)
    rc = 2
    try:
        fn(ctx)
        write_evidence(ctx, 0)
        log("%s held: %d states, %d transitions, %d traces" % (prop, ctx.states, ctx.transitions, ctx.traces))
        rc = 0
    except Violation as v:
        write_evidence(ctx, 1)
        report(ctx, v)
        rc = 1
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr, flush=True)
        rc = 2
    finally:
        cleanup()
    sys.exit(rc)


def drive_and_validate(ctx, exe, script, module, det=True, timeout=120, args=(), constants="", invariants=(), expect_traces=None, vtimeout=600,
                       what="", deque=False, env=None, post=None, confirm=1):
    """Runs the driver on a script, validates what it recorded. Crash/hang/rejection that a re-run repeats is a violation."""
    last = None
    fails = 0
    for attempt in range(1 + confirm):
        if fails >= 2:
            break
        r = run_driver(exe, args=args, stdin=script, timeout=timeout, env=env)
        traces = parse_events(r.out)
        if post:
            traces = post(traces)
        if r.timed_out:
            last = Violation("%s: the driver hung (a call into the code never returned)" % what, dict(script=script[-20000:], tail=r.out[-3000:], stderr=r.err[-3000:]))
            fails += 1
            continue
        if r.rc == 3:
            raise CheckError("driver reported a harness problem: " + r.err[-2000:])
        if r.rc != 0:
            last = Violation("%s: the code under test crashed (exit %s)" % (what, r.rc), dict(script=script[-20000:], tail=r.out[-3000:], stderr=r.err[-3000:]))
            fails += 1
            continue
        stuck = any(ev.get("e") in ("hang", "stuck", "died") for t in traces for ev in t)
        if expect_traces is not None and len(traces) < expect_traces and not stuck:
            raise CheckError("%s: %d traces recorded, %d expected\n%s" % (what, len(traces), expect_traces, r.err[-2000:]))
        rej = validate(ctx, module, traces, det=det, constants=constants, invariants=invariants, timeout=vtimeout, deque=deque)
        if rej is None:
            for t in traces[:1]:
                ctx.sample(dict(what=what or module, trace=t[:12]))
            ctx.count("events", sum(len(t) for t in traces))
            if fails == 0:
                return traces
            good = traces
            continue
        tr = traces[rej.trace_index]
        last = Violation("%s: recorded behaviour is not allowed by %s: trace %d event %d %s" % (what, module, rej.trace_index, rej.line, json.dumps(rej.event)),
                         dict(trace=tr[:rej.line + 1], detail=rej.detail))
        fails += 1
        log("rejected (attempt %d): %s" % (attempt + 1, last.msg[:500]))
    if fails == 1:
        log("not repeated in %d re-runs, so not reported" % confirm)
        ctx.count("unrepeated_rejections")
        return good
    raise last
