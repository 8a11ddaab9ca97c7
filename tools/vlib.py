"""Runs TLC, the Go driver and trace validation; decides a property; writes evidence.

A *job* binds one specification module to the code:
  module     name of the module in spec/ (with MC_, Gen_ and Trace_ companions)
  driver     name of the driver in harness/
  mc         list of (name, constants, invariants, properties) checked exhaustively
  gen        list of dict(name, constants, [walks], [limit]) from which schedules are generated
  cfgs       list of driver configurations every schedule is (or takes turns to be) executed with
  trace      function (constants of gen, driver cfg) -> constants of the trace specification
"""
import atexit, collections, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys
import tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

TMP = tempfile.mkdtemp(prefix="verif-")
_children = set()


def _cleanup():
    for p in list(_children):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))


class CheckError(Exception):
    """Something is wrong with the check itself: no verdict."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def run(cmd, timeout, env=None, cwd=None, out=None, err=None):
    """Runs cmd, returns (rc, stdout, stderr); rc None on timeout."""
    fo = open(out, "wb") if out else subprocess.PIPE
    fe = open(err, "wb") if err else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, cwd=cwd, start_new_session=True)
    _children.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = None
    finally:
        _children.discard(p)
        for f in (fo, fe):
            if f is not subprocess.PIPE:
                f.close()
    return rc, (o or b"").decode("utf8", "replace"), (e or b"").decode("utf8", "replace")


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOPATH="/root/go", GOCACHE="/root/.cache/go-build", CGO_ENABLED=os.environ.get("CGO_ENABLED", "1"))
    e["PATH"] = "/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


_bin = {}


def build(pkg="."):
    """Builds the harness against the current working tree of /repo with the hooks on."""
    if pkg not in _bin:
        out = os.path.join(TMP, "harness-%s.test" % hashlib.md5(pkg.encode()).hexdigest()[:6])
        rc, o, e = run(["go", "test", "-c", "-vet=off", "-tags", "verif", "-o", out, "."], 600, env=goenv(),
                       cwd=os.path.join(HARNESS, pkg))
        if rc != 0:
            raise CheckError("build of the harness failed:\n" + o + e)
        _bin[pkg] = out
        log("harness built")
    return _bin[pkg]


# ---------------------------------------------------------------------------------------------------------------------
# TLC

def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, Raw):
        return v.s
    raise TypeError(v)


class Raw:
    def __init__(self, s):
        self.s = s


_seq = [0]


def tlc(module, cfg, args=(), workers=1, heap="2g", timeout=600, env=None):
    """Runs TLC on spec/<module>.tla with the given configuration text. Returns stdout."""
    _seq[0] += 1
    d = os.path.join(TMP, "tlc%d" % _seq[0])
    os.makedirs(d)
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    out = os.path.join(d, "out")
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + d, "-cp", JAVA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-config", c] + list(args) + [os.path.join(SPEC, module + ".tla")]
    rc, _, err = run(cmd, timeout, env=e, cwd=d, out=out)
    with open(out, errors="replace") as f:
        o = f.read()
    shutil.rmtree(d, ignore_errors=True)
    return rc, o, err


def mkcfg(constants, lines):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % (k, tla(v)) if not isinstance(v, Sub) else " %s <- %s\n" % (k, v.s)
                                   for k, v in constants.items()) + "\n".join(lines) + "\n"


class Sub:
    def __init__(self, s):
        self.s = s


def states_of(o):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    if not m:
        m2 = re.findall(r"([\d,]+) states checked", o)
        n = int(m2[-1].replace(",", "")) if m2 else 0
        return n, n
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def model_check(module, name, constants, invariants, properties=(), spec="Spec", extra=(), timeout=600, heap="6g",
                workers=NCPU):
    """Exhaustive check of the design. A violation here is an error of the specification, not of the code."""
    t = time.time()
    lines = ["SPECIFICATION " + spec]
    if invariants:
        lines.append("INVARIANTS " + " ".join(invariants))
    if properties:
        lines.append("PROPERTIES " + " ".join(properties))
    lines += list(extra) + ["CHECK_DEADLOCK FALSE"]
    rc, o, e = tlc(module, mkcfg(constants, lines), workers=workers, heap=heap, timeout=timeout)
    if rc != 0:
        raise CheckError("model checking %s/%s failed (rc %s):\n%s%s" % (module, name, rc, o[-6000:], e[-2000:]))
    gen, dist = states_of(o)
    if dist < 2:
        raise CheckError("model checking %s/%s is vacuous" % (module, name))
    log("MC %s/%s: %d states, %d transitions, %.1fs" % (module, name, dist, gen, time.time() - t))
    return dict(config=name, states=dist, transitions=gen, invariants=list(invariants) + list(properties))


def parse_printed(o):
    res = []
    for line in o.splitlines():
        if line.startswith('"[') or line.startswith('"{'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                raise CheckError("cannot parse TLC output line " + line[:200])
    return res


def generate(module, constants, walks=0, depth=400, timeout=600, seed=None, heap="4g"):
    """Schedules from Gen_<module>: one per transition of the abstract graph, or random walks."""
    lines = ["INIT GInit", "NEXT GNext", "VIEW GView", "ACTION_CONSTRAINT PrintTransition", "CONSTRAINT PrintWalk",
             "CHECK_DEADLOCK FALSE"]
    c = dict(constants)
    c["Walk"] = walks > 0
    args = ["-simulate", "num=%d" % walks, "-seed", str(seed if seed is not None else SEED), "-depth", str(depth)] if walks else []
    rc, o, e = tlc("Gen_" + module, mkcfg(c, lines), args=args, timeout=timeout, heap=heap)
    if rc != 0:
        raise CheckError("generating schedules from %s failed (rc %s):\n%s%s" % (module, rc, o[-6000:], e[-2000:]))
    gen, dist = states_of(o)
    return parse_printed(o), gen, dist


def dedupe(scheds):
    """Drops duplicates and schedules which are prefixes of others."""
    keyed = {}
    for s in scheds:
        keyed[tuple(json.dumps(a, sort_keys=True) for a in s)] = s
    keys = sorted(keyed)
    res = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and keys[i + 1][:len(k)] == k:
            continue
        res.append(keyed[k])
    return res


def validate(module, constants, traces, heap="2g", shards=NCPU, timeout=800):
    """Asks TLC which traces are behaviours of Trace_<module>.
    Returns the number of matched steps per trace (== len(steps) iff accepted) and state counts."""
    if not traces:
        return [], 0
    shards = max(1, min(shards, (len(traces) + 49) // 50))
    # long traces are spread evenly
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["steps"]))
    parts = [order[i::shards] for i in range(shards)]
    prog = [None] * len(traces)
    lines = ["INIT TInit", "NEXT TNext", "CONSTRAINT Progress", "POSTCONDITION Report", "CHECK_DEADLOCK FALSE"]
    cfg = mkcfg(constants, lines)
    total = 0

    def one(part):
        _seq[0] += 1
        f = os.path.join(TMP, "traces%d.ndjson" % _seq[0])
        with open(f, "w") as h:
            for i in part:
                h.write(json.dumps({"cfg": traces[i].get("cfg", {}), "steps": traces[i]["steps"]}) + "\n")
        rc, o, e = tlc("Trace_" + module, cfg, heap=heap, timeout=timeout, env={"TRACEFILE": f})
        os.unlink(f)
        if rc != 0:
            raise CheckError("trace validation of %s failed (rc %s):\n%s%s" % (module, rc, o[-6000:], e[-2000:]))
        rep = parse_printed(o)
        if not rep:
            raise CheckError("trace validation of %s reported nothing:\n%s" % (module, o[-3000:]))
        return part, rep[-1], states_of(o)[0]

    # distinct names for the parallel runs
    for i, p in enumerate(parts):
        pass
    with cf.ThreadPoolExecutor(shards) as ex:
        for part, rep, st in ex.map(one, parts):
            total += st
            for i, n in zip(part, rep):
                prog[i] = n
    return prog, total


# ---------------------------------------------------------------------------------------------------------------------
# Driver

class Crash(Exception):
    pass


def _drive_file(binary, driver, scheds, mode="bubble", watchdog=20, extra_env=None, gomaxprocs="3"):
    """Executes schedules in one driver process. Returns (results by id, kind, stderr, first missing schedule)."""
    _seq[0] += 1
    base = os.path.join(TMP, "d%d-%d" % (_seq[0], random.getrandbits(30)))
    with open(base + ".in", "w") as f:
        for s in scheds:
            f.write(json.dumps(s) + "\n")
    e = goenv()
    e.update(VERIF_DRIVER=driver, VERIF_IN=base + ".in", VERIF_OUT=base + ".out", VERIF_MODE=mode,
             VERIF_WATCHDOG=str(watchdog), GOMAXPROCS=gomaxprocs, GOTRACEBACK="all", GOMEMLIMIT="3GiB")
    e.update(extra_env or {})
    rc, o, err = run([binary, "-test.run", "TestDriver", "-test.timeout", "0"], 880, env=e, cwd=TMP)
    res = {}
    if os.path.exists(base + ".out"):
        with open(base + ".out") as f:
            for line in f:
                if line.endswith("\n"):
                    r = json.loads(line)
                    res[r["id"]] = r
    for x in (".in", ".out"):
        if os.path.exists(base + x):
            os.unlink(base + x)
    missing = next((s for s in scheds if s["id"] not in res), None)
    if rc == 0 and missing is None:
        return res, "ok", "", None
    if rc == 2 and "panic:" in err and "harness:" not in err:
        return res, "crash", err, missing
    if rc == 3 and "harness: WATCHDOG" in err:
        return res, "hang", err, missing
    if "fatal error: all goroutines are asleep" in err or "fatal error: concurrent map" in err or "fatal error: sync" in err:
        return res, "crash", err, missing
    raise CheckError("driver %s failed (rc %s):\n%s\n%s" % (driver, rc, o[-2000:], err[-6000:]))


def drive(binary, driver, scheds, shards=NCPU, **kw):
    """Executes schedules, returns (results by id, [(schedule, kind, stderr)])."""
    results, bad = {}, []
    shards = max(1, min(shards, (len(scheds) + 9) // 10))

    def one(part):
        res, problems = {}, []
        todo = part
        while todo:
            r, kind, err, missing = _drive_file(binary, driver, todo, **kw)
            res.update(r)
            if kind == "ok":
                break
            problems.append((missing, kind, err))
            if len(problems) >= 3:
                break
            i = next(i for i, s in enumerate(todo) if s["id"] == missing["id"])
            todo = todo[i + 1:]
        return res, problems

    with cf.ThreadPoolExecutor(shards) as ex:
        for res, problems in ex.map(one, [scheds[i::shards] for i in range(shards)]):
            results.update(res)
            bad += problems
    return results, bad


# ---------------------------------------------------------------------------------------------------------------------
# Verdicts

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        for f in glob.glob(os.path.join(ROOT, "evidence", "replays", prop + "-*.json")):
            os.unlink(f)
        self.mc = []
        self.gen = []
        self.states = self.transitions = 0
        self.validated = 0
        self.trace_states = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.acts = collections.Counter()
        self.corrupted = 0
        self.assumptions = []
        self.notes = {}
        self.findings = load_findings(prop)

    # -- pieces
    def model(self, module, name, constants, invariants, properties=(), **kw):
        m = model_check(module, name, constants, invariants, properties, **kw)
        m["module"] = module
        self.mc.append(m)
        self.states += m["states"]
        self.transitions += m["transitions"]

    def schedules(self, module, gens):
        """gens: list of dict(name, constants, walks=0, limit=None). Returns list of (constants, schedule)."""
        rnd = random.Random(SEED)

        def one(g):
            return g, generate(module, g["constants"], walks=g.get("walks", 0), depth=g.get("depth", 400),
                               seed=SEED * 1000 + g.get("seed", 0), timeout=g.get("timeout", 600))
        out = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for g, (sch, gen, dist) in ex.map(one, gens):
                if not sch:
                    raise CheckError("generator %s produced nothing" % g["name"])
                n0 = len(sch)
                sch = dedupe(sch)
                n1 = len(sch)
                must = g.get("must")  # only schedules with such an action are of interest
                if must:
                    sch = [x for x in sch if any(a["a"] in must for a in x)]
                lim = g.get("limit")
                if lim and len(sch) > lim:
                    sch = rnd.sample(sch, lim)
                self.gen.append(dict(module=module, config=g["name"], mode="walks" if g.get("walks") else "transitions",
                                     states=dist, printed=n0, distinct=n1, used=len(sch)))
                log("Gen %s/%s: %d printed, %d distinct, %d used" % (module, g["name"], n0, n1, len(sch)))
                out += [(g["constants"], s) for s in sch]
        return out

    def conform(self, module, driver, items, trace_constants, pkg=".", mode="bubble", watchdog=20, describe=None,
                real_fallback=True, corrupt=True, gomaxprocs="3", shards=NCPU, repro=100):
        """items: list of (constants, cfg, schedule). Executes them and lets TLC judge the traces."""
        binary = build(pkg)
        if driver in ("callee", "caller", "frame", "handshake", "keepalive", "values"):
            # some connections are the library's own wrapper around a net.Conn
            items = [(c, dict(cfg, net=i % 7 in (2, 5)), s) for i, (c, cfg, s) in enumerate(items)]
        scheds = [dict(id=i, cfg=c, acts=s) for i, (_, c, s) in enumerate(items)]
        t = time.time()
        results, bad = drive(binary, driver, scheds, mode=mode, watchdog=watchdog, gomaxprocs=gomaxprocs, shards=shards)
        log("driver %s: %d schedules executed, %d problems, %.1fs" % (driver, len(results), len(bad), time.time() - t))
        # group by trace constants
        groups = collections.OrderedDict()
        for i, (c, cfg, s) in enumerate(items):
            if i in results:
                tc = trace_constants(c, cfg)
                groups.setdefault(json.dumps({k: tla(v) if not isinstance(v, Sub) else v.s for k, v in tc.items()}, sort_keys=True), (tc, []))[1].append(i)
        t = time.time()
        rejected = []
        surprised = []
        nval = 0
        for key, (tc, idx) in groups.items():
            traces = [results[i] for i in idx]
            ncor = 0
            if corrupt:
                cor = corrupt_traces(traces, 4)
                ncor = len(cor)
                traces = traces + cor
            prog, st = validate(module, tc, traces)
            self.trace_states += st
            for j, i in enumerate(idx):
                n = len(results[i]["steps"])
                if n < len(items[i][2]):
                    if not results[i].get("panic"):
                        raise CheckError("driver recorded %d of %d steps" % (n, len(items[i][2])))
                    if prog[j] == n:
                        surprised.append(results[i]["panic"])
                        continue
                nval += 1
                for a in results[i]["steps"]:
                    self.acts[a["act"].get("a", "?")] += 1
                if prog[j] < n:
                    rejected.append((i, prog[j], tc))
            ok_of = {id(traces[j]): prog[j] == len(results[i]["steps"]) for j, i in enumerate(idx)}
            for j in range(ncor):
                if prog[len(idx) + j] == len(traces[len(idx) + j]["steps"]):
                    raise CheckError("a corrupted trace was accepted by " + module)
                self.corrupted += 1
        self.validated += nval - len(rejected)
        log("trace validation %s: %d traces, %d rejected, %.1fs" % (module, nval, len(rejected), time.time() - t))
        for i in list(results)[:1]:
            self.samples.append(dict(module=module, cfg=items[i][1], trace=results[i]["steps"][:6]))
        # crashes and hangs
        for s, kind, err in bad[:4]:
            self.problem(module, driver, binary, s, kind, err, items, trace_constants, mode, watchdog, real_fallback)
        # rejected traces
        rejected.sort(key=lambda x: (x[1], len(items[x[0]][2])))
        tried = 0
        for i, n, tc in rejected:
            if len(self.violations) >= 3 or tried >= 8:
                break
            sig = self.signature(module, items[i][1], results[i], n)
            k = self.match_finding(sig)
            if k:
                self.known.append(k)
                continue
            tried += 1
            self.reproduce(module, driver, binary, scheds[i], results[i], n, tc, mode, watchdog, gomaxprocs, repro)
        if surprised and not self.violations:
            raise CheckError("the driver panicked:\n" + surprised[0])
        return results

    def signature(self, module, cfg, res, n):
        """Identifies a failing history: module, configuration and environment actions up to the failing step."""
        steps = res["steps"][:n + 1]
        return dict(module=module, cfg=cfg, acts=[s["act"] for s in steps], obs=steps[-1]["obs"] if steps else None)

    def match_finding(self, sig):
        for f in self.findings:
            if f.get("module") == sig["module"] and f.get("match") and finding_matches(f["match"], sig):
                return f
        return None

    def reproduce(self, module, driver, binary, sched, res, n, tc, mode, watchdog, gomaxprocs, repro):
        cut = dict(sched, acts=sched["acts"][:n + 1])
        again = [dict(cut, id=j) for j in range(repro)]
        results, bad = drive(binary, driver, again, mode=mode, watchdog=watchdog, gomaxprocs=gomaxprocs)
        traces = [results[j] for j in sorted(results)]
        prog, _ = validate(module, tc, traces)
        rej = [j for j, p in enumerate(prog) if p < len(traces[j]["steps"])]
        if not rej and not bad and repro <= 100:
            # a race which is hard to hit
            return self.reproduce(module, driver, binary, sched, res, n, tc, mode, watchdog, "2" if gomaxprocs == "3" else gomaxprocs, 6 * repro)
        if not rej and not bad:
            log("a rejected trace could not be reproduced in %d runs; no verdict taken from it" % repro)
            self.notes.setdefault("unreproduced", []).append(dict(cfg=sched["cfg"], acts=cut["acts"], obs=res["steps"][n]["obs"]))
            return
        # shorten: the environment actions which do not matter
        best = traces[rej[0]] if rej else res
        why = "step %d is not allowed by the specification (reproduced in %d of %d runs)" % (n + 1, len(rej), len(traces))
        self.violation(module, driver, dict(cfg=sched["cfg"], steps=best["steps"][:n + 1], matched=n), why, tc, mode)

    def problem(self, module, driver, binary, sched, kind, err, items, trace_constants, mode, watchdog, real_fallback):
        """A driver process died or hung in schedule sched."""
        rep = 0
        for j in range(3):
            r, k, e, _ = _drive_file(binary, driver, [sched], mode=mode, watchdog=watchdog)
            if k == kind:
                rep += 1
                err = e
        log("%s of the driver: reproduced %d of 3" % (kind, rep))
        if kind == "crash":
            if rep == 0:
                # a crash is a crash, if it happened inside the code under test
                for j in range(30):
                    r, k, e, _ = _drive_file(binary, driver, [sched], mode=mode, watchdog=watchdog)
                    if k == kind:
                        rep, err = 1, e
                        break
            if rep == 0 and ("out of memory" in err or "cannot allocate" in err):
                raise CheckError("unreproduced crash of the driver:\n" + err[-5000:])
            # otherwise the process has crashed, even if it rarely does
            head = err[err.find("panic:"):] if "panic:" in err else err[max(err.find("fatal error:"), 0):]
            first = re.search(r"^goroutine .*?(?=^goroutine |\Z)", head, re.S | re.M)
            frames = re.findall(r"^([\w./*()\[\]-]+)\(.*\n\t(/\S+):\d+", first.group(0) if first else "", re.M)
            # whose code was executed: the first frame outside of the Go runtime and library
            frames = [f for f in frames if "/go1.2" not in f[1] and "/usr/" not in f[1]]
            if not frames or frames[0][1].startswith(HARNESS):
                raise CheckError("driver crashed outside the code under test:\n" + err[-5000:])
            self.violation(module, driver, dict(cfg=sched["cfg"], acts=sched["acts"]),
                           "the process crashed: " + head[:1500], None, mode)
            return
        # hang
        if rep == 0:
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for r, k, e, _ in ex.map(lambda j: _drive_file(binary, driver, [sched], mode=mode, watchdog=watchdog), range(4 * NCPU)):
                    if k == kind:
                        rep, err = rep + 1, e
        if rep == 0:
            raise CheckError("unreproduced hang of the driver:\n" + err[-5000:])
        if real_fallback and mode == "bubble":
            # mutexes are invisible to the bubble: decide in real time
            r, k, e, _ = _drive_file(binary, driver, [sched], mode="real", watchdog=120)
            if k == "ok":
                i = sched["id"]
                c, cfg, _s = items[i]
                tc = trace_constants(c, cfg)
                prog, _ = validate(module, tc, [r[i]])
                if prog[0] == len(r[i]["steps"]):
                    self.validated += 1
                    return
                n = prog[0]
                self.violation(module, driver, dict(cfg=cfg, steps=r[i]["steps"][:n + 1], matched=n),
                               "step %d is not allowed by the specification (real time run)" % (n + 1), tc, "real")
                return
            err = e or err
        self.violation(module, driver, dict(cfg=sched["cfg"], acts=sched["acts"]),
                       "the code under test hangs: " + err[:3000], None, mode)

    def violation(self, module, driver, what, why, tc, mode):
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, module, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, module=module, driver=driver, mode=mode, why=why,
                           constants={k: tla(v) if not isinstance(v, Sub) else "<- " + v.s for k, v in (tc or {}).items()}, **what), f, indent=1)
        self.violations.append((path, why))
        log("VIOLATION candidate confirmed:", why.splitlines()[0][:300])

    # -- end
    def finish(self):
        for f in {json.dumps(k): k for k in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, wall_s=round(time.time() - T0, 1),
                  violations=len(self.violations), assumptions=self.assumptions,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, samples=self.samples[:4] or ["none"],
                                model_checking=self.mc, schedule_generation=self.gen,
                                trace_validation_states=self.trace_states,
                                environment_actions_executed=dict(self.acts),
                                corrupted_traces_rejected=self.corrupted, **self.notes))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, why in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        log("done: %s" % ("VIOLATED" if self.violations else "held on everything explored"))
        return 1 if self.violations else 0


def corrupt_traces(traces, n):
    """Copies of traces in which one recorded observation is altered."""
    rnd = random.Random(SEED + 7)
    res = []
    cand = [t for t in traces if t["steps"]]
    for t in rnd.sample(cand, min(n, len(cand))):
        c = json.loads(json.dumps(dict(cfg=t.get("cfg", {}), steps=t["steps"])))
        if corrupt_obs(c["steps"][-1]["obs"], rnd):
            res.append(c)
    return res


def corrupt_obs(o, rnd):
    """Adds an event to some list of strings inside o."""
    lists = []

    def walk(x):
        if isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if all(isinstance(v, str) for v in x):
                lists.append(x)
            for v in x:
                walk(v)
    walk(o)
    if not lists:
        return False
    rnd.choice(lists).append("corrupted")
    return True


def load_findings(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                f = json.loads(line)
                if f.get("property") == prop and f.get("status") == "open":
                    res.append(f)
    return res


def finding_matches(m, sig):
    """m: dict(cfg={subset}, acts=[exact environment actions]) identifies one history."""
    for k, v in m.get("cfg", {}).items():
        if sig["cfg"].get(k) != v:
            return False
    return sig["acts"] == m.get("acts")


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        if c.violations:  # what was established stays established
            c.finish()
            rc = 1
        else:
            rc = 2
    _cleanup()
    sys.stdout.flush()
    os._exit(rc)
