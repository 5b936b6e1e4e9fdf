"""Shared machinery of all checks: incremental build of harnesses from /repo, TLC runs,
behaviour execution, trace validation, evidence."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JOBS = min(8, os.cpu_count() or 4)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------- build
CXX = "g++"
CXXFLAGS = ("-std=gnu++20 -O1 -g1 -march=x86-64-v3 -fno-math-errno -fno-trapping-math "
            "-fno-signed-zeros -fno-signaling-nans -fopenmp -DNDEBUG -w -fPIC "
            "-fsanitize=address -fno-omit-frame-pointer").split()
INCS = ["-I" + os.path.join(REPO, "include"), "-isystem", REPO,
        "-isystem", "/usr/include/hdf5/serial"]
LIBS = ("-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -llapacke "
        "/usr/lib/x86_64-linux-gnu/libopenblas.so "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lm "
        "/usr/lib/x86_64-linux-gnu/libpugixml.so "
        "/usr/lib/x86_64-linux-gnu/libgmsh.so -lpthread -ldl").split()


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


class Builder:
    """Content-hash based incremental build into /verif/build."""

    def __init__(self):
        self.objdir = os.path.join(BUILD, "obj")
        os.makedirs(self.objdir, exist_ok=True)
        self.cache = {}
        self.inc = list(INCS)
        if not os.path.exists(os.path.join(REPO, "include/um2/config.hpp")):
            self.gen_config()

    def gen_config(self):
        gen = os.path.join(BUILD, "gen")
        os.makedirs(os.path.join(gen, "um2"), exist_ok=True)
        on = {"UM2_ENABLE_ASSERTS", "UM2_ENABLE_FLOAT64", "UM2_ENABLE_SIMD_VEC", "UM2_USE_BLAS_LAPACK",
              "UM2_USE_GMSH", "UM2_USE_HDF5", "UM2_USE_OPENMP", "UM2_USE_PUGIXML",
              "UM2_ENABLE_BMI2", "UM2_HAS_BMI2"}
        txt = []
        for line in open(os.path.join(REPO, "cmake/config.hpp.in")):
            m = re.match(r"#\s*cmakedefine01\s+(\w+)", line)
            if m:
                line = "#define %s %d\n" % (m.group(1), m.group(1) in on)
            m = re.match(r"#\s*cmakedefine\s+(\w+)(.*)", line)
            if m:
                line = "#define %s%s\n" % (m.group(1), m.group(2)) if m.group(1) in on else "\n"
            line = line.replace("@UM2_MAX_LOG_LEVEL@", "4").replace("@MPACT_DATA@", "")
            txt.append(line)
        txt = "".join(txt)
        p = os.path.join(gen, "um2/config.hpp")
        if not os.path.exists(p) or open(p).read() != txt:
            open(p, "w").write(txt)
        self.inc = ["-I" + gen] + self.inc

    def sha(self, p):
        if p not in self.cache:
            try:
                self.cache[p] = _sha(p)
            except OSError:
                self.cache[p] = None
        return self.cache[p]

    def compile(self, src, extra=()):
        flags = CXXFLAGS + self.inc + list(extra)
        name = hashlib.sha256((src + " ".join(flags)).encode()).hexdigest()[:16]
        obj = os.path.join(self.objdir, name + ".o")
        meta = obj + ".json"
        try:
            deps = json.load(open(meta))
            if os.path.exists(obj) and all(self.sha(d) == h for d, h in deps.items()):
                return obj, False
        except (OSError, ValueError):
            pass
        dep = obj + ".d"
        r = subprocess.run([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (src, r.stderr[-4000:]))
        text = open(dep).read().replace("\\\n", " ")
        files = [f for f in text.split(":", 1)[1].split() if not f.startswith("/usr/")]
        json.dump({f: self.sha(f) for f in files}, open(meta, "w"))
        return obj, True

    def lib_sources(self):
        out = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
        return sorted(out)

    def build(self, harnesses):
        """harnesses: list of (name, needs_lib).  Returns {name: executable}."""
        srcs = []
        if any(l for _, l in harnesses):
            srcs += self.lib_sources()
        hsrc = {n: os.path.join(HARNESS, n + ".cpp") for n, _ in harnesses}
        todo = srcs + list(hsrc.values())
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = dict(zip(todo, ex.map(lambda s: self.compile(s), todo)))
        lib = [res[s][0] for s in srcs]
        exes = {}
        for n, needs in harnesses:
            objs = [res[hsrc[n]][0]] + (lib if needs else [])
            key = hashlib.sha256("".join(self.sha_obj(o) for o in objs).encode()).hexdigest()
            exe = os.path.join(BUILD, "bin", n)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            kf = exe + ".key"
            if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
                r = subprocess.run([CXX, "-fsanitize=address", "-fopenmp", "-o", exe] + objs +
                                   (LIBS if needs else []), capture_output=True, text=True)
                if r.returncode:
                    raise CheckError("link failed: %s\n%s" % (n, r.stderr[-4000:]))
                open(kf, "w").write(key)
            exes[n] = exe
        return exes

    def sha_obj(self, o):
        return _sha(o)


def build(harnesses):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return Builder().build(harnesses)


# --------------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(os.path.join(BUILD, "scratch"), exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(BUILD, "scratch"))
    return _scratch


def cleanup():
    if _scratch and _scratch.startswith(os.path.join(BUILD, "scratch", "run-")):
        shutil.rmtree(_scratch, ignore_errors=True)


# --------------------------------------------------------------------------- TLC
def tlc(spec, cfg, env=None, args=(), timeout=800, workers="1", heap="3g"):
    """Run TLC in a private metadir; returns (rc, output)."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
           "-config", cfg, *args, spec]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout on %s/%s" % (spec, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][1]), int(m[-1][0])


def model_check(spec, cfg, workers=None, timeout=800, args=()):
    """Exhaustive check of the specification itself.  A failure is an error of the check."""
    rc, out = tlc(spec, cfg, workers=workers or "4", timeout=timeout, args=args)
    if rc != 0:
        raise CheckError("specification %s/%s does not satisfy its own invariants:\n%s"
                         % (spec, cfg, out[-3000:]))
    d, g = tlc_stats(out)
    if d < 2:
        raise CheckError("vacuous model check %s/%s\n%s" % (spec, cfg, out[-2000:]))
    return d, g, out


def gen_behaviours(spec, cfg, seed=None, num=None, depth=None, env=None, timeout=600, workers="4"):
    """Behaviours printed by the specification: lines  BEHAVIOUR <json list of ops>."""
    args = []
    if num:
        args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
        workers = "1"
    rc, out = tlc(spec, cfg, env=env, args=args, timeout=timeout, workers=workers)
    if rc not in (0,):
        raise CheckError("behaviour generation failed %s/%s:\n%s" % (spec, cfg, out[-3000:]))
    bs = []
    for line in out.splitlines():
        i = line.find("BEHAVIOUR ")
        if i >= 0:
            s = line[i + 10:].strip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            bs.append(json.loads(s))
    d, g = tlc_stats(out)
    return bs, d, g


# --------------------------------------------------------------------------- harness
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
        "malloc_fill_byte=190:max_malloc_fill_size=1048576:detect_odr_violation=0:"
        "handle_segv=1:allow_user_segv_handler=0:alloc_dealloc_mismatch=0:symbolize=0")


def _run_one(exe, text, timeout, tag, env):
    sc = scratch()
    d = tempfile.mkdtemp(prefix="h%s-" % tag, dir=sc)
    inp, outp = os.path.join(d, "in.txt"), os.path.join(d, "out.txt")
    open(inp, "w").write(text)
    e = dict(os.environ)
    e.update(ASAN_OPTIONS=ASAN, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=d)
    e.update(env or {})
    try:
        r = subprocess.run([exe, inp, outp], cwd=d, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("harness timeout: %s" % exe)
    if r.returncode != 0:
        raise CheckError("harness driver failed (%d): %s\n%s"
                         % (r.returncode, exe, r.stdout[-2000:].decode("latin1")))
    out = open(outp, encoding="latin1").read() if os.path.exists(outp) else ""
    shutil.rmtree(d, ignore_errors=True)
    return out


def execute(exe, behaviours, encode, timeout=600, shards=None, env=None):
    """Run behaviours (lists of op dicts) on the real code.

    Returns a list of lists of {"op":..., "out":...}; a behaviour that ended early gets one
    event whose out is {"crash": reason}."""
    n = len(behaviours)
    if n == 0:
        return []
    shards = min(shards or JOBS, n)
    parts = [range(i, n, shards) for i in range(shards)]

    def job(si):
        text = []
        for b in parts[si]:
            text.append("#B %d" % b)
            for op in behaviours[b]:
                text.append(encode(op))
        return _run_one(exe, "\n".join(text) + "\n#E\n", timeout, si, env)

    with cf.ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(job, range(shards)))
    res = {b: {} for b in range(n)}
    crash = {}
    left = set()
    for o in outs:
        for line in o.splitlines():
            if not line:
                continue
            b, i, js = line.split(" ", 2)
            if i == "S":
                left.add(int(b))
            elif i == "C":
                crash[int(b)] = js
            else:
                try:
                    res[int(b)][int(i)] = json.loads(js)
                except ValueError:
                    raise CheckError("bad harness output: %s" % line[:300])
    traces = []
    for b in range(n):
        t = []
        for i, op in enumerate(behaviours[b] if b not in left else []):
            if i in res[b]:
                t.append({"op": op, "out": res[b][i]})
            else:
                t.append({"op": op, "out": {"crash": crash.get(b, "no output")}})
                break
        traces.append(t)
    return traces


# --------------------------------------------------------------------------- traces
def _validate(spec, cfg, traces, env, timeout):
    """One TLC run over concatenated traces.  Returns number of accepted events, total, out."""
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=scratch(), delete=False)
    total = 0
    for b, t in traces:
        f.write(json.dumps({"b": b, "op": {"k": "reset"}, "out": {}}) + "\n")
        total += 1
        for ev in t:
            f.write(json.dumps({"b": b, "op": ev["op"], "out": ev["out"]}) + "\n")
            total += 1
    f.close()
    e = {"TRACE": f.name}
    e.update(env or {})
    rc, out = tlc(spec, cfg, env=e, timeout=timeout)
    os.unlink(f.name)
    m = re.search(r'"DIAMETER", (\d+), (\d+)', out)
    if not m and "The behavior up to this point is" in out:
        # the recorded value could not even be evaluated by the specification: not a step
        n = max(int(x) for x in re.findall(r"^State (\d+):", out, re.M))
        return n - 1, total, out
    if not m:
        raise CheckError("trace validation did not complete %s/%s (rc %d):\n%s"
                         % (spec, cfg, rc, out[-3500:]))
    acc, ln = int(m.group(1)), int(m.group(2))
    if ln != total:
        raise CheckError("trace length mismatch %d %d" % (ln, total))
    if rc != 0 and acc == total:
        raise CheckError("TLC error on accepted trace:\n" + out[-3000:])
    return acc, total, out


def validate(spec, cfg, traces, env=None, timeout=800, shards=None):
    """Returns (bad_behaviour_indices, events).  Bad: the first rejected one of each shard."""
    n = len(traces)
    if n == 0:
        return [], 0
    ev = sum(len(t) for t in traces)
    shards = max(1, min(shards or 6, n, ev // 300 + 1))
    parts = [[] for _ in range(shards)]
    load = [0] * shards
    for i in range(n):          # balance by events
        j = load.index(min(load))
        parts[j].append(i)
        load[j] += len(traces[i]) + 1

    def job(p):
        return _validate(spec, cfg, [(i, traces[i]) for i in p], env, timeout)

    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(job, parts))
    bad = []
    for p, (acc, total, out) in zip(parts, rs):
        if acc < total:
            k = acc
            for i in p:
                if k < len(traces[i]) + 1:
                    bad.append((i, k - 1))      # index of the rejected event in the behaviour
                    break
                k -= len(traces[i]) + 1
    return bad, ev


def merge(recs):
    """From transitions: per reachable state one behaviour with all calls without effect, and one per effect."""
    by = {}
    for r in recs:
        h = r["h"]
        by.setdefault(json.dumps(h[:-1]), [[], []])[0 if r["loop"] else 1].append(h[-1])
    out = []
    for k, (loops, moves) in by.items():
        h = json.loads(k)
        if loops:
            out.append(h + loops)
        out += [h + [m] for m in moves]
    return out


# --------------------------------------------------------------------------- the check
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.known = load_known(pid)
        self.known_hit = []
        self.rng = random.Random("%s/%d" % (pid, SEED))
        self.quick = TIER != "thorough"

    def build(self, *h):
        return build(list(h))

    def model(self, spec, cfg, **kw):
        d, g, out = model_check(spec, cfg, **kw)
        self.states += d
        self.transitions += g
        log("model %s/%s: %d states, %d transitions" % (spec, cfg, d, g))

    def generate(self, spec, cfg, **kw):
        bs, d, g = gen_behaviours(spec, cfg, **kw)
        if not bs:
            raise CheckError("no behaviours from %s/%s" % (spec, cfg))
        self.states += d
        self.transitions += g
        bs.sort(key=lambda b: json.dumps(b))     # the order TLC prints them in is not fixed
        log("generated %d behaviours from %s/%s" % (len(bs), spec, cfg))
        return bs

    def conform(self, exe, encode, behaviours, spec, cfg, env=None, name="", project=None,
                corrupt=None, henv=None, timeout=800, shards=None, hshards=None, minimise=True):
        """Execute behaviours, validate the recorded traces, report repeated rejections."""
        def run(bs, sh=None):
            tr = execute(exe, bs, encode, env=henv, shards=hshards if sh is None else sh)
            if project:
                tr = [[{"op": e["op"], "out": e["out"] if "crash" in e["out"] else project(e["op"], e["out"])}
                       for e in t] for t in tr]
            return tr
        if self.violations and time.time() - self.t0 > 300:
            log("conformance %s: left out after a violation" % (name or spec))
            return []
        traces = run(behaviours)
        bad, ev = validate(spec, cfg, traces, env, timeout, shards)
        self.traces += len(behaviours)
        self.events += ev
        for i in (0, len(behaviours) // 2, len(behaviours) - 1):
            if len(self.samples) < 12 and behaviours:
                self.samples.append({"behaviour": name or spec, "events": len(traces[i]),
                                     "first": short(traces[i][:2]), "last": short(traces[i][-1:])})
        log("conformance %s: %d behaviours, %d events, %d rejected" % (name or spec, len(behaviours), ev, len(bad)))
        hung = [x for x in bad if any("signal 14" in e["out"].get("crash", "") for e in traces[x[0]])]
        if hung:
            bad = [x for x in bad if x not in hung] or hung[:1]
        for i, k in bad:
            b2 = [behaviours[i]]
            if minimise and k >= 0:
                b2 = [behaviours[i][:k + 1]]
            t2 = run(b2, 1)
            bad2, _ = validate(spec, cfg, t2, env, timeout)
            if not bad2:                         # try the untruncated behaviour
                b2 = [behaviours[i]]
                t2 = run(b2, 1)
                bad2, _ = validate(spec, cfg, t2, env, timeout)
            if not bad2:
                raise CheckError("rejection of behaviour %d (%s) did not repeat" % (i, name))
            k2 = bad2[0][1]
            e2 = dict(env or {})
            e2["VDEBUG"] = "1"
            _, _, dbg = _validate(spec, cfg, [(0, t2[0])], e2, timeout)
            exp = [re.sub(r"\s+", " ", x)[:1500] for x in
                   re.findall(r'<<\s*"EXPECT".*?>>(?=\n(?:[^ >\n]|$))', dbg, re.S)]
            self.violate({"check": name or spec, "spec": spec, "cfg": cfg,
                          "behaviour": b2[0], "rejected_event": k2,
                          "event": t2[0][max(k2, 0)], "trace": t2[0],
                          "expected": exp[-6:]})
        if corrupt and traces and not bad:
            self.selftest(spec, cfg, traces, corrupt, env, timeout)
        return traces

    def selftest(self, spec, cfg, traces, corrupt, env, timeout):
        """Binding: a corrupted recorded value must be rejected."""
        order = list(range(len(traces)))
        self.rng.shuffle(order)
        for i in order:
            t = json.loads(json.dumps(traces[i]))
            if corrupt(t, self.rng):
                bad, _ = validate(spec, cfg, [t], env, timeout)
                if not bad:
                    raise CheckError("binding self-test: corrupted trace was accepted (%s)" % spec)
                self.extra["binding_selftests"] = self.extra.get("binding_selftests", 0) + 1
                return
        raise CheckError("binding self-test: no behaviour could be corrupted (%s)" % spec)

    def scenario(self, key, ok, what):
        """A separately judged scenario: known finding if listed, else violation."""
        if ok:
            return
        if key in self.known:
            self.known_hit.append((key, self.known[key]))
        else:
            self.violate({"check": "scenario " + key, "what": what})

    def known_conform(self, key, exe, encode, behaviour, spec, cfg, env=None, project=None, henv=None):
        tr = execute(exe, [behaviour], encode, env=henv)
        if project:
            tr = [[{"op": e["op"], "out": e["out"] if "crash" in e["out"] else project(e["op"], e["out"])}
                   for e in t] for t in tr]
        bad, _ = validate(spec, cfg, tr, env)
        self.traces += 1
        self.events += len(tr[0])
        self.scenario(key, not bad, {"behaviour": behaviour, "trace": tr[0], "rejected": bad})

    def violate(self, info):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.json" % (self.pid, SEED, len(self.violations)))
        json.dump(dict(property=self.pid, seed=SEED, tier=TIER, **info), open(p, "w"), indent=1)
        self.violations.append(p)
        log("rejected:", json.dumps(short(info.get("event", info)))[:600])
        for x in info.get("expected", [])[:4]:
            log("   ", x[:600])
        log("VIOLATION property=%s replay=%s" % (self.pid, p))

    def finish(self, level="model_checking", assumptions=()):
        for key, text in self.known_hit:
            log("KNOWN-FINDING: property=%s %s: %s" % (self.pid, key, text))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": list(assumptions), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: %s (%d behaviours, %d events, %.1f s)" % (
            self.pid, "VIOLATED" if self.violations else "held", self.traces, self.events,
            time.time() - self.t0))
        return 1 if self.violations else 0


def short(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def flat(x):
    """Space-separated encoding of nested lists with leading lengths."""
    if isinstance(x, (list, tuple)):
        return " ".join([str(len(x))] + [flat(y) for y in x])
    if isinstance(x, bool):
        return "1" if x else "0"
    return str(x)


def main(pid, fn):
    c = Check(pid)
    rc = 2
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        log("ERROR in check %s: %s" % (pid, e))
        rc = 1 if c.violations else 2
    finally:
        cleanup()
    return rc
