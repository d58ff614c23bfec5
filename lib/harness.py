"""Machinery shared by all checks: building drivers from /repo, running TLC, replaying
TLC-enumerated transitions into the real code, validating recorded traces with TLC, and
writing evidence.  No expected value is computed here: every expectation comes from TLC."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.environ.get("VERIF_CXX", "g++")
BASEFLAGS = ["-std=gnu++20", "-w", "-O1", "-fno-var-tracking", "-DSTRICT_ERROR_EXCEPTIONS", "-I" + REPO]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not run (never reported as a violation)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "780" if self.quick else "3300"))
        self.dir = tempfile.mkdtemp(prefix="sppv-%s-" % prop, dir="/tmp")
        atexit.register(shutil.rmtree, self.dir, True)
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.viol = []          # (summary, replay record)
        self.known = []         # KNOWN-FINDING lines printed
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.ops = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.n = 0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def count(self, key, d=1):
        with self.lock:
            if key in self.cov and isinstance(self.cov[key], int):
                self.cov[key] += d
            else:
                self.extra[key] = self.extra.get(key, 0) + d

    def op(self, name, d=1):
        with self.lock:
            self.ops[name] = self.ops.get(name, 0) + d

    def sample(self, x, limit=12):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(x)

    def violation(self, summary, record):
        with self.lock:
            if len(self.viol) < 50:
                self.viol.append((summary, record))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)


# ---------------------------------------------------------------- building
def compile_cmd(src, out, defs=(), flags=(), san=True, std=None, cxx=None):
    base = [f for f in BASEFLAGS]
    if cxx and "clang" in cxx:
        base.remove("-fno-var-tracking")
    if std:
        base[0] = "-std=" + std
    return [cxx or CXX] + base + (SAN if san else []) + list(flags) + ["-D" + d for d in defs] + \
           ["-I" + os.path.join(VERIF, "drivers"), src, "-o", out]


def run(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)
    except subprocess.TimeoutExpired as e:
        class R:
            returncode = 124
            stdout = e.stdout or b""
            stderr = (e.stderr or b"") + b"\n[timeout]"
        return R()


def sanity(ctx):
    """The bare header has to compile; otherwise no check can say anything."""
    src = ctx.path("sanity.cpp")
    open(src, "w").write("#include <strictpp/strict.hpp>\nint main(){ spp::Array1D<int> a(2); return a.size().val() == 2 ? 0 : 1; }\n")
    r = run(compile_cmd(src, src + ".bin", san=False))
    if r.returncode != 0:
        raise CheckError("strictpp/strict.hpp does not compile at all:\n" + r.stderr.decode(errors="replace")[:2000])


def build(ctx, jobs):
    """jobs: {name: (source, defs, flags)}; returns {name: binary}. A driver that no longer
    compiles although the header does means that part of the public interface disappeared."""
    out = {}

    def one(item):
        name, job = item
        src, defs, flags = (list(job) + [(), ()])[:3]
        san = "nosan" not in flags
        flags = [f for f in flags if f != "nosan"]
        path = ctx.path(name)
        if not os.path.isabs(src):
            src = os.path.join(VERIF, "drivers", src)
        cxx = None
        for f in list(flags):
            if f.startswith("cxx="):
                cxx = f[4:]
                flags.remove(f)
        link = [f for f in flags if f.startswith("-l")]
        flags = [f for f in flags if not f.startswith("-l")]
        cmd = compile_cmd(src, path, defs, flags, san, cxx=cxx) + link
        r = run(cmd, timeout=600)
        return name, path, r, cmd

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for name, path, r, cmd in ex.map(one, jobs.items()):
            if r.returncode != 0:
                sanity(ctx)
                if r.returncode == 124 or b"internal compiler error" in r.stderr or b"Killed" in r.stderr or b"virtual memory" in r.stderr:
                    raise CheckError("compiler failed on %s: %s" % (name, r.stderr[-500:].decode(errors="replace")))
                msg = r.stderr.decode(errors="replace")
                errs = "\n".join(l for l in msg.splitlines() if "error" in l)[:1500]
                ctx.violation("program using the public interface no longer compiles: %s" % name,
                              dict(kind="compile", driver=name, command=cmd, errors=errs or msg[-1500:]))
            else:
                out[name] = path
    ctx.count("driver_builds", len(out))
    return out


# ---------------------------------------------------------------- drivers
def observation(line):
    r = json.loads(line)
    if "o" in r and not isinstance(r["o"], dict):  # a remark of the driver: no outcome of any specification
        r["o"] = dict(k="odd", v=[r["o"]])
    return r


def acceptable(obs):
    return not obs.get("crash") and obs["o"].get("k") != "odd"


HANGS = 0


def ended(rc, e):
    """How a driver process ended; SIGPROF means that a request used up its processor time."""
    global HANGS
    if rc != -signal.SIGPROF:
        return "exit %s: %s" % (rc, crash_summary(e))
    HANGS += 1
    if HANGS > 3:
        ENV["REQUEST_SECONDS"] = "2"       # found already: the others need not be waited for as long
    return "the request does not terminate"


class Driver:
    """An interactive driver process."""

    def __init__(self, path, timeout=120):
        self.path, self.timeout = path, timeout
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=ENV, bufsize=0)
        self.buf = b""

    def send(self, obj):
        import select
        line = json.dumps(obj, separators=(",", ":")).encode() + b"\n"
        try:
            self.p.stdin.write(line)
        except BrokenPipeError:
            return self.dead()
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.p.kill()
                return dict(crash="no answer within %ds" % self.timeout)
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                return self.dead()
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return observation(l)

    def dead(self):
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode(errors="replace")
        return dict(crash=ended(rc, e))

    def close(self):
        """Returns a crash summary if the process does not end cleanly (leaks included)."""
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            return "does not end"
        if rc != 0:
            self.err.seek(0)
            return ended(rc, self.err.read().decode(errors="replace"))
        return None


def crash_summary(e):
    for pat in (r"SUMMARY: .*", r"runtime error: .*", r"terminate called.*", r".*Assertion.*"):
        m = re.search(pat, e)
        if m:
            return m.group(0)[:300]
    return e.strip()[-300:]


def batch(path, lines, timeout):
    """Feeds all lines to a driver; returns list of answers, continuing after crashes."""
    res = []
    k = 0
    start = time.time()
    crashes = 0
    while k < len(lines):
        data = ("\n".join(lines[k:]) + "\n").encode()
        p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        try:
            o, e = p.communicate(data, timeout=max(5, min(timeout - (time.time() - start), timeout)))
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            hung = True
        got = o.decode(errors="replace").split("\n")
        if got and got[-1] == "":
            got.pop()
        else:
            got = got[:-1]
        res += got
        k += len(got)
        if k < len(lines):
            crashes += 1
            if hung and len(got) and time.time() - start >= timeout - 1:
                raise CheckError("replay ran out of time")
            msg = "no answer" if hung else ended(p.returncode, e.decode(errors="replace"))
            res.append(json.dumps(dict(crash=msg)))
            k += 1
            if crashes > 20:
                res += [json.dumps(dict(skipped=True))] * (len(lines) - k)
                break
        elif p.returncode != 0:
            return res, ended(p.returncode, e.decode(errors="replace"))
    return res, None


def jcanon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def replay(ctx, path, vectors, label, judge=None, variants=1, timeout=400, sample=True):
    """vectors: list of dicts s,c,o,t from TLC. Each is executed on the real code from the state
    s; observed o,t must be the expected ones (or satisfy judge(vec, obs))."""
    if not vectors:
        return 0
    nproc = NCPU if len(vectors) > 200 else 1
    chunks = [vectors[i::nproc] for i in range(nproc)]

    def one(ch):
        lines = []
        for q, v in enumerate(ch):
            c = dict(v["c"])
            if variants > 1:
                c["w"] = int(hashlib.md5(("%d %d %s" % (ctx.seed, q, label)).encode()).hexdigest()[:4], 16) % variants
            lines.append(json.dumps({"s": v["s"], "c": c}, separators=(",", ":")) if "s" in v else json.dumps({"c": c}, separators=(",", ":")))
        res, end = batch(path, lines, timeout)
        return ch, lines, res, end

    bad = 0
    with cf.ThreadPoolExecutor(nproc) as ex:
        for ch, lines, res, end in ex.map(one, chunks):
            for v, line, r in zip(ch, lines, res):
                obs = observation(r)
                if "skipped" in obs:
                    continue
                if "fatal" in obs:
                    raise CheckError("driver %s: %s on %s" % (label, obs["fatal"], line))
                good = acceptable(obs) and (judge(v, obs) if judge else (obs["o"] == v["o"] and ("t" not in v or obs["t"] == v["t"])))
                if not good and bad >= 25:
                    bad += 1
                elif not good:
                    r2, _ = batch(path, [line], 60)
                    obs2 = observation(r2[0])
                    good2 = acceptable(obs2) and (judge(v, obs2) if judge else (obs2["o"] == v["o"] and ("t" not in v or obs2["t"] == v["t"])))
                    if good2:
                        ctx.count("not_reproduced")
                        continue
                    bad += 1
                    ctx.violation("%s: %s expected %s observed %s" % (label, jcanon(v["c"])[:300], jcanon({k: v[k] for k in ("o", "t") if k in v})[:300], jcanon(obs2)[:300]),
                                  dict(kind="transition", driver=label, input=line, expected={k: v[k] for k in ("o", "t") if k in v}, observed=obs2))
            if end:
                # the process ended badly after the last answer (a leak, for instance): find out whether it repeats
                _, end2 = batch(path, lines, timeout)
                if end2:
                    bad += 1
                    ctx.violation("%s: %s" % (label, end2), dict(kind="process-end", driver=label, message=end2, inputs=lines[:50]))
    ctx.count("transitions_replayed_into_impl", len(vectors))
    return bad


# ---------------------------------------------------------------- TLC
def tlc_run(ctx, module_text, cfg_text, name, workers=NCPU, timeout=None, env=None, simulate=None, heap="4g"):
    d = ctx.path(name)
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    m = re.search(r"MODULE\s+(\w+)", module_text)
    mod = m.group(1)
    open(os.path.join(d, mod + ".tla"), "w").write(module_text)
    open(os.path.join(d, mod + ".cfg"), "w").write(cfg_text)
    cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-lncheck", "final", "-metadir", os.path.join(d, "meta"), "-config", mod + ".cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(ctx.seed)]
    cmd.append(mod + ".tla")
    outp = os.path.join(d, "out.txt")
    e = dict(ENV)
    e.update(env or {})
    with open(outp, "wb") as f:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout or max(30, ctx.left()), env=e)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 124
    vec, txt = [], []
    with open(outp, errors="replace") as f:
        for l in f:
            if l.startswith('"@'):
                vec.append(json.loads(json.loads(l)[1:]))
            else:
                txt.append(l)
    txt = "".join(txt)
    st = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    stats = dict(generated=int(st.group(1).replace(",", "")) if st else 0, distinct=int(st.group(2).replace(",", "")) if st else 0,
                 depth=int((re.search(r"depth of the complete state graph search is (\d+)", txt) or [0, 0])[1]))
    shutil.rmtree(os.path.join(d, "meta"), True)
    os.unlink(outp)
    return rc, vec, txt, stats


def tlc_errors(txt):
    k = txt.find("Error:")
    return txt[k:k + 3000] if k >= 0 else txt[-1500:]


def enumerate_spec(ctx, spec, constants, invariants=(), properties=(), name=None, emit="[s |-> s, c |-> last'.c, o |-> last'.o, t |-> s']", extra="", constraint=None, timeout=None):
    """Exhaustive exploration of spec with TLC; every transition is printed and returned."""
    mod = "MC_" + spec
    text = "---- MODULE %s ----\nEXTENDS %s, Json\nEmitted == %s\nEmit == PrintT(\"@\" \\o ToJson(Emitted))\n%s\n====\n" % (mod, spec, emit, extra)
    cfg = ["SPECIFICATION Spec", "VIEW View", "ACTION_CONSTRAINT Emit", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    cfg += ["  %s %s %s" % (k, "<-" if str(v).startswith("<-") else "=", str(v).replace("<-", "")) for k, v in constants.items()]
    cfg += ["INVARIANT " + i for i in invariants] + ["PROPERTY " + p for p in properties]
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    rc, vec, txt, st = tlc_run(ctx, text, "\n".join(cfg) + "\n", name or mod, timeout=timeout)
    if rc != 0:
        raise CheckError("TLC on %s ended with %s:\n%s" % (spec, rc, tlc_errors(txt)))
    ctx.count("states", st["distinct"])
    ctx.count("transitions", st["generated"])
    return vec


def evaluate(ctx, spec, expr, inputs, constants=None, extra="", timeout=None, chunk=400, variables=()):
    """Oracle queries: TLC evaluates the operator expr of spec on every (JSON) input."""
    if not inputs:
        return []
    nproc = min(NCPU, max(1, len(inputs) // chunk))
    idx = list(range(len(inputs)))
    packs = [idx[i::nproc] for i in range(nproc)]
    mod = "Ev_" + spec
    if variables:  # TLC wants a behaviour when the module has variables
        extra += "\nEvInit == " + " /\\ ".join(v + " = 0" for v in variables) + "\nEvNext == FALSE /\\ UNCHANGED <<" + ", ".join(variables) + ">>"
    text = """---- MODULE %s ----
EXTENDS %s, Json, IOUtils
EvIn == ndJsonDeserialize(IOEnv.EVIN)
%s
ASSUME \\A evk \\in 1..Len(EvIn) : PrintT("@" \\o ToJson([k |-> evk, r |-> %s(EvIn[evk].x)]))
====
""" % (mod, spec, extra, expr)
    cfg = ("INIT EvInit\nNEXT EvNext\n" if variables else "") + ("CONSTANTS\n" + "\n".join("  %s %s %s" % (k, "<-" if str(v).startswith("<-") else "=", str(v).replace("<-", "")) for k, v in constants.items()) + "\n" if constants else "\n")
    out = [None] * len(inputs)

    def one(pack):
        f = ctx.path("inputs.ndjson")
        with open(f, "w") as h:
            for i in pack:
                h.write(jcanon({"x": inputs[i]}) + "\n")
        rc, vec, txt, _ = tlc_run(ctx, text, cfg, "eval-" + spec, workers=1, env=dict(EVIN=f), heap="3g", timeout=timeout)
        if len(vec) != len(pack):
            raise CheckError("TLC evaluation of %s!%s ended with %s after %d of %d:\n%s" % (spec, expr, rc, len(vec), len(pack), tlc_errors(txt)))
        for v in vec:
            out[pack[v["k"] - 1]] = v["r"]

    with cf.ThreadPoolExecutor(nproc) as ex:
        list(ex.map(one, packs))
    ctx.count("oracle_evaluations", len(inputs))
    return out


def adjudicate(ctx, bins, spec, expr, cmds, label, constants=None, variables=(), well=lambda o: True):
    """Asks the real code first and lets TLC decide whether the specification admits the answer
    (used where it allows several). bins: {name: binary}; cmds: commands without state."""
    asked, bad = [], 0
    for name in sorted(bins):
        ch = [cmds[i::NCPU] for i in range(NCPU)]
        ch = [c for c in ch if c]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for part, (res, end) in zip(ch, ex.map(lambda part: batch(bins[name], [json.dumps({"c": c}, separators=(",", ":")) for c in part], 300), ch)):
                for c, r in zip(part, res):
                    obs = observation(r)
                    if "skipped" in obs:
                        continue
                    if "fatal" in obs:
                        raise CheckError("driver %s: %s on %s" % (name, obs["fatal"], c))
                    asked.append((name, c, obs))
                if end:
                    ctx.violation("%s: %s" % (name, end), dict(kind="process-end", driver=name, message=end))
    keys, todo = {}, []
    for name, c, obs in asked:
        if obs.get("crash") or obs["o"].get("k") not in ("ok", "err") or not well(obs["o"]):
            continue
        k = jcanon([c, obs["o"]])
        if k not in keys:
            keys[k] = len(todo)
            todo.append(dict(c=c, o=obs["o"]))
    verdict = evaluate(ctx, spec, expr, todo, constants, variables=variables, chunk=40)
    for name, c, obs in asked:
        k = jcanon([c, obs.get("o")])
        if k not in keys or not verdict[keys[k]]:
            bad += 1
            if bad <= 25:
                ctx.violation("%s: %s is not an admitted answer to %s" % (name, jcanon(obs)[:300], jcanon(c)[:400]), dict(kind="answer", driver=name, input=json.dumps({"c": c}), observed=obs))
    ctx.count("answers_adjudicated", len(asked))
    return bad


def clean(x):
    """True if x has only numbers where the specification has numbers (observations that are
    text, such as a disagreement between observers, match no specification value)."""
    if isinstance(x, list):
        return all(clean(y) for y in x)
    if isinstance(x, dict):
        return all(clean(y) for y in x.values())
    return isinstance(x, (int, bool)) and abs(int(x)) < 2**31


def validate(ctx, spec, traces, label, constants, mode="full", vars_init=None, step=None, extra="", resets=True, well=None):
    """traces: list of lists of {c,o,t}. TLC decides whether each is a behaviour of spec; the
    rejected prefix end is reported. Several traces are packed into few TLC runs; every trace
    starts with a command that resets the state."""
    traces = [t for t in traces if t]
    if not traces:
        return []
    nproc = min(NCPU, max(1, sum(map(len, traces)) // 1500 + 1))
    packs = [traces[i::nproc] for i in range(nproc)]
    rej = []

    def prep(tr):
        """cut at the first observation that cannot be a specification value"""
        out = []
        for q, e in enumerate(tr):
            o = e["o"]
            if not (well or clean)(o.get("v", [])) or not (well or clean)(e["t"]) or o.get("k") not in ("ok", "err", "abort"):
                return out, q
            out.append(e)
        return out, None

    def one(pack):
        res = []
        lines, index = [], []
        for ti, tr in pack:
            good, cut = prep(tr)
            for q, e in enumerate(good):
                lines.append(jcanon({"c": e["c"], "o": e["o"], "t": e["t"]}))
                index.append((ti, q))
            if cut is not None:
                res.append((ti, cut))
        pos = 0
        nval = 0
        while pos < len(lines) and len(res) < 10:
            f = ctx.path("trace.ndjson")
            open(f, "w").write("\n".join(lines[pos:]) + "\n")
            mod = "Trace_" + spec
            st = step if step and step.startswith("Legal") else "LET r == Step(s, Trace[l].c) IN " + (step or "r.o = Trace[l].o /\\ r.t = Trace[l].t /\\ s' = r.t")
            text = """---- MODULE %s ----
EXTENDS %s, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == s = %s /\\ last = <<>> /\\ l = 1
TraceNext == /\\ l <= Len(Trace)
             /\\ %s
             /\\ last' = <<>> /\\ l' = l + 1
TraceSpec == TraceInit /\\ [][TraceNext]_<<s, last, l>>
TraceAccepted == PrintT("#" \\o ToString(TLCGet("stats").diameter - 1)) /\\ TLCGet("stats").diameter - 1 = Len(Trace)
%s
====
""" % (mod, spec, vars_init or "<<>>", st, extra)
            cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\nCONSTANTS\n" + \
                  "\n".join("  %s %s %s" % (k, "<-" if str(v).startswith("<-") else "=", str(v).replace("<-", "")) for k, v in constants.items()) + "\n"
            rc, _, txt, stt = tlc_run(ctx, text, cfg, "trace-" + spec, workers=1, env=dict(TRACE=f), heap="3g")
            os.unlink(f)
            m = re.search(r'"#(\d+)"', txt)
            if rc == 0:
                nval += len(lines) - pos
                break
            if not m:
                raise CheckError("TLC trace validation of %s failed (%s):\n%s" % (spec, rc, tlc_errors(txt)))
            acc = int(m.group(1))
            nval += acc
            if pos + acc >= len(lines):
                raise CheckError("TLC trace validation of %s: inconsistent postcondition\n%s" % (spec, tlc_errors(txt)))
            bad = index[pos + acc]
            res.append(bad)
            # go on with the next trace
            nxt = pos + acc
            while nxt < len(lines) and index[nxt][0] == bad[0]:
                nxt += 1
            pos = nxt
        return res, nval

    numbered = list(enumerate(traces))
    packs = [numbered[i::nproc] for i in range(nproc)]
    with cf.ThreadPoolExecutor(nproc) as ex:
        for res, nval in ex.map(one, packs):
            rej += res
            ctx.count("trace_steps_validated", nval)
    bad = {t for t, _ in rej}
    ctx.count("traces_validated_against_impl", len(traces) - len(bad))
    return sorted(rej)


def record(ctx, path, gen, episodes, steps, label, nproc=NCPU):
    """Runs random histories on the real code: gen(rng, obs, k) yields the next command from
    the last observation. Returns traces; crashes end a trace and are kept as 'crash'."""
    def one(seed):
        rng = random.Random(seed)
        d = Driver(path)
        tr, obs = [], None
        for k in range(steps):
            try:
                c = gen(rng, obs, k)
            except Exception as e:  # the last state makes no sense: TLC has to reject it
                if not tr:
                    raise
                tr[-1]["odd"] = repr(e)
                break
            if c is None:
                break
            r = d.send({"c": c})
            if "fatal" in r:
                d.close()
                raise CheckError("driver %s: %s on %s" % (label, r["fatal"], c))
            if "crash" in r:
                return tr, dict(c=c, crash=r["crash"])
            tr.append(dict(c=c, o=r["o"], t=r["t"]))
            obs = r
        e = d.close()
        if e:
            return tr, dict(c="<end>", crash=e)
        return tr, None

    seeds = [ctx.rng.getrandbits(48) for _ in range(episodes)]
    with cf.ThreadPoolExecutor(nproc) as ex:
        return list(ex.map(one, seeds))


def rerun(path, tr, upto):
    d = Driver(path)
    out = []
    for e in tr[:upto + 1]:
        r = d.send({"c": e["c"]})
        out.append(r)
        if "crash" in r:
            return out
    e = d.close()
    if e:
        out.append(dict(crash=e))
    return out


def conform(ctx, path, spec, gen, episodes, steps, label, constants, **kw):
    """code -> model: record random histories and let TLC validate them."""
    recs = record(ctx, path, gen, episodes, steps, label)
    traces = []
    for tr, crash in recs:
        for e in tr:
            ctx.op(e["c"]["op"] + ("!" if e["o"]["k"] == "err" else ""))
        if crash:
            again = rerun(path, tr + ([dict(c=crash["c"])] if crash["c"] != "<end>" else []), len(tr))
            if any("crash" in r for r in again):
                ctx.violation("%s: %s on %s" % (label, crash["crash"], jcanon(crash["c"])[:200]),
                              dict(kind="crash", driver=label, history=[e["c"] for e in tr] + [crash["c"]], crash=crash["crash"]))
            else:
                ctx.count("not_reproduced")
        traces.append(tr)
    rej = validate(ctx, spec, traces, label, constants, **kw)
    kept = [t for t in traces if t]
    cut = {ti for ti, _ in rej}
    for ti, tr in enumerate(kept):
        if "odd" in tr[-1] and ti not in cut and len(rej) < 10:
            raise CheckError("%s: no next command: %s" % (label, tr[-1]["odd"]))
    for ti, q in rej:
        tr = kept[ti]
        again = rerun(path, tr, q)
        same = len(again) > q and again[q].get("o") == tr[q]["o"] and again[q].get("t") == tr[q]["t"]
        if not same and not any("crash" in r for r in again):
            ctx.count("not_reproduced")
            continue
        ctx.violation("%s: step %d %s is not a step of %s: observed %s from %s" % (
            label, q, jcanon(tr[q]["c"])[:300], spec, jcanon(dict(o=tr[q]["o"], t=tr[q]["t"]))[:400], jcanon(tr[q - 1]["t"])[:300] if q else "-"),
            dict(kind="trace", driver=label, history=[e["c"] for e in tr[:q + 1]], observed=tr[q]))
    for tr in traces[:2]:
        if tr:
            ctx.sample(dict(driver=label, history=[e["c"] for e in tr[:6]], final_state=tr[min(5, len(tr) - 1)]["t"]))
    return rej


# ---------------------------------------------------------------- result
def known_findings(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == prop]


def descendants():
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                st = open("/proc/%s/stat" % d).read()
            except OSError:
                continue
            kids.setdefault(int(st.rsplit(")", 1)[1].split()[1]), []).append(int(d))
    out, todo = [], [os.getpid()]
    while todo:
        k = kids.get(todo.pop(), [])
        out += k
        todo += k
    return out


def stop_late(ctx, seconds):
    """A check that has found a violation but runs for very long (requests that do not terminate
    are slow to observe) reports it after that time instead of going on."""
    def watch():
        while True:
            time.sleep(5)
            if time.time() - ctx.t0 > seconds and ctx.viol and any(True for s, r in ctx.viol if not any(all(m in s + jcanon(r) for m in k["match"]) for k in known_findings(ctx.prop))):
                break
        with ctx.lock:
            ctx.log("stopped: a violation was found and the check runs for long")
            try:
                rc = finish(ctx)
            except RuntimeError:           # another thread was counting at this moment
                rc = finish(ctx)
            sys.stdout.flush()
            for p in descendants():
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            atexit._run_exitfuncs()
            os._exit(rc)
    threading.Thread(target=watch, daemon=True).start()


def finish(ctx, level="model_checking"):
    listed = known_findings(ctx.prop)
    real = []
    seen = set()
    for summary, rec in ctx.viol:
        hit = None
        for k in listed:
            if all(s in summary + jcanon(rec) for s in k["match"]):
                hit = k
                break
        if hit:
            if hit["what"] not in seen:
                seen.add(hit["what"])
                print("KNOWN-FINDING: property=%s %s" % (ctx.prop, hit["what"]))
        else:
            real.append((summary, rec))
    cov = dict(ctx.cov)
    cov.update(ctx.extra)
    if ctx.ops:
        cov["commands_by_kind"] = dict(sorted(ctx.ops.items()))
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(real), assumptions=ctx.assumptions)
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ed, "replay"), exist_ok=True)
    rp = os.path.join(ed, "replay", "%s.json" % ctx.prop)
    if os.path.exists(rp):
        os.unlink(rp)
    json.dump(ev, open(os.path.join(ed, ctx.prop + ".json"), "w"), indent=1)
    if real:
        json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, violations=[dict(summary=s, **r) for s, r in real[:20]]), open(rp, "w"), indent=1)
        for s, _ in real[:5]:
            print("  - " + s)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.0fs" % (
        ctx.prop, ctx.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - ctx.t0))
    return 0
