"""Shared machinery: build /repo's working tree, drive the harness, validate traces with TLC.

A check consists of
  * design models (TLA+, explored exhaustively or by simulation by TLC),
  * scenarios (scripts for a harness, generated by TLC from the specification or by a seeded generator),
  * a trace specification: every scenario is executed against the code built from /repo's working tree, the
    harness records one JSON event per operation, and TLC decides whether the recorded history is a behaviour
    of the specification.
Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 the machinery itself failed.
"""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time, tempfile, threading, queue as _q
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


# ------------------------------------------------------------------ building
VARIANTS = {
    # the repository's own flags, -O2 instead of -O3 to save compile time
    "plain": ["-O2", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"],
}
BASE = ["-march=x86-64-v2", "-ffast-math", "-std=c++11", "-fPIC", "-w"]


def _tree_hash(paths, extra):
    h = hashlib.sha256()
    h.update(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def _repo_files():
    r = []
    for d in ("src", "include/routingkit"):
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith((".h", ".cpp", ".hpp", ".inc")):
                r.append(os.path.join(REPO, d, f))
    return r


def _prune(bdir, keep):
    try:
        ds = [os.path.join(bdir, d) for d in os.listdir(bdir)]
        ds.sort(key=lambda p: os.path.getmtime(p), reverse=True)
        for d in ds[keep:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf8", "replace")


def build(harness, variant="plain"):
    """Compile /repo's library sources and one harness; returns the path of the binary."""
    files = _repo_files()
    if harness == "tools":
        hfiles = [os.path.join(HARN, "tools.py")]
    else:
        hfiles = [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith((".h",))] + [os.path.join(HARN, harness + ".cpp")]
    flags = BASE + VARIANTS[variant]
    bdir = os.path.join(VERIF, ".build")
    os.makedirs(bdir, exist_ok=True)
    lib = os.path.join(bdir, "lib-%s-%s" % (variant, _tree_hash(files, " ".join(flags))))
    if not os.path.exists(os.path.join(lib, "ok")):
        _prune(bdir, 8)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=bdir)
        srcs = []
        for p in files:
            if p.endswith(".cpp"):
                with open(p, errors="replace") as f:
                    if not re.search(r"^\s*(?:signed\s+)?int\s+main\s*\(", f.read(), re.M):
                        srcs.append(p)
        srcs.sort(key=lambda p: -os.path.getsize(p))

        def cc(p):
            o = os.path.join(tmp, os.path.basename(p)[:-4] + ".o")
            return p, _run(["g++"] + flags + ["-fopenmp", "-I" + os.path.join(REPO, "include"), "-c", p, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            for p, (rc, out) in ex.map(cc, srcs):
                if rc != 0:
                    shutil.rmtree(tmp, ignore_errors=True)
                    raise MachineryError("cannot compile %s:\n%s" % (p, out[:3000]))
        open(os.path.join(tmp, "ok"), "w").close()
        try:
            os.rename(tmp, lib)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    if harness == "tools":
        return _build_tools(lib, flags, files, hfiles, variant)
    hh = _tree_hash(hfiles + [p for p in files if p.endswith(".h")], os.path.basename(lib))
    out = os.path.join(bdir, "h-%s-%s-%s" % (harness, variant, hh))
    if not os.path.exists(out):
        t = out + ".%d" % os.getpid()
        objs = [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".o")]
        rc, o = _run(["g++"] + flags + ["-fopenmp", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + HARN,
                      os.path.join(HARN, harness + ".cpp")] + objs + ["-lz", "-pthread", "-o", t])
        if rc != 0:
            raise MachineryError("cannot compile harness %s:\n%s" % (harness, o[:4000]))
        os.rename(t, out)
    return out


def _build_tools(lib, flags, files, hfiles, variant):
    """Link the command line tools and wrap them in a script that reads scenarios."""
    out = os.path.join(os.path.dirname(lib), "h-tools-%s-%s" % (variant, _tree_hash(hfiles + files, os.path.basename(lib))))
    run = os.path.join(out, "run")
    if os.path.exists(run):
        return run
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.dirname(lib))
    objs = [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".o")]
    mains = []
    for p in files:
        if p.endswith(".cpp") and not os.path.basename(p).startswith("test_"):
            with open(p, errors="replace") as f:
                if re.search(r"^\s*(?:signed\s+)?int\s+main\s*\(", f.read(), re.M):
                    mains.append(p)

    def cc(p):
        return p, _run(["g++"] + flags + ["-fopenmp", "-I" + os.path.join(REPO, "include"), p] + objs + ["-lz", "-pthread", "-o",
                        os.path.join(tmp, os.path.basename(p)[:-4])])
    with ThreadPoolExecutor(NCPU) as ex:
        for p, (rc, o) in ex.map(cc, mains):
            if rc != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise MachineryError("cannot compile %s:\n%s" % (p, o[:3000]))
    with open(os.path.join(tmp, "run"), "w") as f:
        f.write("#!/bin/sh\nexec python3 '%s' '%s'\n" % (os.path.join(HARN, "tools.py"), out))
    os.chmod(os.path.join(tmp, "run"), 0o755)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return run


# ------------------------------------------------------------------ scenarios
class Scenario:
    """A script for the harness. `lines` are the operations."""
    __slots__ = ("name", "lines", "cost")

    def __init__(self, name, lines, cost=None):
        self.name, self.lines = name, lines
        self.cost = cost if cost is not None else len(lines)


class Outcome:
    __slots__ = ("events", "crash", "ran")

    def __init__(self):
        self.events, self.crash, self.ran = [], None, False


def _env(variant, extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:malloc_context_size=8:hard_rss_limit_mb=3500"
    e["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0"
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    if extra:
        e.update(extra)
    return e


def run_harness(binary, scenarios, variant="plain", jobs=NCPU, stall=60, env=None, cwd=None, omp=None):
    """Execute the scenarios; returns a list of Outcome in the same order."""
    outs = [Outcome() for _ in scenarios]
    if not scenarios:
        return outs
    jobs = max(1, min(jobs, len(scenarios)))
    groups = [[] for _ in range(jobs)]
    load = [0] * jobs
    for i in sorted(range(len(scenarios)), key=lambda i: -scenarios[i].cost):
        k = load.index(min(load))
        groups[k].append(i)
        load[k] += scenarios[i].cost + 1
    e = _env(variant, env)
    e["OMP_NUM_THREADS"] = str(omp if omp else 2)

    abort = threading.Event()   # set when something hangs: what is left is run later, if the hang is not confirmed
    crashes = [0]

    def work(idx):
        todo = list(idx)
        while todo and not abort.is_set():
            script = []
            for i in todo:
                script.append("S %d" % i)
                script.extend(scenarios[i].lines)
            script.append("E")
            data = ("\n".join(script) + "\n").encode()
            errf = tempfile.TemporaryFile()
            p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf, env=e, cwd=cwd,
                                 preexec_fn=lambda: (os.setsid(), variant == "plain" and resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))))
            last = [time.time()]
            state = {"hang": False}

            def feed():
                try:
                    p.stdin.write(data)
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            tf = threading.Thread(target=feed, daemon=True)
            tf.start()
            done = threading.Event()

            def watch():
                while not done.wait(0.5):
                    if abort.is_set() or time.time() - last[0] > stall:
                        state["hang"] = not abort.is_set()
                        abort.set()
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        return
            tw = threading.Thread(target=watch, daemon=True)
            tw.start()
            cur = None
            finished = False
            started = []
            for raw in p.stdout:
                last[0] = time.time()
                if raw.startswith(b'S '):
                    if cur is not None:
                        outs[cur].ran = True
                    cur = int(raw[2:])
                    started.append(cur)
                elif raw.startswith(b'E'):
                    finished = True
                elif raw.startswith(b'{'):
                    if raw.endswith(b'\n') and cur is not None:
                        outs[cur].events.append(raw.decode("utf8", "replace").rstrip("\n"))
            p.wait()
            done.set()
            tw.join()
            errf.seek(0)
            err = errf.read().decode("utf8", "replace")
            errf.close()
            if finished and p.returncode == 0:
                for i in todo:
                    outs[i].ran = True
                return
            if abort.is_set() and not state["hang"]:
                # ended because another process hangs: the interrupted scenario counts as not run
                if cur is not None:
                    outs[cur].events = []
                return
            if cur is None:
                raise MachineryError("harness %s did not start: rc=%s %s" % (binary, p.returncode, err[:2000]))
            kind = "hang: no progress for %d s" % stall if state["hang"] else "terminated with status %s" % p.returncode
            outs[cur].crash = kind + ("\n" + err[:4000] if err else "")
            outs[cur].ran = True
            crashes[0] += 1
            if crashes[0] >= 12:
                abort.set()
            k = todo.index(cur)
            todo = todo[k + 1:]
    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(work, g) for g in groups]:
            f.result()
    return outs


# ------------------------------------------------------------------ TLC
class TLCResult:
    pass


_cnt = [0]
_cntlock = threading.Lock()


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="3g", cwd=None, deque=False):
    with _cntlock:
        _cnt[0] += 1
        n = _cnt[0]
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m"]
    if workers == 1:
        cmd += ["-XX:TieredStopAtLevel=4"]
    if deque:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    cmd += list(args)
    cmd += ["-config", cfg or (module + ".cfg"), module + ".tla"]
    e = dict(os.environ)
    if env:
        e.update(env)
    r = TLCResult()
    try:
        for again in range(3):
            p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            if p.returncode not in (-9, 137):
                break
            time.sleep(5)       # the machine ran out of memory and TLC was picked; that says nothing about the property
        r.out = p.stdout.decode("utf8", "replace")
        r.rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        r.out = (ex.stdout or b"").decode("utf8", "replace")
        r.rc = -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?:[^,]*), ([\d,]+) distinct", r.out)
    r.generated = int(m[-1][0].replace(",", "")) if m else 0
    r.distinct = int(m[-1][1].replace(",", "")) if m else 0
    m = re.search(r"REACHED\D+(\d+)", r.out)
    r.reached = int(m.group(1)) if m else None
    return r


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (prop, seed))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_validated=0,
                        design_models=[], scenario_sources={})
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = []
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ---- design models
    def model(self, module, cfg=None, workers=NCPU, timeout=600, args=(), expect_violation=None, min_states=2, note=None):
        """Explore a design model. The model does not depend on /repo, so anything unexpected is a machinery failure.
        expect_violation names an invariant/property that must fail (a sanity run of a deliberately broken design)."""
        r = tlc(module, cfg=cfg, workers=workers, timeout=timeout, args=args, heap="6g")
        if expect_violation:
            if "violated" not in r.out and "Deadlock reached" not in r.out:
                raise MachineryError("design model %s/%s should exhibit a violation of %s but did not:\n%s" % (module, cfg, expect_violation, r.out[-2000:]))
            self.cov["design_models"].append(dict(model=cfg or module, states=r.distinct, transitions=r.generated, result="counterexample found, as required (%s)" % expect_violation))
        else:
            if r.rc != 0 or "No error has been found" not in r.out:
                raise MachineryError("design model %s/%s failed (rc %s):\n%s" % (module, cfg, r.rc, r.out[-4000:]))
            if r.distinct < min_states:
                raise MachineryError("design model %s/%s is vacuous: %d states" % (module, cfg, r.distinct))
            self.cov["design_models"].append(dict(model=cfg or module, states=r.distinct, transitions=r.generated, result="no error", note=note or ""))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return r

    def generate(self, module, cfg=None, args=(), timeout=300, workers=1, env=None):
        """Let TLC produce behaviours of the specification: every line printed as <<"HIST", json>>."""
        r = tlc(module, cfg=cfg, workers=workers, timeout=timeout, args=args, env=env)
        res = []
        for m in re.finditer(r'<<"HIST", "(.*)">>', r.out):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        if not res:
            raise MachineryError("generator %s produced nothing:\n%s" % (module, r.out[-3000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return res

    def tsan(self, harness):
        """Whether binaries with the thread sanitizer run here (they do not under every address space layout)."""
        p = subprocess.run([build(harness, "tsan")], input=b"E\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=_env("tsan"))
        if p.returncode == 0 and p.stdout.startswith(b"E"):
            return True
        if b"memory mapping" in p.stderr or b"personality" in p.stderr:
            self.assumptions.append("the thread sanitizer could not run here, so data races without visible effect are not looked for")
            return False
        raise MachineryError("thread sanitizer probe: rc %s %s" % (p.returncode, p.stderr[:1000]))

    # ---- conformance
    def conform(self, harness, module, scenarios, variant="plain", jobs=NCPU, stall=40, cfg=None, source="generated", chunks=NCPU,
                env=None, tlc_env=None, need=None, cwd=None, omp=None, transform=None, tlc_timeout=700, racy=False):
        """Run scenarios on the real code and validate the recorded histories against the specification."""
        if not scenarios:
            raise MachineryError("no scenarios")
        binary = build(harness, variant)
        outs = run_harness(binary, scenarios, variant, jobs=jobs, stall=stall, env=env, cwd=cwd, omp=omp)
        for _ in range(4):
            left = [i for i, o in enumerate(outs) if not o.ran]
            if not left:
                break
            # the run was cut short by hangs or crashes; these decide first
            ctx = dict(harness=harness, module=module, variant=variant, cfg=cfg, stall=stall, env=env, tlc_env=tlc_env, cwd=cwd, omp=omp,
                       transform=transform, racy=racy)
            for i, o in enumerate(outs):
                if o.crash:
                    self._confirm(ctx, scenarios[i], o, None)
                    o.crash = None
            o2 = run_harness(binary, [scenarios[i] for i in left], variant, jobs=jobs, stall=stall, env=env, cwd=cwd, omp=omp)
            for i, o in zip(left, o2):
                outs[i] = o
        else:
            raise MachineryError("scenarios keep hanging without the hang being reproducible")
        if transform:
            for o in outs:
                o.events = [transform(x) for x in o.events]
        ev = sum(len(o.events) for o in outs)
        seen = {}
        for o in outs:
            for x in o.events:
                k = x[:40].split('"')[3] if '"op":"' in x[:12] else "?"
                seen[k] = seen.get(k, 0) + 1
        crashed = [i for i, o in enumerate(outs) if o.crash]
        if not crashed:
            for k in (need or []):
                if not seen.get(k):
                    raise MachineryError("vacuous: no event %r was recorded" % k)
        ok, bad = self._validate(module, scenarios, outs, cfg, chunks, tlc_env, tlc_timeout)
        ctx = dict(harness=harness, module=module, variant=variant, cfg=cfg, stall=stall, env=env, tlc_env=tlc_env, cwd=cwd, omp=omp,
                   transform=transform, racy=racy)
        for i in sorted(set(crashed) | set(bad)):
            self._confirm(ctx, scenarios[i], outs[i], bad.get(i))
        self.cov["traces_validated_against_impl"] += ok
        self.cov["events_validated"] += ev
        self.cov["scenario_sources"][source] = self.cov["scenario_sources"].get(source, 0) + len(scenarios)
        for k, v in seen.items():
            c = self.cov.setdefault("events_by_kind", {})
            c[k] = c.get(k, 0) + v
        if len(self.cov["samples"]) < 6:
            i = self.rng.randrange(len(scenarios))
            self.cov["samples"].append(dict(source=source, scenario=scenarios[i].name, script=[l[:200] for l in scenarios[i].lines[:12]],
                                            events=[x[:200] for x in outs[i].events[:6]]))
        return outs

    def _validate(self, module, scenarios, outs, cfg, chunks, tlc_env, tlc_timeout=700):
        """TLC decides. Returns (#accepted scenarios, {index: reason})."""
        pend = [i for i in range(len(outs)) if outs[i].events]
        bad = {}
        ok = 0
        lock = threading.Lock()
        groups = [[] for _ in range(max(1, min(chunks, len(pend))))]
        load = [0] * len(groups)
        for i in sorted(pend, key=lambda i: -scenarios[i].cost):
            k = load.index(min(load))
            groups[k].append(i)
            load[k] += scenarios[i].cost + 1
        res = {"ok": 0}

        def work(gid):
            todo = sorted(groups[gid])
            rejections = 0
            while todo:
                lines, owner = [], []
                for i in todo:
                    lines.append('{"op":"scenario"}')
                    owner.append(i)
                    for x in outs[i].events:
                        lines.append(x)
                        owner.append(i)
                fn = os.path.join(self.work, "t%d-%d.ndjson" % (gid, len(todo)))
                with open(fn, "w") as f:
                    f.write("\n".join(lines) + "\n")
                e = {"TRACE": fn}
                e.update(tlc_env or {})
                r = tlc(module, cfg=cfg, env=e, timeout=tlc_timeout)
                os.unlink(fn)
                with lock:
                    self.cov["states"] += r.distinct
                    self.cov["transitions"] += r.generated
                reason = None
                if r.reached is None:
                    # evaluation error: the event that could not be evaluated is the one after the last state
                    ls = re.findall(r"/\\ l = (\d+)", r.out) or re.findall(r"^l = (\d+)", r.out, re.M)
                    if not ls or r.rc in (-9,) or "OutOfMemory" in r.out or "StackOverflow" in r.out:
                        raise MachineryError("TLC failed on module %s (rc %s):\n%s" % (module, r.rc, r.out[-3000:]))
                    m = re.search(r"Error: (.*?)\n(.*\n){0,6}", r.out)
                    pos = int(ls[-1]) - 1
                    reason = "the specification cannot interpret the event: " + (m.group(0) if m else "")[:600]
                else:
                    pos = r.reached
                    if pos >= len(lines):
                        with lock:
                            res["ok"] += len([i for i in todo if not outs[i].crash])
                        return
                    reason = "no transition of the specification matches the event"
                i = owner[pos]
                with lock:
                    bad[i] = "%s\n  event #%d: %s" % (reason, pos - owner.index(i), lines[pos][:3000])
                    k = todo.index(i)
                    res["ok"] += k
                todo = todo[k + 1:]
                rejections += 1
                if rejections >= 3:
                    return
        with ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(work, g) for g in range(len(groups))]:
                f.result()
        return res["ok"], bad

    def _confirm(self, ctx, sc, out, reason):
        """Re-run a failing scenario alone; report it only if it fails again."""
        binary = build(ctx["harness"], ctx["variant"])
        again = None
        hung = out.crash and "hang" in out.crash
        for _ in range(1 if hung else 3):
            o = run_harness(binary, [sc], ctx["variant"], jobs=1, stall=max(ctx["stall"], 60) if hung else ctx["stall"],
                            env=ctx["env"], cwd=ctx["cwd"], omp=ctx["omp"])
            if ctx["transform"]:
                o[0].events = [ctx["transform"](x) for x in o[0].events]
            _, b = self._validate(ctx["module"], [sc], o, ctx["cfg"], 1, ctx["tlc_env"])
            if o[0].crash or b:
                again = (o[0], b.get(0))
                break
        if again is None and ctx["racy"] and not (out.crash and "hang" in out.crash):
            # what was recorded depends on the schedule: the recorded history itself is the evidence
            again = (out, reason)
        if again is None:
            # not reproducible on its own: keep it out of the verdict but tell
            sys.stderr.write("note: scenario %s failed once and passed when repeated; not reported: %s %s\n" % (sc.name, out.crash, reason))
            self.cov["unrepeated"] = self.cov.get("unrepeated", 0) + 1
            return
        o, b = again
        what = o.crash or b or reason
        for k in self.known:
            if k.get("match") and re.search(k["match"], sc.name + "\n" + "\n".join(sc.lines) + "\n" + what):
                self.known_hit.append(k["text"])
                return
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.sha1((sc.name + what).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, scenario=sc.name, script=sc.lines, harness=ctx["harness"], variant=ctx["variant"],
                           spec=ctx["module"], cfg=ctx["cfg"], env=ctx["env"], tlc_env=ctx["tlc_env"], omp=ctx["omp"], stall=ctx["stall"],
                           crash=o.crash, rejected=b, events=o.events[-200:]), f, indent=1)
        raise Violation(what, path)

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                 wall_s=round(time.time() - self.t0, 2), violations=violations, assumptions=self.assumptions)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d.get("property") == prop:
                    res.append(d)
    return res
