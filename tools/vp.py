"""Machinery shared by all checks: build the library from /repo's working tree, let TLC explore a
specification and print its transition relation, run a conformance harness along it, let TLC validate
recorded executions, write evidence."""
import concurrent.futures as cf
import glob, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay

class CheckError(Exception):
    pass

def tla(v):
    """a Python value as a TLA+ constant expression for a .cfg file"""
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise TypeError(v)

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.pool = cf.ThreadPoolExecutor(8)
        self.lock = threading.Lock()
        self.memo = {}
        self.states = self.transitions = self.validated = 0
        self.samples, self.runs, self.assumptions, self.notes = [], [], [], []
        self.procs = set()

    # ---------------------------------------------------------------- helpers
    def once(self, key, fn):
        """run fn once for key, share the future"""
        with self.lock:
            f = self.memo.get(key)
            if f is None:
                f = self.memo[key] = cf.Future()
                mine = True
            else:
                mine = False
        if mine:
            try:
                f.set_result(fn())
            except BaseException as e:
                f.set_exception(e)
        return f.result()

    def par(self, fns):
        """run functions in parallel; a violation found by any of them wins over errors"""
        out, err = [], None
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(f) for f in fns]
            viol = None
            for f in cf.as_completed(fs):
                try:
                    f.result()
                except Violation as v:
                    if viol is None:
                        viol = v
                        for g in fs: g.cancel()
                        self.kill()
                except cf.CancelledError:
                    pass
                except BaseException as e:
                    if err is None: err = e
        if viol: raise viol
        if err: raise err
        return [f.result() for f in fs]

    def kill(self):
        with self.lock:
            self.dying = True
            for p in list(self.procs):
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass

    dying = False

    def sh(self, cmd, cwd=None, env=None, timeout=800, out=None):
        if self.dying: raise CheckError("stopped")
        e = dict(os.environ)
        e.update(env or {})
        stdout = open(out, "wb") if out else subprocess.PIPE
        p = subprocess.Popen(cmd, cwd=cwd or self.work, env=e, stdout=stdout, stderr=subprocess.PIPE, start_new_session=True)
        with self.lock: self.procs.add(p)
        try:
            o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CheckError("timed out: " + " ".join(cmd)[:300])
        finally:
            with self.lock: self.procs.discard(p)
            if out: stdout.close()
        return p.returncode, (o or b"").decode("latin1"), er.decode("latin1")

    # ---------------------------------------------------------------- building
    def sources(self):
        def mk():
            d = os.path.join(self.work, "src")
            os.mkdir(d)
            for f in glob.glob(REPO + "/*.c") + glob.glob(REPO + "/*.h"):
                shutil.copy(f, d)
            return d
        return self.once("sources", mk)

    LIBFLAGS = ["-std=gnu11", "-O1", "-g", "-DNDEBUG", "-DWITH_PTHREAD", "-w"]

    # functions which the scheduler of harness/asq.cpp takes over
    COOP = ["malloc", "calloc", "realloc", "free", "gettimeofday", "clock_gettime", "timespec_get", "time", "nanosleep", "usleep", "sleep", "sched_yield",
            "err", "errx", "abort", "exit", "_exit", "__assert_fail", "pthread_self"] + ["pthread_" + x for x in (
            "mutex_init mutex_destroy mutex_lock mutex_timedlock mutex_trylock mutex_unlock mutexattr_init mutexattr_destroy mutexattr_settype mutexattr_gettype "
            "cond_init cond_destroy cond_wait cond_timedwait cond_clockwait cond_signal cond_broadcast condattr_init condattr_destroy condattr_setclock").split()]

    # functions which harness/oom.cpp takes over
    HEAP = ["malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "posix_memalign", "strdup", "strndup", "abort"]

    # functions which harness/apart.cpp takes over
    APART = ["malloc", "calloc", "realloc", "free", "reallocarray", "aligned_alloc", "posix_memalign", "strdup", "strndup"] + ["pthread_" + x for x in (
            "mutex_init mutex_destroy mutex_lock mutex_timedlock mutex_trylock mutex_unlock cond_init cond_destroy once "
            "rwlock_rdlock rwlock_wrlock rwlock_unlock spin_lock spin_unlock").split()]

    def lib(self, kind="asan"):
        """object files of the library, compiled from the working tree"""
        def mk():
            src = self.sources()
            d = os.path.join(self.work, "obj-" + kind)
            os.mkdir(d)
            flags = {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"], "plain": [], "oom": [], "tsan": ["-fsanitize=thread"],
                     "coop": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]}["coop" if kind == "apart" else kind]
            redefined = {"coop": [(x, "vq_" + x) for x in self.COOP], "oom": [(x, "vo_" + x) for x in self.HEAP], "apart": [(x, "va_" + x) for x in self.APART]}.get(kind)
            if redefined:
                redef = os.path.join(d, "redefine")
                open(redef, "w").write("".join("%s %s\n" % x for x in redefined))
            def cc(c):
                o = os.path.join(d, os.path.basename(c)[:-2] + ".o")
                rc, _, err = self.sh(["clang", "-c"] + self.LIBFLAGS + flags + [c, "-o", o], cwd=src)
                if rc: raise CheckError("cannot compile %s:\n%s" % (c, err[-2000:]))
                if redefined:
                    rc, _, err = self.sh(["objcopy", "--redefine-syms", redef, o])
                    if rc: raise CheckError("objcopy: " + err[-2000:])
                return o
            with cf.ThreadPoolExecutor(8) as ex:
                return sorted(ex.map(cc, glob.glob(src + "/*.c")))
        return self.once("lib-" + kind, mk)

    def harness(self, name, srcs, defs=(), kind="asan", opt="-O1", extra=(), objs=None):
        """compile a harness of /verif/harness against the library"""
        def mk():
            inc = ["-I" + self.sources(), "-I" + os.path.join(ROOT, "harness")]
            san = ["-fsanitize=address"] if kind == "asan" else []
            os_ = []
            def one(s):
                o = os.path.join(self.work, "%s-%s.o" % (name, s.replace(".", "_")))
                cc = ["clang", "-std=gnu11"] if s.endswith(".c") else ["clang++", "-std=c++17"]
                rc, _, err = self.sh(cc + [opt, "-g", "-w", "-DWITH_PTHREAD", "-DNDEBUG"] + san + inc + list(defs) + ["-c", os.path.join(ROOT, "harness", s), "-o", o])
                if rc: raise CheckError("cannot compile the harness %s:\n%s" % (s, err[-3000:]))
                return o
            with cf.ThreadPoolExecutor(8) as ex:
                f = [ex.submit(one, s) for s in srcs]
                lib = objs if objs is not None else self.lib(kind)
                os_ = [x.result() for x in f]
            exe = os.path.join(self.work, name)
            rc, _, err = self.sh(["clang++"] + san + os_ + list(lib) + ["-o", exe, "-lpthread"] + list(extra))
            if rc: raise CheckError("cannot link %s:\n%s" % (name, err[-3000:]))
            return exe
        return self.once("harness-" + name, mk)

    # ---------------------------------------------------------------- TLC
    def tlc(self, tag, module, cfg, env=None, out=None, heap="3g", workers=1, extra=(), timeout=800):
        d = os.path.join(self.work, "tlc-" + tag)
        os.makedirs(d, exist_ok=True)
        cfgf = os.path.join(d, "model.cfg")
        open(cfgf, "w").write(cfg)
        outf = out or os.path.join(d, "out.txt")
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d,
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfgf, "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
        rc, _, err = self.sh(cmd, cwd=os.path.join(ROOT, "specs"), env=env, out=outf, timeout=timeout)
        tail = subprocess.run(["grep", "-av", '^"', outf], stdout=subprocess.PIPE).stdout.decode("latin1")
        return rc, tail, outf

    @staticmethod
    def cfg(spec="Spec", constants=None, view=None, invariants=(), properties=(), constraints=(), action=(), post=None, subst=None):
        s = "SPECIFICATION %s\n" % spec
        if constants or subst:
            s += "CONSTANTS\n"
            for k, v in (constants or {}).items(): s += " %s = %s\n" % (k, tla(v))
            for k, v in (subst or {}).items(): s += " %s <- %s\n" % (k, v)
        if view: s += "VIEW %s\n" % view
        for x in invariants: s += "INVARIANT %s\n" % x
        for x in properties: s += "PROPERTY %s\n" % x
        for x in constraints: s += "CONSTRAINT %s\n" % x
        for x in action: s += "ACTION_CONSTRAINT %s\n" % x
        if post: s += "POSTCONDITION %s\n" % post
        return s + "CHECK_DEADLOCK FALSE\n"

    @staticmethod
    def errors(tail):
        """the interesting part of TLC's output"""
        i = tail.find("Error:")
        return tail[i:i + 2500] if i >= 0 else tail[-2500:]

    def counts(self, tail):
        import re
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", tail)
        return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def graph(self, tag, module, constants, invariants=(), properties=(), heap="3g", subst=None):
        """let TLC explore a model completely, check its properties and print its transitions"""
        def mk():
            rc, tail, outf = self.tlc(tag, module, self.cfg(constants=constants, view="View", invariants=invariants, properties=properties,
                                      constraints=["EmitInit"], action=["Emit"], subst=subst), heap=heap)
            if "No error has been found" not in tail:
                raise CheckError("TLC on %s (%s):\n%s" % (module, tag, self.errors(tail)))
            gen, dist = self.counts(tail)
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.runs.append(dict(tlc=module, constants={k: tla(v) for k, v in constants.items()}, distinct_states=dist, states_generated=gen,
                                      checked=list(invariants) + list(properties)))
            return outf
        return self.once("graph-" + tag, mk)

    def model(self, tag, module, cfg, workers=4, heap="6g", expect=None):
        """check a model only (no transition printing); expect = text that must appear instead of success"""
        rc, tail, outf = self.tlc(tag, module, cfg, workers=workers, heap=heap)
        if expect is None:
            if "No error has been found" not in tail: raise CheckError("TLC on %s (%s):\n%s" % (module, tag, self.errors(tail)))
        elif expect not in tail: raise CheckError("TLC on %s (%s) should have found '%s':\n%s" % (module, tag, expect, self.errors(tail)))
        gen, dist = self.counts(tail)
        with self.lock:
            self.states += dist; self.transitions += gen
            self.runs.append(dict(tlc=module, config=tag, distinct_states=dist, states_generated=gen, expected_error=expect))

    def trace(self, tag, module, constants, tracef, variant, view="TView", properties=(), heap="3g"):
        """let TLC decide whether a recorded execution is a behaviour of the specification"""
        c = self.cfg(spec="TSpec", constants=constants, view=view, post="Accepted", properties=properties)
        for attempt in (1, 2):
            rc, tail, _ = self.tlc("%s-%d" % (tag, attempt), module, c, env={"TRACE": tracef}, heap=heap)
            if "No error has been found" in tail and "REJECTED" not in tail:
                gen, dist = self.counts(tail)
                n = sum(1 for l in open(tracef) if '"k":"start"' in l or '"t":' in l)
                with self.lock:
                    self.validated += n
                    self.states += dist; self.transitions += gen
                    self.runs.append(dict(tlc=module, trace_lines=dist - 1, traces=n, variant=variant))
                return
            bad = "REJECTED at line" in tail or "is violated" in tail
            if not bad: raise CheckError("TLC on trace %s:\n%s" % (tag, self.errors(tail)))
        import re
        m = re.search(r'REJECTED at line", (\d+)', tail)
        line = int(m.group(1)) if m else 0
        lines = open(tracef).read().split("\n")
        start = max([i for i in range(min(line, len(lines))) if '"k":"start"' in lines[i]] or [0])
        raise Violation("the recorded execution is not a behaviour of %s: line %d: %s" % (module, line, lines[line - 1][:600] if line else tail[-600:]),
                        dict(kind="trace rejected by TLC", module=module, variant=variant, line=line, history=lines[start:line]))

    # ---------------------------------------------------------------- running a harness
    def run(self, exe, args, tag, timeout=700, env=None, confirm=True):
        """returns the harness's report, raises Violation"""
        rep = os.path.join(self.work, "report-%s.json" % tag)
        cmd = [exe, "--report", rep, "--seed", str(self.seed)]
        for k, v in args.items(): cmd += ["--" + k, str(v)]
        # what memory is full of before the library has written to it
        junk = (238, 0, 255, 1)[zlib.crc32(tag.encode()) % 4]
        env = dict(env or {}, VP_JUNK=str(junk), ASAN_OPTIONS="malloc_fill_byte=%d" % junk)
        last = None
        for attempt in range(4):
            if os.path.exists(rep): os.unlink(rep)
            rc, out, err = self.sh(cmd, timeout=timeout, env=env)
            r = None
            if os.path.exists(rep):
                try: r = json.load(open(rep))
                except ValueError: r = None
            if rc == 0 and r and r["status"] == "ok":
                if last is None: break
                continue # did not repeat; try again
            if rc == 10 and r and r["status"] == "violation":
                r["stderr"] = err[-4000:]
                if last is not None or not confirm:
                    v = dict(args); v.pop("graph", None); v.pop("trace", None)
                    raise Violation("%s: %s" % (r["kind"], r["detail"]), dict(kind=r["kind"], detail=r["detail"], variant=v, memory_full_of=junk, context=r.get("context"), history=r["history"],
                                    harness=os.path.basename(exe), command=cmd, stderr=r["stderr"]))
                last = r
                continue
            raise CheckError("harness %s ended with %d\n%s\n%s" % (" ".join(cmd), rc, out[-500:], err[-3000:]))
        if last is not None:
            self.notes.append("unrepeatable: " + last["kind"] + " " + last["detail"])
            if r is None or r["status"] != "ok": raise CheckError("unrepeatable result: " + last["detail"])
        s = r["stats"]
        with self.lock:
            self.validated += s.get("histories", 0)
            self.transitions += 0
            for x in r["samples"]:
                if len(self.samples) < 12 and x not in self.samples: self.samples.append(x[:400])
            v = {k: str(v) for k, v in args.items() if k not in ("graph", "trace")}
            self.runs.append(dict(harness=os.path.basename(exe), variant=v, stats=s))
        return r

    # ---------------------------------------------------------------- end
    def evidence(self, level, violations=0):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        steps = sum(r["stats"].get("steps", 0) for r in self.runs if "stats" in r)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                                implementation_steps_compared=steps, samples=self.samples or ["(none)"], runs=self.runs, notes=self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        with open(os.path.join(d, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

    def cleanup(self):
        self.kill()
        shutil.rmtree(self.work, ignore_errors=True)

def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop): out.append(l.strip()[len("finding: "):])
    return out

def main(checks, argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2: tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    code = 2
    try:
        try:
            checks[prop](ctx)
            ctx.evidence("model_checking")
            for k in known_findings(prop): print("KNOWN-FINDING: " + k)
            print("%s: held on everything explored: %d specification states, %d traces of the implementation validated, %.1f s"
                  % (prop, ctx.states, ctx.validated, time.time() - ctx.t0))
            code = 0
        except Violation as v:
            ctx.evidence("model_checking", 1)
            d = os.path.join(ROOT, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, prop + ".json")
            r = dict(property=prop, tier=tier, seed=seed, what=v.what)
            r.update(v.replay or {})
            json.dump(r, open(f, "w"), indent=1)
            print(v.what[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, ROOT)))
            code = 1
        except CheckError as e:
            print("CHECK ERROR: %s" % e, file=sys.stderr)
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    return code
