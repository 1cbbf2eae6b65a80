"""Driver: compiles the harnesses against /repo's current tree, runs the
symbolic executor on them, replays counterexamples natively, writes evidence."""
import hashlib, json, os, re, resource, subprocess, sys, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
FSE = os.path.join(BUILD, "fse")
NCPU = min(8, os.cpu_count() or 1)
CLANG = "clang++-18"
UBSAN = ["-fsanitize=signed-integer-overflow,shift,bounds,float-cast-overflow,integer-divide-by-zero",
         "-fsanitize-trap=all"]


LIVE, LIVE_LOCK, STOP = set(), threading.Lock(), threading.Event()


def sh(cmd, timeout=600, env=None, mem=None, cwd=None, stoppable=False):
    def lim():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         preexec_fn=lim if mem else None, cwd=cwd)
    if stoppable:
        with LIVE_LOCK:
            LIVE.add(p)
    try:
        if STOP.is_set() and stoppable:
            p.kill()
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return -1, (o or b"").decode(errors="replace"), "timeout"
    finally:
        if stoppable:
            with LIVE_LOCK:
                LIVE.discard(p)


def stop_all():
    """a violation was reproduced: nothing else needs to finish"""
    STOP.set()
    with LIVE_LOCK:
        for p in LIVE:
            try:
                p.kill()
            except OSError:
                pass


def ensure_engine():
    src = [os.path.join(ROOT, "engine", f) for f in ("expr.h", "solver.h", "fse.cpp", "build.sh")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    st = FSE + ".sha"
    if os.path.exists(FSE) and os.path.exists(st) and open(st).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    rc, o, e = sh(["bash", os.path.join(ROOT, "engine", "build.sh")], 900)
    if rc:
        print(o + e)
        raise SystemExit("engine build failed")
    open(st, "w").write(h)


class Job:
    def __init__(self, harness, entry, params=None, flags=(), timeout=120, qt=10000, random=3,
                 fp=False, decide=None, ub=False, dump=False, label=None, opt=None):
        self.harness, self.entry, self.params = harness, entry, dict(params or {})
        self.flags, self.timeout, self.qt = list(flags), timeout, qt
        self.random, self.fp, self.decide, self.ub = random, fp, decide, ub
        self.dump = dump or decide is not None
        self.label = label or (entry + "".join(",%s=%s" % kv for kv in self.params.items()))
        self.phase = 0  # two-phase run: so many concrete calls before the symbolic one
        self.res = None
        self.decided = None
        self.absorbed = False
        self.wall = 0


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = int(os.environ.get("VF_BUDGET", 0)) or 600 if self.tier == "quick" else 6 * 3600
        self.dir = os.path.join(BUILD, "w_" + pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replaydir = os.path.join(ROOT, "evidence", "replay", pid)
        shutil.rmtree(self.replaydir, ignore_errors=True)
        self.h = {}
        self.built = {}
        self.jobs = []
        self.violations = []
        self.undecided = []
        self.unrepro = []
        self.known = []
        self.notes = []
        self.samples = []
        self.functions = set()
        self.cnt = dict(paths=0, instructions=0, obligations=0, discharged=0, queries=0, sat=0, unsat=0,
                        solver_s=0.0, forks=0, native=0, algebraic=0, int_proved=0, kissat=0)
        self.lock = threading.Lock()
        self.lock2 = threading.Lock()
        self.bounds = []
        self.assume = []
        ensure_engine()

    # ---- harness builds
    def harness(self, name, src=None, defs=(), keep=False):
        self.h[name] = dict(src=os.path.join(ROOT, "harness", (src or name + ".cpp")), defs=list(defs))

    def incs(self, native):
        return ["-I" + os.path.join(REPO, "include")] + \
               ["-I" + os.path.join(ROOT, "harness", "stubs" if not native else "nstubs"),
                "-I" + os.path.join(ROOT, "harness", "common"), "-I" + os.path.join(ROOT, "harness")]

    def bc(self, name, ub):
        key = (name, "bc", ub)
        return self._once(key, lambda: self._bc(name, ub))

    def _once(self, key, fn):
        with self.lock:
            ev = self.built.get(key)
            if ev is None:
                ev = [threading.Event(), None]
                self.built[key] = ev
                mine = True
            else:
                mine = False
        if mine:
            try:
                ev[1] = fn()
            except Exception as e:  # noqa
                ev[1] = (None, repr(e))
            ev[0].set()
        else:
            ev[0].wait()
        return ev[1]

    def _bc(self, name, ub):
        h = self.h[name]
        out = os.path.join(self.dir, name + ("_ub" if ub else ""))
        cmd = [CLANG, "-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
               "-ffp-contract=off", "-fignore-exceptions", "-DFSE_SYMBOLIC"] + self.incs(False) + \
              ["-D" + d for d in h["defs"]] + (UBSAN if ub else []) + \
              ["-emit-llvm", "-c", h["src"], "-o", out + ".bc"]
        rc, o, e = sh(cmd, 300)
        if rc:
            return None, "harness %s does not compile: %s" % (name, e[:2000])
        rc, o, e = sh(["opt-18", "-passes=function(sroa,early-cse,simplifycfg<sink-common-insts>)", "-phi-node-folding-threshold=20", "-two-entry-phi-node-folding-threshold=40", out + ".bc", "-o", out + ".o.bc"], 300)
        if rc:
            return None, "opt failed: " + e[:1000]
        return out + ".o.bc", None

    def native(self, name, san=True):
        return self._once((name, "nat", san), lambda: self._native(name, san))

    def _native(self, name, san):
        h = self.h[name]
        out = os.path.join(self.dir, name + (".san" if san else ".nat"))
        cmd = [CLANG, "-std=c++20", "-O1", "-g0", "-ffp-contract=off", "-rdynamic"] + self.incs(True) + \
              ["-D" + d for d in h["defs"]] + \
              (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else []) + \
              [os.path.join(ROOT, "harness", "native.cpp"), h["src"], "-o", out, "-ldl", "-lgmpxx", "-lgmp"]
        rc, o, e = sh(cmd, 300)
        if rc:
            return None, "native harness %s does not compile: %s" % (name, e[:2000])
        return out, None

    def statics(self, job):
        """mutable state of the library in the compiled harness, and the harness's own globals"""
        def go():
            bc, err = self.bc(job.harness, job.ub)
            if not bc:
                return [], []
            rc, o, e = sh([FSE, bc, "--statics"], 60)
            ls = [l.split(" ", 2) for l in o.splitlines()]
            return [l[2] for l in ls if l[0] == "L"], [l[1] for l in ls if l[0] == "H"]
        return self._once((job.harness, "statics", job.ub), go)

    AWK = r'''NR==FNR{h[$1]=1;next} ($3 ~ /^[bBdDuV]$/){n=$4; sub(/\..*/,"",n); if(n in h) print $1,$2}'''

    def ranges(self, job, exe):
        def go():
            nf, rf = exe + ".names", exe + ".ranges"
            open(nf, "w").write("\n".join(self.statics(job)[1]) + "\n")
            rc, o, e = sh(["bash", "-c", "nm -S %s | awk '%s' %s - > %s" % (exe, self.AWK, nf, rf)], 60)
            return rf
        return self._once((exe, "ranges"), go)

    NENV = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1",
                UBSAN_OPTIONS="exitcode=77:halt_on_error=1")

    def run_native(self, job, modelfile, extra=(), timeout=60, san=True):
        exe, err = self.native(job.harness, san)
        if not exe:
            return None, err
        cmd = [exe, job.entry, modelfile] + ["%s=%s" % kv for kv in job.params.items()] + list(extra)
        env = self.NENV
        if job.phase:
            cmd += ["--phase=%d" % job.phase, "--ranges=%s" % self.ranges(job, exe)]
            env = dict(env, ASAN_OPTIONS=env["ASAN_OPTIONS"].replace("detect_stack_use_after_return=1", "detect_stack_use_after_return=0"))
        rc, o, e = sh(cmd, timeout, env=env)
        return rc, o + e[-1500:]

    # ---- running jobs
    def run(self, jobs):
        # state kept between calls: decide also what a call does after other calls
        import copy
        extra = []
        first = {(j.harness, j.ub): j for j in jobs}
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self.statics, first.values()))
        for j in jobs:
            st = self.statics(j)
            if st and st[0]:
                n = "the library keeps state between calls: " + ", ".join(sorted(set(st[0])))[:300]
                if n not in self.notes:
                    self.notes.append(n)
                for k in (1, 2):
                    q = copy.copy(j)
                    q.phase, q.label = k, j.label + ",phase=%d" % k
                    extra.append(q)
        jobs = jobs + extra
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self._job_safe, jobs))
        for j in jobs:
            if not j.absorbed and j.res.get("status") != "skipped":
                self._absorb(j)
        self.jobs += jobs
        return jobs

    def _job_safe(self, j):
        try:
            self._job(j)
        except Exception as e:  # noqa
            import traceback
            j.res = dict(status="error", errors=["driver: " + traceback.format_exc()[-1500:]])

    def _job(self, j):
        t0 = time.time()
        left = self.budget - (t0 - self.t0)
        if STOP.is_set():
            j.res = dict(status="skipped", errors=["not run: a violation was already found"])
            return
        if left < 5:
            j.res = dict(status="error", errors=["time budget of the check used up"])
            return
        j.timeout = min(j.timeout, left)
        bc, err = self.bc(j.harness, j.ub)
        if not bc:
            j.res = dict(status="error", errors=[err])
            return
        tag = os.path.join(self.dir, hashlib.md5((j.harness + j.label + str(j.flags) + str(j.ub)).encode()).hexdigest()[:12])
        cmd = [FSE, bc, "--entry", j.entry, "--out", tag + ".json", "--timeout", str(j.qt),
               "--max-time", str(int(j.timeout))] + j.flags
        for k, v in j.params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        if j.phase:
            cmd += ["--phase", str(j.phase)]
        if j.dump:
            cmd += ["--dump", tag + ".dump"]
        env = dict(os.environ, TMPDIR=self.dir)
        rc, o, e = sh(cmd, j.timeout + 60, mem=12 << 30, env=env, stoppable=True)
        try:
            j.res = json.load(open(tag + ".json"))
        except Exception:
            j.res = dict(status="error", errors=["engine rc=%s %s" % (rc, e[-500:])])
        j.wall = time.time() - t0
        if j.decide and os.path.exists(tag + ".dump") and j.res.get("status") in ("ok", "partial"):
            try:
                j.decided = self._decide(j, tag + ".dump", max(10, self.budget - (time.time() - self.t0)))
            except Exception:
                import traceback
                j.decided = dict(n=0, proved=0, unknown=[("decider", traceback.format_exc()[-1500:])], viol=[])
        if j.random and j.res.get("status") != "error":
            j.rnd = []
            for i in range(j.random):
                rc, out = self.run_native(j, "/dev/null", ["--random=%d" % (self.seed * 1000 + i)], san=True)
                if rc is None:
                    j.nerr = out
                    break
                j.rnd.append((rc, out, self.seed * 1000 + i))
        if os.path.exists(tag + ".dump") and not os.environ.get("VF_KEEP"):
            os.unlink(tag + ".dump")
        if STOP.is_set():
            j.res["status"] = "skipped"
        else:
            with self.lock2:
                self._absorb(j)
            j.absorbed = True
            if self.violations:
                stop_all()
        j.wall = time.time() - t0

    def _decide(self, j, dump, left):
        # a process of its own: the solver's Python interface is not thread-safe
        mod, fac, kw = j.decide
        info = dict(harness=j.harness, entry=j.entry, params=j.params, tier=self.tier, seed=self.seed, left=left)
        rc, o, e = sh([sys.executable, os.path.join(ROOT, "lib", "decide.py"), mod, fac, json.dumps(kw), json.dumps(info), dump],
                      left, mem=20 << 30, stoppable=True)
        if "@@" not in o:
            return dict(n=0, proved=0, unknown=["decider rc=%s %s" % (rc, e[-800:])], viol=[])
        return json.loads(o.rsplit("@@", 1)[1])

    def _absorb(self, j):
        r = j.res
        c = self.cnt
        for k in ("paths", "instructions", "queries", "sat", "unsat", "forks", "int_proved"):
            c[k] += r.get(k, 0)
        c["kissat"] += r.get("sat_solver_queries", 0)
        c["solver_s"] += r.get("solver_s", 0)
        nd = r.get("deferred", 0)
        c["obligations"] += r.get("checks", 0)
        c["discharged"] += r.get("proved", 0) + r.get("trivial", 0)
        for f in r.get("functions", {}):
            if "::" in f and not f.startswith("std::"):
                self.functions.add(f)
        if r.get("status") not in ("ok",):
            self.undecided.append((j.label, "%s %s" % (r.get("status"), "; ".join(r.get("errors", []))[:600])))
        if r.get("unknown", 0):
            self.undecided.append((j.label, "%d queries undecided by the solvers" % r["unknown"]))
        if r.get("status") == "ok" and r.get("checks", 0) == 0 and not j.decide:
            self.undecided.append((j.label, "vacuous: no obligation reached"))
        for v in r.get("violations", []):
            self._violation(j, v.get("kind", "check"), v.get("msg", ""), v.get("model", {}))
        if j.decided is not None:
            d = j.decided
            c["algebraic"] += d.get("n", 0)
            c["obligations"] += max(0, d.get("n", 0) - nd)
            c["discharged"] += d.get("proved", 0)
            c["queries"] += d.get("queries", 0)
            c["solver_s"] += d.get("solver_s", 0)
            for m in d.get("unknown", []):
                self.undecided.append((j.label, str(m)[:600]))
            for kind, msg, model in d.get("viol", []):
                self._violation(j, kind, msg, model)
            if d.get("n", 0) == 0 and r.get("checks", 0) == 0:
                self.undecided.append((j.label, "vacuous: no obligation reached"))
        elif nd and r.get("status") == "ok":
            self.undecided.append((j.label, "%d obligations deferred without a decider" % nd))
        if getattr(j, "nerr", None):
            self.undecided.append((j.label, "no native build: " + j.nerr[:400]))
        for rc, out, seed in getattr(j, "rnd", []):
            if rc in (0, 1, 77):
                c["native"] += rc == 0
            if rc in (1, 77):
                self._add_violation(j, "native", out.strip()[:300], {}, ["--random=%d" % seed], out)
        if len(self.samples) < 12:
            self.samples.append(dict(entry=j.label, harness=j.harness, paths=r.get("paths"), checks=r.get("checks"),
                                     queries=r.get("queries"), unsat=r.get("unsat"),
                                     solver_s=round(r.get("solver_s", 0), 3), wall_s=round(j.wall, 2),
                                     deferred_to_algebra=(j.decided or {}).get("n")))

    def _violation(self, j, kind, msg, model):
        n = len(self.violations) + len(self.unrepro) + len(self.known)
        if n > 12:
            return
        if not isinstance(model, dict):
            model = {}
        mf = os.path.join(self.dir, "model%d_%d" % (n, threading.get_ident() % 1000))
        with open(mf, "w") as f:
            for k, v in model.items():
                f.write("%s %s\n" % (k, v))
        rc, out = self.run_native(j, mf)
        if rc in (1, 77) or (rc is not None and rc < -1):
            self._add_violation(j, kind, msg, model, [], out)
        else:
            self.unrepro.append((j.label, kind, msg, "native rc=%s %s" % (rc, (out or "")[:200])))

    def _add_violation(self, j, kind, msg, model, extra, out):
        if len(self.violations) >= 12:
            return
        kf = self.match_known(j, kind, msg, model, out)
        if kf:
            self.known.append(kf)
            return
        n = len(self.violations) + 1
        os.makedirs(self.replaydir, exist_ok=True)
        base = os.path.join(self.replaydir, "%s-%d" % (self.pid, n))
        with open(base + ".model", "w") as f:
            for k, v in model.items():
                f.write("%s %s\n" % (k, v))
        h = self.h[j.harness]
        with open(base + ".sh", "w") as f:
            f.write("#!/bin/bash\n# %s %s: %s\n# native output: %s\n" % (self.pid, j.label, msg.replace("\n", " ")[:300],
                                                                      out.replace("\n", " ")[:400]))
            f.write("set -e\nT=$(mktemp -d)\n")
            f.write(" ".join([CLANG, "-std=c++20 -O1 -g0 -ffp-contract=off -rdynamic"] + self.incs(True) +
                             ["'-D%s'" % d for d in h["defs"]] +
                             ["-fsanitize=address,undefined -fno-sanitize-recover=all",
                              os.path.join(ROOT, "harness", "native.cpp"), h["src"], "-o $T/x -ldl -lgmpxx -lgmp"]) + "\n")
            if j.phase:
                with open(base + ".names", "w") as g:
                    g.write("\n".join(self.statics(j)[1]) + "\n")
                f.write("nm -S $T/x | awk '%s' %s - > $T/r\n" % (self.AWK, base + ".names"))
                extra = list(extra) + ["--phase=%d" % j.phase, "--ranges=$T/r"]
            f.write("set +e\nASAN_OPTIONS=exitcode=77:detect_leaks=0 UBSAN_OPTIONS=exitcode=77 $T/x %s %s %s\nrc=$?\nrm -rf $T\nexit $rc\n" % (
                j.entry, base + ".model", " ".join(["%s=%s" % kv for kv in j.params.items()] + list(extra))))
        os.chmod(base + ".sh", 0o755)
        self.violations.append((base + ".sh", j.label, kind, msg, out.strip()[:300]))

    def match_known(self, j, kind, msg, model, out):
        p = os.path.join(ROOT, "known_findings.json")
        if not os.path.exists(p):
            return None
        for f in json.load(open(p)).get("findings", []):
            if f["property"] == self.pid and f["entry"] == j.entry and re.search(f["match"], msg + " " + out):
                return f
        return None

    # native search when the solver gave no answer
    def search(self, seconds=40):
        bad = {l for l, _ in self.undecided} | {u[0] for u in self.unrepro}
        todo = [j for j in self.jobs if j.label in bad]
        if not todo or self.violations:
            return
        per = max(2.0, seconds / len(todo))

        def one(j):
            t = time.time()
            i = 0
            while time.time() - t < per and not self.violations:
                rc, out = self.run_native(j, "/dev/null", ["--random=%d" % (self.seed * 7777 + i)], san=(i % 4 == 0))
                i += 1
                if rc is None:
                    return
                if rc in (1, 77) and not j.fp:
                    with self.lock:
                        self._add_violation(j, "native search", out.strip()[:300], {},
                                            ["--random=%d" % (self.seed * 7777 + i - 1)], out)
                    return
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, todo[:24]))

    def finish(self, level="model_checking"):
        if self.undecided or self.unrepro:
            self.search()
        wall = time.time() - self.t0
        c = self.cnt
        cov = dict(states=c["paths"] + c["forks"], transitions=c["instructions"],
                   traces_validated_against_impl=c["native"], samples=self.samples or ["none"],
                   functions_encoded=sorted(self.functions)[:400], bounds=self.bounds,
                   paths=c["paths"], obligations=c["obligations"], discharged=c["discharged"],
                   obligations_decided_algebraically=c["algebraic"],
                   solver_queries=c["queries"], sat=c["sat"], unsat=c["unsat"],
                   lia_proofs=c["int_proved"], cnf_queries=c["kissat"], solver_s=round(c["solver_s"], 2),
                   undecided=[list(u) for u in self.undecided][:40],
                   unreproduced=[list(u) for u in self.unrepro][:20],
                   jobs=len(self.jobs), notes=self.notes,
                   meaning="states: symbolic paths and fork points; transitions: IR instructions executed symbolically; "
                           "traces: native runs of the same harness on concrete inputs that agreed")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assume, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for u in self.unrepro[:8]:
            print("UNREPRODUCED %s: %s %s (%s)" % u)
        for u in self.undecided[:12]:
            print("UNDECIDED %s: %s" % u)
        seen = set()
        for k in self.known:
            if k["id"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                seen.add(k["id"])
        for v in self.violations[:4]:
            print(("  %s: %s: %s | %s" % (v[1], v[2], v[3], v[4])).replace("\n", " ")[:300])
        print("%s %s: %d jobs, %d paths, %d obligations (%d discharged, %d by algebra), %d queries, %.1f s solver, %d native traces, %.1f s" % (
            self.pid, self.tier, len(self.jobs), c["paths"], c["obligations"], c["discharged"], c["algebraic"], c["queries"],
            c["solver_s"], c["native"], wall))
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][0]))
            sys.stdout.flush()
            os._exit(1)
        sys.stdout.flush()
        os._exit(0)
