"""Machinery shared by all checks: runs TLC, the conformance drivers and collects verdicts.

Only the standard library is used here; the code under test runs in driver
processes (/opt/venv/bin/python, importing emlp from /repo)."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
        self.replay_dir = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.lock = threading.Lock()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        model_runs=[], events={}, behaviours_generated=0, trace_states=0)
        self.violations = []
        self.assumptions = []
        self.known = load_known()
        self.nworkers = int(os.environ.get("VERIF_JOBS", "8"))

    # ---- TLC -----------------------------------------------------------
    def tlc(self, spec, cfg, env=None, args=(), timeout=600, mem="2g", workers=1):
        meta = tempfile.mkdtemp(prefix="meta", dir=self.scratch)
        cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
               "-config", cfg, "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta,
               *args, spec]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s %s" % (spec, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def stats(out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            return int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        return (int(m.group(1)), 0) if m else (0, 0)

    def model_check(self, spec, cfg, expect_violation=None, timeout=600, workers=1, mem="2g", env=None):
        """Exhaustive exploration of the design model. expect_violation names an invariant that a
        deliberately broken variant of the model must violate (non-vacuity)."""
        rc, out = self.tlc(spec, cfg, timeout=timeout, workers=workers, mem=mem, env=env)
        gen, dist = self.stats(out)
        if expect_violation:
            ok = ("Invariant %s is violated" % expect_violation) in out or ("%s is violated" % expect_violation) in out
        else:
            ok = "Model checking completed. No error has been found" in out
        if not ok:
            raise MachineryError("model %s/%s: unexpected outcome\n%s" % (spec, cfg, out[-3000:]))
        with self.lock:
            if not expect_violation:
                self.cov["states"] += dist
                self.cov["transitions"] += gen
            self.cov["model_runs"].append(dict(spec=spec, cfg=cfg, states=dist, transitions=gen,
                                               expected_violation=expect_violation or ""))

    def simulate(self, spec, cfg, num, depth, seed, env=None, timeout=300):
        """Behaviours of a generator specification (TLC -simulate), one JSON value per walk."""
        fd, out = tempfile.mkstemp(prefix="gen", suffix=".json", dir=self.scratch)
        os.close(fd)
        os.unlink(out)
        e = dict(env or {})
        e["OUT"] = out
        rc, txt = self.tlc(spec, cfg, env=e, args=["-simulate", "num=%d" % num, "-depth", str(depth),
                                                   "-seed", str(seed)], timeout=timeout)
        if not os.path.exists(out):
            raise MachineryError("no behaviours from %s/%s\n%s" % (spec, cfg, txt[-3000:]))
        if "Error:" in txt:
            raise MachineryError("generator %s/%s failed\n%s" % (spec, cfg, txt[-3000:]))
        res = []
        for line in open(out):
            v = json.loads(line)
            res.append(json.loads(v) if isinstance(v, str) else v)
        gen, _ = self.stats(txt)
        with self.lock:
            self.cov["transitions"] += gen
            self.cov["behaviours_generated"] += len(res)
        return res

    # ---- driver --------------------------------------------------------
    def drive(self, driver, plan, hashseed=0, timeout=600, env=None):
        fd, pf = tempfile.mkstemp(prefix="plan", suffix=".json", dir=self.scratch)
        with os.fdopen(fd, "w") as f:
            json.dump(plan, f)
        of = pf[:-5] + ".ndjson"
        work = tempfile.mkdtemp(prefix="work", dir=self.scratch)
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "HOME", "TMPDIR", "VERIF_TIER", "VERIF_SEED")}
        e.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed % 4294967296),
                 MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true",
                 PYTHONPATH=REPO + ":" + HARNESS, VP_REPO=REPO, TQDM_DISABLE="1", HOME=work)
        e.update(env or {})
        log = open(pf[:-5] + ".log", "w")
        try:
            p = subprocess.run([PY, os.path.join(HARNESS, driver), pf, of], cwd=work, env=e, stdout=log,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("driver %s timed out: %s" % (driver, open(pf[:-5] + ".log").read()[-2000:]))
        finally:
            log.close()
            shutil.rmtree(work, ignore_errors=True)
        if p.returncode != 0:
            raise MachineryError("driver %s exited with %d:\n%s" % (driver, p.returncode,
                                                                    open(pf[:-5] + ".log").read()[-3000:]))
        return of

    # ---- trace validation ----------------------------------------------
    def validate(self, spec, cfg, tracefile, meta=None, env=None, timeout=600, mem="3g"):
        """Check a recorded trace against the specification.  Every event gets a verdict: the trace
        specification prints <<"REJECT", event number, clause>> for each violated clause and <<"DONE", n>>."""
        n = sum(1 for _ in open(tracefile))
        if n == 0:
            raise MachineryError("empty trace")
        e = dict(env or {})
        e["TRACE"] = tracefile
        rc, out = self.tlc(spec, cfg, env=e, timeout=timeout, mem=mem)
        rej = []
        flat = re.sub(r"\s+", " ", out)
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*"([^"]*)"\s*>>', flat):
            rej.append((int(m.group(1)), m.group(2)))
        done = re.search(r'<<\s*"DONE",\s*(\d+)\s*>>', flat)
        at = [int(x) for x in re.findall(r'<<\s*"AT",\s*(\d+)\s*>>', flat)]
        if not done:
            if "Error:" in out and at and not re.search("OutOfMemory|StackOverflow|Parsing or semantic|parse", out):
                # the recorded value is not even of the shape the specification talks about
                k = max(at) + 1
                rej.append((min(k, n), "malformed observation"))
                err = re.search(r"Error:.*", out, re.S)
                sys.stderr.write("TLC on event %d: %s\n" % (k, err.group(0)[:1500] if err else ""))
            else:
                raise MachineryError("trace spec %s/%s failed:\n%s" % (spec, cfg, out[-4000:]))
        elif int(done.group(1)) != n:
            raise MachineryError("trace spec %s consumed %s of %d events" % (spec, done.group(1), n))
        gen, dist = self.stats(out)
        with self.lock:
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["trace_states"] += dist
        rej = sorted(set(rej))
        self.record(tracefile, rej, spec, cfg)
        return rej

    def record(self, tracefile, rej, spec, cfg):
        evs = [json.loads(l) for l in open(tracefile)]
        with self.lock:
            if not rej:
                self.cov["traces_validated_against_impl"] += sum(1 for e in evs if e.get("e") == "reset") or 1
            for e in evs:
                k = e.get("e", "?")
                self.cov["events"][k] = self.cov["events"].get(k, 0) + 1
            if len(self.cov["samples"]) < 3:
                body = [e for e in evs if len(json.dumps(e)) < 1500][:6]
                self.cov["samples"].append(body)
            if rej:
                os.makedirs(self.replay_dir, exist_ok=True)
                h = hashlib.sha1(open(tracefile, "rb").read()).hexdigest()[:10]
                dst = os.path.join(self.replay_dir, "trace-%s.ndjson" % h)
                shutil.copy(tracefile, dst)
                with open(os.path.join(self.replay_dir, "reject-%s.txt" % h), "w") as f:
                    f.write("validate with spec %s config %s\n" % (spec, cfg))
                    for k, c in rej:
                        ev = evs[k - 1] if 0 < k <= len(evs) else {}
                        f.write("event %d: %s\n   %s\n" % (k, c, json.dumps(ev)[:3000]))
                for k, c in rej:
                    ev = evs[k - 1] if 0 < k <= len(evs) else {}
                    key = "%s %s" % (c, ev.get("key", ""))
                    self.violations.append(dict(clause=c, event=k, key=key, replay=dst))

    # ---- running -------------------------------------------------------
    def parallel(self, jobs):
        """jobs: list of zero-argument callables. Machinery errors are raised after all have ended."""
        errs = []
        with concurrent.futures.ThreadPoolExecutor(self.nworkers) as ex:
            futs = [ex.submit(j) for j in jobs]
            for f in futs:
                try:
                    f.result()
                except Exception as e:  # noqa
                    errs.append(e)
        if errs:
            self.errors = errs

    errors = ()

    def finish(self):
        viol, shown = [], set()
        for v in self.violations:
            k = [f for f in self.known if f["property"] == self.pid and f["match"] in v["key"]]
            if k:
                if k[0]["text"] not in shown:
                    shown.add(k[0]["text"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k[0]["text"]))
            else:
                viol.append(v)
        if self.errors and not viol:
            for e in self.errors:
                sys.stderr.write("ERROR: %s\n" % e)
            self.cleanup()
            sys.exit(2)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        c = self.cov
        print("%s %s: %d model/trace states, %d transitions, %d behaviours validated, events %s, %.0fs" % (
            self.pid, self.tier, c["states"], c["transitions"], c["traces_validated_against_impl"],
            c["events"], time.time() - self.t0))
        if viol:
            seen = {}
            for v in viol:
                seen.setdefault(v["clause"], v)
            for v in list(seen.values())[:20]:
                print("  clause violated: %s (event %d) %s" % (v["clause"], v["event"], v["key"][:200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, viol[0]["replay"]))
            sys.exit(1)
        sys.exit(0)

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.scratch, ignore_errors=True)


def load_known():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=\[(.*?)\] (.*)", l.strip())
            if m:
                res.append(dict(property=m.group(1), match=m.group(2), text=m.group(3)))
    return res
