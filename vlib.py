"""Shared machinery of the checks: builds the harness from /repo, runs TLC, reports."""
import itertools, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Ctx:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bin = None
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.counter = itertools.count(1)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    def fresh(self, ext):
        return self.path("f%d.%s" % (next(self.counter), ext))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- harness ------------------------------------------------------------------------------
    def build(self):
        if self.bin:
            return self.bin
        mod = self.path("go.mod")
        with open(os.path.join(VERIF, "harness", "go.mod")) as f:
            s = f.read()
        with open(mod, "w") as f:
            f.write(re.sub(r"=> \S+", "=> " + REPO, s))
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), self.path("go.sum"))
        out = self.path("harness")
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
        r = subprocess.run(["go", "build", "-modfile", mod, "-o", out, "."],
                           cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("the harness doesn't build:\n" + r.stdout + r.stderr)
        self.bin = out
        self.log("harness built")
        return out

    def record(self, cmd, timeout=600, **args):
        """Runs the real code; returns the file with the recorded traces and the statistics."""
        out = self.fresh("ndjson")
        argv = [self.build(), cmd, "-out", out]
        for k, v in args.items():
            argv += ["-" + k, str(v)]
        env = dict(os.environ, GOTRACEBACK="all")
        try:
            r = subprocess.run(argv, cwd=self.work, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s timed out" % argv[1:])
        if r.returncode:
            txt = r.stderr
            if r.returncode == 2 and ("github.com/RH12503/Triangula/" in txt) and "harness error" not in txt:
                # The library crashed the process in a way that can't be recovered from
                self.violation("the library crashed the process while driven by '%s'" % " ".join(argv[1:]),
                               {"argv": argv[1:], "stderr": txt[-6000:]})
            if r.returncode == 1 and "harness error" not in txt and shutil.disk_usage(self.work).free > 1 << 27:
                # The harness itself ends with another status
                self.violation("the library ended the process while driven by '%s'" % " ".join(argv[1:]),
                               {"argv": argv[1:], "stderr": txt[-6000:]})
            raise CheckError("harness %s failed (%d): %s" % (argv[1:], r.returncode, txt[-3000:]))
        st = {}
        if os.path.exists(out + ".stats"):
            st = json.load(open(out + ".stats"))
        for k, v in st.items():
            self.notes[cmd + "." + k] = self.notes.get(cmd + "." + k, 0) + v
        return out, st

    def record_many(self, cmd, jobs, par=4, timeout=900):
        """Several recordings in parallel, concatenated."""
        self.build()
        with cf.ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.record, cmd, timeout, **j) for j in jobs]
            cf.wait(fs)
        outs, total = [], {}
        for f in fs:
            fn, st = f.result()
            outs.append(fn)
            for k, v in st.items():
                total[k] = total.get(k, 0) + v
        out = self.fresh("ndjson")
        with open(out, "wb") as w:
            for fn in outs:
                with open(fn, "rb") as r:
                    shutil.copyfileobj(r, w)
                os.remove(fn)
        return out, total

    # ---- TLC ----------------------------------------------------------------------------------
    def tlc(self, module, cfg, workers=NCPU, env=None, extra=(), timeout=3000, heap=None):
        meta = self.fresh("meta")
        cfgfile = self.fresh("cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e["JDK_JAVA_OPTIONS"] = "-Xss64m -Xmx%s -Djava.io.tmpdir=%s" % (heap or ("3g" if workers < 4 else "8g"), self.work)
        argv = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
                "-config", cfgfile] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(argv, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def design(self, module, name, consts, invariants, properties=(), spec="Spec", overrides=(),
               symmetry=None, timeout=3000, constraint=None, deadlock=False):
        """Explores the specification exhaustively; an error is one of the specification."""
        cfg = ["SPECIFICATION " + spec]
        if consts or overrides:
            cfg.append("CONSTANTS")
            cfg += ["  %s = %s" % kv for kv in consts.items()]
            cfg += ["  %s <- %s" % kv for kv in overrides]
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        for p in properties:
            cfg.append("PROPERTY " + p)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if not deadlock:
            cfg.append("CHECK_DEADLOCK FALSE")
        t = time.time()
        rc, out = self.tlc(module, "\n".join(cfg) + "\n", timeout=timeout)
        if rc or "Model checking completed. No error has been found" not in out:
            raise CheckError("the specification %s (%s) violates its properties:\n%s" % (module, name, out[-4000:]))
        g, d = self.counts(out)
        self.states += d
        self.transitions += g
        self.notes.setdefault("design", []).append(
            {"module": module, "config": name, "states": d, "transitions": g, "s": round(time.time() - t, 1)})
        self.log("design %s %s: %d states" % (module, name, d))

    def expect_error(self, module, name, consts, invariants, properties=(), spec="Spec"):
        """A deliberately broken design must be rejected (the properties aren't vacuous)."""
        cfg = ["SPECIFICATION " + spec, "CONSTANTS"] + ["  %s = %s" % kv for kv in consts.items()]
        cfg.append("INVARIANTS " + " ".join(invariants))
        for p in properties:
            cfg.append("PROPERTY " + p)
        cfg.append("CHECK_DEADLOCK FALSE")
        rc, out = self.tlc(module, "\n".join(cfg) + "\n")
        if "is violated" not in out:
            raise CheckError("the broken design %s (%s) isn't rejected:\n%s" % (module, name, out[-3000:]))
        self.notes.setdefault("broken_designs_rejected", []).append(name)
        self.log("broken design %s rejected" % name)

    def validate(self, module, trace, prop=None, env=None, shards=None, timeout=3000, what="", count=True):
        """TLC decides whether the recorded traces are behaviours that the specification allows."""
        prop = prop or self.prop
        with open(trace) as f:
            lines = f.readlines()
        if not lines:
            return
        size = sum(map(len, lines))
        if shards is None:
            shards = 1 if len(lines) < 8 or size < 400000 else min(NCPU, max(2, size // 400000))
        shards = min(shards, len(lines))
        # Deal the traces out evenly by size
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        parts = [[] for _ in range(shards)]
        load = [0] * shards
        for i in order:
            k = load.index(min(load))
            parts[k].append(i)
            load[k] += len(lines[i])
        files = []
        for part in parts:
            fn = self.fresh("ndjson")
            with open(fn, "w") as f:
                f.writelines(lines[i] for i in sorted(part))
            files.append((fn, sorted(part)))
        workers = max(1, NCPU // shards)
        t = time.time()
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda f: self.check_file(module, f[0], prop, env, workers, timeout), files))
        errors = []
        for (fn, part), (kind, out, tid) in zip(files, res):
            if kind == "violation":
                i = part[tid - 1]
                self.reject(module, lines[i], prop, env, out)
            elif kind == "error":
                errors.append(out)
        if errors:
            raise CheckError("TLC failed on recorded traces (%s):\n%s" % (module, errors[0][-3500:]))
        for kind, out, _ in res:
            g, d = self.counts(out)
            self.states += d
            self.transitions += g
        if count:
            self.traces += len(lines)
        if len(self.samples) < 4:
            for i in (0, len(lines) // 2):
                s = lines[i]
                self.samples.append({"spec": module, "trace": s if len(s) < 1500 else s[:1500] + "..."})
        self.notes.setdefault("validated", []).append(
            {"spec": module, "what": what, "traces": len(lines), "s": round(time.time() - t, 1)})
        self.log("%s: %d traces %s accepted (%.1fs)" % (module, len(lines), what, time.time() - t))

    TRACE_CFG = "SPECIFICATION Spec\nINVARIANT NoViolation\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

    def check_file(self, module, fn, prop, env, workers, timeout):
        e = {"TRACE": fn, "PROP": prop}
        e.update(env or {})
        try:
            rc, out = self.tlc(module, self.TRACE_CFG, workers=workers, env=e, timeout=timeout)
        except CheckError as x:
            return "error", str(x), None
        if "Invariant NoViolation is violated" in out:
            m = re.findall(r"tid = (\d+)", out)
            if m:
                return "violation", out, int(m[-1])
            return "error", out, None
        if rc or "Model checking completed. No error has been found" not in out:
            return "error", out, None
        return "ok", out, None

    def reject(self, module, line, prop, env, out):
        """Confirms a rejected trace on its own and reports it."""
        fn = self.fresh("ndjson")
        with open(fn, "w") as f:
            f.write(line)
        kind, out2, _ = self.check_file(module, fn, prop, env, 1, 600)
        if kind != "violation":
            raise CheckError("a rejected trace was accepted on its own:\n" + out[-3000:])
        tr = json.loads(line)
        self.violation("%s rejects a recorded trace" % module,
                       {"spec": module, "env": env or {}, "trace": tr, "scenario": tr.get("sc"),
                        "tlc": out2[-5000:]})

    def violation(self, what, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, os.getpid()))
        data = dict(data, property=self.prop, seed=self.seed, tier=self.tier, what=what)
        with open(fn, "w") as f:
            json.dump(data, f, indent=1)
        raise Violation(what, fn)

    # ---- evidence -----------------------------------------------------------------------------
    def evidence(self, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6] or ["none"],
               "detail": self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
