"""Common runner: builds a driver against /repo's working tree, runs it, lets TLC decide.

Outcome: exit 0 (held), 1 (VIOLATION lines printed), 2 (error of the check itself).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    pass


class Runner:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.B = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "design_models": [], "trace_specs": [], "trace_events": 0}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.errors = []
        self.findings = [f for f in load_findings() if f.get("property") == prop and f.get("status") == "known"]
        self.env = None
        self.replaydir = os.path.join(VERIF, "evidence", "replays")

    # ---- processes -------------------------------------------------------------------------
    def sh(self, cmd, timeout, cwd=None, env=None, check=True, out=None):
        p = subprocess.run(cmd, cwd=cwd, env=env or self.env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if check and p.returncode != 0:
            raise CheckError("command failed (%d): %s\n%s" % (p.returncode, cmd, p.stdout[-4000:]))
        return p

    def prepare(self):
        script = '. %s/lib/env.sh; B=%s; prepare_build >&2 || exit 1; env -0' % (VERIF, self.B)
        p = subprocess.run(["bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env={**os.environ, "VERIF": VERIF, "REPO": REPO})
        if p.returncode != 0:
            raise CheckError("prepare_build failed: " + p.stderr.decode(errors="replace")[-3000:])
        self.env = dict(x.split("=", 1) for x in p.stdout.decode().split("\0") if "=" in x)

    def build(self, pkg, test=False, tags="verif"):
        """Build driver zzverif/<pkg>; returns binary path."""
        if self.env is None:
            self.prepare()
        out = os.path.join(self.B, pkg.replace("/", "_"))
        if test:
            cmd = ["go", "test", "-c", "-vet=off", "-tags", tags, "-o", out, "./" + pkg]
        else:
            cmd = ["go", "build", "-tags", tags, "-o", out, "./zzverif/" + pkg]
        self.sh(cmd, 600, cwd=REPO)
        return out

    # ---- drivers ---------------------------------------------------------------------------
    def drive(self, binary, name, args=(), chunks=8, timeout=300, env=None):
        """Run a driver; returns list of trace files. A crash of the code under test becomes a Crash event."""
        d = os.path.join(self.B, "tr-" + name)
        os.makedirs(d)
        e = dict(self.env)
        e.update({"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier, "TRACE_DIR": d,
                  "TRACE_CHUNKS": str(chunks), "SCRATCH": os.path.join(self.B, "scratch-" + name)})
        os.makedirs(e["SCRATCH"], exist_ok=True)
        e.update(env or {})
        log = os.path.join(self.B, name + ".log")
        with open(log, "wb") as f:
            try:
                p = subprocess.run([binary, *map(str, args)], env=e, cwd=e["SCRATCH"], timeout=timeout,
                                   stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("driver %s timed out\n%s" % (name, tail(log)))
        if rc != 0:
            txt = open(log, errors="replace").read()
            cur = os.path.join(d, "current")
            if (("panic:" in txt or "fatal error:" in txt) and os.path.exists(cur) and crash_in_code(txt)):
                chunk = open(cur).read().split()[0]
                with open(os.path.join(d, chunk), "a") as f:
                    if not os.path.getsize(os.path.join(d, chunk)) and os.path.exists(os.path.join(d, "begin0")):
                        f.write(open(os.path.join(d, "begin0")).read())
                    f.write(json.dumps({"ev": "Crash", "what": crash_head(txt)}) + "\n")
                print("NOTE driver %s: the code under test crashed: %s" % (name, crash_head(txt)))
            else:
                raise CheckError("driver %s failed (%d)\n%s" % (name, rc, txt[-4000:]))
        return sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith(".ndjson"))

    # ---- TLC -------------------------------------------------------------------------------
    def tlc(self, module, cfg, timeout, workers=1, env=None, heap="3g", extra=(), dfs=False):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.B)
        e = dict(self.env)
        e.update(env or {})
        jopts = ["-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m"]
        if dfs:
            jopts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cp = JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar")
        jars = [os.path.join(os.path.dirname(JAR), x) for x in os.listdir(os.path.dirname(JAR)) if x.endswith(".jar")]
        cp = ":".join([JAR] + [j for j in jars if j != JAR])
        for f in os.listdir(SPECS):      # private copy: TLC writes next to the spec
            if f.endswith((".tla", ".cfg")):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        if isinstance(cfg, tuple):
            with open(os.path.join(d, cfg[0]), "w") as f:
                f.write(cfg[1])
            cfg = cfg[0]
        cmd = ["java", *jopts, "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "m"),
               "-noGenerateSpecTE", *extra, "-config", cfg, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out: %s %s" % (module, cfg))
        finally:
            shutil.rmtree(os.path.join(d, "m"), ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return p.returncode, p.stdout, gen, dist, d

    def design(self, module, cfg=None, timeout=400, workers=4, expect_ok=True, heap="6g", consts="", extra=()):
        """Exhaustive check of the design model. A violation of the design is an error of the check."""
        if cfg is None and self.tier == "thorough" and os.path.exists(os.path.join(SPECS, module + "Thorough.cfg")):
            cfg, workers, heap = module + "Thorough.cfg", 8, "16g"
        cfg = cfg or module + ".cfg"
        rc, out, gen, dist, d = self.tlc(module, cfg, timeout, workers=workers, heap=heap, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("design model %s/%s: TLC rc=%d\n%s" % (module, cfg, rc, out[-3500:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["design_models"].append({"module": module, "config": cfg if isinstance(cfg, str) else cfg[0], "distinct_states": dist,
                                          "states_generated": gen, "exhaustive": "-simulate" not in extra})
        return out, d

    def start(self, fn, *a, **kw):
        """Run a stage next to the following ones; join() waits for it."""
        if not hasattr(self, "pool"):
            self.pool, self.bg = cf.ThreadPoolExecutor(max_workers=8), []
        f = self.pool.submit(fn, *a, **kw)
        self.bg.append(f)
        return f

    def join(self):
        for f in getattr(self, "bg", []):
            f.result()
        self.bg = []

    def validate(self, files, module, cfg=None, timeout=600, jobs=8, dfs=False, max_viol=2, heap="2g", env=None):
        """Trace validation of every trace in every file."""
        cfg = cfg or module + ".cfg"
        stats = {"spec": module, "traces": 0, "events": 0, "states": 0}

        def one(path):
            return self._validate_file(path, module, cfg, timeout, dfs, heap, env, max_viol)
        files = [f for f in files if os.path.getsize(f) > 0]
        if not files:
            raise CheckError("no traces for " + module)
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            for path, res in zip(files, ex.map(one, files)):
                stats["traces"] += res["accepted"]
                stats["events"] += res["events"]
                stats["states"] += res["states"]
                self.cov["states"] += res["states"]
                self.cov["transitions"] += res["gen"]
                for bad in res["rejected"]:
                    self._report(bad, module)
                if res["sample"] and len(self.cov["samples"]) < 4:
                    self.cov["samples"].append(res["sample"])
        self.cov["traces_validated_against_impl"] += stats["traces"]
        self.cov["trace_events"] += stats["events"]
        self.cov["trace_specs"].append(stats)
        if stats["traces"] == 0 and not self.violations:
            raise CheckError("no trace accepted by " + module)

    def _validate_file(self, path, module, cfg, timeout, dfs, heap, env, max_viol):
        lines = open(path).read().splitlines()
        res = {"accepted": 0, "events": 0, "states": 0, "gen": 0, "rejected": [], "sample": None}
        starts = [i for i, s in enumerate(lines) if '"ev":"Begin"' in s]
        if not lines:
            return res
        if not starts or starts[0] != 0:
            raise CheckError("trace file %s does not start with Begin" % path)
        begin = 0
        k = 0
        while begin < len(lines):
            cur = path if begin == 0 else path + ".rest%d" % k
            k += 1
            if begin:
                with open(cur, "w") as f:
                    f.write("\n".join(lines[begin:]) + "\n")
            e = {"TRACE": cur}
            e.update(env or {})
            rc, out, gen, dist, d = self.tlc(module, cfg, timeout, env=e, dfs=dfs, heap=heap)
            n = len(lines) - begin
            res["states"] += dist
            res["gen"] += gen
            matched = tlc_matched(out)
            if matched is None:
                raise CheckError("trace validation %s on %s: TLC rc=%d\n%s" % (module, path, rc, out[-3500:]))
            sub = [s for s in starts if s >= begin]
            if matched >= n:
                res["accepted"] += len(sub)
                res["events"] += n
                if "No error has been found" not in out:
                    raise CheckError("TLC: all lines matched but an error: %s" % out[-2500:])
                break
            bad = begin + matched  # index of the first line not explained
            ti = max(i for i, s in enumerate(starts) if s <= bad)
            tstart = starts[ti]
            tend = starts[ti + 1] if ti + 1 < len(starts) else len(lines)
            res["accepted"] += sum(1 for s in sub if s < tstart)
            res["events"] += bad - begin
            inv = re.search(r"Invariant (\S+) is violated", out)
            res["rejected"].append({"lines": lines[tstart:tend], "at": bad - tstart, "spec": module,
                                    "why": ("invariant " + inv.group(1)) if inv else "no action of the specification explains this event"})
            if len(res["rejected"]) >= max_viol:
                break
            begin = tend
        if starts and res["accepted"]:
            end = starts[1] if len(starts) > 1 else len(lines)
            res["sample"] = {"spec": module, "trace": [json.loads(x) for x in lines[:min(end, 6)]], "length": end}
        return res

    def _report(self, bad, module):
        os.makedirs(self.replaydir, exist_ok=True)
        begin = json.loads(bad["lines"][0])
        evt = bad["lines"][bad["at"]]
        for f in self.findings:
            if f.get("spec") in (None, module) and finding_matches(f, begin, json.loads(evt)):
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, f["what"])
                if line not in self.known:
                    self.known.append(line)
                return
        h = hashlib.sha1("\n".join(bad["lines"][:bad["at"] + 1]).encode()).hexdigest()[:10]
        p = os.path.join(self.replaydir, "%s-%s.ndjson" % (self.prop, h))
        with open(p, "w") as f:
            f.write("\n".join(bad["lines"]) + "\n")
        with open(p + ".txt", "w") as f:
            f.write("property %s, specification %s\n%s\nfirst rejected event (line %d): %s\nre-run: VERIF_SEED=%d VERIF_TIER=%s %s/bin/check %s\n"
                    % (self.prop, module, bad["why"], bad["at"] + 1, evt, self.seed, self.tier, VERIF, self.prop))
        self.violations.append({"replay": p, "spec": module, "why": bad["why"], "trace": begin, "event": evt[:600]})

    # ---- end -------------------------------------------------------------------------------
    def finish(self, level="model_checking"):
        try:
            self.join()
        except CheckError as e:
            if not self.violations:
                raise
            print("NOTE", e)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "known_findings_seen": self.known}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(k)
        for v in self.violations[:6]:
            print("  rejected by %s (%s): trace %s event %s" % (v["spec"], v["why"], json.dumps(v["trace"])[:300], v["event"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, v["replay"]))
        print("%s %s seed=%d: %d traces / %d events validated, %d states, %.1fs -> %s" % (
            self.prop, self.tier, self.seed, self.cov["traces_validated_against_impl"], self.cov["trace_events"],
            self.cov["states"], time.time() - self.t0, "VIOLATED" if self.violations else "held"))
        return 1 if self.violations else 0

    def cleanup(self):
        if os.environ.get("KEEP"):
            print("kept", self.B)
        else:
            shutil.rmtree(self.B, ignore_errors=True)


def tail(p):
    return open(p, errors="replace").read()[-3000:]


def crash_in_code(txt):
    """True when the topmost non-runtime frame of the crashing goroutine is code of the repository."""
    i = max(txt.find("panic:"), txt.find("fatal error:")) if txt.find("panic:") < 0 else txt.find("panic:")
    m = re.search(r"goroutine \d+ [^\n]*\[running[^\n]*\]:\n(.*?)(\n\n|\Z)", txt[i:], re.S)
    if not m:
        return False
    for fn in re.findall(r"^([A-Za-z0-9_./*()\[\]{}\-,]+)\(", m.group(1), re.M):
        if fn.startswith(("panic", "runtime.", "runtime/", "internal/", "sync", "testing")):
            continue
        if fn.startswith(("reduction.dev/reduction/zzverif/simfs", "reduction.dev/reduction/zzverif/fake")):
            continue   # simulated environment: judge by its caller
        if fn.startswith("reduction.dev/reduction/zzverif"):
            return False
        if fn.startswith("reduction.dev/reduction/"):
            return True
    return False


def crash_head(txt):
    m = re.search(r"(panic: |fatal error: )([^\n]*)", txt)
    return (m.group(1) + m.group(2))[:200] if m else "crash"


def tlc_matched(out):
    """Number of trace lines explained."""
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
    if m:
        return int(m.group(1))
    # an invariant stopped the run: the last state's l tells how far it got
    if re.search(r"Invariant \S+ is violated", out):
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M) or re.findall(r"^\s*l = (\d+)", out, re.M)
        if ls:
            return int(ls[-1]) - 2   # l points behind the offending line
    return None


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def finding_matches(f, begin, evt):
    m = f.get("match", {})
    for k, v in m.get("begin", {}).items():
        if begin.get(k) != v:
            return False
    for k, v in m.get("event", {}).items():
        if evt.get(k) != v:
            return False
    return bool(m)


def main(prop, fn):
    r = Runner(prop)
    try:
        fn(r)
        rc = r.finish()
    except CheckError as e:
        # verdicts already obtained from real executions stand even if a later stage failed
        if r.violations:
            rc = r.finish()
        else:
            print("ERROR:", e)
            rc = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        r.cleanup()
    sys.exit(rc)
