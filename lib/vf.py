"""Runner shared by all checks: builds drivers from /repo's working tree, runs
them on scripts, lets TLC validate the recorded traces and model check the
specifications, writes the evidence file and reports violations."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
DRV = os.path.join(ROOT, "drivers")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(1, min(8, os.cpu_count() or 1))


class Infra(Exception):
    """The check itself could not do its work: no verdict."""


class Stopped(Exception):
    """Given up, because a violation has been established meanwhile"""


def sh(cmd, timeout, env=None, stdin=None, stdout=None, cwd=None, stop=None):
    """Run a command. stop() is asked now and then whether to give up on it"""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, env=e, stdin=stdin, stdout=stdout or subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd)
    end = time.time() + timeout
    while True:
        try:
            o, er = p.communicate(timeout=min(1.0, max(0.01, end - time.time())))
            return p.returncode, (o or b"").decode("utf8", "replace"), \
                er.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            stopped = stop is not None and stop()
            if stopped or time.time() >= end:
                p.kill()
                p.communicate()
                return "stopped" if stopped else "timeout", "", ""


class TlcResult:
    def __init__(self, out):
        self.out = out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = "Model checking completed. No error has been found." in out \
            or "Simulation complete" in out
        self.infra = any(x in out for x in (
            "OutOfMemoryError", "StackOverflowError", "Parsing or semantic analysis failed",
            "Could not parse", "java.io.", "GC overhead", "Error: Could not",
            "TLC is running out of", "Unknown operator"))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.lock = threading.Lock()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "event_kinds": {}, "models": [],
                    "trace_specs": {}, "samples": []}
        self.assumptions = []
        self.violations = []
        self.n = 0
        self.bins = {}

    def over(self):
        """One violation settles the verdict: the rest need not be run"""
        return bool(self.violations) and not os.environ.get("VERIF_ALL")

    def more(self, quick, thorough):
        """How many scripts to record; VERIF_SCALE is there for experiments"""
        n = int(quick * float(os.environ.get("VERIF_SCALE", "2")))
        return n if self.quick else max(n, thorough)

    # -- building -----------------------------------------------------------
    def build(self, name, src, flags=(), opt="-O0", cxx="g++", std="17"):
        """Start building a driver; returns a future of the binary's path"""
        out = os.path.join(self.dir, name)
        cmd = [cxx, "-std=c++" + std, opt, "-w", "-I" + os.path.join(REPO, "include"),
               "-I" + DRV] + list(flags) + [os.path.join(DRV, src), "-o", out]
        libs = []
        if "-DWITH_GMP" in flags:
            libs += ["-lgmpxx", "-lgmp"]
        self.bins[out] = {"src": src, "flags": list(flags), "opt": opt}

        def job():
            rc, o, e = sh(cmd + libs, 600)
            if rc != 0:
                raise Infra("driver %s does not build:\n%s" % (name, e[-4000:]))
            return out
        return self.pool.submit(job)

    # -- TLC ----------------------------------------------------------------
    def fresh(self, tag):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%s-%d" % (tag, self.n))

    def tlc(self, module, cfg, env=None, workers=1, heap="1500m", timeout=800, args=()):
        meta = self.fresh("meta")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1
               else "-XX:+UseParallelGC"] + \
            (["-XX:TieredStopAtLevel=1"] if self.quick else []) + ["-Djava.io.tmpdir=" + self.dir, "-cp", JAR + ":" + CM, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", cfg] + list(args) + [module]
        if self.over():
            raise Stopped()
        rc, o, e = sh(cmd, timeout, env=env, cwd=SPEC, stop=self.over)
        shutil.rmtree(meta, ignore_errors=True)
        if rc == "stopped":
            raise Stopped()
        if rc == "timeout":
            raise Infra("TLC timed out on %s" % module)
        if rc < 0 or rc > 128 and rc != 255:
            raise Infra("TLC was ended (%d) on %s:\n%s" % (rc, module, (o + e)[-2000:]))
        r = TlcResult(o + e)
        r.rc = rc
        if r.infra:
            raise Infra("TLC failed on %s:\n%s" % (module, (o + e)[-3000:]))
        return r

    def cfg(self, lines):
        p = self.fresh("cfg") + ".cfg"
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    def model(self, module, consts, invariants=(), props=(), constraint=None, workers=2,
              min_states=2, label=None, timeout=800, extra=(), spec="Spec", heap="2g", view=None, env=None,
              violates=None):
        """Model check a specification (independent of the code under test). violates: an
        invariant that has to fail, because the specification describes a mistake"""
        lines = ["CONSTANTS"] + ["  " + c for c in consts] if consts else []
        lines += ["SPECIFICATION " + spec]
        if invariants:
            lines += ["INVARIANTS " + " ".join(invariants)]
        if props:
            lines += ["PROPERTIES " + " ".join(props)]
        if constraint:
            lines += ["CONSTRAINT " + constraint]
        if view:
            lines += ["VIEW " + view]
        lines += ["CHECK_DEADLOCK FALSE"]
        cfg = self.cfg(lines)

        def job():
            t = time.time()
            r = self.tlc(module, cfg, workers=workers, args=list(extra), timeout=timeout, heap=heap,
                         env=env)
            if violates:
                if "Invariant %s is violated" % violates not in r.out:
                    raise Infra("model %s %s does not violate %s:\n%s" % (
                        module, label, violates, r.out[-3000:]))
            elif not r.ok:
                raise Infra("model %s %s fails:\n%s" % (module, label, r.out[-4000:]))
            if r.distinct < min_states:
                raise Infra("model %s is vacuous: %d states" % (module, r.distinct))
            with self.lock:
                self.cov["states"] += r.distinct
                self.cov["transitions"] += r.generated
                self.cov["models"].append(
                    {"module": module, "label": label or "", "distinct_states": r.distinct,
                     "states_generated": r.generated, "depth": r.depth,
                     "invariants": list(invariants) + list(props),
                     "violated_as_expected": violates or "",
                     "wall_s": round(time.time() - t, 1)})
        return self.pool.submit(job)

    def behaviours(self, module, consts, num, depth, seed, marker="TRACE", timeout=300, workers=1,
                   spec="Spec"):
        """Behaviours of a specification chosen by TLC's simulator: the specification
        prints a JSON value after the marker when a behaviour is complete"""
        lines = ["CONSTANTS"] + ["  " + c for c in consts] if consts else []
        lines += ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE", "INVARIANT Emit"]
        cfg = self.cfg(lines)
        r = self.tlc(module, cfg, timeout=timeout, workers=workers,
                     args=["-simulate", "num=%d" % num, "-depth", str(depth),
                           "-seed", str(seed)])
        res = []
        for ln in r.out.splitlines():
            i = ln.find(marker + " ")
            if i >= 0:
                s = ln[i + len(marker) + 1:].strip()
                if s.endswith('"'):
                    s = s[:-1]
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                try:
                    res.append(json.loads(s))
                except ValueError:
                    pass
        with self.lock:
            self.cov["behaviours_generated_by_tlc"] = \
                self.cov.get("behaviours_generated_by_tlc", 0) + len(res)
        if not res:
            raise Infra("no behaviours from %s:\n%s" % (module, r.out[-3000:]))
        return res

    # -- conformance --------------------------------------------------------
    def record(self, binary, script, timeout=120, env=None):
        """Run a driver on a script. Returns (trace path, problem or None)"""
        base = self.fresh("run")
        with open(base + ".script", "w") as f:
            f.write(script)
        e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=6000",
             "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=0"}
        e.update(env or {})
        # a driver that consumes memory without bound is ended before the sandbox suffers
        san = any("address" in x or "thread" in x for x in self.bins.get(binary, {}).get("flags", ()))
        lim = "" if san else "ulimit -v 8000000; "
        if self.over():
            raise Stopped()
        with open(base + ".script") as fi, open(base + ".ndjson", "w") as fo:
            rc, _, err = sh(["bash", "-c", "ulimit -c 0; %sexec \"$0\"" % lim, binary], timeout,
                            env=e, stdin=fi, stdout=fo, stop=self.over)
        if rc == "stopped":
            raise Stopped()
        if rc == 0:
            return base + ".ndjson", None
        if rc == 3:
            raise Infra("driver rejected its script: " + err[-500:])
        if rc == "timeout":
            return base + ".ndjson", "does not terminate within %d s" % timeout
        return base + ".ndjson", "terminated abnormally (%s): %s" % (rc, err.strip()[:1500])

    def validate(self, module, cfg, trace, heap="1500m", timeout=800):
        """TLC decides whether a recorded trace is a behaviour of the specification.
        Returns None or a description of the rejection"""
        with open(trace) as f:
            lines = f.read().splitlines()
        nev = len(lines) - 1
        if nev < 1:
            return {"why": "the trace holds no events", "line": 1, "event": "",
                    "state": "", "tlc": ""}, 0
        r = self.tlc(module, os.path.join(SPEC, cfg), env={"TRACE": trace},
                     heap=heap, timeout=timeout)
        if r.ok and r.rc == 0:
            with self.lock:
                self.cov["states"] += r.distinct
                self.cov["transitions"] += r.generated
                self.cov["events_validated"] += nev
                d = self.cov["trace_specs"]
                d[module] = d.get(module, 0) + 1
                ks = self.cov["event_kinds"]
                for ln in lines[1:]:
                    m = re.match(r'\{"e":"(\w+)"', ln)
                    if m:
                        ks[m.group(1)] = ks.get(m.group(1), 0) + 1
            return None, nev
        if r.depth == 0 and "Initial predicate" not in r.out and \
           "PostCondition" not in r.out and "postcondition" not in r.out.lower() and \
           "initial state" not in r.out.lower():
            raise Infra("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
        d = max(r.depth, 1)
        bad = lines[d] if d < len(lines) else "(end of trace)"
        i = r.out.find("Error:")
        st = r.out.rfind("State %d:" % d)
        return {"why": "event %d of the trace is not allowed by %s" % (d, module),
                "line": d + 1, "event": bad[:6000],
                "state": r.out[st:st + 6000] if st >= 0 else "",
                "tlc": r.out[i:i + 1500] if i >= 0 else ""}, nev

    def conform(self, binary, module, cfg, script, label="", timeout=120, heap="1500m",
                env=None):
        """Record a trace and validate it; a rejection is reported only if a second
        recording of the same script is rejected as well"""
        info = None
        t0 = time.time()
        for attempt in (1, 2):
            trace, problem = self.record(binary, script, timeout, env)
            if problem:
                info = {"why": "the driver " + problem}
                with open(trace) as f:
                    ls = f.read().splitlines()
                info["last_event"] = ls[-1][:3000] if ls else ""
                if "ThreadSanitizer: data race" in problem:
                    break   # depends on time, but is never reported without a reason
            else:
                rej, nev = self.validate(module, cfg, trace, heap)
                if rej is None:
                    if attempt == 2:
                        if "event" in info:
                            # what has been recorded did happen, even if not every time
                            trace = first
                            break
                        raise Infra("not reproducible: " + json.dumps(info)[:2000])
                    with self.lock:
                        self.cov["traces_validated_against_impl"] += 1
                        if len(self.cov["samples"]) < 3:
                            with open(trace) as f:
                                ls = [x[:600] for x in f.read().splitlines()[:6]]
                            self.cov["samples"].append(
                                {"label": label, "script": script[:800], "trace": ls})
                    os.unlink(trace)
                    if os.environ.get("VERIF_VERBOSE"):
                        print("  %-40s %5d events %.1f s" % (label, nev, time.time() - t0))
                    return
                if info is None:
                    first = trace
                info = rej
        self.report(info, {"label": label, "script": script, "module": module, "cfg": cfg,
                           "driver": self.bins.get(binary, {}), "trace": trace})

    def report(self, info, data):
        with self.lock:
            k = len(self.violations) + 1
            self.violations.append(info["why"])
            if k > 3:
                return
            d = os.path.join(ROOT, "out")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, k))
            data = dict(data)
            tr = data.pop("trace", None)
            if tr and os.path.exists(tr):
                data["trace"] = open(tr).read().splitlines()[:4000]
            data["property"] = self.prop
            data["rejection"] = info
            with open(p, "w") as f:
                json.dump(data, f, indent=1)
            print("%s: %s" % (data.get("label", ""), info["why"]))
            for key in ("event", "last_event"):
                if info.get(key):
                    print("  " + info[key][:500])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()

    def jobs(self, fns):
        """Run functions in parallel, then propagate the first failure"""
        return [self.pool.submit(f) for f in fns]

    def wait(self, futures):
        err = None
        for f in futures:
            try:
                f.result()
            except Stopped:
                pass
            except Infra as e:
                err = err or e
        # a violation that has been established stands, whatever else failed
        if err and not self.violations:
            raise err

    # -- results ------------------------------------------------------------
    def finish(self, level="model_checking"):
        wall = time.time() - self.t0
        if not self.violations and self.cov["traces_validated_against_impl"] == 0:
            raise Infra("no trace has been validated")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 1), "violations": len(self.violations)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0


def main(argv):
    import importlib
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    c = Check(prop, tier, seed)
    rc = 2
    try:
        mod = importlib.import_module(prop)
        mod.run(c)
        rc = c.finish()
        if rc == 0:
            print("OK property=%s tier=%s: %d traces, %d events validated; %d models, "
                  "%d states in all; %.1f s" % (
                      prop, tier, c.cov["traces_validated_against_impl"],
                      c.cov["events_validated"], len(c.cov["models"]), c.cov["states"],
                      time.time() - c.t0))
    except Stopped:
        rc = c.finish()
    except Infra as e:
        if c.violations:   # a violation that has been established stands
            return c.finish()
        print("ERROR property=%s: no verdict: %s" % (prop, e))
        rc = 2
    finally:
        c.pool.shutdown(wait=True, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
    return rc
