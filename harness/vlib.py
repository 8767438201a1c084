"""Shared machinery of the checks.

Every check has the same three stages:

1. `model_check`  - TLC explores the specification in small bounds and evaluates
   its invariants and action properties (the design is right).
2. `generate`     - TLC enumerates behaviours of the specification and prints them
   as JSON scripts; `pmap` runs each script (and seeded larger ones) against the
   real code from /repo and records one event per public call.
3. `validate`     - TLC replays the recorded events through the trace
   specification, which extends the specification; every event that is not
   explained by it is printed with the names of the failing clauses.
"""
import atexit
import hashlib
import json
import math
import gc
import multiprocessing
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(
    os.path.dirname(os.path.abspath(__file__))
)
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
JAR = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
NCPU = max(1, min(8, os.cpu_count() or 1))
BADINT = -999999999  # stands for "not an integer" in a recorded event


class MachineryError(Exception):
    pass


class Timeout(BaseException):
    pass


# ---------------------------------------------------------------- encoding
def as_int(x):
    """Integral number -> int in TLC's range; anything else -> BADINT."""
    try:
        if isinstance(x, bool):
            return BADINT
        v = int(x)
        if v != x or abs(v) >= 2**31 - 1:
            return BADINT
        return v
    except Exception:
        return BADINT


def as_ints(xs):
    try:
        return [as_int(x) for x in xs]
    except Exception:
        return [BADINT]


def scaled(x, scale):
    """Real number -> nearest integer multiple of 1/scale; BADINT if not finite."""
    try:
        v = float(x) * scale
        if not math.isfinite(v) or abs(v) >= 2**31 - 1:
            return BADINT
        return int(round(v))
    except Exception:
        return BADINT


def scaleds(xs, scale):
    try:
        return [scaled(x, scale) for x in xs]
    except Exception:
        return [BADINT]


def exact(x, scale):
    """Number that must be an exact multiple of 1/scale; otherwise BADINT."""
    try:
        v = float(x) * scale
        if v != math.floor(v) or abs(v) >= 2**31 - 1:
            return BADINT
        return int(v)
    except Exception:
        return BADINT


def fhex(x):
    try:
        return float(x).hex()
    except Exception:
        return "not-a-float:" + type(x).__name__


def raised_by_repo(e):
    """True if the exception passed through code of /repo."""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        real = os.path.realpath(fn)
        if real.startswith("/repo/") or "/wfa_planning_evaluation_framework/" in fn:
            return True
        tb = tb.tb_next
    return False


def call(fn, *args, **kwargs):
    """(True, value) or (False, exception type name); machinery errors propagate."""
    try:
        return True, fn(*args, **kwargs)
    except (MachineryError, Timeout, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # every failure of the code under test is an outcome
        return False, type(e).__name__


def _alarm(*_):
    raise Timeout()


def limited(fn, seconds):
    """Runs fn() with a time limit; raises Timeout."""
    old = signal.signal(signal.SIGALRM, _alarm)
    start = time.time()
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]  # of an enclosing limit
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.05, left - (time.time() - start)) if left else 0)
        signal.signal(signal.SIGALRM, old)


def _child_worker(args):
    fn, script, seconds = args
    try:
        return ("ok", limited(lambda: fn(script), seconds))
    except Timeout:
        return ("timeout", None)
    except MachineryError as e:
        return ("machinery", str(e))
    except BaseException as e:
        tb = traceback.format_exc()
        return ("repo" if raised_by_repo(e) else "machinery", tb)


def _resident_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 // 10**6


def _chunk_worker(jobs):
    out = []
    for j in jobs:
        out.append(_child_worker(j))
        if _resident_mb() > 700:  # arrays held by dead objects: PyPy does not see their size
            gc.collect()
    return out


class WorkerDied(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        base = os.environ.get("VERIF_SCRATCH")
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=base)
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.distinct = set()
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        os.makedirs(EVID, exist_ok=True)

    # ------------------------------------------------------------ small helpers
    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def rng(self, *salt):
        import random

        h = hashlib.sha256(repr((self.seed,) + salt).encode()).hexdigest()
        return random.Random(int(h[:16], 16))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmpdir(self, name):
        return tempfile.mkdtemp(prefix=name + "_", dir=self.scratch)

    # ------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, heap="2g"):
        meta = self.tmpdir("tlc")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        if os.path.isabs(cfg):
            cfgp = cfg
        else:
            cfgp = os.path.join(SPEC, cfg)
        cmd = [
            "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m",
            "-Djava.io.tmpdir=" + meta,
            "-cp", JAR, "tlc2.TLC",
            "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfgp,
        ] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(
                cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                cwd=SPEC, timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    def _cfg(self, cfg, constants):
        if not constants:
            return cfg
        src = open(os.path.join(SPEC, cfg)).read()
        for k, v in constants.items():
            src, n = re.subn(r"(?m)^([ ]*%s *= *).*$" % re.escape(k), lambda m: m.group(1) + str(v), src)
            if n != 1:
                raise MachineryError("constant %s not in %s" % (k, cfg))
        path = os.path.join(self.tmpdir("cfg"), os.path.basename(cfg))
        with open(path, "w") as f:
            f.write(src)
        return path

    def model_check(self, module, cfg=None, workers=None, constants=None, timeout=800):
        """Checks the specification itself.  A failure is a machinery error."""
        cfg = cfg or module + ".cfg"
        cfg = self._cfg(cfg, constants)
        rc, out = self._tlc(module, cfg, workers=workers or NCPU, timeout=timeout, heap="8g")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or "Model checking completed. No error has been found" not in out or not m:
            raise MachineryError("specification %s fails:\n%s" % (module, out[-3000:]))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.states += dist
        self.transitions += gen
        self.log("TLC %s: %d distinct states, %d transitions" % (os.path.basename(cfg), dist, gen))
        return gen, dist

    def generate(self, module, cfg=None, constants=None, simulate=None, timeout=800):
        """Behaviours of the specification: every line printed with prefix GEN."""
        cfg = cfg or module + ".cfg"
        cfg = self._cfg(cfg, constants)
        extra = []
        if simulate:
            extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]),
                     "-seed", str(self.seed)]
        rc, out = self._tlc(module, cfg, workers=1, extra=extra, timeout=timeout, heap="8g")
        res = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                try:
                    res.append(json.loads(json.loads(line)[4:]))
                except ValueError:
                    raise MachineryError("cannot parse generated line " + line[:200])
        if rc != 0 or not res:
            raise MachineryError("generation with %s fails:\n%s" % (module, out[-3000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        self.log("TLC generated %d scripts with %s" % (len(res), os.path.basename(cfg)))
        return res

    # ------------------------------------------------------------ real code
    def pmap(self, fn, scripts, seconds=120, procs=None, maxtasks=None):
        """Runs fn(script) -> list of events for each script in forked workers.

        A script that does not end is a violation; after two of them the rest is not run.
        """
        scripts = list(scripts)
        if not scripts:
            return []
        procs = min(procs or NCPU, len(scripts))
        mp = multiprocessing.get_context("fork")
        out = []
        sys.stdout.flush()
        chunk = max(1, min(4, len(scripts) // (procs * 8))) if maxtasks is None and seconds < 200 else 1
        for attempt in range(4):
            try:
                self._pmap(mp, fn, scripts, seconds, max(1, procs >> attempt), chunk, maxtasks, out)
                return out
            except WorkerDied:  # ended from outside, when memory ran out: go on with fewer
                self.log("a worker was ended from outside; going on with fewer workers")
        raise MachineryError("workers keep being ended from outside")

    def _pmap(self, mp, fn, scripts, seconds, procs, chunk, maxtasks, out):
        hung = 0
        jobs = [(fn, s, seconds) for s in scripts[len(out):]]
        with mp.Pool(procs, maxtasksperchild=maxtasks) as pool:
            it = pool.imap(_chunk_worker, [jobs[k: k + chunk] for k in range(0, len(jobs), chunk)])
            pids = set(p.pid for p in pool._pool)
            while len(out) < len(scripts):
                try:
                    results = it.next(timeout=5)
                except multiprocessing.TimeoutError:
                    if maxtasks is None and set(p.pid for p in pool._pool) != pids:
                        pool.terminate()
                        raise WorkerDied()
                    continue
                for st, val in results:
                    script = scripts[len(out)]
                    if st == "ok":
                        out.append(val)
                    elif st == "timeout":
                        self.violation("timeout", {"script": script, "seconds": seconds})
                        out.append(None)
                        hung += 1
                        if hung == 2:
                            self.log("two scripts did not end: the remaining ones are not run")
                            pool.terminate()
                            return
                    elif st == "repo":
                        self.violation("unexpected-exception", {"script": script, "traceback": val.splitlines()[-12:]})
                        out.append(None)
                    else:
                        raise MachineryError("driver failed on %r:\n%s" % (str(script)[:500], val))

    # ------------------------------------------------------------ trace validation
    def validate(self, module, traces, cfg=None, label=None, sample=True, timeout=800, jobs=None,
                 nontrivial=None):
        """TLC replays the traces through the trace specification `module`."""
        traces = [t for t in traces if t]
        if not traces:
            return
        cfg = cfg or module + ".cfg"
        total = sum(len(t) for t in traces)
        jobs = jobs or max(1, min(NCPU, total // 150))
        target = total / float(jobs)
        chunks = [[]]
        size = 0
        for t in traces:
            if size >= target and len(chunks) < jobs:
                chunks.append([])
                size = 0
            chunks[-1].append(t)
            size += len(t)

        def work(chunk):
            d = self.tmpdir("val%d" % id(chunk))
            path = os.path.join(d, "trace.ndjson")
            owner = []
            with open(path, "w") as f:
                for ti, t in enumerate(chunk):
                    for ei, ev in enumerate(t):
                        owner.append((ti, ei))
                        f.write(json.dumps(ev, allow_nan=False) + "\n")
            rc, out = self._tlc(module, cfg, env={"TRACE_FILE": path}, workers=1, timeout=timeout, heap="3g")
            bad = []
            for line in out.splitlines():
                m = re.match(r'^"BAD (\d+) (.*)"$', line)
                if m:
                    ti, ei = owner[int(m.group(1)) - 1]
                    bad.append((ti, ei, json.loads(json.loads('"%s"' % m.group(2)))))
            done = re.search(r'^"DONE (\d+)"$', out, re.M)
            if rc != 0 or not done or int(done.group(1)) != len(owner):
                ls = re.findall(r"^/\\ l = (\d+)$", out, re.M) or re.findall(r"^l = (\d+)$", out, re.M)
                oom = "OutOfMemory" in out or "StackOverflow" in out
                if ls and not oom:
                    k = min(int(ls[-1]), len(owner)) - 1
                    ti, ei = owner[k]
                    msg = [x for x in out.splitlines() if "rror" in x or "Attempted" in x][:6]
                    bad.append((ti, ei, ["value-outside-specification: " + " | ".join(msg)[:600]]))
                else:
                    raise MachineryError("trace validation with %s failed:\n%s" % (module, out[-3000:]))
            shutil.rmtree(d, ignore_errors=True)
            return chunk, bad

        with ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(work, chunks))
        nbad = 0
        for chunk, bad in results:
            seen = set()
            for ti, ei, clauses in bad:
                if ti in seen:
                    continue
                seen.add(ti)
                nbad += 1
                self.violation(clauses, {"spec": module, "event": ei, "trace": chunk[ti][: ei + 1]})
        self.traces += len(traces)
        self.events += total
        for t in traces:
            if nontrivial is None or nontrivial(t):
                self.distinct.add(hashlib.md5(json.dumps(t, sort_keys=True).encode()).hexdigest())
        if sample:
            for t in (traces[0], traces[len(traces) // 2]):
                s = json.dumps(t)
                if len(s) < 6000:
                    self.samples.append(t)
                else:
                    self.samples.append(s[:3000] + " ...")
        self.log("TLC validated %d traces (%d events) with %s%s: %d rejected" % (
            len(traces), total, module, " [" + label + "]" if label else "", nbad))
        return nbad

    # ------------------------------------------------------------ verdict
    def violation(self, clauses, detail):
        if isinstance(clauses, str):
            clauses = [clauses]
        text = json.dumps([clauses, detail], default=str, sort_keys=True)
        for k in self.known:
            if all(s in text for s in k["match"]):
                if k["id"] not in self.known_hits:
                    self.known_hits.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.md5(text.encode()).hexdigest()[:10]))
        if len(self.violations) < 5:
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "failing_clauses": clauses, "detail": detail,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s" % (self.seed, self.tier, self.pid)},
                          f, indent=1, default=str)
            print("  failing clauses: %s" % ", ".join(str(c) for c in clauses)[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        self.violations.append(clauses)

    def finish(self):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "evaluations": self.traces,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.rule or "distinct recorded traces",
            "samples": self.samples[:6] or ["none"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            self.log("%d violations" % len(self.violations))
            return 1
        if self.traces == 0:
            print("MACHINERY ERROR: nothing was validated", file=sys.stderr)
            return 2
        self.log("%s held on everything explored" % self.pid)
        return 0


def load_known(pid):
    """Lines of KNOWN_FINDINGS.txt: JSON objects are findings that are not repaired;
    lines starting with "fixed:" are history and suppress nothing."""
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid:
                    res.append(d)
    return res
