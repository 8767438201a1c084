"""Running real experiments for C15 - C18: scenes, probe strategies, crash injection.

A scene is one directory: data/ (the data design), work/trials (stored results),
work/pending (markers).  Every run happens in a forked child, which a crash plan can
end at any file operation or inside the model fit; the parent looks at the files
afterwards.
"""
import hashlib
import json
import math
import os
import re
import shutil
import signal
import sys
import time

import vlib

S = {}  # state of the current process: log, root, plan, maps


# ------------------------------------------------------------------ table rows
def canon(v):
    """A cell as text: missing values, numbers and texts alike whatever their type."""
    if v is None:
        return "NA"
    if isinstance(v, str):
        t = v.strip()
        if t == "" or t.lower() == "nan":
            return "NA"
        try:
            v = float(t)
        except ValueError:
            return v.replace("\r\n", "\n")
    try:
        f = float(v)
    except (TypeError, ValueError):
        return str(v)
    if math.isnan(f):
        return "NA"
    return "%.11g" % f


def table(df):
    cols = [str(c) for c in df.columns]
    return cols, [{c: canon(r[i]) for i, c in enumerate(cols)} for r in df.values.tolist()]


def digest(row):
    items = sorted((k, v) for k, v in row.items() if v != "NA")
    return hashlib.md5(repr(items).encode()).hexdigest()[:12]


def md5(b):
    return hashlib.md5(b).hexdigest()[:12]


# ------------------------------------------------------------------ scene files
def paths(root):
    return {"data": root + "/data", "work": root + "/work", "dir": root + "/work/trials", "out": root + "/work/out.csv"}


def write_design(root, sets):
    from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

    dd = DataDesign(paths(root)["data"])
    for s in sets:
        dd.add(DataSet([PublisherData([tuple(e) for e in log], "p%d" % i) for i, log in enumerate(s["logs"])], s["name"]))


def files(root):
    """(markers, results): file name -> bytes."""
    p = paths(root)
    mk, rs = {}, {}
    pend = p["work"] + "/pending"
    if os.path.isdir(pend):
        for f in sorted(os.listdir(pend)):
            try:
                with open(pend + "/" + f, "rb") as h:
                    mk[f] = h.read()
            except FileNotFoundError:  # another worker has just finished
                pass
    if os.path.isdir(p["dir"]):
        for d in sorted(os.listdir(p["dir"])):
            if os.path.isdir(p["dir"] + "/" + d):
                for f in sorted(os.listdir(p["dir"] + "/" + d)):
                    try:
                        with open(p["dir"] + "/" + d + "/" + f, "rb") as h:
                            rs[d + "/" + f] = h.read()
                    except FileNotFoundError:
                        pass
    return mk, rs


def log(ev):
    os.write(S["log"], (json.dumps(ev) + "\n").encode())


# ------------------------------------------------------------------ configurations
def configs(cs):
    """TrialDescriptors of a list of configuration dicts (see default_config)."""
    import numpy as np
    from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
    from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import ModelingStrategyDescriptor
    from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
    from wfa_planning_evaluation_framework.simulator.system_parameters import LiquidLegionsParameters, SystemParameters

    register()
    shared = np.random.default_rng(5)
    out = []
    for c in cs:
        frac = c["frac"]
        gen = (lambda ds, f=frac: [f] * ds.publisher_count) if c.get("generates", True) else None
        # the two ways of saying "x per publisher" coincide after specialisation
        spends = [0.5] if gen else list(c["spends"])
        rng = shared if c.get("share") else np.random.default_rng(c.get("gseed", 3))
        out.append(TrialDescriptor(
            ModelingStrategyDescriptor(c["strategy"], dict(c["kw"]), c.get("spm", "goerg"), dict(c.get("spkw", {})),
                                       c.get("mpm", "pairwise_union"), dict(c.get("mpkw", {}))),
            SystemParameters(spends, LiquidLegionsParameters(c.get("decay", 12), c.get("size", 100000), c.get("hash", 1)), rng, gen),
            ExperimentParameters(PrivacyBudget(c.get("epsilon", 1.0), c.get("delta", 1e-5)), c.get("replica", 1),
                                 c.get("maxfreq", 3), c.get("tps", "vp"), dict(c.get("tpkw", {}))),
        ))
    return out


_REG = []


class ProbeError(Exception):
    pass


def register():
    """Adds the probe strategy and test points to the public registries."""
    if _REG:
        return
    import numpy as np
    from wfa_planning_evaluation_framework.driver.experiment_parameters import TEST_POINT_STRATEGIES
    from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import MODELING_STRATEGIES
    from wfa_planning_evaluation_framework.driver.test_point_generator import TestPointGenerator
    from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
    from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
    from wfa_planning_evaluation_framework.simulator.modeling_strategy import ModelingStrategy
    from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

    class ProbeSurface(ReachSurface):
        def __init__(self, value, mf, npub, fail, key):
            self.value, self.fail, self.calls, self.key = value, fail, 0, key
            self._data = [ReachPoint([7] * npub, [max(1, int(value))] * mf)]
            self._max_reach = value

        def by_impressions(self, impressions, max_frequency=1):
            return ReachPoint(list(impressions), [self.value] * max_frequency)

        def by_spend(self, spends, max_frequency=1):
            self.calls += 1
            if S.get("points") is not None:
                S["points"].append([float(x).hex() for x in spends])
            f = self.fail
            if f and f[0] == "predict" and self.calls == f[1]:
                boom(f)
            if f and f[0] == "score":  # a prediction that cannot be scored
                return ReachPoint([1] * len(spends), []) if f[1] == 1 else None
            return ReachPoint([1] * len(spends), [self.value] * max_frequency, list(spends))

    class ProbeStrategy(ModelingStrategy):
        """x: the predicted reach; q: halo queries; src: random sources used; f: failure."""

        def __init__(self, spm, spkw, mpm, mpkw, x=1, q=0, src="", f=""):
            self.x, self.q, self.src, self.f = x, q, src, FAIL.get(f)
            super().__init__(spm, spkw, mpm, mpkw)

        def fit(self, halo, params, budget):
            full = int(halo.true_reach_by_spend([1e9] * halo.publisher_count, 1).reach())
            key = (full, self.x)
            if S.get("log") is not None:
                hit_fit(key)
            f = self.f
            value = float(self.x)
            used = []
            if f and f[0] == "fit" and f[1] == 0:
                note(key, used)
                boom(f)
            for i in range(self.q):
                b = PrivacyBudget(budget.epsilon / self.q, budget.delta / self.q)
                if i % 2 == 0 or halo.publisher_count > 4:
                    p = halo.simulated_reach_by_spend(halo.campaign_spends, b, 0.5, 3)
                    if "h" in self.src:
                        value += abs(p.reach(1)) % 1000
                else:
                    ps = halo.simulated_venn_diagram_reach_by_spend(halo.campaign_spends, b, 0.5, 1)
                    if "h" in self.src:
                        value += sum(abs(p.reach(1)) for p in ps) % 1000
                used.append((b.epsilon, b.delta))
                if f and f[0] == "fit" and f[1] == i + 1:
                    note(key, used)
                    boom(f)
                if f and f[0] == "halo" and f[1] == i + 1:  # a query that the simulator refuses
                    note(key, used)
                    halo.simulated_reach_by_spend(halo.campaign_spends + [1.0], b, 0.5, 3)
            note(key, used)
            if "n" in self.src:
                value += np.random.random()
            if "g" in self.src:
                value += params.generator.random()
            S["value"] = value
            return ProbeSurface(value, 5, halo.publisher_count, f, key)

    class ProbePoints(TestPointGenerator):
        """k points at the full spends."""

        def __init__(self, dataset, rng, k=1, f="", npublishers=None):
            self.n, self.k, self.f = dataset.publisher_count, k, FAIL.get(f)
            if self.f and self.f[1] == 0:
                boom(self.f)

        def test_points(self):
            for i in range(self.k):
                if self.f and self.f[0] == "points" and self.f[1] == i + 1:
                    boom(self.f)
                if self.f and self.f[0] == "truth" and self.f[1] == i + 1:
                    yield [1.0] * (self.n + 1)  # its true reach cannot be computed
                    continue
                yield [1e9] * self.n

    MODELING_STRATEGIES["probe"] = ProbeStrategy
    TEST_POINT_STRATEGIES["vp"] = ProbePoints
    _REG.append(1)


# failure id -> (phase, position, exception, message); ids are short: they are part of file names
FAIL = {}
EXC = {
    "value": ValueError, "key": KeyError, "zero": ZeroDivisionError, "probe": ProbeError, "assert": AssertionError,
    "stop": StopIteration, "os": OSError, "attr": AttributeError, "mem": MemoryError, "rec": RecursionError, "lookup": LookupError,
    "arith": ArithmeticError, "notimpl": NotImplementedError, "type": TypeError, "rt": RuntimeError, "eof": EOFError,
}


def boom(f):
    e = EXC[f[2]]
    raise e(f[3]) if f[3] is not None else e()


def note(key, used):
    if S.get("log") is not None:
        log({"op": "used", "key": list(key), "used": used})


# ------------------------------------------------------------------ crashes
def die():
    os.killpg(0, signal.SIGKILL)
    time.sleep(60)


def hit_fit(key):
    mk, rs = files(S["root"])
    log({"op": "fit", "key": list(key), "markers": {k: v.decode("utf-8", "replace") for k, v in mk.items()},
         "results": {k: md5(v) for k, v in rs.items()}})
    plan = S.get("plan") or {}
    if plan.get("at") == "fit" and plan.get("key") == list(key):
        die()


_FS = []


def crash_fs():
    """A pathlib wrapper that ends the process at the planned operation."""
    if _FS:
        return _FS[0]()
    from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import FilesystemPathlibWrapper

    class CrashFs(FilesystemPathlibWrapper):
        n = 0

        def __reduce__(self):
            return (crash_fs, ())

        def _hit(self, path, kind, when, data=None):
            """Called before and after each operation; may not return."""
            plan = S.get("plan")
            if not plan:
                return
            if when == "before":
                CrashFs.n += 1
            if plan["kind"] == "op":
                mine = CrashFs.n == plan["n"]
                if mine and when == "before" and plan["when"] == "torn" and kind == "write":
                    self._torn(path, data, plan["frac"])
                if mine and when == plan["when"]:
                    die()
                return
            at, path = plan["at"], str(path)
            res, mark = path.endswith(plan["result"]), path.endswith(plan["marker"])
            if at == "look" and res and when == "before":
                die()
            if at == "mark" and mark and kind == "write" and when == "before":
                self._torn(path, data, plan["frac"])
            if at == "write" and res and kind == "write" and when == "before":
                die()
            if at == "writing" and res and kind == "write" and when == "before":
                self._torn(path, data, plan["frac"])
            if at == "written" and res and kind == "write" and when == "after":
                die()

        def _torn(self, path, data, frac):
            if data is not None and frac is not None:
                n = int(frac * (len(data) - 1)) if isinstance(frac, float) else min(frac, len(data))
                with open(path, "w") as h:
                    h.write(data[:n])
            die()

        def open(self, path, mode="r", *a, **k):
            if "w" in mode or "a" in mode or "+" in mode:
                fs = self

                class Torn:
                    def __init__(self):
                        self.parts = []

                    def write(self, x):
                        self.parts.append(x)
                        return len(x)

                    def writelines(self, xs):
                        self.parts.extend(xs)

                    def flush(self):
                        pass

                    def close(self):
                        if self.parts is None:
                            return
                        data = "".join(self.parts) if "b" not in mode else b"".join(self.parts).decode()
                        self.parts = None
                        if "w" in mode:
                            fs.write_text(path, data)
                        else:
                            with open(str(path), mode) as h:
                                h.write(data)

                    def __enter__(self):
                        return self

                    def __exit__(self, *e):
                        self.close()

                return Torn()
            self._hit(path, "read", "before")
            return super().open(path, mode, *a, **k)

        def write_text(self, path, data, *a, **k):
            self._hit(path, "write", "before", data)
            super().write_text(path, data, *a, **k)
            self._hit(path, "write", "after")

    def wrap(name, kind):
        orig = getattr(FilesystemPathlibWrapper, name)

        def method(self, path, *a, **k):
            self._hit(path, kind, "before")
            r = orig(self, path, *a, **k)
            self._hit(path, kind, "after")
            return r

        setattr(CrashFs, name, method)

    for name in ("mkdir", "unlink", "exists", "is_file", "is_dir"):
        wrap(name, name)
    CrashFs.__module__ = __name__
    CrashFs.__qualname__ = "CrashFs"
    globals()["CrashFs"] = CrashFs
    _FS.append(CrashFs)
    return CrashFs()


def preload():
    """Imports everything once, before the workers are forked."""
    import pandas_env

    pandas_env.patch()
    import apache_beam.verif_control  # noqa: F401
    from apache_beam.options.pipeline_options import PipelineOptions  # noqa: F401
    from wfa_planning_evaluation_framework.driver import experiment_driver, experimental_design  # noqa: F401

    register()
    crash_fs()


# ------------------------------------------------------------------ one run
DESIGN = '''import json
import xp


def generate_experimental_design_config(seed=1):
    return xp.configs(json.load(open(%r)))
'''


def design_file(root, cs):
    with open(root + "/configs.json", "w") as h:
        json.dump(cs, h)
    with open(root + "/design.py", "w") as h:
        h.write(DESIGN % (root + "/configs.json"))
    return root + "/design.py"


def execute(root, cs, mode, seed=1, analysis="", driver=True, shuffle=0, fs=None):
    """Runs the experiment in this process and returns its table."""
    import pandas_env

    pandas_env.patch()
    import apache_beam.verif_control as vc
    from apache_beam.options.pipeline_options import PipelineOptions
    from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
    from wfa_planning_evaluation_framework.driver.experiment_driver import ExperimentDriver
    from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign

    register()
    p = paths(root)
    vc.SEED, vc.SHUFFLE, vc.RETRY = shuffle, shuffle > 0, shuffle > 0
    cores = {"serial": 1, "pipeline": 1}.get(mode) or (2 + shuffle % 2)
    beam = mode == "pipeline"
    opts = PipelineOptions(["--temp_location=" + p["dir"], "--direct_num_workers=1"])
    os.makedirs(p["work"], exist_ok=True)
    fs = fs or crash_fs()
    if driver:
        d = ExperimentDriver(p["data"], design_file(root, cs), p["out"], p["dir"], seed, cores, analysis)
        df = d.execute(use_apache_beam=beam, pipeline_options=opts, filesystem=fs)
    else:
        d = ExperimentalDesign(p["dir"], DataDesign(p["data"], fs), configs(cs), seed, cores, analysis, fs)
        d.generate_trials()
        df = d.load(use_apache_beam=beam, pipeline_options=opts)
    return df


def child(root, fn, plan=None, seconds=100):
    """Runs fn() in a process group of its own: (status, value, events)."""
    logp, outp = root + "/log.ndjson", root + "/result.json"
    for f in (logp, outp):
        if os.path.exists(f):
            os.unlink(f)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.setsid()
            signal.setitimer(signal.ITIMER_REAL, 0)
            dn = os.open("/dev/null", os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(dn, fd)
            S.clear()
            S.update(root=root, plan=plan, log=os.open(logp, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644))
            try:
                v = {"ok": True, "value": fn()}
            except vlib.MachineryError:
                raise
            except BaseException as e:
                import traceback

                v = {"ok": False, "error": type(e).__name__, "trace": traceback.format_exc().splitlines()[-30:], "repo": vlib.raised_by_repo(e)}
            with open(outp + ".tmp", "w") as h:
                json.dump(v, h)
            os.rename(outp + ".tmp", outp)
            code = 0
        except BaseException:
            import traceback

            with open(root + "/machinery.txt", "w") as h:
                h.write(traceback.format_exc())
        finally:
            os._exit(code)
    end = time.time() + seconds
    status = None
    while status is None:
        done, st = os.waitpid(pid, os.WNOHANG)
        if done:
            status = st
            break
        if time.time() > end:
            break
        time.sleep(0.002)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    events = []
    if status is None:
        os.waitpid(pid, 0)
        raise vlib.Timeout()
    if os.path.exists(logp):
        with open(logp) as h:
            for line in h:
                if line.endswith("\n"):
                    events.append(json.loads(line))
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL and plan:
        return "crash", None, events
    if os.path.exists(root + "/machinery.txt"):
        raise vlib.MachineryError(open(root + "/machinery.txt").read())
    if os.WIFSIGNALED(status) or not os.path.exists(outp):
        return "died", {"status": status}, events
    v = json.load(open(outp))
    return ("end" if v["ok"] else "error"), v, events


def full_run(root, cs, mode, plan=None, **kw):
    def go():
        df = execute(root, cs, mode, **kw)
        cols, rows = table(df)
        res = {"cols": cols, "rows": rows}
        if kw.get("driver", True):
            import pandas as pd

            with open(paths(root)["out"]) as h:
                c2, r2 = table(pd.read_csv(h))
            res["out"] = {"cols": c2, "rows": r2}
        return res

    return child(root, go, plan)
