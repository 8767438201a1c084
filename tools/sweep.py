#!/usr/bin/env python3
"""Runs checks against many planted changes, in scratch copies (development aid, not a check).

Usage: sweep.py FILE [name-prefix ...]   FILE defines M = [(name, property, [(file, old, new), ...]), ...]
       options: -j N parallel changes (2), -t also run the stable tests, -s SEED
The changed sources are put on PYTHONPATH in place of /repo/src.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("names", nargs="*")
ap.add_argument("-j", type=int, default=2); ap.add_argument("-t", action="store_true"); ap.add_argument("-s", default="1")
ap.add_argument("--expect-quiet", action="store_true")
a = ap.parse_args()
ns = {}
exec(open(a.file).read(), ns)
ms = [m for m in ns["M"] if not a.names or any(m[0].startswith(n) for n in a.names)]


def one(m):
    name, props, edits = m
    tmp = tempfile.mkdtemp(prefix="sweep_")
    try:
        r = tmp + "/repo"
        subprocess.run("git clone -q /repo %s" % r, shell=True, check=True)
        for f, old, new in edits:
            p = r + "/src/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return name, "BAD-EDIT %s %d" % (f, t.count(old)), ""
            open(p, "w").write(t.replace(old, new))
        os.makedirs(tmp + "/pp")
        os.symlink(r + "/src", tmp + "/pp/wfa_planning_evaluation_framework")
        os.makedirs(tmp + "/v")
        for d in ("spec", "harness", "shims", "KNOWN_FINDINGS.txt"):
            os.symlink("/verif/" + d, tmp + "/v/" + d)
        tests = ""
        if a.t:
            t = open("/opt/vp/test.sh").read().replace("REPORTS=/opt/vp/reports", "REPORTS=%s/reports" % tmp).replace("cd /repo", "cd " + r)
            t = t.replace(". /opt/vp/env.sh\n", ". /opt/vp/env.sh\nexport PYTHONPATH=%s/pp\n" % tmp).replace("-n 8", "-n 4")
            open(tmp + "/test.sh", "w").write(t)
            subprocess.run("bash %s/test.sh %s/out.json" % (tmp, tmp), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            o = json.load(open(tmp + "/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            lost = sorted(set(b["stable"]) - set(o["passed"]))
            tests = "tests-ok" if not lost else "tests-lost=%d" % len(lost)
        res = []
        for prop in props.split(","):
            t0 = time.time()
            cmd = ". /opt/vp/env.sh; export PYTHONPATH=%s/pp:/verif/shims:/verif/harness PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 VERIF_ROOT=%s/v VERIF_SEED=%s; exec /opt/venv39/bin/python -W ignore /verif/harness/main.py %s" % (tmp, tmp, a.s, prop)
            p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=dict(os.environ, VERIF_SCRATCH=tmp))
            cl = [l.strip()[:110] for l in p.stdout.splitlines() if "failing clauses" in l][:2]
            res.append("%s:%s(%ds) %s" % (prop, {0: "missed", 1: "CAUGHT"}.get(p.returncode, "rc=%d %s" % (p.returncode, p.stdout[-300:])), time.time() - t0, " | ".join(cl)))
        return name, tests, "  ".join(res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(a.j) as ex:
    for name, tests, res in ex.map(one, ms):
        print("%-28s %s %s" % (name, tests, res), flush=True)
