#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms it in a scratch copy.

A definition file holds  PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...],
SHIMS (bool: the demonstration needs the stand-ins for the missing libraries) and,
after a line '### DEMO', the demonstration program (exit status 0 iff the code is right).
Usage: mkseed.py [--check] id ...     (--check also runs the property's check with the patch in /repo)
"""
import json, os, shutil, subprocess, sys, tempfile

V = "/verif"
ENV = dict(os.environ)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="${DEMO_PYPATH:-/opt/pypath}:$here/shims"
scratch="$(mktemp -d)"
cd "$scratch"
timeout 280 /opt/venv39/bin/python -W ignore "$here/demo.py"
rc=$?
cd /
rm -rf "$scratch"
exit $rc
"""


def build(sid):
    src = open(os.path.join(V, "tools/seeds", sid + ".py")).read()
    head, demo = src.split("### DEMO\n", 1)
    d = {}
    exec(head, d)
    out = os.path.join(V, "seeded", sid)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    with open(os.path.join(out, "demo.py"), "w") as f:
        f.write(demo)
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, f, indent=1)
    if d.get("SHIMS"):
        shutil.copytree(os.path.join(V, "shims"), os.path.join(out, "shims"), ignore=shutil.ignore_patterns("__pycache__"))
    tmp = tempfile.mkdtemp(prefix="seed_")
    res = {"id": sid, "property": d["PROPERTY"]}
    try:
        r = os.path.join(tmp, "repo")
        sh("git clone -q /repo %s" % r)
        for f, old, new in d["EDITS"]:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C %s diff" % r).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        pp = os.path.join(tmp, "pypath")
        os.makedirs(pp)
        os.symlink(os.path.join(r, "src"), os.path.join(pp, "wfa_planning_evaluation_framework"))
        e = dict(os.environ, DEMO_PYPATH=pp)
        c = sh("bash %s/demo.sh" % out, cwd="/repo")
        res["clean"] = c.returncode
        if c.returncode:
            res["clean_out"] = c.stdout[-1500:]
        p = sh("bash %s/demo.sh" % out, cwd=r, env=e)
        res["patched"] = p.returncode
        res["patched_out"] = p.stdout.strip()[-300:]
        t = open("/opt/vp/test.sh").read().replace("REPORTS=/opt/vp/reports", "REPORTS=%s/reports" % tmp).replace("cd /repo", "cd " + r)
        t = t.replace(". /opt/vp/env.sh\n", ". /opt/vp/env.sh\nexport PYTHONPATH=%s\n" % pp).replace("-n 8", "-n 4")
        open(os.path.join(tmp, "test.sh"), "w").write(t)
        sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
        o = json.load(open(os.path.join(tmp, "out.json")))
        b = json.load(open("/opt/vp/BASELINE.json"))
        res["tests_lost"] = sorted(set(b["stable"]) - set(o["passed"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res["counts"] = res["clean"] == 0 and res["patched"] != 0 and not res["tests_lost"]
    return res


def check(sid):
    prop = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, sid))
    assert a.returncode == 0, a.stdout
    try:
        c = sh("VERIF_SEED=1 VERIF_TIER=quick ./run.sh %s" % prop, cwd=V)
    finally:
        sh("git -C /repo checkout -- .")
    lines = [x for x in c.stdout.splitlines() if "failing clauses" in x or "VIOLATION" in x or "MACHINERY" in x]
    return {"id": sid, "property": prop, "rc": c.returncode, "caught": c.returncode == 1 and any("VIOLATION" in x for x in lines),
            "lines": lines[:3] if c.returncode == 1 else c.stdout.splitlines()[-5:]}


if __name__ == "__main__":
    args = sys.argv[1:]
    do = "--check" in args
    only = "--only-check" in args
    ids = [a for a in args if not a.startswith("-")]
    if ids == ["all"]:
        ids = sorted(os.listdir(os.path.join(V, "seeded")))
    from concurrent.futures import ThreadPoolExecutor
    if not only:
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(build, ids):
                print(json.dumps(r), flush=True)
    if do or only:
        for i in ids:
            print(json.dumps(check(i)), flush=True)
