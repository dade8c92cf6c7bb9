#!/usr/bin/env python3
"""seed.py SPEC.py...: build and confirm planted bugs in scratch copies of /repo, then keep them in /verif/seeded.
A spec defines ID, PROPERTY, FILE, EDITS [(old, new)], DEMO (python source), NEEDS, BREAKS."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if False else None


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "pass", "passed", "tests"):
        if k in d:
            v = d[k]
            return set(v if isinstance(v, list) else v.keys())
    return set(d) if isinstance(d, list) else set()


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(cmd, 124, str(x.stdout)[-500:])


def one(spec):
    g = {}
    exec(open(spec).read(), g)
    sid = g["ID"]
    d = tempfile.mkdtemp(prefix=f"scr-{sid}-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        sh("git checkout -q -- . && git clean -qfd", repo)
        for e in g["EDITS"]:
            f, old, new = e if len(e) == 3 else (g["FILE"],) + tuple(e)
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, f"edit matches {s.count(old)} times in {f}: {old[:50]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        demo = os.path.join(d, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.py"), "w").write(g["DEMO"])
        open(os.path.join(demo, "demo.sh"), "w").write(
            "#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the change\n"
            "here=$(cd \"$(dirname \"$0\")\" && pwd)\n"
            "export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n"
            "work=$(mktemp -d)\ntrap 'rm -rf \"$work\"' EXIT\ncd \"$work\" || exit 3\n"
            "/opt/venv/bin/python -W ignore \"$here/demo.py\"\n")
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        r1 = sh(["bash", os.path.join(demo, "demo.sh")], repo, t=250)
        if r1.returncode == 0:
            return sid, "demo passes with the patch:\n" + r1.stdout[-1500:]
        sh("git stash -q", repo)
        r0 = sh(["bash", os.path.join(demo, "demo.sh")], repo, t=250)
        sh("git stash pop -q", repo)
        if r0.returncode != 0:
            return sid, "demo fails on the clean tree:\n" + r0.stdout[-1500:]
        ts = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("mktemp -d /opt/vp/run.XXXXXX", f"mktemp -d {d}/run.XXXXXX")
        ts = ts.replace('"$(getconf _NPROCESSORS_ONLN)"', os.environ.get("SEED_P", "8"))
        open(os.path.join(d, "test.sh"), "w").write(ts)
        sh(["bash", os.path.join(d, "test.sh"), os.path.join(d, "out.json")], d, t=900)
        out = json.load(open(os.path.join(d, "out.json")))
        passed = set(out.get("passed", out.get("pass", [])))
        missing = stable() - passed
        if missing:
            return sid, f"tests fail: {sorted(missing)[:5]}"
        dst = os.path.join("/verif/seeded", sid)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(demo, dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return sid, "KEPT (" + r1.stdout.strip().splitlines()[-1][:150] + ")" if r1.stdout.strip() else "KEPT"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    with ThreadPoolExecutor(int(os.environ.get("SEED_J", "2"))) as ex:
        for sid, msg in ex.map(one, sys.argv[1:]):
            print(sid, msg, flush=True)
