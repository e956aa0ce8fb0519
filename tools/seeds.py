"""Makes /verif/seeded/<id>/ from the definitions in seeds_def.py and confirms each planted bug.

usage: seeds.py make [ids]     writes the folders (patch, demo, meta), confirms tests and demo
       seeds.py catch [ids]    runs the property's quick check against each planted bug
       seeds.py cross ID C01 C02 ...   runs other checks against one planted bug"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
HEADER = '''import contextlib, io, os, sys
sys.path.insert(0, os.getcwd())
'''
SH = '''#!/bin/bash
# exit 0: the property holds on this example; otherwise it is broken
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def defs():
    sys.path.insert(0, os.path.join(V, "tools"))
    import seeds_def
    return seeds_def.SEEDS


def worktree():
    d = tempfile.mkdtemp(prefix="vp-seed-")
    t = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", REPO, t])
    return d, t


def apply(t, edits):
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def tests(t):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONHASHSEED="0", PYTHONPATH=t)
    r = subprocess.run([PY, "-m", "pytest", "-q", "--rootdir=" + t, "-p", "no:cacheprovider", "--randomly-seed=1", "--randomly-dont-reorganize",
                        "--timeout=300", "."], cwd=t + "/test_py", env=env, capture_output=True, text=True)
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]


def demo(folder, t):
    # the demo lies elsewhere when it counts
    d = tempfile.mkdtemp(prefix="vp-demo-")
    for f in os.listdir(folder):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(folder, f), d)
    try:
        r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=t, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr).strip()[-300:]
    finally:
        shutil.rmtree(d)


def original_lines(t):
    """Do the changed lines exist in the original repository (not only in my commits)?"""
    out = subprocess.run(["git", "-C", t, "diff", "-U0"], capture_output=True, text=True).stdout
    base = {}
    bad, ok, f = [], 0, None
    for x in out.splitlines():
        if x.startswith("--- a/"):
            f = x[6:]
            base[f] = set(subprocess.run(["git", "-C", t, "show", "0d5d089:" + f], capture_output=True, text=True).stdout.splitlines())
        elif x.startswith("-") and not x.startswith("---"):
            if x[1:].strip() and x[1:] not in base[f]:
                bad.append(x)
            else:
                ok += 1
    return ok, bad


def make(ids):
    for s in defs():
        if ids and s["id"] not in ids:
            continue
        folder = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(folder + "/demo.py", "w").write(HEADER + s["demo"].strip("\n") + "\n")
        open(folder + "/demo.sh", "w").write(SH)
        os.chmod(folder + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(folder + "/meta.json", "w"), indent=1)
        d, t = worktree()
        try:
            clean = demo(folder, t)
            apply(t, s["edits"])
            diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
            open(folder + "/patch.diff", "w").write(diff)
            ok, bad = original_lines(t)
            broken = demo(folder, t)
            res = tests(t)
            good = clean[0] == 0 and broken[0] != 0 and " 39 passed" in " " + res and "failed" not in res and not bad and ok
            print("%-28s %s  demo clean %d, broken %d (%s); tests: %s; %s" % (
                s["id"], "OK " if good else "BAD", clean[0], broken[0], broken[1].splitlines()[-1][:110] if broken[1] else "", res, "MY LINES %s" % bad if bad else ""), flush=True)
            if clean[0]:
                print("     clean: " + clean[1])
        finally:
            shutil.rmtree(d)


def run_check(prop, t, tier="quick"):
    v = tempfile.mkdtemp(prefix="vp-verif-")
    r = subprocess.run(["git", "-C", V, "ls-files"], capture_output=True, text=True).stdout.split()
    shutil.rmtree(v)
    subprocess.check_call("mkdir -p %s && cd %s && git ls-files mc check KNOWN_FINDINGS.txt properties.jsonl | xargs -I{} cp --parents {} %s && cp -r mc %s/" % (v, V, v, v), shell=True)
    try:
        r = subprocess.run(["./check", prop, tier], cwd=v, env=dict(os.environ, VP_REPO=t), capture_output=True, text=True)
        return r.returncode, r.stdout.strip()
    finally:
        shutil.rmtree(v)


def catch(ids, props=None):
    for s in defs():
        if ids and s["id"] not in ids:
            continue
        d, t = worktree()
        try:
            subprocess.check_call(["git", "-C", t, "apply", os.path.join(V, "seeded", s["id"], "patch.diff")])
            for p in props or [s["property"]]:
                code, out = run_check(p, t)
                hit = code == 1 and "VIOLATION property=%s " % p in out
                print("%-28s %s %s %s" % (s["id"], p, "caught" if hit else "MISSED (exit %d)" % code, out.splitlines()[0][:150] if out else ""), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2:])
    elif sys.argv[1] == "catch":
        catch(sys.argv[2:])
    else:
        catch([sys.argv[2]], sys.argv[3:])
