#!/usr/bin/env python3
"""plant.py <id>...: confirm planted bugs of /verif/seeded: apply the patch in a scratch copy, build, run the stable tests there,
run the demonstration on both trees and the check of the property on the patched one."""
import sys, os, subprocess, shutil, tempfile, json, glob, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, cwd, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired: return "timeout", ""
def scratch(sid):
    d = tempfile.mkdtemp(prefix="seed-"); t = d + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", t]); return d, t
def build(t):
    shutil.rmtree(t + "/_build", ignore_errors=True)
    s = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + t)
    rc, o = run(["bash", "-c", s], t); return rc == 0, o
def tests(t):
    os.makedirs(t + "/_build/test-reports", exist_ok=True)
    s = open("/opt/vp/run_tests.py").read().replace("/repo/", t + "/")
    open(t + "/_build/rt.py", "w").write(s)
    shutil.copy("/opt/vp/results.py", t + "/_build/results.py")
    rc, o = run(["python3", t + "/_build/rt.py", t + "/_build/out.json"], t)
    r = json.load(open(t + "/_build/out.json"))
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in st if x not in r["passed"]], o
def edits(t, ed):
    for f, old, new in ed:
        p = os.path.join(t, "include/oqpi", f); s = open(p).read()
        if s.count(old) != 1: raise SystemExit("%s: %d matches of %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    return subprocess.check_output(["git", "diff"], cwd=t).decode()
def confirm(sid, clean=True):
    sd = os.path.join(HERE, "seeded", sid); meta = json.load(open(sd + "/meta.json"))
    d, t = scratch(sid)
    try:
        rc, o = run(["git", "apply", sd + "/patch.diff"], t)
        if rc: print(sid, "PATCH DOES NOT APPLY", o); return False
        ok, o = build(t)
        if not ok: print(sid, "BUILD FAILED\n", o[-3000:]); return False
        bad, o = tests(t)
        demo = d + "/demo"; shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rp, op = run(["bash", demo + "/demo.sh"], t, 300)
        rcl, oc = run(["bash", demo + "/demo.sh"], "/repo", 300) if clean else (0, "")
        pids = sys.argv and [meta["property"]]
        rk, ok_ = run(["python3", "check.py", meta["property"]], HERE, 900, dict(os.environ, VERIF_REPO=t))
        print("%-28s %s tests:%s demo clean:%s patched:%s check:%s" % (sid, meta["property"], "ok" if not bad else bad, rcl, rp, rk))
        if rcl: print("   clean demo:", oc[-1500:])
        if rp == 0: print("   patched demo:", op[-600:])
        print("   ", " || ".join(x.strip()[:200] for x in ok_.strip().split("\n")[:3]))
        return not bad and rcl == 0 and rp not in (0,) and rk == 1
    finally: shutil.rmtree(d, ignore_errors=True)
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
clang++ -std=c++17 -O1 -g -w -include cstdarg -I include %s "$d/demo.cpp" -o "$t/demo" -pthread || exit 2
cd "$t" && timeout 100 ./demo
"""
def new(sid, prop, needs, breaks, ed, demo, flags=""):
    sd = os.path.join(HERE, "seeded", sid); os.makedirs(sd, exist_ok=True)
    d, t = scratch(sid)
    try: open(sd + "/patch.diff", "w").write(edits(t, ed))
    finally: shutil.rmtree(d, ignore_errors=True)
    open(sd + "/meta.json", "w").write(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
    open(sd + "/demo.cpp", "w").write(demo); open(sd + "/demo.sh", "w").write(DEMO % flags); os.chmod(sd + "/demo.sh", 0o755)
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    bad = [i for i in ids if not confirm(i)]
    print("NOT CONFIRMED:", bad) if bad else print("all confirmed")
